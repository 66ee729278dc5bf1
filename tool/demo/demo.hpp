// builds small random multilevel preconditioners and compares with explicit dense arithmetic
#include "hifir.hpp"
#include <array>
#include <complex>
#include <cstdio>
#include <list>
#include <random>
#include <vector>
using namespace hif;
static std::mt19937 G(7);
static double U() { return std::uniform_real_distribution<>(-1, 1)(G); }
template <class T> struct Rnd { static T get() { return T(U()); } };
template <class R> struct Rnd<std::complex<R>> { static std::complex<R> get() { return std::complex<R>(R(U()), R(U())); } };
template <class T> T cj(T x) { return conjugate(x); }
template <class T>
struct Mat {
  int m, n; std::vector<T> a;
  Mat(int m_ = 0, int n_ = 0) : m(m_), n(n_), a(m_ * n_, T(0)) {}
  T &operator()(int i, int j) { return a[i * n + j]; }
  T operator()(int i, int j) const { return a[i * n + j]; }
};
template <class T> Mat<T> mul(const Mat<T> &A, const Mat<T> &B) {
  Mat<T> C(A.m, B.n);
  for (int i = 0; i < A.m; ++i) for (int k = 0; k < A.n; ++k) for (int j = 0; j < B.n; ++j) C(i, j) += A(i, k) * B(k, j);
  return C;
}
template <class T> Mat<T> adj(const Mat<T> &A) {
  Mat<T> C(A.n, A.m);
  for (int i = 0; i < A.m; ++i) for (int j = 0; j < A.n; ++j) C(j, i) = cj(A(i, j));
  return C;
}
template <class T> double diff(const Mat<T> &A, const Mat<T> &B) {
  double e = 0, s = 0;
  for (size_t i = 0; i < A.a.size(); ++i) e = std::max(e, (double)std::abs(A.a[i] - B.a[i])), s = std::max(s, (double)std::abs(A.a[i]));
  return e / (s + 1e-300);
}
template <class Cs, class T> void fill(Cs &c, const Mat<T> &A) {  // compressed from dense (CRS or CCS)
  c.resize(A.m, A.n);
  const int np = Cs::ROW_MAJOR ? A.m : A.n, ns = Cs::ROW_MAJOR ? A.n : A.m;
  auto &st = c.ind_start(); auto &in = c.inds(); auto &v = c.vals();
  st.resize(np + 1); st[0] = 0; std::vector<int> ii; std::vector<T> vv;
  for (int i = 0; i < np; ++i) {
    for (int j = 0; j < ns; ++j) { T x = Cs::ROW_MAJOR ? A(i, j) : A(j, i); if (x != T(0)) ii.push_back(j), vv.push_back(x); }
    st[i + 1] = ii.size();
  }
  in.resize(ii.size()); v.resize(vv.size());
  for (size_t k = 0; k < ii.size(); ++k) in[k] = ii[k], v[k] = vv[k];
}
// one dense level block structure
template <class T, class P> void level(std::list<P> &ps, int n, int m, Mat<T> *dense, std::mt19937 &g) {
  ps.emplace_back(P());
  P &p = ps.back();
  p.m = m; p.n = n;
  Mat<T> L(m, m), Uu(m, m), E(n - m, m), F(m, n - m);
  auto put = [&](T &x) { if (g() % 3) x = Rnd<T>::get() * T(.5); };
  for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { if (j < i) put(L(i, j)); if (j > i) put(Uu(i, j)); }
  for (auto &x : E.a) put(x);
  for (auto &x : F.a) put(x);
  fill(p.L_B, L); fill(p.U_B, Uu); fill(p.E, E); fill(p.F, F);
  p.d_B.resize(m); for (int i = 0; i < m; ++i) p.d_B[i] = Rnd<T>::get() + T(2);
  p.s.resize(n); p.t.resize(n); for (int i = 0; i < n; ++i) p.s[i] = 1.5 + U(), p.t[i] = 1.5 + U();
  auto perm = [&](Array<int> &a, Array<int> &b) {
    std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; std::shuffle(v.begin(), v.end(), g);
    a.resize(n); b.resize(n); for (int i = 0; i < n; ++i) a[i] = v[i], b[v[i]] = i;
  };
  perm(p.p, p.p_inv); perm(p.q, p.q_inv);
  if (dense) {
    DenseMatrix<T> D(n - m, n - m);
    for (int i = 0; i < n - m; ++i) for (int j = 0; j < n - m; ++j) D(i, j) = (*dense)(i, j);
    p.dense_solver.set_matrix(D);
    auto o = DEFAULT_PARAMS; o.verbose = 0;
    p.dense_solver.factorize(o);
  }
}
template <class T> std::list<Prec<T, int>> build(Mat<T> &S, int seed = 11, int n1 = 17, int m1 = 8, int m2 = 4) {
  std::mt19937 g(seed);
  std::list<Prec<T, int>> ps; const int n2 = n1 - m1, k = n2 - m2;
  S = Mat<T>(k, k);
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) S(i, j) = Rnd<T>::get() + (i == j ? T(3) : T(0));
  level<T>(ps, n1, m1, (Mat<T> *)0, g);
  level<T>(ps, n2, m2, &S, g);
  return ps;
}
// dense matrix of a linear operator given as f(b, y)
template <class T, class Fn> Mat<T> matrix(int n, Fn f) {
  Mat<T> R(n, n); Array<T> b(n), y(n);
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < n; ++i) b[i] = T(i == j), y[i] = T(-77);
    f(b, y);
    for (int i = 0; i < n; ++i) R(i, j) = y[i];
  }
  return R;
}
template <class T> Mat<T> op(std::list<Prec<T, int>> &ps, int which) {
  const int n = ps.front().n; Array<T> w(4 * n);
  return matrix<T>(n, [&](Array<T> &b, Array<T> &y) {
    auto it = ps.cbegin(); T *wp = w.data();
    if (which == 0) prec_solve(it, b, 0, y, wp);
    else if (which == 1) prec_solve_tran(it, b, 0, y, wp);
    else if (which == 2) prec_prod(it, b, 0, y, wp);
    else prec_prod_tran(it, b, 0, y, wp);
  });
}
template <class T> Mat<T> eye(int n) { Mat<T> I(n, n); for (int i = 0; i < n; ++i) I(i, i) = T(1); return I; }
inline int verdict(double e, const char *what, double tol = 1e-9) { printf("%s: %g\n", what, e); return !(e < tol); }
