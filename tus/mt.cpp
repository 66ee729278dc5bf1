// instantiation unit: the threaded routines
#include "hifir.hpp"
using namespace hif;
std::pair<std::size_t, std::size_t> part(std::size_t n, int T, int t) { return mt::uniform_partition(n, T, t); }
template <class V> struct Mt {
  typedef CRS<V, int, std::ptrdiff_t> R;
  typedef CCS<V, int, std::ptrdiff_t> C;
  typedef Array<V> A;
  typedef Array<int> I;
  typedef Array<std::ptrdiff_t> J;
  typedef Array<typename ValueTypeTrait<V>::value_type> S;
  static void mv(const R &M, const A &x, A &y) { mt::multiply_nt(M, x, y); }
  static void mvl(const R &M, const V *x, V *y) { mt::multiply_nt_low(M, x, y); }
  static void mm(const R &M, const Array<std::array<V, 3> > &x, Array<std::array<V, 3> > &y) { mt::multiply_mrhs_nt(M, x, y); }
  static void mml(const R &M, const V *x, V *y) { mt::template multiply_mrhs_nt_low<3>(M, x, y); }
  static void drop(const J &rl, double al, const J &ru, double au, R &L, C &U, A &b1, I &i1, A &b2, I &i2, int T) { mt::drop_L_E_and_U_F(rl, al, ru, au, L, U, b1, i1, b2, i2, T); }
  static R schur(const S &s, const R &M, const S &t, const BiPermMatrix<int> &p, const BiPermMatrix<int> &q, std::size_t m, const R &L, const A &d, const R &U, SparseVector<V, int> &b, int T) { return mt::compute_Schur_simple(s, M, t, p, q, m, L, d, U, b, T); }
};
template struct Mt<double>;
template struct Mt<std::complex<double> >;
