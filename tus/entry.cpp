// instantiation unit: the operations a user calls on a preconditioner object
#include "hifir.hpp"
using namespace hif;
template <class T, class I, class P> struct Entry {
  typedef HIF<T, I, P> M;
  typedef Array<T> V;
  typedef Array<std::array<T, 3>> MV;
  typedef CRS<T, I, P> R;
  typedef CCS<T, I, P> C;
  static void solve(const M &m, const V &b, V &x, bool trans, std::size_t r) { m.solve(b, x, trans, r); }
  static void mmultiply(const M &m, const V &b, V &x, bool trans, std::size_t r) { m.mmultiply(b, x, trans, r); }
  static void solve_mrhs(const M &m, const MV &b, MV &x, std::size_t r) { m.solve_mrhs(b, x, r); }
  static void hifir(const M &m, const R &A, const V &b, std::size_t N, V &x, bool trans, std::size_t r) { m.hifir(A, b, N, x, trans, r); }
  static std::pair<std::size_t, int> hifir_b(const M &m, const R &A, const V &b, std::size_t N, const double *betas, V &x, bool trans, std::size_t r) { return m.hifir(A, b, N, betas, x, trans, r); }
  static void hifir_ccs(const M &m, const C &A, const V &b, std::size_t N, V &x, bool trans, std::size_t r) { m.hifir(A, b, N, x, trans, r); }
  static std::pair<std::size_t, int> hifir_ccs_b(const M &m, const C &A, const V &b, std::size_t N, const double *betas, V &x, bool trans, std::size_t r) { return m.hifir(A, b, N, betas, x, trans, r); }
  static void factorize(M &m, const R &A, const Options &o, std::size_t m0) { m.factorize(A, o, m0); }
  static void factorize_ccs(M &m, const C &A, const Options &o, std::size_t m0) { m.factorize(A, o, m0); }
  static std::size_t prec_n(const typename M::prec_type &p) { return p.n; }
  static void clear(M &m) { m.clear(); }
  static bool empty(const M &m) { return m.empty(); }
};
template struct Entry<double, int, std::ptrdiff_t>;
template struct Entry<std::complex<float>, int, std::ptrdiff_t>;
