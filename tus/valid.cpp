// instantiation unit: validation of compressed matrices
#include "hifir.hpp"
using namespace hif;
template <class T, class I, class P> struct Valid {
  typedef CRS<T, I, P> R;
  typedef CCS<T, I, P> C;
  static void check_crs(const R &A) { A.check_validity(); }
  static void check_ccs(const C &A) { A.check_validity(); }
  static void wrap_crs(R &r, std::size_t m, std::size_t n, const P *start, const I *ind, const T *vals, bool check) { r = wrap_const_crs(m, n, start, ind, vals, check); }
  static void wrap_ccs(C &r, std::size_t m, std::size_t n, const P *start, const I *ind, const T *vals, bool check) { r = wrap_const_ccs(m, n, start, ind, vals, check); }
};
template struct Valid<double, int, std::ptrdiff_t>;
template struct Valid<std::complex<float>, long, long>;
template struct Valid<float, int, int>;
