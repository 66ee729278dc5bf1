// instantiation unit: sparse kernels, one wrapper per kernel (everything below it is inlined)
#include "hifir.hpp"
using namespace hif;
template <class Mat, class X> struct Kern {
  typedef Array<X> arr;
  typedef Array<std::array<X, 3>> marr;
  static void multiply_nt_low(const Mat &A, const X *x, X *y) { A.multiply_nt_low(x, y); }
  static void multiply_t_low(const Mat &A, const X *x, X *y) { A.multiply_t_low(x, y); }
  static void multiply_mrhs_nt_low(const Mat &A, const X *x, X *y) { A.template multiply_mrhs_nt_low<3>(x, y); }
  static void multiply_mrhs_t_low(const Mat &A, const X *x, X *y) { A.template multiply_mrhs_t_low<3>(x, y); }
  static void multiply_nt(const Mat &A, const arr &x, arr &y) { A.multiply_nt(x, y); }
  static void multiply_t(const Mat &A, const arr &x, arr &y) { A.multiply_t(x, y); }
  static void multiply_mrhs_nt(const Mat &A, const marr &x, marr &y) { A.multiply_mrhs_nt(x, y); }
  static void multiply_mrhs_t(const Mat &A, const marr &x, marr &y) { A.multiply_mrhs_t(x, y); }
  static void multiply_tran_false(const Mat &A, const arr &x, arr &y) { A.multiply(x, y, false); }
  static void multiply_tran_true(const Mat &A, const arr &x, arr &y) { A.multiply(x, y, true); }
  static void multiply_mrhs_tran_false(const Mat &A, const marr &x, marr &y) { A.multiply_mrhs(x, y, false); }
  static void multiply_mrhs_tran_true(const Mat &A, const marr &x, marr &y) { A.multiply_mrhs(x, y, true); }
  static void solve_as_strict_lower(const Mat &A, arr &y) { A.solve_as_strict_lower(y); }
  static void solve_as_strict_lower_tran(const Mat &A, arr &y) { A.solve_as_strict_lower_tran(y); }
  static void solve_as_strict_upper(const Mat &A, arr &y) { A.solve_as_strict_upper(y); }
  static void solve_as_strict_upper_tran(const Mat &A, arr &y) { A.solve_as_strict_upper_tran(y); }
  static void solve_as_strict_lower_mrhs(const Mat &A, marr &y) { A.solve_as_strict_lower_mrhs(y); }
  static void solve_as_strict_lower_mrhs_tran(const Mat &A, marr &y) { A.solve_as_strict_lower_mrhs_tran(y); }
  static void solve_as_strict_upper_mrhs(const Mat &A, marr &y) { A.solve_as_strict_upper_mrhs(y); }
  static void solve_as_strict_upper_mrhs_tran(const Mat &A, marr &y) { A.solve_as_strict_upper_mrhs_tran(y); }
};
template <class Mat, class X> struct KernRange {
  static void multiply_nt_low(const Mat &A, const X *x, std::size_t istart, std::size_t len, X *y) { A.multiply_nt_low(x, istart, len, y); }
  static void multiply_mrhs_nt_low(const Mat &A, const X *x, std::size_t istart, std::size_t len, X *y) { A.template multiply_mrhs_nt_low<3>(x, istart, len, y); }
};
template struct Kern<CRS<std::complex<double>, int>, std::complex<double>>;
template struct Kern<CCS<std::complex<double>, int>, std::complex<double>>;
template struct Kern<CRS<double, int>, double>;
template struct Kern<CCS<float, long>, double>;
template struct KernRange<CRS<std::complex<double>, int>, std::complex<double>>;
