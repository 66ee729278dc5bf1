// instantiation unit: dense last-level solvers
#include "hifir.hpp"
using namespace hif;
template <class T> struct Dense {
  typedef Array<T> A;
  typedef Array<std::array<T, 3>> MA;
  static void qr_solve(const QRCP<T> &S, A &x, std::size_t rank, bool tran) { S.solve(x, rank, tran); }
  static void qr_multiply(const QRCP<T> &S, A &x, std::size_t rank, bool tran) { S.multiply(x, rank, tran); }
  static void qr_solve_mrhs(const QRCP<T> &S, MA &x, std::size_t rank, bool tran) { S.solve_mrhs(x, rank, tran); }
  static void qr_multiply_mrhs(const QRCP<T> &S, MA &x, std::size_t rank, bool tran) { S.multiply_mrhs(x, rank, tran); }
  static void sy_solve(const SYEIG<T> &S, A &x, std::size_t rank) { S.solve(x, rank); }
  static void sy_multiply(const SYEIG<T> &S, A &x, std::size_t rank) { S.multiply(x, rank); }
  static void sy_solve_mrhs(const SYEIG<T> &S, MA &x, std::size_t rank) { S.solve_mrhs(x, rank); }
  static void sy_multiply_mrhs(const SYEIG<T> &S, MA &x, std::size_t rank) { S.multiply_mrhs(x, rank); }
  static void lu_solve(const LUP<T> &S, A &x, std::size_t rank, bool tran) { S.solve(x, rank, tran); }
  static void lu_solve_mrhs(const LUP<T> &S, MA &x, std::size_t rank, bool tran) { S.solve_mrhs(x, rank, tran); }
  static void lu_multiply(const LUP<T> &S, const A &x, A &y, std::size_t rank, bool tran) { S.multiply(x, y, rank, tran); }
  // vectors of another precision than the factor
  typedef typename std::conditional<std::is_same<T, double>::value, float, std::complex<double>>::type U;
  typedef Array<U> B;
  typedef Array<std::array<U, 3>> MB;
  static void qr_solve_mix(const QRCP<T> &S, B &x, std::size_t rank, bool tran) { S.solve(x, rank, tran); }
  static void qr_multiply_mix(const QRCP<T> &S, B &x, std::size_t rank, bool tran) { S.multiply(x, rank, tran); }
  static void qr_solve_mrhs_mix(const QRCP<T> &S, MB &x, std::size_t rank, bool tran) { S.solve_mrhs(x, rank, tran); }
  static void sy_solve_mix(const SYEIG<T> &S, B &x, std::size_t rank) { S.solve(x, rank); }
  static void sy_multiply_mix(const SYEIG<T> &S, B &x, std::size_t rank) { S.multiply(x, rank); }
  static void sy_solve_mrhs_mix(const SYEIG<T> &S, MB &x, std::size_t rank) { S.solve_mrhs(x, rank); }
  static void lu_solve_mix(const LUP<T> &S, B &x, std::size_t rank, bool tran) { S.solve(x, rank, tran); }
  static void lu_multiply_mix(const LUP<T> &S, const B &x, B &y, std::size_t rank, bool tran) { S.multiply(x, y, rank, tran); }
  // factorizations and the matrices they are applied to
  typedef CRS<T, int> R;
  typedef CCS<T, int> C;
  typedef DenseMatrix<T> D;
  static void fac_qr(QRCP<T> &S, const Options &o) { S.factorize(o); }
  static void fac_sy(SYEIG<T> &S, const Options &o) { S.factorize(o); }
  static void fac_lu(LUP<T> &S, const Options &o) { S.factorize(o); }
  static void refac_qr(QRCP<T> &S, const Options &o) { S.refactorize(o); }
  static void refac_sy(SYEIG<T> &S, const Options &o) { S.refactorize(o); }
  static void refac_lu(LUP<T> &S, const Options &o) { S.refactorize(o); }
  static void set_qr(QRCP<T> &S, D &A) { S.set_matrix(std::move(A)); }
  static void set_sy(SYEIG<T> &S, D &A) { S.set_matrix(std::move(A)); }
  static void set_lu(LUP<T> &S, D &A) { S.set_matrix(std::move(A)); }
  static void sparse_crs(D &M, const R &A) { M.copy_sparse(A); }
  static void sparse_ccs(D &M, const C &A) { M.copy_sparse(A); }
};
template struct Dense<double>;
template struct Dense<std::complex<float>>;
