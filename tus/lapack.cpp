// instantiation unit: every member of the LAPACK facade
#include "hifir.hpp"
using namespace hif;
template <class T, class I> struct Lp {
  typedef Lapack<T, I> L;
  typedef typename L::scalar_type S;
  typedef hif_lapack_int H;
  static I getrf(I n, T *a, I lda, I *ipiv) { return L::getrf(n, a, lda, ipiv); }
  static I getrs(char tran, I n, I nrhs, const T *a, I lda, const I *ipiv, T *b, I ldb) { return L::getrs(tran, n, nrhs, a, lda, ipiv, b, ldb); }
  static I geqp3(I m, I n, T *a, I lda, I *jpvt, T *tau, T *work, I lwork, S *rwork) { return L::geqp3(m, n, a, lda, jpvt, tau, work, lwork, rwork); }
  static I ormqr(char side, char trans, I m, I n, I k, const T *a, I lda, const T *tau, T *c, I ldc, T *work, I lwork) { return L::ormqr(side, trans, m, n, k, a, lda, tau, c, ldc, work, lwork); }
  static I laic1(I job, I j, const T *x, const T *w, S &sestpr, T &s, T &c) { return L::laic1(job, j, x, S(7), w, T(5), sestpr, s, c); }
  static I syev(char uplo, H n, T *a, H lda, S *w, T *work, H lwork, S *rwork) { return L::syev(uplo, n, a, lda, w, work, lwork, rwork); }
  static void trsv(char uplo, char trans, char diag, H n, const T *a, H lda, T *x, H incx) { L::trsv(uplo, trans, diag, n, a, lda, x, incx); }
  static void trmv(char uplo, char trans, char diag, H n, const T *a, H lda, T *x, H incx) { L::trmv(uplo, trans, diag, n, a, lda, x, incx); }
  static void gemv(char trans, H m, H n, const T *a, H lda, const T *x, T *y) { L::gemv(trans, m, n, T(2), a, lda, x, T(3), y); }
  // matrix overloads
  typedef DenseMatrix<T> M;
  static I m_getrf(M &a, Array<I> &ipiv) { return L::getrf(a, ipiv); }
  static I m_getrs(const M &a, const Array<I> &ipiv, Array<T> &b, char tran) { return L::getrs(a, ipiv, b, tran); }
  static I m_getrs_m(const M &a, const Array<I> &ipiv, M &b, char tran) { return L::getrs(a, ipiv, b, tran); }
  static I m_geqp3(M &a, Array<I> &jpvt, Array<T> &tau) { return L::geqp3(a, jpvt, tau); }
  static I m_syev(char uplo, M &a, Array<S> &w, T *work, H lwork, Array<S> &rwork) { return L::syev(uplo, a, w, work, lwork, rwork); }
  static void m_trsv(char uplo, char trans, char diag, const M &a, Array<T> &x) { L::trsv(uplo, trans, diag, a, x); }
  static void m_trmv(char uplo, char trans, char diag, const M &a, Array<T> &x) { L::trmv(uplo, trans, diag, a, x); }
  static void m_gemv(char trans, const M &a, const Array<T> &x, Array<T> &y) { L::gemv(trans, T(2), a, x, T(3), y); }
};
template struct Lp<double, int>;
template struct Lp<float, int>;
template struct Lp<std::complex<double>, int>;
template struct Lp<std::complex<float>, int>;
template struct Lp<double, long>;
template <class T> struct LpC {
  typedef Lapack<T> L;
  static int trcon(char norm, char uplo, char diag, int n, const T *a, int lda, T &rcond, T *work, int *iwork) { return L::trcon(norm, uplo, diag, n, a, lda, rcond, work, iwork); }
  static int m_trcon(char norm, char uplo, char diag, const DenseMatrix<T> &a, T &rcond) { return L::trcon(norm, uplo, diag, a, rcond); }
  static int m_trcon_r(char norm, char uplo, char diag, const DenseMatrix<T> &a, int rank, T &rcond) { return L::trcon(norm, uplo, diag, a, rank, rcond); }
};
template struct LpC<double>;
template struct LpC<float>;
