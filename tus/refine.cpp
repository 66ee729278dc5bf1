// instantiation unit: iterative refinement over a preconditioner object
#include "hifir.hpp"
using namespace hif;
template <class T, class Mat> struct Refine {
  typedef HIF<T, int, std::ptrdiff_t> M;
  typedef IterRefine<T> I;
  typedef Array<T> V;
  static void fixed(const I &ir, const M &m, const Mat &A, const V &b, std::size_t N, V &x, std::size_t r, bool tran) { ir.iter_refine(m, A, b, N, x, r, tran); }
  static int bounded(const I &ir, const M &m, const Mat &A, const V &b, std::size_t N, const double *betas, V &x, std::size_t r, bool tran, std::size_t &cnt) {
    const std::pair<std::size_t, int> p = ir.iter_refine(m, A, b, N, betas, x, r, tran);
    cnt = p.first;
    return p.second;
  }
};
template struct Refine<double, CRS<double, int, std::ptrdiff_t>>;
template struct Refine<double, CCS<double, int, std::ptrdiff_t>>;
template struct Refine<std::complex<double>, CRS<std::complex<double>, int, std::ptrdiff_t>>;
typedef std::function<void(const void *, const std::size_t, const char, void *, const char, const bool)> Callback;
template struct Refine<double, Callback>;
template struct Refine<std::complex<double>, CCS<std::complex<double>, int, std::ptrdiff_t>>;
