// instantiation unit: multilevel solve / product algebra
#include "hifir.hpp"
using namespace hif;
template <class V, class X, class I> struct AlgInst {
  typedef HIF<V, I> H;
  typedef typename H::prec_type P;
  typedef Array<X> arr;
  typedef Array<std::array<X, 3>> marr;
  static void go(const P *it, const arr &b, std::size_t r, arr &y, X *&w, const marr &mb, marr &my, marr &mw) {
    prec_solve(it, b, r, y, w);
    prec_solve_tran(it, b, r, y, w);
    prec_prod(it, b, r, y, w);
    prec_prod_tran(it, b, r, y, w);
    prec_solve_mrhs(it, mb, r, my, mw);
  }
};
template struct AlgInst<std::complex<double>, std::complex<double>, int>;
template struct AlgInst<double, double, int>;
template struct AlgInst<float, double, long>;
