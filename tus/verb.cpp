// instantiation unit: everything below HIF::factorize
#include "hifir.hpp"
using namespace hif;
template <class H, class CS> struct Fac {
  static void run(H &M, const CS &A, std::size_t m0, const Options &o) { M.factorize(A, o, m0); }
};
template struct Fac<HIF<double, int, std::ptrdiff_t>, CRS<double, int, std::ptrdiff_t> >;
template struct Fac<HIF<std::complex<double>, int, std::ptrdiff_t>, CCS<std::complex<double>, int, std::ptrdiff_t> >;
template <class D> struct Den {
  static void run(D &M, const Options &o) { M.factorize(o); }
};
template struct Den<LUP<double> >;
template struct Den<LUP<std::complex<double> > >;
