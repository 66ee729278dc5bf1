// instantiation witness: every class template of the library for every supported scalar and index type
#include "hifir.hpp"
#include <sstream>
using namespace hif;
typedef std::complex<float> cf;
typedef std::complex<double> cd;
#define SCALARS(M) M(float) M(double) M(cf) M(cd)
#define ONE(V) \
  template class hif::Array<V>; \
  template class hif::DenseMatrix<V>; \
  template class hif::QRCP<V>; \
  template class hif::LUP<V>; \
  template class hif::SYEIG<V>; \
  template class hif::Lapack<V>; \
  template class hif::Lapack<V, long>;
SCALARS(ONE)
#define TWO(V, I) \
  template class hif::SparseVector<V, I>; \
  template class hif::IndexValueArray<V, I>; \
  template class hif::CRS<V, I>; \
  template class hif::CCS<V, I>; \
  template class hif::AugCRS<hif::CRS<V, I>>; \
  template class hif::AugCCS<hif::CCS<V, I>>; \
  template struct hif::Prec<V, I>; \
  template class hif::HIF<V, I>;
#define TWOI(V) TWO(V, int) TWO(V, long)
SCALARS(TWOI)
template class hif::HIF<double, int, int>;
template class hif::HIF<cf, int, int>;
template class hif::PermMatrix<int>;
template class hif::BiPermMatrix<int>;
template class hif::PermMatrix<long>;
template class hif::BiPermMatrix<long>;
