#include <complex>
#include "hif/utils/common.hpp"
#include "hif/ds/Array.hpp"
#include "hif/utils/io.hpp"
#define INST(I, V) \
  template void hif::read_mm_sparse(const char *, std::size_t &, std::size_t &, hif::Array<I> &, hif::Array<I> &, hif::Array<V> &); \
  template void hif::write_mm_sparse<true>(const char *, std::size_t, const hif::Array<long> &, const hif::Array<I> &, const hif::Array<V> &); \
  template void hif::write_mm_sparse<false>(const char *, std::size_t, const hif::Array<long> &, const hif::Array<I> &, const hif::Array<V> &);
#define VEC(V) \
  template void hif::read_mm_vector(const char *, hif::Array<V> &); \
  template void hif::write_mm_vector(const char *, const hif::Array<V> &);
INST(int, float) INST(int, double) INST(long, double) INST(int, std::complex<float>) INST(int, std::complex<double>) INST(int, long double)
VEC(float) VEC(double) VEC(std::complex<float>) VEC(std::complex<double>) VEC(long double)
