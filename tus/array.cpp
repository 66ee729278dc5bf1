#include <complex>
#include "hif/ds/Array.hpp"
template class hif::Array<double>;
template class hif::Array<int>;
template class hif::Array<std::complex<double>>;
template hif::Array<double>::Array(const hif::Array<float> &);
template hif::Array<int>::Array(const hif::Array<long> &);
template void hif::Array<double>::push_back(const double *, const double *);
template void hif::Array<int>::push_back(const int *, const int *);
template void hif::Array<double>::push_back_n(const double *, std::size_t);
template void hif::Array<int>::push_back_n(const int *, std::size_t);
template void hif::steal_array_ownership(hif::Array<double> &, double *&, std::size_t &, std::size_t &);
template void hif::steal_array_ownership(hif::Array<int> &, int *&, std::size_t &, std::size_t &);
template hif::Array<double> hif::wrap_array(std::size_t, double *);
template hif::Array<double> hif::wrap_const_array(std::size_t, const double *);
