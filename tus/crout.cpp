// instantiation unit: the factorization kernels
#include "hifir.hpp"
using namespace hif;
typedef Prec<double, int, std::ptrdiff_t> PD;
typedef Prec<std::complex<double>, int, std::ptrdiff_t> PZ;
struct Stream { template <class... A> void operator()(const char *, A &&...) const {} };
template <class CS, class P> struct Kern {
  typedef std::vector<P> V;
  typedef Array<typename CS::index_type> IA;
  static CS plain(const CS &A, std::size_t m0, std::size_t N, const Options &o, V &v, IA &r, IA &c, std::size_t *st, int th, int *tag) { return level_factorize<false>(A, m0, N, o, Stream(), v, r, c, st, th, tag); }
  static CS symlead(const CS &A, std::size_t m0, std::size_t N, const Options &o, V &v, IA &r, IA &c, std::size_t *st, int th, int *tag) { return level_factorize<true>(A, m0, N, o, Stream(), v, r, c, st, th, tag); }
  static CS pivot(const CS &A, std::size_t m0, std::size_t N, const Options &o, V &v, IA &r, IA &c, std::size_t *st, int th) { return pivot_level_factorize(A, m0, N, o, Stream(), v, r, c, st, th); }
  static CS symm(const CS &A, std::size_t m0, std::size_t N, const Options &o, V &v, IA &r, std::size_t *st, int th) { return symm_level_factorize(A, m0, N, o, Stream(), v, r, st, th); }
};
template struct Kern<CRS<double, int, std::ptrdiff_t>, PD>;
template struct Kern<CCS<std::complex<double>, int, std::ptrdiff_t>, PZ>;
template struct hif::Prec<double, int, std::ptrdiff_t>;
