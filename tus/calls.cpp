// instantiation witness: the member templates and free function templates of the library,
// called the way users call them, for every supported scalar, index and storage type
#include "hifir.hpp"
#include <array>
#include <functional>
#include <sstream>
using namespace hif;
typedef std::complex<float>  cf;
typedef std::complex<double> cd;
template <class T> T  any();
template <class T> T &ref();
typedef std::size_t sz;
const sz            NR = 3;


// operations of a sparse matrix; X, Y: scalar types of the vectors
template <class A, class X, class Y> void vectors(const A &a) {
  const Array<X> &x = ref<const Array<X>>();
  Array<Y> &      y = ref<Array<Y>>();
  const Array<std::array<X, NR>> &mx = ref<const Array<std::array<X, NR>>>();
  Array<std::array<Y, NR>> &      my = ref<Array<std::array<Y, NR>>>();
  a.multiply_nt(x, y); a.multiply_t(x, y); a.multiply(x, y); a.multiply(x, y, true);
  a.multiply_nt_low(x.data(), y.data()); a.multiply_t_low(x.data(), y.data());
  a.multiply_mrhs_nt(mx, my); a.multiply_mrhs_t(mx, my); a.multiply_mrhs(mx, my); a.multiply_mrhs(mx, my, true);
  a.template multiply_mrhs_nt_low<NR>(mx[0].data(), my[0].data());
  a.template multiply_mrhs_t_low<NR>(mx[0].data(), my[0].data());
  multiply(a, x, y); multiply(a, x, y, true);
  mt::multiply_nt(a, x, y); mt::multiply_nt_low(a, x.data(), y.data());
  mt::multiply_mrhs_nt(a, mx, my); mt::multiply_mrhs_nt_low<NR>(a, mx[0].data(), my[0].data());
  a.solve_as_strict_lower(y); a.solve_as_strict_upper(y);
  a.solve_as_strict_lower_tran(y); a.solve_as_strict_upper_tran(y);
  a.solve_as_strict_lower_mrhs(my); a.solve_as_strict_upper_mrhs(my);
  a.solve_as_strict_lower_mrhs_tran(my); a.solve_as_strict_upper_mrhs_tran(my);
}
template <class X, class Y> void rows(const X &a) {
  const Array<typename X::value_type> &x = ref<const Array<typename X::value_type>>();
  Array<Y> &y = ref<Array<Y>>();
  const Array<std::array<Y, NR>> &mx = ref<const Array<std::array<Y, NR>>>();
  Array<std::array<Y, NR>> &      my = ref<Array<std::array<Y, NR>>>();
  a.multiply_nt(x, sz(0), sz(1), y); a.multiply_nt_low(x.data(), sz(0), sz(1), y.data());
  a.multiply_mrhs_nt(mx, sz(0), sz(1), my); a.template multiply_mrhs_nt_low<NR>(mx[0].data(), sz(0), sz(1), my[0].data());
}
template <class V> struct Real { typedef typename ValueTypeTrait<V>::value_type type; };

// either storage
template <class A> void storage() {
  typedef typename A::value_type V;
  typedef typename Real<V>::type R;
  A &a = ref<A>();
  a.scale_diag_left(ref<Array<R>>()); a.scale_diag_right(ref<Array<R>>()); a.scale_diags(ref<Array<R>>(), ref<Array<R>>());
  a.scale_diags(ref<std::vector<R>>(), ref<std::vector<R>>());
  DenseMatrix<V> d = DenseMatrix<V>::from_sparse(a); d.copy_sparse(a); d = DenseMatrix<V>(ref<const DenseMatrix<float>>());
  LUP<V> lu; lu.set_matrix(a); QRCP<V> qr; qr.set_matrix(a); SYEIG<V> sy; sy.set_matrix(a);
  export_compressed_data<A>(a, any<typename A::ippointer>(), any<typename A::ipointer>(), any<typename A::pointer>());
  export_compressed_data<typename A::other_type>(a, any<typename A::other_type::ippointer>(), any<typename A::other_type::ipointer>(), any<typename A::other_type::pointer>());
  a.val_begin(0); ref<const A>().val_begin(0); a.val_end(0); ref<const A>().val_end(0);
  a.nnz_in_primary(0); a.ind_begin(0); a.ind_end(0); a.inds(); a.ind_start(); a.primary_size();
  ref<const A>().ind_begin(0); ref<const A>().ind_end(0); ref<const A>().inds(); ref<const A>().ind_start();
}
// one scalar type against a right-hand side of the same, the longer and the shorter type
template <class V, class W, class I> void sparse() {
  typedef CRS<V, I> crs; typedef CCS<V, I> ccs;
  storage<crs>(); storage<ccs>();
  vectors<crs, V, V>(ref<crs>()); vectors<ccs, V, V>(ref<ccs>());
  vectors<crs, W, W>(ref<crs>()); vectors<ccs, W, W>(ref<ccs>());
  rows<crs, V>(ref<crs>());
  const std::vector<V> &v = ref<const std::vector<V>>();
  const std::vector<I> &i = ref<const std::vector<I>>();
  ref<crs>().push_back_row(0, i.cbegin(), i.cend(), v); ref<crs>().push_back_row(0, i.cbegin(), i.cend(), v, i.cbegin(), i.cend(), v);
  ref<ccs>().push_back_col(0, i.cbegin(), i.cend(), v); ref<ccs>().push_back_col(0, i.cbegin(), i.cend(), v, i.cbegin(), i.cend(), v);
  AugCRS<crs> &ar = ref<AugCRS<crs>>(); AugCCS<ccs> &ac = ref<AugCCS<ccs>>();
  ar.push_back_row(0, i.cbegin(), i.cend(), v); ar.push_back_row(0, i.cbegin(), i.cend(), v, i.cbegin(), i.cend(), v);
  ac.push_back_col(0, i.cbegin(), i.cend(), v); ac.push_back_col(0, i.cbegin(), i.cend(), v, i.cbegin(), i.cend(), v);
  // the index pointer type is kept, whatever it is
  CRS<V, int, int>  r1 = wrap_const_crs(sz(1), sz(1), any<const int *>(), any<const int *>(), any<const V *>(), true);
  CRS<V, I, long> r2 = wrap_const_crs(sz(1), sz(1), any<const long *>(), any<const I *>(), any<const V *>());
  CCS<V, int, int>  c1 = wrap_const_ccs(sz(1), sz(1), any<const int *>(), any<const int *>(), any<const V *>(), true);
  CCS<V, I, long> c2 = wrap_const_ccs(sz(1), sz(1), any<const long *>(), any<const I *>(), any<const V *>());
  SparseVector<V, I> &s = ref<SparseVector<V, I>>();
  s.find_if(std::function<bool(I)>());
}
template <class A, class B> struct same;
template <class A> struct same<A, A> { static void ok() {} };

template <class It> void iterate(It a, It b) {
  ++a; --a; a++; a--; *a; a[1]; a == b; a != b; b = a; a.stride(); a.operator->();
}
template <class V, class W> void dense() {
  DenseMatrix<V> &d = ref<DenseMatrix<V>>(); const DenseMatrix<V> &cd_ = d;
  iterate(d.row_begin(0), d.row_end(0)); iterate(cd_.row_begin(0), cd_.row_end(0)); iterate(d.row_cbegin(0), d.row_cend(0));
  d.row_cbegin(0) == d.row_begin(0); d.row_cbegin(0) != d.row_begin(0);
  Array<V> &x = ref<Array<V>>(); Array<W> &y = ref<Array<W>>(); const Array<V> &cx = ref<const Array<V>>();
  Array<std::array<V, NR>> &mx = ref<Array<std::array<V, NR>>>();
  Array<std::array<W, NR>> &my = ref<Array<std::array<W, NR>>>();
  QRCP<V> &q = ref<QRCP<V>>(); LUP<V> &l = ref<LUP<V>>(); SYEIG<V> &s = ref<SYEIG<V>>();
  q.solve(x); q.solve(y); q.solve(y, 0, true); q.solve_mrhs(mx); q.solve_mrhs(my); q.multiply(x); q.multiply(y); q.multiply(y, 0, true); q.multiply_mrhs(mx); q.multiply_mrhs(my);
  s.solve(x); s.solve(y); s.solve(y, 0); s.solve_mrhs(mx); s.solve_mrhs(my); s.multiply(x); s.multiply(y); s.multiply(y, 0); s.multiply_mrhs(mx); s.multiply_mrhs(my);
  l.solve(x); l.solve(y); l.solve(y, 0, true); l.solve_mrhs(mx); l.solve_mrhs(my); l.multiply(cx, x); l.multiply(cx, y); l.multiply(x); l.multiply(y, 0, true);
  q.set_matrix(any<DenseMatrix<V>>()); l.set_matrix(any<DenseMatrix<V>>()); s.set_matrix(any<DenseMatrix<V>>()); q.set_matrix(ref<DenseMatrix<W>>()); l.set_matrix(ref<DenseMatrix<W>>()); s.set_matrix(ref<DenseMatrix<W>>());
  x.push_back(any<const V *>(), any<const V *>()); x.push_back_n(any<const V *>(), 1);
  Array<V> z(ref<const Array<W>>()), z2(ref<const Array<V>>(), true);
  V *p = nullptr; typename Array<V>::size_type n, c; steal_array_ownership(x, p, n, c);
  Array<V> w1 = wrap_array<V>(1, p), w2 = wrap_const_array<V>(1, p);
  inner(x, x); norm2_sq(x); norm2(x); normalize(x); V *it = p; normalize2(x, it);
}
template <class M, class A, class B, class C> void solver(const A &a) {
  M &            m = ref<M>();
  const M &      k = ref<const M>();
  const Array<B> &b = ref<const Array<B>>();
  Array<C> &      x = ref<Array<C>>();
  double          t[2];
  m.factorize(a); m.factorize(a, get_default_params(), 1);
  k.solve(b, x); k.solve(b, x, true, 1); k.mmultiply(b, x); k.mmultiply(b, x, true, 1);
  m.solve_mrhs(ref<const Array<std::array<B, NR>>>(), ref<Array<std::array<C, NR>>>());
  k.hifir(a, b, 2, x); k.hifir(a, b, 2, x, true, 1); k.hifir(a, b, 2, t, x); k.hifir(a, b, 2, t, x, true, 1);
  std::function<void(const void *, const sz, const char, void *, const char, const bool)> f;
  k.hifir(f, b, 2, x); k.hifir(f, b, 2, t, x, true, 1);
}
template <class E, class P> void exports(P &p) {
  typedef typename E::ippointer ip; typedef typename E::ipointer ii; typedef typename E::pointer pp; typedef typename Real<typename E::value_type>::type *rp;
  p.template export_sparse_data<E>(any<ip>(), any<ii>(), any<pp>(), any<pp>(), any<ip>(), any<ii>(), any<pp>(), any<ip>(), any<ii>(), any<pp>(), any<ip>(), any<ii>(), any<pp>(),
                                   any<rp>(), any<rp>(), any<ii>(), any<ii>(), any<ii>(), any<ii>(), true);
}
template <class V, class I, class W> void prec() {
  typedef HIF<V, I> M;
  solver<M, CRS<V, I>, V, V>(ref<CRS<V, I>>());
  solver<M, CCS<V, I>, V, V>(ref<CCS<V, I>>());
  solver<M, CRS<W, I>, W, W>(ref<CRS<W, I>>());
  solver<M, CCS<W, I>, W, W>(ref<CCS<W, I>>());
  M &m = ref<M>();
  m.template factorize<true>(1, any<const long *>(), any<const I *>(), any<const V *>());
  m.template factorize<false>(1, any<const long *>(), any<const I *>(), any<const W *>(), get_default_params(), 1);
  m.empty(); m.levels(); m.precs(); m.nnz(); m.rank(); m.schur_rank(); m.schur_size(); m.nnz_ef(); m.nnz_ldu(); m.stats(0); m.prec(0); m.clear();
  ref<const M>().precs();
  m.nsp = create_nsp_filter(0, 1); m.nsp_tran = create_nsp_filter();
  m.nsp->filter(any<V *>(), 1);
  typename M::prec_type &p = ref<typename M::prec_type>();
  exports<CRS<V, I>>(p); exports<CCS<V, I>>(p);
  sz a, b; p.inquire_or_export_dense(any<W *>(), a, b, true);
}
// alias templates honour their parameters
template <class V, class I, class P> void aliases() {
  same<CSR<V, I, P>, CRS<V, I, P>>::ok(); same<CSC<V, I, P>, CCS<V, I, P>>::ok();
  same<Hif<V, I, P>, HIF<V, I, P>>::ok(); same<typename Precs<V, I, P>::value_type, Prec<V, I, P>>::ok();
  same<Hif<V, I, P, QRCP>, HIF<V, I, P, QRCP>>::ok(); same<typename Precs<V, I, P, QRCP>::value_type, Prec<V, I, P, QRCP>>::ok();
  same<typename HIF<V, I, P>::prec_type, Prec<V, I, P>>::ok();
  same<typename HIF<V, I, P>::crs_type, CRS<V, I, P>>::ok(); same<typename HIF<V, I, P>::ccs_type, CCS<V, I, P>>::ok();
  same<typename CRS<V, I, P>::other_type, CCS<V, I, P>>::ok(); same<typename CCS<V, I, P>::other_type, CRS<V, I, P>>::ok();
}
template <class V, class W, class I> void all() {
  sparse<V, W, I>(); prec<V, I, W>(); aliases<V, I, long>(); aliases<V, int, int>();
}
template <class T, class V> void mixed() {
  const std::complex<T> &a = ref<std::complex<T>>(); const std::complex<V> &b = ref<std::complex<V>>(); V v = any<V>();
  hif::operator+(a, b); hif::operator+(a, v); hif::operator+(v, a); hif::operator-(a, b); hif::operator-(a, v); hif::operator-(v, a);
  hif::operator*(a, b); hif::operator*(a, v); hif::operator*(v, a); hif::operator/(a, b); hif::operator/(a, v); hif::operator/(v, a);
}
void program() {
  mixed<float, double>(); mixed<double, float>();
  all<float, double, int>(); all<double, float, int>(); all<cf, cd, int>(); all<cd, cf, int>();
  all<float, double, long>(); all<double, float, long>(); all<cf, cd, long>(); all<cd, cf, long>();
  dense<float, double>(); dense<double, float>(); dense<cf, cd>(); dense<cd, cf>();
  Options &o = ref<Options>();
  set_option_attr("tau_L", 1.0, o); set_option_attr("N", 1, o); set_param_attr("verbose", 1, o);
  std::istringstream in; in >> o;
  DefaultTimer t; t.start(); t.finish(); t.time(); t.time_milli(); t.time_micro(); t.time_nano();
}
