// C03  Mask logic is lane-wise boolean algebra
#include "vc.hpp"
namespace C03 {
#define VC_MBIN(NAME, EXPR, SPEC) \
template<class T, class A> void NAME() { \
	using M = simd_mask<T, A>; min_<M> a("a"), b("b"); M m = EXPR; a.unchanged(); b.unchanged(); \
	ensures_mask(m, [&](size_t i) -> bool { return SPEC; }, #NAME ": lane"); }
#define VC_MUN(NAME, EXPR, SPEC) \
template<class T, class A> void NAME() { \
	using M = simd_mask<T, A>; min_<M> a("a"); M m = EXPR; a.unchanged(); \
	ensures_mask(m, [&](size_t i) -> bool { return SPEC; }, #NAME ": lane"); }
#define VC_MASG(NAME, STMT, SPEC) \
template<class T, class A> void NAME() { \
	using M = simd_mask<T, A>; min_<M> a("a"), b("b"); M r = a.v; M &q = (STMT); vc_assert(&q == &r, #NAME ": returns its left operand"); b.unchanged(); \
	ensures_mask(r, [&](size_t i) -> bool { return SPEC; }, #NAME ": lane"); }
//@ and_ all any
//@ and_ sint,f32,f64 widths
VC_MBIN(and_, a.v & b.v, a[i] && b[i])
//@ or_ all any
//@ or_ sint,f32,f64 widths
VC_MBIN(or_, a.v | b.v, a[i] || b[i])
//@ xor_ all any
//@ xor_ sint,f32,f64 widths
VC_MBIN(xor_, a.v ^ b.v, a[i] != b[i])
//@ land all any
//@ land sint,f32,f64 widths
VC_MBIN(land, a.v && b.v, a[i] && b[i])
//@ lor all any
//@ lor sint,f32,f64 widths
VC_MBIN(lor, a.v || b.v, a[i] || b[i])
//@ eq all any
//@ eq sint,f32,f64 widths
VC_MBIN(eq, a.v == b.v, a[i] == b[i])
//@ ne all any
VC_MBIN(ne, a.v != b.v, a[i] != b[i])
//@ compl_ all any
//@ compl_ sint,f32,f64 widths
VC_MUN(compl_, ~a.v, !a[i])
//@ not_ all any
VC_MUN(not_, !a.v, !a[i])
//@ plus all any
VC_MUN(plus, +a.v, a[i])
//@ minus all any
VC_MUN(minus, -a.v, !a[i])
//@ and_assign all any
VC_MASG(and_assign, r &= b.v, a[i] && b[i])
//@ or_assign all any
VC_MASG(or_assign, r |= b.v, a[i] || b[i])
//@ xor_assign all any
VC_MASG(xor_assign, r ^= b.v, a[i] != b[i])

// Every way of making a mask yields lanes later operations read consistently.
//@ broadcast all any
template<class T, class A> void broadcast() {
	using M = simd_mask<T, A>; bool b = any<bool>("b"); M m{b};
	ensures_mask(m, [&](size_t) { return b; }, "broadcast: lane"); }
//@ generate all any
template<class T, class A> void generate() {
	using M = simd_mask<T, A>; bool b[width<M>]; for (auto &x : b) x = any<bool>("b");
	M m([&](auto i) -> bool { return b[i]; });
	ensures_mask(m, [&](size_t i) { return b[i]; }, "generator: lane"); }
//@ index all any
template<class T, class A> void index() {
	using M = simd_mask<T, A>; min_<M> a("a"); M m = a.v; bool b = any<bool>("b");
	size_t k = any<u32>("k"); vc_assume(k < width<M>);
	bool r = std::as_const(m)[k]; bool q = m[k];
	bool e = false; for (size_t i = 0; i < width<M>; ++i) e |= i == k && a[i];
	vc_assert(r == e, "const index: reads the lane"); vc_assert(q == e, "index: reads the lane");
	m[k] = b;
	ensures_mask(m, [&](size_t i) { return i == k ? b : a[i]; }, "index: writes that lane only"); }
//@ index_const all any
template<class T, class A> void index_const() {
	using M = simd_mask<T, A>; min_<M> a("a"); M m = a.v; bool b[width<M>];
	for (size_t i = 0; i < width<M>; ++i) { vc_assert(std::as_const(m)[i] == a[i], "const index: reads the lane"); vc_assert((bool)m[i] == a[i], "index: reads the lane"); }
	for (size_t i = 0; i < width<M>; ++i) { b[i] = any<bool>("b"); m[i] = b[i]; }
	ensures_mask(m, [&](size_t i) { return b[i]; }, "index: writes the lane"); }
//@ load all any
//@ load sint,f32,f64 widths
template<class T, class A> void load() {
	using M = simd_mask<T, A>; alignas(64) bool b[width<M>]; for (auto &x : b) x = any<bool>("b");
	M m; m.copy_from(b, element_aligned);
	ensures_mask(m, [&](size_t i) { return b[i]; }, "copy_from: lane");
	M n; n.copy_from(b, vector_aligned);
	ensures_mask(n, [&](size_t i) { return b[i]; }, "copy_from aligned: lane"); }
//@ store all any
//@ store sint,f32,f64 widths
template<class T, class A> void store() {
	using M = simd_mask<T, A>; min_<M> a("a"); alignas(64) bool b[width<M>]; alignas(64) bool c[width<M>];
	a.v.copy_to(b, element_aligned); a.v.copy_to(c, vector_aligned); a.unchanged();
	for (size_t i = 0; i < width<M>; ++i) { vc_assert(b[i] == a[i], "copy_to: lane"); vc_assert(c[i] == a[i], "copy_to aligned: lane"); } }
//@ masked_load all any
template<class T, class A> void masked_load() {
	using M = simd_mask<T, A>; bool b[width<M>]; for (auto &x : b) x = any<bool>("b");
	min_<M> a("a"), k("k"); M m = a.v; m.copy_from(b, k.v, element_aligned); k.unchanged();
	ensures_mask(m, [&](size_t i) { return k[i] ? b[i] : a[i]; }, "masked copy_from: lane"); }
//@ masked_store all any
template<class T, class A> void masked_store() {
	using M = simd_mask<T, A>; min_<M> a("a"), k("k"); bool b[width<M>], c[width<M>]; for (size_t i = 0; i < width<M>; ++i) c[i] = b[i] = any<bool>("b");
	a.v.copy_to(b, k.v, element_aligned); a.unchanged(); k.unchanged();
	for (size_t i = 0; i < width<M>; ++i) vc_assert(b[i] == (k[i] ? a[i] : c[i]), "masked copy_to: element"); }
// Lane references behave as bool lvalues.
#define VC_MREF(NAME, STMT, SPEC) \
template<class T, class A> void NAME() { \
	using M = simd_mask<T, A>; min_<M> a("a"); M m = a.v; bool b[width<M>]; \
	for (size_t i = 0; i < width<M>; ++i) { b[i] = any<bool>("b"); STMT; } \
	ensures_mask(m, [&](size_t i) -> bool { return SPEC; }, #NAME ": lane"); }
//@ ref_or all any
VC_MREF(ref_or, m[i] |= b[i], a[i] || b[i])
//@ ref_and all any
VC_MREF(ref_and, m[i] &= b[i], a[i] && b[i])
//@ ref_xor all any
VC_MREF(ref_xor, m[i] ^= b[i], a[i] != b[i])
//@ ref_copy all any
template<class T, class A> void ref_copy() {
	using M = simd_mask<T, A>; min_<M> a("a"), c("c"); M m = a.v, n = c.v; constexpr size_t N = width<M>;
	for (size_t i = 0; i < N; ++i) m[i] = n[N - 1 - i];
	ensures_mask(m, [&](size_t i) -> bool { return c[N - 1 - i]; }, "lane reference copy: lane"); c.unchanged(); }
//@ ref_read all any
template<class T, class A> void ref_read() {
	using M = simd_mask<T, A>; min_<M> a("a"); M m = a.v; bool b = any<bool>("b");
	for (size_t i = 0; i < width<M>; ++i) { vc_assert((m[i] | b) == (a[i] || b), "lane reference |"); vc_assert((m[i] & b) == (a[i] && b), "lane reference &"); vc_assert((m[i] ^ b) == (a[i] != b), "lane reference ^"); vc_assert((!m[i]) == !a[i], "lane reference !"); }
	ensures_mask(m, [&](size_t i) -> bool { return a[i]; }, "lane reference reads: unchanged"); }
//@ ref_compl all x86
template<class T, class A> void ref_compl() {
	using M = simd_mask<T, A>; min_<M> a("a"); M m = a.v;
	for (size_t i = 0; i < width<M>; ++i) vc_assert((bool)(~m[i]) == !a[i], "lane reference ~"); }
//@ ref_swap all wide
template<class T, class A> void ref_swap() {
	using M = simd_mask<T, A>; min_<M> a("a"); M m = a.v; constexpr size_t N = width<M>; bool b = any<bool>("b"), b0 = b;
	{ auto &&x = m[0]; auto &&y = m[N - 1]; using std::swap; swap(x, y); }
	{ auto &&x = m[0]; using std::swap; swap(x, b); }
	vc_assert(b == a[N - 1], "lane reference swap: bool");
	ensures_mask(m, [&](size_t i) -> bool { return i == N - 1 ? (N == 1 ? b0 : a[0]) : i == 0 ? b0 : a[i]; }, "lane reference swap: lane"); }
}
