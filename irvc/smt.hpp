// SMT back ends: in-process z3 (bit-vectors + uninterpreted FP with sound axioms), then a portfolio of external
// solvers on the exact IEEE encoding.
#pragma once
#include "term.hpp"
#include <z3.h>
#include <chrono>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <unordered_set>
#include <fstream>
#include <set>

enum Res { UNSAT, SAT, UNKNOWN };
struct Model { std::map<std::string, uint64_t> vals; std::string text; };

struct Smt {
	Terms &tm;
	Z3_context cx = nullptr;
	unsigned timeout_ms = 10000, ext_timeout_s = 60;
	std::string tmpdir = "/tmp";
	double z3time = 0, exttime = 0;
	std::function<const std::vector<uint8_t> *(uint64_t)> tableBytes; // constant object contents
	uint64_t nquery = 0;
	std::map<std::string, uint64_t> byBackend;

	Smt(Terms &t) : tm(t) {}
	~Smt() { if (cx) Z3_del_context(cx); }
	void init() {
		if (cx) return;
		Z3_config c = Z3_mk_config();
		cx = Z3_mk_context(c); Z3_del_config(c);
		Z3_set_error_handler(cx, [](Z3_context c, Z3_error_code e) { throw Unsupported(std::string("z3: ") + Z3_get_error_msg(c, e)); });
	}

	struct Enc {
		Smt &s; Terms &tm; Z3_context cx; bool precise, cut = false; // cut: results of FP operations, tables and functions are arbitrary
		std::unordered_map<T, Z3_ast> memo;
		std::vector<Z3_ast> side; // axioms
		std::vector<T> vars;
		bool fp = false;
		Enc(Smt &s, bool p) : s(s), tm(s.tm), cx(s.cx), precise(p) {}
		Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(cx, w); }
		Z3_ast num(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(cx, v, bvs(w)); }
		Z3_ast bl(T t) { // boolean view of width-1 term
			return go(t);
		}
		Z3_ast bv(T t) { Z3_ast a = go(t); if (tm.w(t) == 1) return Z3_mk_ite(cx, a, num(1, 1), num(1, 0)); return a; }
		Z3_ast zand(std::vector<Z3_ast> v) { return v.empty() ? Z3_mk_true(cx) : v.size() == 1 ? v[0] : Z3_mk_and(cx, v.size(), v.data()); }
		Z3_ast zor(std::vector<Z3_ast> v) { return v.empty() ? Z3_mk_false(cx) : v.size() == 1 ? v[0] : Z3_mk_or(cx, v.size(), v.data()); }
		Z3_ast znot(Z3_ast a) { return Z3_mk_not(cx, a); }
		Z3_ast zimp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(cx, a, b); }
		Z3_ast zeq(Z3_ast a, Z3_ast b) { return Z3_mk_eq(cx, a, b); }
		Z3_ast mag(Z3_ast a, unsigned W) { return Z3_mk_extract(cx, W - 2, 0, a); }
		Z3_ast sgn(Z3_ast a, unsigned W) { return zeq(Z3_mk_extract(cx, W - 1, W - 1, a), num(1, 1)); }
		Z3_ast isnan(Z3_ast a, unsigned W) { return Z3_mk_bvugt(cx, mag(a, W), num(W - 1, tm.infbits(W))); }
		Z3_ast isinf(Z3_ast a, unsigned W) { return zeq(mag(a, W), num(W - 1, tm.infbits(W))); }
		Z3_ast iszero(Z3_ast a, unsigned W) { return zeq(mag(a, W), num(W - 1, 0)); }
		Z3_sort fps(unsigned W) { return Z3_mk_fpa_sort(cx, W == 32 ? 8 : 11, W == 32 ? 24 : 53); }
		Z3_ast tofp(Z3_ast a, unsigned W) { return Z3_mk_fpa_to_fp_bv(cx, a, fps(W)); }
		Z3_ast fresh(unsigned w, T t, const char *p) { char b[64]; snprintf(b, 64, "%s!%u", p, t); return Z3_mk_const(cx, Z3_mk_string_symbol(cx, b), bvs(w)); }
		Z3_ast ufapp(const std::string &nm, unsigned W, const std::vector<Z3_ast> &a, bool boolres = false) {
			std::vector<Z3_sort> ss; std::string full = nm;
			for (auto x : a) { Z3_sort so = Z3_get_sort(cx, x); ss.push_back(so); full += "_" + std::to_string(Z3_get_bv_sort_size(cx, so)); }
			Z3_func_decl fd = Z3_mk_func_decl(cx, Z3_mk_string_symbol(cx, (full + "_r" + std::to_string(W)).c_str()), ss.size(), ss.data(), bvs(W));
			return Z3_mk_app(cx, fd, a.size(), a.data());
		}
		Z3_ast go(T root) {
			auto it = memo.find(root);
			if (it != memo.end()) return it->second;
			// iterative post-order
			std::vector<std::pair<T, bool>> st{{root, false}};
			while (!st.empty()) {
				auto [t, done] = st.back(); st.pop_back();
				if (memo.count(t)) continue;
				if (cut && iscut(t)) { memo[t] = cutvar(t); continue; }
				if (!done) { st.push_back({t, true}); const Node &n = tm.nodes[t]; for (unsigned i = 0; i < n.nch; i++) if (!memo.count(tm.ch(t, i))) st.push_back({tm.ch(t, i), false}); continue; }
				memo[t] = one(t);
			}
			return memo[root];
		}
		bool iscut(T t) { uint8_t o = tm.op(t); return ((o >= FADD && o <= UITOF) && !(o == FROUND && tm.nodes[t].val == 2)) || ((o == UF || o == TBL) && tm.w(t) > 1); }
		Z3_ast cutvar(T t) {
			uint8_t o = tm.op(t); unsigned W = tm.w(t); Z3_ast r = fresh(W, t, "cut"); fp = true;
			if (o >= FADD && o <= FTRUNC && (W == 32 || W == 64)) side.push_back(zimp(isnan(r, W), zeq(Z3_mk_extract(cx, W == 32 ? 22 : 51, W == 32 ? 22 : 51, r), num(1, 1)))); // an operation never returns a signalling NaN
			if (o == SITOF || o == UITOF) side.push_back(znot(isnan(r, W)));
			return r;
		}
		Z3_ast frm(T t, unsigned W, Z3_ast fpres) { // exact: bit-vector whose IEEE value is fpres
			Z3_ast r = fresh(W, t, "fp");
			side.push_back(zeq(tofp(r, W), fpres));
			side.push_back(zimp(isnan(r, W), zeq(Z3_mk_extract(cx, W == 32 ? 22 : 51, W == 32 ? 22 : 51, r), num(1, 1))));
			return r;
		}
		/** Operand order of a commutative operation: a constant goes first. */
		bool flip(T t) { T x = tm.ch(t, 0), y = tm.ch(t, 1); bool cx = tm.op(x) == CONST, cy = tm.op(y) == CONST; return cx != cy ? cy : x > y; }
		/** Is t the constant +-2^k? */
		bool pow2(T t, int &k) {
			if (tm.op(t) != CONST) return false;
			unsigned W = tm.w(t), M = W == 32 ? 23 : 52; uint64_t m = tm.nodes[t].val & maskw(W - 1);
			if ((m & ((1ull << M) - 1)) || m == 0 || m >= tm.infbits(W)) return false;
			k = (int)(m >> M) - (W == 32 ? 127 : 1023); return true;
		}
		Z3_ast one(T t) {
			Node n = tm.nodes[t]; unsigned W = n.w;
			auto C = [&](unsigned i) { return bv(tm.ch(t, i)); };
			auto cw = [&](unsigned i) { return tm.w(tm.ch(t, i)); };
			Z3_ast rne = 0;
			if (n.op >= FADD && n.op <= UITOF) { fp = true; if (precise) rne = Z3_mk_fpa_rne(cx); }
			switch (n.op) {
				case CONST: return W == 1 ? (n.val ? Z3_mk_true(cx) : Z3_mk_false(cx)) : num(W, n.val);
				case VAR: { vars.push_back(t); Z3_ast v = Z3_mk_const(cx, Z3_mk_string_symbol(cx, ("v" + std::to_string(t)).c_str()), bvs(W)); return W == 1 ? zeq(v, num(1, 1)) : v; }
				case BASE: return Z3_mk_const(cx, Z3_mk_string_symbol(cx, ("base" + std::to_string(n.val)).c_str()), bvs(64));
				case UNDEFNAN: return fresh(W, t, "nan");
				case NOT: return W == 1 ? znot(go(tm.ch(t, 0))) : Z3_mk_bvnot(cx, C(0));
				case AND: case OR: case XOR: {
					if (W == 1) {
						std::vector<Z3_ast> v; for (unsigned i = 0; i < n.nch; i++) v.push_back(go(tm.ch(t, i)));
						if (n.op == AND) return zand(v); if (n.op == OR) return zor(v);
						Z3_ast r = v[0]; for (size_t i = 1; i < v.size(); i++) r = Z3_mk_xor(cx, r, v[i]); return r;
					}
					Z3_ast r = C(0); for (unsigned i = 1; i < n.nch; i++) r = n.op == AND ? Z3_mk_bvand(cx, r, C(i)) : n.op == OR ? Z3_mk_bvor(cx, r, C(i)) : Z3_mk_bvxor(cx, r, C(i)); return r;
				}
				case ADD: { Z3_ast r = C(0); for (unsigned i = 1; i < n.nch; i++) r = Z3_mk_bvadd(cx, r, C(i)); if (n.val) r = Z3_mk_bvadd(cx, r, num(W, n.val)); return r; }
				case MULC: if (n.val == maskw(W)) return Z3_mk_bvneg(cx, C(0)); return Z3_mk_bvmul(cx, C(0), num(W, n.val));
				case MUL: { Z3_ast r = C(0); for (unsigned i = 1; i < n.nch; i++) r = Z3_mk_bvmul(cx, r, C(i)); return r; }
				case UDIV: return Z3_mk_bvudiv(cx, C(0), C(1));
				case UREM: return Z3_mk_bvurem(cx, C(0), C(1));
				case SDIV: return Z3_mk_bvsdiv(cx, C(0), C(1));
				case SREM: return Z3_mk_bvsrem(cx, C(0), C(1));
				case SHL: return Z3_mk_bvshl(cx, C(0), C(1));
				case LSHR: return Z3_mk_bvlshr(cx, C(0), C(1));
				case ASHR: return Z3_mk_bvashr(cx, C(0), C(1));
				case EQ: return zeq(C(0), C(1));
				case ULT: return Z3_mk_bvult(cx, C(0), C(1));
				case SLT: return Z3_mk_bvslt(cx, C(0), C(1));
				case ITE: { Z3_ast c = go(tm.ch(t, 0)), p = go(tm.ch(t, 1)), q = go(tm.ch(t, 2)); return Z3_mk_ite(cx, c, p, q); }
				case CONCAT: { Z3_ast r = C(0); for (unsigned i = 1; i < n.nch; i++) r = Z3_mk_concat(cx, r, C(i)); return r; }
				case EXTRACT: { Z3_ast r = Z3_mk_extract(cx, n.val >> 32, (uint32_t)n.val, C(0)); return W == 1 ? zeq(r, num(1, 1)) : r; }
				case SEXT: return Z3_mk_sign_ext(cx, W - cw(0), C(0));
				case UF: { std::vector<Z3_ast> a; for (unsigned i = 0; i < n.nch; i++) a.push_back(C(i)); Z3_ast r = a.empty() ? Z3_mk_const(cx, Z3_mk_string_symbol(cx, ("uf_" + tm.names[n.val]).c_str()), bvs(W)) : ufapp("uf_" + tm.names[n.val], W, a); return W == 1 ? zeq(r, num(1, 1)) : r; }
				case TBL: {
					// child 0: byte offset. exact contents as an if-then-else tree when small enough
					uint64_t obj = n.val; Z3_ast off = C(0); unsigned bytes = W / 8;
					const std::vector<uint8_t> *by = s.tableBytes ? s.tableBytes(obj) : nullptr;
					if (precise && by && by->size() / bytes <= 1024) {
						Z3_ast r = num(W, 0);
						for (size_t o = 0; o + bytes <= by->size(); o += bytes) { uint64_t v = 0; memcpy(&v, by->data() + o, bytes); r = Z3_mk_ite(cx, zeq(off, num(64, o)), num(W, v), r); }
						return r;
					}
					if (by) { // every entry finite or not: record the value range facts
						Z3_ast r = ufapp("tbl" + std::to_string(obj), W, {off});
						if (W == 32 || W == 64) {
							bool anynan = false, anyneg = false, anyinf = false, anyzero = false;
							for (size_t o = 0; o + bytes <= by->size(); o += bytes) { uint64_t v = 0; memcpy(&v, by->data() + o, bytes); uint64_t m = v & maskw(W - 1); anynan |= m > tm.infbits(W); anyinf |= m == tm.infbits(W); anyneg |= v >> (W - 1); anyzero |= m == 0; }
							if (!anynan) side.push_back(znot(isnan(r, W)));
							if (!anyinf) side.push_back(znot(isinf(r, W)));
							if (!anyneg) side.push_back(znot(sgn(r, W)));
							if (!anyzero) side.push_back(znot(iszero(r, W)));
						}
						return r;
					}
					return ufapp("tbl" + std::to_string(obj), W, {off});
				}
				case FNAN: { unsigned w0 = cw(0); return isnan(C(0), w0); }
				case FEQ: { unsigned w0 = cw(0); Z3_ast a = C(0), b = C(1);
					return zand({znot(isnan(a, w0)), znot(isnan(b, w0)), zor({zeq(a, b), zand({iszero(a, w0), iszero(b, w0)})})}); }
				case FLT: { unsigned w0 = cw(0); Z3_ast a = C(0), b = C(1), sa = sgn(a, w0), sb = sgn(b, w0);
					return zand({znot(isnan(a, w0)), znot(isnan(b, w0)), Z3_mk_ite(cx, sa, Z3_mk_ite(cx, sb, Z3_mk_bvult(cx, mag(b, w0), mag(a, w0)), znot(zand({iszero(a, w0), iszero(b, w0)}))),
						Z3_mk_ite(cx, sb, Z3_mk_false(cx), Z3_mk_bvult(cx, mag(a, w0), mag(b, w0))))}); }
				case FADD: {
					Z3_ast a = C(0), b = C(1);
					if (precise) return frm(t, W, Z3_mk_fpa_add(cx, rne, tofp(a, W), tofp(b, W)));
					if (flip(t)) std::swap(a, b); // commutative up to the payload of a NaN
					Z3_ast r = ufapp("fadd", W, {a, b});
					Z3_ast na = isnan(a, W), nb = isnan(b, W), ia = isinf(a, W), ib = isinf(b, W), sa = sgn(a, W), sb = sgn(b, W), nr = isnan(r, W), same = Z3_mk_iff(cx, sa, sb);
					side.push_back(Z3_mk_iff(cx, nr, zor({na, nb, zand({ia, ib, znot(same)})})));
					side.push_back(zimp(zand({ia, znot(nr)}), zeq(r, a)));
					side.push_back(zimp(zand({ib, znot(nr)}), zeq(r, b)));
					Z3_ast za = iszero(a, W), zb = iszero(b, W);
					side.push_back(zimp(zand({za, znot(nr), znot(zb)}), zeq(r, b)));
					side.push_back(zimp(zand({zb, znot(nr), znot(za)}), zeq(r, a)));
					side.push_back(zimp(zand({za, zb}), zeq(r, Z3_mk_ite(cx, zand({sa, sb}), a, num(W, 0)))));
					side.push_back(zimp(zand({same, znot(nr)}), Z3_mk_iff(cx, sgn(r, W), sa)));
					side.push_back(zimp(zand({same, znot(nr)}), zand({Z3_mk_bvuge(cx, mag(r, W), mag(a, W)), Z3_mk_bvuge(cx, mag(r, W), mag(b, W))})));
					side.push_back(zimp(zand({znot(same), znot(nr)}), Z3_mk_ite(cx, Z3_mk_bvult(cx, mag(a, W), mag(b, W)), zand({Z3_mk_iff(cx, sgn(r, W), sb), Z3_mk_bvule(cx, mag(r, W), mag(b, W)), znot(iszero(r, W))}),
						Z3_mk_ite(cx, zeq(mag(a, W), mag(b, W)), zeq(r, num(W, 0)), zand({Z3_mk_iff(cx, sgn(r, W), sa), Z3_mk_bvule(cx, mag(r, W), mag(a, W)), znot(iszero(r, W))})))));
					return r;
				}
				case FMUL: {
					Z3_ast a = C(0), b = C(1);
					if (precise) return frm(t, W, Z3_mk_fpa_mul(cx, rne, tofp(a, W), tofp(b, W)));
					if (flip(t)) std::swap(a, b); // commutative up to the payload of a NaN
					Z3_ast r = ufapp("fmul", W, {a, b});
					Z3_ast na = isnan(a, W), nb = isnan(b, W), ia = isinf(a, W), ib = isinf(b, W), za = iszero(a, W), zb = iszero(b, W), nr = isnan(r, W);
					side.push_back(Z3_mk_iff(cx, nr, zor({na, nb, zand({ia, zb}), zand({za, ib})})));
					side.push_back(zimp(znot(nr), Z3_mk_iff(cx, sgn(r, W), Z3_mk_xor(cx, sgn(a, W), sgn(b, W)))));
					side.push_back(zimp(zand({znot(nr), zor({ia, ib})}), isinf(r, W)));
					side.push_back(zimp(zand({znot(nr), zor({za, zb})}), iszero(r, W)));
					Z3_ast one_ = num(W - 1, tm.onebits(W));
					side.push_back(zimp(zand({znot(nr), zeq(mag(a, W), one_)}), zeq(mag(r, W), mag(b, W))));
					side.push_back(zimp(zand({znot(nr), zeq(mag(b, W), one_)}), zeq(mag(r, W), mag(a, W))));
					side.push_back(zimp(zand({znot(nr), Z3_mk_bvule(cx, mag(a, W), one_)}), Z3_mk_bvule(cx, mag(r, W), mag(b, W))));
					side.push_back(zimp(zand({znot(nr), Z3_mk_bvule(cx, mag(b, W), one_)}), Z3_mk_bvule(cx, mag(r, W), mag(a, W))));
					// exponents: a product whose exponent is out of reach overflows, or is below half of the least subnormal
					unsigned M = W == 32 ? 23 : 52, X = W == 32 ? 8 : 11; int bias = W == 32 ? 127 : 1023, emx = W == 32 ? 255 : 2047;
					auto ex = [&](Z3_ast x) { return Z3_mk_zero_ext(cx, 16 - X, Z3_mk_extract(cx, W - 2, M, x)); };
					auto nrm = [&](Z3_ast x) { return znot(zeq(Z3_mk_extract(cx, W - 2, M, x), num(X, 0))); };
					Z3_ast es = Z3_mk_bvsub(cx, Z3_mk_bvadd(cx, ex(a), ex(b)), num(16, bias));
					side.push_back(zimp(zand({znot(nr), nrm(a), nrm(b), Z3_mk_bvsge(cx, es, num(16, emx))}), isinf(r, W)));
					side.push_back(zimp(zand({znot(nr), znot(ia), znot(ib), Z3_mk_bvsle(cx, es, num(16, (uint16_t)(-(int)M - 2)))}), iszero(r, W)));
					for (int i = 0, k; i < 2; i++) if (pow2(tm.ch(t, i), k)) {
						// a factor 2^k: exact on normal operands while the result is normal
						Z3_ast x = (bool)i != flip(t) ? a : b; Z3_ast e = Z3_mk_bvadd(cx, ex(x), num(16, (uint16_t)k));
						side.push_back(zimp(zand({znot(nr), nrm(x), znot(isinf(x, W)), Z3_mk_bvsge(cx, e, num(16, 1)), Z3_mk_bvslt(cx, e, num(16, emx))}), zeq(mag(r, W), Z3_mk_bvadd(cx, mag(x, W), num(W - 1, ((uint64_t)(int64_t)k << M) & maskw(W - 1))))));
						if (k <= 0) continue;
						// k > 0: no smaller in magnitude; a subnormal factor gives a result below 2^k times the least normal, and not below 2^k times the least subnormal
						side.push_back(zimp(znot(nr), Z3_mk_bvuge(cx, mag(r, W), mag(x, W))));
						Z3_ast subn = zand({Z3_mk_bvult(cx, mag(x, W), num(W - 1, 1ull << M)), znot(iszero(x, W))});
						if ((uint64_t)(k + 1) << M < tm.infbits(W)) side.push_back(zimp(subn, Z3_mk_bvult(cx, mag(r, W), num(W - 1, (uint64_t)(k + 1) << M))));
						if ((uint64_t)k >= M && (uint64_t)(k - M + 1) << M < tm.infbits(W)) side.push_back(zimp(subn, Z3_mk_bvuge(cx, mag(r, W), num(W - 1, (uint64_t)(k - M + 1) << M))));
					}
					return r;
				}
				case FDIV: {
					Z3_ast a = C(0), b = C(1);
					if (precise) return frm(t, W, Z3_mk_fpa_div(cx, rne, tofp(a, W), tofp(b, W)));
					Z3_ast r = ufapp("fdiv", W, {a, b});
					Z3_ast na = isnan(a, W), nb = isnan(b, W), ia = isinf(a, W), ib = isinf(b, W), za = iszero(a, W), zb = iszero(b, W), nr = isnan(r, W);
					side.push_back(Z3_mk_iff(cx, nr, zor({na, nb, zand({ia, ib}), zand({za, zb})})));
					side.push_back(zimp(znot(nr), Z3_mk_iff(cx, sgn(r, W), Z3_mk_xor(cx, sgn(a, W), sgn(b, W)))));
					side.push_back(zimp(zand({znot(nr), zor({ia, zb})}), isinf(r, W)));
					side.push_back(zimp(zand({znot(nr), zor({za, ib})}), iszero(r, W)));
					return r;
				}
				case FSQRT: {
					Z3_ast a = C(0);
					if (precise) return frm(t, W, Z3_mk_fpa_sqrt(cx, rne, tofp(a, W)));
					Z3_ast r = ufapp("fsqrt", W, {a});
					Z3_ast na = isnan(a, W), za = iszero(a, W), nr = isnan(r, W);
					side.push_back(Z3_mk_iff(cx, nr, zor({na, zand({sgn(a, W), znot(za)})})));
					side.push_back(zimp(za, zeq(r, a)));
					side.push_back(zimp(znot(zor({nr, za})), zand({znot(sgn(r, W)), znot(iszero(r, W)), Z3_mk_iff(cx, isinf(r, W), isinf(a, W))})));
					return r;
				}
				case FMA: {
					Z3_ast a = C(0), b = C(1), c = C(2);
					if (precise) return frm(t, W, Z3_mk_fpa_fma(cx, rne, tofp(a, W), tofp(b, W), tofp(c, W)));
					Z3_ast r = ufapp("fma", W, {a, b, c});
					Z3_ast na = isnan(a, W), nb = isnan(b, W), nc = isnan(c, W), ia = isinf(a, W), ib = isinf(b, W), ic = isinf(c, W), za = iszero(a, W), zb = iszero(b, W), nr = isnan(r, W);
					Z3_ast bad = zor({na, nb, nc, zand({ia, zb}), zand({za, ib}), zand({zor({ia, ib}), ic, Z3_mk_xor(cx, Z3_mk_xor(cx, sgn(a, W), sgn(b, W)), sgn(c, W))})});
					side.push_back(Z3_mk_iff(cx, nr, bad));
					side.push_back(zimp(zand({znot(nr), ic}), zeq(r, c)));
					side.push_back(zimp(zand({znot(nr), zor({ia, ib})}), zand({isinf(r, W), Z3_mk_iff(cx, sgn(r, W), Z3_mk_xor(cx, sgn(a, W), sgn(b, W)))})));
					side.push_back(zimp(zand({znot(nr), zor({za, zb}), znot(iszero(c, W))}), zeq(r, c)));
					side.push_back(zimp(zand({znot(nr), znot(Z3_mk_xor(cx, Z3_mk_xor(cx, sgn(a, W), sgn(b, W)), sgn(c, W)))}), Z3_mk_iff(cx, sgn(r, W), sgn(c, W))));
					side.push_back(zimp(zand({zor({za, zb}), iszero(c, W), znot(nr)}), iszero(r, W)));
					return r;
				}
				case FROUND: {
					Z3_ast a = C(0);
					if (precise) {
						Z3_ast rm = n.val == 0 ? Z3_mk_fpa_rtn(cx) : n.val == 1 ? Z3_mk_fpa_rtp(cx) : n.val == 2 ? Z3_mk_fpa_rtz(cx) : n.val == 3 ? Z3_mk_fpa_rne(cx) : Z3_mk_fpa_rna(cx);
						return frm(t, W, Z3_mk_fpa_round_to_integral(cx, rm, tofp(a, W)));
					}
					if (cut) { // towards zero: the bits below the units are cleared
						unsigned M = W == 32 ? 23 : 52, X = W == 32 ? 8 : 11; uint64_t bias = W == 32 ? 127 : 1023;
						Z3_ast ex = Z3_mk_zero_ext(cx, W - X, Z3_mk_extract(cx, W - 2, M, a));
						Z3_ast low = Z3_mk_bvlshr(cx, num(W, (1ull << M) - 1), Z3_mk_bvsub(cx, ex, num(W, bias)));
						return Z3_mk_ite(cx, isnan(a, W), Z3_mk_bvor(cx, a, num(W, 1ull << (M - 1))), Z3_mk_ite(cx, Z3_mk_bvult(cx, ex, num(W, bias)), Z3_mk_bvand(cx, a, num(W, 1ull << (W - 1))),
							Z3_mk_ite(cx, Z3_mk_bvuge(cx, ex, num(W, bias + M)), a, Z3_mk_bvand(cx, a, Z3_mk_bvnot(cx, low)))));
					}
					Z3_ast r = ufapp("fround" + std::to_string(n.val), W, {a});
					side.push_back(Z3_mk_iff(cx, isnan(r, W), isnan(a, W)));
					Z3_ast big = num(W - 1, W == 32 ? 0x4b000000ull : 0x4330000000000000ull);
					side.push_back(zimp(zand({znot(isnan(a, W)), zor({iszero(a, W), Z3_mk_bvuge(cx, mag(a, W), big)})}), zeq(r, a)));
					side.push_back(zimp(znot(isnan(a, W)), Z3_mk_iff(cx, sgn(r, W), sgn(a, W))));
					side.push_back(zimp(Z3_mk_bvult(cx, mag(a, W), big), Z3_mk_bvule(cx, mag(r, W), big)));
					return r;
				}
				case FEXT: {
					Z3_ast a = C(0);
					if (precise) return frm(t, 64, Z3_mk_fpa_to_fp_float(cx, rne, tofp(a, 32), fps(64)));
					Z3_ast r = ufapp("fext", 64, {a});
					side.push_back(Z3_mk_iff(cx, isnan(r, 64), isnan(a, 32)));
					side.push_back(Z3_mk_iff(cx, isinf(r, 64), isinf(a, 32)));
					side.push_back(Z3_mk_iff(cx, iszero(r, 64), iszero(a, 32)));
					side.push_back(zimp(znot(isnan(a, 32)), Z3_mk_iff(cx, sgn(r, 64), sgn(a, 32))));
					return r;
				}
				case FTRUNC: {
					Z3_ast a = C(0);
					if (precise) return frm(t, 32, Z3_mk_fpa_to_fp_float(cx, rne, tofp(a, 64), fps(32)));
					Z3_ast r = ufapp("ftrunc", 32, {a});
					side.push_back(Z3_mk_iff(cx, isnan(r, 32), isnan(a, 64)));
					side.push_back(zimp(isinf(a, 64), isinf(r, 32)));
					side.push_back(zimp(iszero(a, 64), iszero(r, 32)));
					side.push_back(zimp(znot(isnan(a, 64)), Z3_mk_iff(cx, sgn(r, 32), sgn(a, 64))));
					return r;
				}
				case SITOF: case UITOF: {
					Z3_ast a = C(0); unsigned w0 = cw(0);
					if (precise) return frm(t, W, n.op == SITOF ? Z3_mk_fpa_to_fp_signed(cx, rne, a, fps(W)) : Z3_mk_fpa_to_fp_unsigned(cx, rne, a, fps(W)));
					Z3_ast r = ufapp(n.op == SITOF ? "sitof" : "uitof", W, {a});
					side.push_back(znot(isnan(r, W))); side.push_back(znot(isinf(r, W)));
					side.push_back(Z3_mk_iff(cx, iszero(r, W), zeq(a, num(w0, 0))));
					side.push_back(Z3_mk_iff(cx, sgn(r, W), n.op == UITOF ? Z3_mk_false(cx) : Z3_mk_bvslt(cx, a, num(w0, 0))));
					return r;
				}
				case FTOSI: case FTOUI: {
					Z3_ast a = C(0); unsigned w0 = cw(0);
					if (!precise) return ufapp(n.op == FTOSI ? "ftosi" : "ftoui", W, {a});
					Z3_ast x = tofp(a, w0), rtz = Z3_mk_fpa_rtz(cx);
					unsigned mb = w0 == 32 ? 24 : 53;
					if (n.op == FTOSI) {
						Z3_ast hi = Z3_mk_fpa_lt(cx, x, Z3_mk_fpa_numeral_double(cx, std::ldexp(1.0, W - 1), fps(w0)));
						Z3_ast lo = mb >= W ? Z3_mk_fpa_gt(cx, x, Z3_mk_fpa_numeral_double(cx, -std::ldexp(1.0, W - 1) - 1, fps(w0))) : Z3_mk_fpa_geq(cx, x, Z3_mk_fpa_numeral_double(cx, -std::ldexp(1.0, W - 1), fps(w0)));
						return Z3_mk_ite(cx, zand({hi, lo}), Z3_mk_fpa_to_sbv(cx, rtz, x, W), num(W, 1ull << (W - 1)));
					}
					Z3_ast hi = Z3_mk_fpa_lt(cx, x, Z3_mk_fpa_numeral_double(cx, std::ldexp(1.0, W), fps(w0)));
					Z3_ast lo = Z3_mk_fpa_gt(cx, x, Z3_mk_fpa_numeral_double(cx, -1.0, fps(w0)));
					return Z3_mk_ite(cx, zand({hi, lo}), Z3_mk_fpa_to_ubv(cx, rtz, x, W), fresh(W, t, "oob"));
				}
			}
			throw Unsupported(std::string("smt: op ") + opname(n.op));
		}
	};

	bool hasFP(const std::vector<T> &roots) {
		std::unordered_set<T> seen; std::vector<T> st(roots);
		while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; uint8_t o = tm.op(t); if ((o >= FADD && o <= UITOF) || o == TBL) return true; for (unsigned i = 0; i < tm.nodes[t].nch; i++) st.push_back(tm.ch(t, i)); }
		return false;
	}

	// satisfiability of the conjunction
	Res inproc(const std::vector<T> &conj, bool precise, Model *m, unsigned ms, bool cut = false) {
		auto t0 = std::chrono::steady_clock::now();
		nquery++; init();
		Z3_solver s = Z3_mk_solver(cx); Z3_solver_inc_ref(cx, s);
		Z3_params p = Z3_mk_params(cx); Z3_params_inc_ref(cx, p);
		Z3_params_set_uint(cx, p, Z3_mk_string_symbol(cx, "timeout"), ms);
		Z3_solver_set_params(cx, s, p);
		Enc e(*this, precise); e.cut = cut;
		for (T t : conj) Z3_solver_assert(cx, s, e.go(t));
		for (auto a : e.side) Z3_solver_assert(cx, s, a);
		Z3_lbool r = Z3_solver_check(cx, s);
		if (r == Z3_L_TRUE && m) {
			Z3_model mo = Z3_solver_get_model(cx, s); Z3_model_inc_ref(cx, mo);
			for (T v : e.vars) {
				unsigned W = tm.w(v);
				Z3_ast c = Z3_mk_const(cx, Z3_mk_string_symbol(cx, ("v" + std::to_string(v)).c_str()), Z3_mk_bv_sort(cx, W));
				Z3_ast out; if (Z3_model_eval(cx, mo, c, true, &out)) { uint64_t x = 0; Z3_get_numeral_uint64(cx, out, &x); m->vals[tm.names[tm.nodes[v].val]] = x; }
			}
			if (getenv("IRVC_DUMP")) m->text = std::string(Z3_model_to_string(cx, mo)) + "\n";
			Z3_model_dec_ref(cx, mo);
		}
		Z3_params_dec_ref(cx, p); Z3_solver_dec_ref(cx, s);
		z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
	}

	// external portfolio on the exact encoding
	Res external(const std::vector<T> &conj, Model *m, unsigned secs, std::string *who) {
		init(); auto t0 = std::chrono::steady_clock::now();
		Enc e(*this, true);
		std::vector<Z3_ast> as;
		for (T t : conj) as.push_back(e.go(t));
		as.insert(as.end(), e.side.begin(), e.side.end());
		Z3_set_ast_print_mode(cx, Z3_PRINT_SMTLIB2_COMPLIANT);
		Z3_solver s = Z3_mk_solver(cx); Z3_solver_inc_ref(cx, s);
		for (auto a : as) Z3_solver_assert(cx, s, a);
		std::string txt = Z3_solver_to_string(cx, s);
		Z3_solver_dec_ref(cx, s);
		static int cnt = 0;
		std::string f = tmpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(cnt++) + ".smt2";
		{ std::ofstream o(f); o << "(set-option :produce-models true)\n(set-logic ALL)\n" << txt << "\n(check-sat)\n(get-value ("; bool any = false; for (T v : e.vars) { o << "v" << v << " "; any = true; } if (!any) o << "true"; o << "))\n"; }
		struct P { pid_t pid; std::string out, name; };
		std::vector<P> ps;
		auto spawn = [&](const std::string &name, std::vector<std::string> argv) {
			std::string out = f + "." + name;
			pid_t pid = fork();
			if (!pid) {
				setpgid(0, 0);
				int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2);
				std::vector<char *> av; for (auto &a : argv) av.push_back((char *)a.c_str()); av.push_back(nullptr);
				execvp(av[0], av.data()); _exit(127);
			}
			ps.push_back({pid, out, name});
		};
		std::string T_ = std::to_string(secs);
		spawn("z3-new", {"z3-new", "-T:" + T_, f});
		spawn("z3", {"z3", "-T:" + T_, f});
		spawn("cvc5", {"cvc5", "--tlimit=" + T_ + "000", "--fp-exp", f});
		Res r = UNKNOWN; size_t live = ps.size();
		while (live && r == UNKNOWN) {
			int st; pid_t pid = waitpid(-1, &st, WNOHANG);
			if (pid > 0) {
				for (auto &p : ps) if (p.pid == pid) {
					live--; p.pid = 0;
					std::ifstream in(p.out); std::string line; std::getline(in, line);
					if (line == "unsat") { r = UNSAT; if (who) *who = p.name; }
					else if (line == "sat") {
						r = SAT; if (who) *who = p.name;
						if (m) { std::string all((std::istreambuf_iterator<char>(in)), {}); for (T v : e.vars) { std::string key = "(v" + std::to_string(v) + " "; size_t k = all.find(key); if (k == std::string::npos) continue; k += key.size(); uint64_t x = 0; if (all.compare(k, 2, "#x") == 0) x = strtoull(all.c_str() + k + 2, nullptr, 16); else if (all.compare(k, 2, "#b") == 0) x = strtoull(all.c_str() + k + 2, nullptr, 2); else if (all.compare(k, 6, "(_ bv ") == 0 || all.compare(k, 5, "(_ bv") == 0) x = strtoull(all.c_str() + k + 5, nullptr, 10); m->vals[tm.names[tm.nodes[v].val]] = x; } }
					}
				}
			} else usleep(3000);
			if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs + 5) break;
		}
		for (auto &p : ps) { if (p.pid) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } unlink(p.out.c_str()); }
		if (!getenv("IRVC_KEEP")) unlink(f.c_str());
		exttime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		return r;
	}
};
