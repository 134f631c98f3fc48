#include "exec.hpp"
#include "sweep.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/MemoryBuffer.h>
#include <iostream>
#include <sstream>

static bool starts(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }
static bool has(const std::string &s, const char *p) { return s.find(p) != std::string::npos; }

Val Exec::call(Frame &F, State &st, const CallInst &C) {
	if (C.isInlineAsm()) {
		auto *ia = cast<InlineAsm>(C.getCalledOperand()); std::string as = ia->getAsmString(), cs = ia->getConstraintString();
		bool vr = has(cs, "{xmm1}") || has(cs, "{ymm1}") || has(as, "xmm1") || has(as, "ymm1");
		if (C.arg_size() == 1 && C.getType()->isVoidTy() && C.getArgOperand(0)->getType()->isVectorTy() && (vr || as.empty())) { st.xmm1 = Val{cat(eval(F, C.getArgOperand(0)))}; return {}; }
		if (C.arg_size() == 0 && C.getType()->isVectorTy() && (vr || as.empty())) { if (st.xmm1.empty()) unsup("register read before write"); T x = st.xmm1[0]; unsigned W = DL.getTypeSizeInBits(C.getType()); if (tm.w(x) != W) unsup("register width"); return uncat(x, C.getType()); }
		if (C.getType()->isVoidTy() && C.arg_size() == 1 && C.getArgOperand(0)->getType()->isPointerTy() && vr) {
			// memory operand form: mov to memory
			Type *et = C.getParamElementType(0); if (!et) unsup("asm operand");
			if (cs[0] == '=') { if (st.xmm1.empty()) unsup("register read before write"); store(st, eval(F, C.getArgOperand(0))[0], et, uncat(st.xmm1[0], et), 1); return {}; }
			st.xmm1 = Val{cat(load(st, eval(F, C.getArgOperand(0))[0], et, 1))}; return {};
		}
		// The processor: cpuid is a function of leaf and subleaf, xgetbv of the register number. A register that is not an input has any value.
		const bool isid = has(as, "cpuid"), isxcr = has(as, "xgetbv") || has(as, "0x0F, 0x01, 0xd0") || has(as, "0x0f, 0x01, 0xd0");
		if (isid || isxcr) {
			auto pc = ia->ParseConstraints(); std::vector<int> outs; std::string in[4]; constexpr T none = ~0u; T eax = none, ecx = none; unsigned arg = 0; std::vector<std::string> code;
			auto reg = [&](const InlineAsm::ConstraintInfo &ci) -> std::string { return ci.Codes.empty() ? "" : ci.Codes[0]; };
			for (auto &ci : pc) { code.push_back(reg(ci));
				if (ci.Type == InlineAsm::isOutput) { if (ci.isIndirect) unsup("cpuid operand"); std::string c = reg(ci); outs.push_back(c == "{ax}" ? 0 : c == "{cx}" ? 2 : c == "{dx}" ? 3 : 1); }
				else if (ci.Type == InlineAsm::isInput) { T v = eval(F, C.getArgOperand(arg++))[0]; std::string c = reg(ci); if (!c.empty() && isdigit((unsigned char)c[0])) c = code[atoi(c.c_str())]; if (tm.w(v) != 32) v = tm.w(v) > 32 ? tm.extract(v, 31, 0) : tm.zext(v, 32); if (c == "{ax}") eax = v; else if (c == "{cx}") ecx = v; }
			}
			if (isid && eax == none) eax = freshv(32, "eax"); if (ecx == none) ecx = freshv(32, "ecx");
			if (isid && tm.isC(eax) && tm.cv(eax) <= 1) ecx = tm.konst(32, 0); // leaves 0 and 1 have no subleaves
			Val r; for (int o : outs) { std::string nm = isid ? "cpuid" : "xcr"; T x = tm.uf(nm + std::to_string(o), 32, isid ? std::vector<T>{eax, ecx} : std::vector<T>{ecx}); r.push_back(x); }
			return r;
		}
		unsup("inline asm '" + as + "' constraints '" + cs + "'");
	}
	const Function *f = C.getCalledFunction();
	std::vector<Val> a;
	if (!f) {
		Addr ad; T p;
		if (auto *cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCastsAndAliases())) f = cf;
		else if (p = eval(F, C.getCalledOperand())[0], resolve(p, ad) && fobj.count(ad.obj)) f = fobj[ad.obj];
		else unsup("indirect call");
	}
	if (f->isIntrinsic()) {
		Intrinsic::ID id = f->getIntrinsicID();
		switch (id) { case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: return {}; default: break; }
	}
	for (auto &x : C.args()) a.push_back(eval(F, x));
	std::string n = f->getName().str();
	if (f->isIntrinsic()) { std::string nn = n; auto p = nn.find(".v"); intrinsicsUsed.insert(starts(n, "llvm.x86") ? n : p != std::string::npos ? nn.substr(0, p) : nn); if (starts(n, "llvm.x86.")) return x86(F, st, C, n.substr(9), a); return intrinsic(F, st, C, f, a); }
	if (starts(n, "vc_") && !starts(n, "vc__")) return vcapi(F, st, C, n, a);
	if (!f->isDeclaration()) return callFn(st, f, a, &C);
	return libcall(F, st, C, n, a);
}

Val Exec::vcapi(Frame &F, State &st, const CallInst &C, const std::string &n, std::vector<Val> &a) {
	if (starts(n, "vc_any")) {
		unsigned W = atoi(n.c_str() + 6); std::string nm = cstr(st, a[0][0]) + "#" + std::to_string(anyOrder.size());
		anyOrder.push_back(nm); anyWidth.push_back(W); return Val{tm.var(W, nm)};
	}
	if (n == "vc_alloc") { if (!tm.isC(a[0][0]) || !tm.isC(a[1][0])) unsup("vc_alloc"); return Val{tm.base(newObj(st, tm.cv(a[0][0]), tm.cv(a[1][0]), cstr(st, a[2][0])))}; }
	if (n == "vc_assume") { T c = tm.extract(a[0][0], 0, 0); if (c == tm.tTrue) return {}; if (c == tm.tFalse) { st.dead = true; return {}; } st.pc.push_back(c); return {}; }
	if (n == "vc_assert") { oblige(st, "assert", cstr(st, a[1][0]), tm.extract(a[0][0], 0, 0)); return {}; }
	if (n == "vc_cover") { coverPc.push_back({cstr(st, a[0][0]), st.pc}); return {}; }
	if (n == "vc_rounding") { anyDirection = true; return {}; } // from here on the current rounding direction is arbitrary
	if (starts(n, "vc_same")) return Val{tm.zext(tm.fsame(a[0][0], a[1][0]), scalarBits(C.getType()))};
	if (starts(n, "vc_uf")) { unsigned W = atoi(n.c_str() + 5); std::vector<T> v; for (size_t i = 1; i < a.size(); i++) for (T x : a[i]) v.push_back(x); return Val{tm.uf(cstr(st, a[0][0]), W, v)}; }
	if (starts(n, "vc_fold")) { // structural: the result is built from + (or *) alone and its leaves are exactly the given values, each once (and neutral constants)
		unsigned W = atoi(n.c_str() + 7); uint8_t op = tm.cv(a[0][0]) ? FMUL : FADD; uint64_t neutral = tm.cv(a[0][0]) ? (W == 32 ? 0x3f800000u : 0x3ff0000000000000ull) : 0; if (!tm.isC(a[3][0])) unsup("vc_fold");
		Val x = load(st, a[2][0], ArrayType::get(Type::getIntNTy(M.getContext(), W), tm.cv(a[3][0])), 1); if (st.dead) return {};
		std::vector<T> want(x.begin(), x.end()), got, work{a[1][0]}; bool ok = true;
		while (!work.empty()) { T t = work.back(); work.pop_back(); if (tm.op(t) == op) { work.push_back(tm.ch(t, 0)); work.push_back(tm.ch(t, 1)); } else if (tm.isC(t) && (tm.cv(t) == neutral || (!tm.cv(a[0][0]) && tm.cv(t) == 1ull << (W - 1)))) continue; else got.push_back(t); if (got.size() > 4096) { ok = false; break; } }
		std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); return Val{tm.zext(tm.b(ok && want == got), scalarBits(C.getType()))};
	}
	if (n == "vc_cpuid") { if (!tm.isC(a[2][0])) unsup(n); return Val{tm.uf("cpuid" + std::to_string(tm.cv(a[2][0])), 32, {a[0][0], a[1][0]})}; }
	if (n == "vc_xcr0") return Val{tm.uf("xcr0", 32, {tm.konst(32, 0)})};
	if (n == "vc_constexpr") return Val{tm.tTrue};
	unsup("unknown " + n);
}

Val Exec::intrinsic(Frame &F, State &st, const CallInst &C, const Function *f, std::vector<Val> &a) {
	Val r; Intrinsic::ID id = f->getIntrinsicID();
	auto map1 = [&](auto g) { for (T x : a[0]) r.push_back(g(x)); return r; };
	auto map2 = [&](auto g) { for (size_t i = 0; i < a[0].size(); i++) r.push_back(g(a[0][i], a[1][i])); return r; };
	switch (id) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { T n = a[2][0]; if (!tm.isC(n)) unsup("symbolic memcpy length"); copyBytes(st, a[0][0], a[1][0], tm.cv(n)); return r; }
		case Intrinsic::memset: case Intrinsic::memset_inline: { T n = a[2][0]; if (!tm.isC(n)) unsup("symbolic memset length"); if (!tm.cv(n)) return r; Val v; for (uint64_t i = 0; i < tm.cv(n); i++) v.push_back(a[1][0]); store(st, a[0][0], ArrayType::get(Type::getInt8Ty(M.getContext()), tm.cv(n)), v, 1); return r; }
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ssa_copy: return a[0];
		case Intrinsic::stacksave: return Val{tm.konst(64, 0)};
		case Intrinsic::stackrestore: return r;
		case Intrinsic::ptrmask: return Val{tm.band(a[0][0], a[1][0])};
		case Intrinsic::is_constant: return Val{tm.b(tm.isC(a[0][0]))};
		case Intrinsic::objectsize: return Val{tm.konst(scalarBits(C.getType()), ~0ull)};
		case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: oblige(st, "unreachable", "trap", tm.tFalse); st.dead = true; return r;
		case Intrinsic::fabs: return map1([&](T x) { return tm.fabs(x); });
		case Intrinsic::copysign: return map2([&](T x, T y) { unsigned W = tm.w(x); return tm.concat2(tm.extract(y, W - 1, W - 1), tm.extract(x, W - 2, 0)); });
		case Intrinsic::sqrt: return map1([&](T x) { return tm.fsqrt(x); });
		case Intrinsic::floor: return map1([&](T x) { return tm.fround(0, x); });
		case Intrinsic::ceil: return map1([&](T x) { return tm.fround(1, x); });
		case Intrinsic::trunc: return map1([&](T x) { return tm.fround(2, x); });
		case Intrinsic::rint: case Intrinsic::nearbyint: return map1([&](T x) { return rcur(x); });
		case Intrinsic::roundeven: return map1([&](T x) { return tm.fround(3, x); });
		case Intrinsic::round: return map1([&](T x) { return tm.fround(4, x); });
		case Intrinsic::lround: case Intrinsic::llround: return map1([&](T x) { return tm.ftosi(tm.fround(4, x), 64); });
		case Intrinsic::lrint: case Intrinsic::llrint: return map1([&](T x) { return tm.ftosi(rcur(x), 64); });
		case Intrinsic::fma: for (size_t i = 0; i < a[0].size(); i++) r.push_back(tm.fma(a[0][i], a[1][i], a[2][i])); return r;
		case Intrinsic::fmuladd: for (size_t i = 0; i < a[0].size(); i++) r.push_back(tm.fbin(FADD, tm.fbin(FMUL, a[0][i], a[1][i]), a[2][i])); return r;
		case Intrinsic::frexp: { std::string n = tm.w(a[0][0]) == 32 ? "frexpf" : "frexp"; uninterp.insert(n); std::vector<T> v{a[0][0]}; return Val{tm.uf("libm_" + n, tm.w(a[0][0]), v), tm.uf("libm_" + n + "_out", 32, v)}; }
		case Intrinsic::ldexp: { std::string n = tm.w(a[0][0]) == 32 ? "ldexpf" : "ldexp"; uninterp.insert(n); std::vector<T> v{a[0][0], a[1][0]}; return Val{tm.uf("libm_" + n, tm.w(a[0][0]), v)}; }
		case Intrinsic::minnum: return map2([&](T x, T y) { return tm.ite(tm.fnan(x), y, tm.ite(tm.fnan(y), x, tm.ite(tm.fcmp_lt(y, x), y, x))); });
		case Intrinsic::maxnum: return map2([&](T x, T y) { return tm.ite(tm.fnan(x), y, tm.ite(tm.fnan(y), x, tm.ite(tm.fcmp_lt(x, y), y, x))); });
		case Intrinsic::ctpop: return map1([&](T x) { return tm.ctpop(x); });
		case Intrinsic::cttz: return map1([&](T x) { if (tm.isC(a[1][0], 1)) oblige(st, "divzero", "count trailing zeros of zero", tm.bnot(tm.eq(x, tm.konst(tm.w(x), 0)))); return tm.cttz(x); });
		case Intrinsic::ctlz: return map1([&](T x) { if (tm.isC(a[1][0], 1)) oblige(st, "divzero", "count leading zeros of zero", tm.bnot(tm.eq(x, tm.konst(tm.w(x), 0)))); return tm.ctlz(x); });
		case Intrinsic::abs: return map1([&](T x) { return tm.ite(tm.extract(x, tm.w(x) - 1, tm.w(x) - 1), tm.neg(x), x); });
		case Intrinsic::umin: return map2([&](T x, T y) { return tm.ite(tm.ult(x, y), x, y); });
		case Intrinsic::umax: return map2([&](T x, T y) { return tm.ite(tm.ult(y, x), x, y); });
		case Intrinsic::smin: return map2([&](T x, T y) { return tm.ite(tm.slt(x, y), x, y); });
		case Intrinsic::smax: return map2([&](T x, T y) { return tm.ite(tm.slt(y, x), x, y); });
		case Intrinsic::uadd_sat: return map2([&](T x, T y) { unsigned W = tm.w(x); T s = tm.add(tm.zext(x, W + 1), tm.zext(y, W + 1)); return tm.ite(tm.extract(s, W, W), tm.ones(W), tm.extract(s, W - 1, 0)); });
		case Intrinsic::usub_sat: return map2([&](T x, T y) { return tm.ite(tm.ult(y, x), tm.sub(x, y), tm.konst(tm.w(x), 0)); });
		case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: return map2([&](T x, T y) { unsigned W = tm.w(x); T X = tm.sext(x, W + 1), Y = tm.sext(y, W + 1), s = id == Intrinsic::sadd_sat ? tm.add(X, Y) : tm.sub(X, Y), neg = tm.extract(s, W, W); return tm.ite(tm.eq(neg, tm.extract(s, W - 1, W - 1)), tm.extract(s, W - 1, 0), tm.ite(neg, tm.konst(W, 1ull << (W - 1)), tm.konst(W, (1ull << (W - 1)) - 1))); });
		case Intrinsic::bswap: return map1([&](T x) { std::vector<T> p; for (unsigned i = 0; i < tm.w(x); i += 8) p.push_back(tm.extract(x, i + 7, i)); return tm.concat(p); });
		case Intrinsic::fshl: for (size_t i = 0; i < a[0].size(); i++) { T s = a[2][i]; if (!tm.isC(s)) unsup("fshl"); unsigned W = tm.w(a[0][i]), k = tm.cv(s) % W; r.push_back(k ? tm.extract(tm.concat2(a[0][i], a[1][i]), 2 * W - 1 - k, W - k) : a[0][i]); } return r;
		case Intrinsic::is_fpclass: {
			if (!tm.isC(a[1][0])) unsup("is.fpclass"); uint64_t m = tm.cv(a[1][0]);
			return map1([&](T x) {
				unsigned W = tm.w(x), mb = tm.mbits(W); T s = tm.extract(x, W - 1, W - 1), mag = tm.extract(x, W - 2, 0), man = tm.extract(x, mb - 1, 0), ex = tm.extract(x, W - 2, mb);
				T nan = tm.fnan(x), q = tm.extract(x, mb - 1, mb - 1), inf = tm.eq(mag, tm.konst(W - 1, tm.infbits(W))), zero = tm.eq(mag, tm.konst(W - 1, 0)), e0 = tm.eq(ex, tm.konst(tm.w(ex), 0)), sub = tm.band(e0, tm.bnot(tm.eq(man, tm.konst(mb, 0)))), nor = tm.bnot(tm.bor(e0, tm.eq(ex, tm.ones(tm.w(ex)))));
				T res = tm.tFalse; auto add = [&](unsigned bit, T c) { if (m >> bit & 1) res = tm.bor(res, c); };
				T ns = tm.bnot(s); add(0, tm.band(nan, tm.bnot(q))); add(1, tm.band(nan, q)); add(2, tm.band(s, inf)); add(3, tm.band(s, nor)); add(4, tm.band(s, sub)); add(5, tm.band(s, zero)); add(6, tm.band(ns, zero)); add(7, tm.band(ns, sub)); add(8, tm.band(ns, nor)); add(9, tm.band(ns, inf));
				return res; });
		}
		case Intrinsic::vector_reduce_and: { T x = a[0][0]; for (T y : a[0]) x = tm.band(x, y); return Val{x}; }
		case Intrinsic::vector_reduce_or: { T x = a[0][0]; for (T y : a[0]) x = tm.bor(x, y); return Val{x}; }
		case Intrinsic::vector_reduce_add: { T x = a[0][0]; for (size_t i = 1; i < a[0].size(); i++) x = tm.add(x, a[0][i]); return Val{x}; }
		case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: {
			T x = a[0][0], y = a[1][0]; unsigned W = tm.w(x); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow, ad = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow;
			if (W >= 64) unsup("overflow intrinsic"); T X = sg ? tm.sext(x, W + 1) : tm.zext(x, W + 1), Y = sg ? tm.sext(y, W + 1) : tm.zext(y, W + 1), S = ad ? tm.add(X, Y) : tm.sub(X, Y), R = tm.extract(S, W - 1, 0);
			return Val{R, sg ? tm.bnot(tm.eq(tm.sext(R, W + 1), S)) : tm.extract(S, W, W)}; }
		default: unsup("intrinsic " + f->getName().str());
	}
}

Val Exec::x86(Frame &F, State &st, const CallInst &C, const std::string &n, std::vector<Val> &a) {
	Val r; Type *RT = C.getType();
	auto sz = [&](size_t i) { return a[i].size(); };
	auto boolres = [&](T c) { return Val{tm.zext(c, scalarBits(RT))}; };
	auto imm = [&](size_t i) { if (!tm.isC(a[i][0])) unsup("non-constant immediate"); return tm.cv(a[i][0]); };
	auto msb = [&](T x) { return tm.extract(x, tm.w(x) - 1, tm.w(x) - 1); };
	auto is = [&](std::initializer_list<const char *> l) { for (auto s : l) if (n == s) return true; return false; };
	auto end = [&](const char *s) { size_t l = strlen(s); return n.size() >= l && n.compare(n.size() - l, l, s) == 0; };
	auto wrap32 = [&](T x) { return x; };
	(void)wrap32; (void)end;
	// min / max: second operand when unordered or equal
	if (is({"sse.min.ps", "sse2.min.pd", "avx.min.ps.256", "avx.min.pd.256"})) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.ite(tm.fcmp_lt(a[0][i], a[1][i]), a[0][i], a[1][i])); return r; }
	if (is({"sse.max.ps", "sse2.max.pd", "avx.max.ps.256", "avx.max.pd.256"})) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.ite(tm.fcmp_lt(a[1][i], a[0][i]), a[0][i], a[1][i])); return r; }
	if (is({"sse.min.ss", "sse2.min.sd"})) { r = a[0]; r[0] = tm.ite(tm.fcmp_lt(a[0][0], a[1][0]), a[0][0], a[1][0]); return r; }
	if (is({"sse.max.ss", "sse2.max.sd"})) { r = a[0]; r[0] = tm.ite(tm.fcmp_lt(a[1][0], a[0][0]), a[0][0], a[1][0]); return r; }
	if (is({"sse.rcp.ps", "avx.rcp.ps.256"})) { for (T x : a[0]) r.push_back(tm.uf("hw_rcp", 32, {x})); return r; }
	if (is({"sse.rsqrt.ps", "avx.rsqrt.ps.256"})) { for (T x : a[0]) r.push_back(tm.uf("hw_rsqrt", 32, {x})); return r; }
	if (is({"sse.rcp.ss"})) { r = a[0]; r[0] = tm.uf("hw_rcp", 32, {r[0]}); return r; }
	if (is({"sse.rsqrt.ss"})) { r = a[0]; r[0] = tm.uf("hw_rsqrt", 32, {r[0]}); return r; }
	if (is({"sse.movmsk.ps", "sse2.movmsk.pd", "sse2.pmovmskb.128", "avx.movmsk.ps.256", "avx.movmsk.pd.256", "avx2.pmovmskb"})) { std::vector<T> p; for (int i = (int)sz(0) - 1; i >= 0; i--) p.push_back(msb(a[0][i])); return boolres(tm.concat(p)); }
	// conversions
	if (is({"sse2.cvtps2dq", "avx.cvt.ps2dq.256"})) { for (T x : a[0]) r.push_back(tm.ftosi(rcur(x), 32)); return r; }
	if (is({"sse2.cvttps2dq", "avx.cvtt.ps2dq.256"})) { for (T x : a[0]) r.push_back(tm.ftosi(x, 32)); return r; }
	if (is({"sse2.cvtpd2dq", "avx.cvt.pd2dq.256"})) { for (T x : a[0]) r.push_back(tm.ftosi(rcur(x), 32)); while (r.size() < 4) r.push_back(tm.konst(32, 0)); return r; }
	if (is({"sse2.cvttpd2dq", "avx.cvtt.pd2dq.256"})) { for (T x : a[0]) r.push_back(tm.ftosi(x, 32)); while (r.size() < 4) r.push_back(tm.konst(32, 0)); return r; }
	if (is({"sse2.cvtpd2ps", "avx.cvt.pd2.ps.256"})) { for (T x : a[0]) r.push_back(tm.ftrunc(x)); while (r.size() < 4) r.push_back(tm.konst(32, 0)); return r; }
	if (is({"sse.cvtss2si", "sse.cvtss2si64", "sse2.cvtsd2si", "sse2.cvtsd2si64"})) return Val{tm.ftosi(rcur(a[0][0]), scalarBits(RT))};
	if (is({"sse.cvttss2si", "sse.cvttss2si64", "sse2.cvttsd2si", "sse2.cvttsd2si64"})) return Val{tm.ftosi(a[0][0], scalarBits(RT))};
	if (is({"sse2.cvtsd2ss"})) { r = a[0]; r[0] = tm.ftrunc(a[1][0]); return r; }
	// rounding
	if (is({"sse41.round.ps", "sse41.round.pd", "avx.round.ps.256", "avx.round.pd.256"})) { unsigned m = imm(1) & 7; unsigned mode = m == 1 ? 0 : m == 2 ? 1 : m == 3 ? 2 : 3; for (T x : a[0]) r.push_back(m & 4 ? rcur(x) : tm.fround(mode, x)); return r; }
	if (is({"sse41.round.ss", "sse41.round.sd"})) { unsigned m = imm(2) & 7; unsigned mode = m == 1 ? 0 : m == 2 ? 1 : m == 3 ? 2 : 3; r = a[0]; r[0] = m & 4 ? rcur(a[1][0]) : tm.fround(mode, a[1][0]); return r; }
	// blends by sign bit
	if (is({"sse41.blendvps", "sse41.blendvpd", "sse41.pblendvb", "avx.blendv.ps.256", "avx.blendv.pd.256", "avx2.pblendvb"})) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.ite(msb(a[2][i]), a[1][i], a[0][i])); return r; }
	// tests
	if (is({"sse41.ptestz", "avx.ptestz.256"})) return boolres(tm.eq(tm.band(cat(a[0]), cat(a[1])), tm.konst(tm.w(cat(a[0])), 0)));
	if (is({"sse41.ptestc", "avx.ptestc.256"})) return boolres(tm.eq(tm.band(tm.bnot(cat(a[0])), cat(a[1])), tm.konst(tm.w(cat(a[0])), 0)));
	if (is({"sse41.ptestnzc", "avx.ptestnzc.256"})) { T z = tm.konst(tm.w(cat(a[0])), 0); return boolres(tm.band(tm.bnot(tm.eq(tm.band(cat(a[0]), cat(a[1])), z)), tm.bnot(tm.eq(tm.band(tm.bnot(cat(a[0])), cat(a[1])), z)))); }
	if (starts(n, "avx.vtest")) { T z = tm.tTrue, c = tm.tTrue; for (size_t i = 0; i < sz(0); i++) { z = tm.band(z, tm.bnot(tm.band(msb(a[0][i]), msb(a[1][i])))); c = tm.band(c, tm.bnot(tm.band(tm.bnot(msb(a[0][i])), msb(a[1][i])))); } if (starts(n, "avx.vtestz")) return boolres(z); if (starts(n, "avx.vtestc")) return boolres(c); return boolres(tm.band(tm.bnot(z), tm.bnot(c))); }
	// packs, within 128-bit halves
	auto pack = [&](bool usat) {
		unsigned per = 128 / tm.w(a[0][0]); size_t halves = sz(0) / per; unsigned W = tm.w(a[0][0]), H = W / 2;
		auto sat = [&](T x) { int64_t lo = usat ? 0 : -(1ll << (H - 1)), hi = usat ? (1ll << H) - 1 : (1ll << (H - 1)) - 1; T L = tm.konst(W, lo), U = tm.konst(W, hi); return tm.ite(tm.slt(x, L), tm.konst(H, lo), tm.ite(tm.slt(U, x), tm.konst(H, hi), tm.extract(x, H - 1, 0))); };
		for (size_t h = 0; h < halves; h++) for (int s = 0; s < 2; s++) for (unsigned i = 0; i < per; i++) r.push_back(sat(a[s][h * per + i]));
		return r; };
	if (is({"sse2.packsswb.128", "sse2.packssdw.128", "avx2.packsswb", "avx2.packssdw"})) return pack(false);
	if (is({"sse2.packuswb.128", "sse41.packusdw", "avx2.packuswb", "avx2.packusdw"})) return pack(true);
	if (is({"sse2.pmadd.wd", "avx2.pmadd.wd"})) { for (size_t i = 0; i < sz(0); i += 2) r.push_back(tm.add(tm.mul(tm.sext(a[0][i], 32), tm.sext(a[1][i], 32)), tm.mul(tm.sext(a[0][i + 1], 32), tm.sext(a[1][i + 1], 32)))); return r; }
	if (is({"sse2.pmulh.w", "avx2.pmulh.w"})) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.extract(tm.mul(tm.sext(a[0][i], 32), tm.sext(a[1][i], 32)), 31, 16)); return r; }
	if (is({"sse2.pmulhu.w", "avx2.pmulhu.w"})) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.extract(tm.mul(tm.zext(a[0][i], 32), tm.zext(a[1][i], 32)), 31, 16)); return r; }
	if (is({"sse2.pavg.b", "sse2.pavg.w", "avx2.pavg.b", "avx2.pavg.w"})) { for (size_t i = 0; i < sz(0); i++) { unsigned W = tm.w(a[0][i]); r.push_back(tm.extract(tm.add(tm.add(tm.zext(a[0][i], W + 1), tm.zext(a[1][i], W + 1)), tm.konst(W + 1, 1)), W, 1)); } return r; }
	if (is({"sse2.psad.bw", "avx2.psad.bw"})) {
		for (size_t h = 0; h < sz(0) / 8; h++) { T s = tm.konst(64, 0); for (int i = 0; i < 8; i++) { T x = a[0][h * 8 + i], y = a[1][h * 8 + i]; T d = tm.ite(tm.ult(x, y), tm.sub(y, x), tm.sub(x, y)); s = tm.add(s, tm.zext(d, 64)); } r.push_back(s); }
		return r; }
	// horizontal
	auto horiz = [&](auto g) { unsigned per = 128 / tm.w(a[0][0]); for (size_t h = 0; h < sz(0) / per; h++) for (int s = 0; s < 2; s++) for (unsigned i = 0; i < per; i += 2) r.push_back(g(a[s][h * per + i], a[s][h * per + i + 1])); return r; };
	if (is({"sse3.hadd.ps", "sse3.hadd.pd", "avx.hadd.ps.256", "avx.hadd.pd.256"})) return horiz([&](T x, T y) { return tm.fbin(FADD, x, y); });
	if (is({"sse3.hsub.ps", "sse3.hsub.pd", "avx.hsub.ps.256", "avx.hsub.pd.256"})) return horiz([&](T x, T y) { return tm.fsub(x, y); });
	if (is({"ssse3.phadd.w.128", "ssse3.phadd.d.128", "avx2.phadd.w", "avx2.phadd.d"})) return horiz([&](T x, T y) { return tm.add(x, y); });
	if (is({"ssse3.phsub.w.128", "ssse3.phsub.d.128", "avx2.phsub.w", "avx2.phsub.d"})) return horiz([&](T x, T y) { return tm.sub(x, y); });
	auto ssat16 = [&](T x) { unsigned W = tm.w(x); return tm.ite(tm.slt(x, tm.konst(W, -32768)), tm.konst(16, 0x8000), tm.ite(tm.slt(tm.konst(W, 32767), x), tm.konst(16, 0x7fff), tm.extract(x, 15, 0))); };
	if (is({"ssse3.phadd.sw.128", "avx2.phadd.sw"})) return horiz([&](T x, T y) { return ssat16(tm.add(tm.sext(x, 32), tm.sext(y, 32))); });
	if (is({"ssse3.phsub.sw.128", "avx2.phsub.sw"})) return horiz([&](T x, T y) { return ssat16(tm.sub(tm.sext(x, 32), tm.sext(y, 32))); });
	if (is({"ssse3.pmadd.ub.sw.128", "avx2.pmadd.ub.sw"})) { auto P = [&](size_t i) { return tm.mul(tm.zext(a[0][i], 32), tm.sext(a[1][i], 32)); }; for (size_t i = 0; i < sz(0); i += 2) r.push_back(ssat16(tm.add(P(i), P(i + 1)))); return r; }
	if (is({"ssse3.pmul.hr.sw.128", "avx2.pmul.hr.sw"})) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.extract(tm.add(tm.extract(tm.mul(tm.sext(a[0][i], 32), tm.sext(a[1][i], 32)), 31, 14), tm.konst(18, 1)), 16, 1)); return r; }
	if (is({"sse41.insertps"})) { unsigned m = imm(2); r = a[0]; r[m >> 4 & 3] = a[1][m >> 6 & 3]; for (unsigned i = 0; i < 4; i++) if (m >> i & 1) r[i] = tm.konst(32, 0); return r; }
	if (is({"sse41.phminposuw"})) { T v = a[0][0], k = tm.konst(16, 0); for (unsigned i = 1; i < 8; i++) { T l = tm.ult(a[0][i], v); v = tm.ite(l, a[0][i], v); k = tm.ite(l, tm.konst(16, i), k); } r.push_back(v); r.push_back(k); for (int i = 0; i < 6; i++) r.push_back(tm.konst(16, 0)); return r; }
	if (starts(n, "fma.vfmaddsub.")) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.fma(a[0][i], a[1][i], i & 1 ? a[2][i] : tm.bxor(a[2][i], tm.konst(tm.w(a[2][i]), 1ull << (tm.w(a[2][i]) - 1))))); return r; }
	if (starts(n, "sse3.addsub.") || starts(n, "avx.addsub.")) { for (size_t i = 0; i < sz(0); i++) r.push_back(i & 1 ? tm.fbin(FADD, a[0][i], a[1][i]) : tm.fsub(a[0][i], a[1][i])); return r; }
	if (is({"sse41.dpps", "sse41.dppd", "avx.dp.ps.256"})) {
		unsigned m = imm(2), W = tm.w(a[0][0]), per = 128 / W;
		for (size_t h = 0; h < sz(0) / per; h++) {
			std::vector<T> p; for (unsigned i = 0; i < per; i++) p.push_back(m >> (4 + i) & 1 ? tm.fbin(FMUL, a[0][h * per + i], a[1][h * per + i]) : tm.konst(W, 0));
			T s = per == 4 ? tm.fbin(FADD, tm.fbin(FADD, p[0], p[1]), tm.fbin(FADD, p[2], p[3])) : tm.fbin(FADD, p[0], p[1]);
			for (unsigned i = 0; i < per; i++) r.push_back(m >> i & 1 ? s : tm.konst(W, 0));
		}
		return r; }
	if (starts(n, "ssse3.psign.") || starts(n, "avx2.psign.")) { for (size_t i = 0; i < sz(0); i++) r.push_back(tm.ite(msb(a[1][i]), tm.neg(a[0][i]), tm.ite(tm.eq(a[1][i], tm.konst(tm.w(a[1][i]), 0)), tm.konst(tm.w(a[0][i]), 0), a[0][i]))); return r; }
	// shuffles with a vector index
	if (is({"ssse3.pshuf.b.128", "avx2.pshuf.b"})) {
		for (size_t i = 0; i < sz(0); i++) {
			T ix = a[1][i]; size_t h = i / 16 * 16; T v = tm.konst(8, 0);
			if (tm.isC(ix)) { uint64_t k = tm.cv(ix); r.push_back(k & 0x80 ? v : a[0][h + (k & 15)]); continue; }
			T lo = tm.extract(ix, 3, 0); v = a[0][h]; for (unsigned k = 1; k < 16; k++) v = tm.ite(tm.eq(lo, tm.konst(4, k)), a[0][h + k], v);
			r.push_back(tm.ite(msb(ix), tm.konst(8, 0), v));
		}
		return r; }
	auto vperm = [&](const Val &src, const Val &ix, unsigned per, unsigned bits, unsigned shift) {
		for (size_t i = 0; i < ix.size(); i++) { size_t h = per ? i / per * per : 0; T k = tm.extract(ix[i], shift + bits - 1, shift); T v = src[h]; for (unsigned j = 1; j < (1u << bits); j++) v = tm.ite(tm.eq(k, tm.konst(bits, j)), src[h + j], v); r.push_back(v); }
		return r; };
	if (is({"avx.vpermilvar.ps", "avx.vpermilvar.ps.256"})) return vperm(a[0], a[1], 4, 2, 0);
	if (is({"avx.vpermilvar.pd", "avx.vpermilvar.pd.256"})) return vperm(a[0], a[1], 2, 1, 1);
	if (is({"avx2.permd", "avx2.permps"})) return vperm(a[0], a[1], 0, 3, 0);
	// shifts
	{
		size_t p = n.find(".ps"); std::string tail = p == std::string::npos ? "" : n.substr(p + 1);
		bool l = starts(tail, "psll"), rl = starts(tail, "psrl"), ra = starts(tail, "psra");
		if (l || rl || ra) {
			uint8_t o = l ? SHL : rl ? LSHR : ASHR; char k = tail[4];
			auto sh = [&](T x, T c64) { unsigned W = tm.w(x); if (tm.isC(c64)) return tm.cv(c64) >= W ? (o == ASHR ? tm.ashrk(x, W - 1) : tm.konst(W, 0)) : tm.shift(o, x, tm.konst(W, tm.cv(c64))); unsigned cw = tm.w(c64); T big = tm.bnot(tm.ult(c64, tm.konst(cw, W))); T c = cw >= W ? tm.extract(c64, W - 1, 0) : tm.zext(c64, W); T s = tm.shift(o, x, c); return tm.ite(big, o == ASHR ? tm.ashrk(x, W - 1) : tm.konst(W, 0), s); };
			if (k == 'i') { T c = a[1][0]; for (T x : a[0]) r.push_back(sh(x, c)); return r; }
			if (k == 'v') { for (size_t i = 0; i < sz(0); i++) r.push_back(sh(a[0][i], a[1][i])); return r; }
			if (k == '.') { T c = tm.extract(cat(a[1]), 63, 0); for (T x : a[0]) r.push_back(sh(x, c)); return r; }
		}
	}
	// masked memory
	if (has(n, "maskload")) {
		auto &ls = leaves(RT); Type *et = cast<VectorType>(RT)->getElementType();
		for (size_t i = 0; i < ls.size(); i++) {
			T m = msb(a[1][i]); if (m == tm.tFalse) { r.push_back(tm.konst(ls[i].bits, 0)); continue; }
			State s = st; s.pc.push_back(m); Val v = load(s, padd(a[0][0], tm.konst(64, ls[i].off)), et, 1);
			if (s.dead) { r.push_back(tm.konst(ls[i].bits, 0)); st.pc.push_back(tm.bnot(m)); if (m == tm.tTrue) { st.dead = true; return r; } continue; }
			r.push_back(tm.ite(m, v[0], tm.konst(ls[i].bits, 0)));
		}
		return r; }
	if (has(n, "maskstore")) {
		Type *vt = C.getArgOperand(2)->getType(), *et = cast<VectorType>(vt)->getElementType(); auto &ls = leaves(vt);
		for (size_t i = 0; i < ls.size(); i++) {
			T m = msb(a[1][i]); if (m == tm.tFalse) continue; T p = padd(a[0][0], tm.konst(64, ls[i].off));
			State s = st; s.pc.push_back(m); Val old = load(s, p, et, 1);
			if (s.dead) { if (m == tm.tTrue) { st.dead = true; return r; } st.pc.push_back(tm.bnot(m)); continue; }
			store(s, p, et, Val{tm.ite(m, a[2][i], old[0])}, 1); if (s.dead) { st.dead = true; return r; } s.pc = st.pc; st = s;
		}
		return r; }
	if (is({"sse2.maskmov.dqu"})) {
		Type *et = Type::getInt8Ty(M.getContext());
		for (size_t i = 0; i < 16; i++) { T m = msb(a[1][i]); if (m == tm.tFalse) continue; T p = padd(a[2][0], tm.konst(64, i)); State s = st; s.pc.push_back(m); Val old = load(s, p, et, 1); if (s.dead) { if (m == tm.tTrue) { st.dead = true; return r; } st.pc.push_back(tm.bnot(m)); continue; } store(s, p, et, Val{tm.ite(m, a[0][i], old[0])}, 1); if (s.dead) { st.dead = true; return r; } s.pc = st.pc; st = s; }
		return r; }
	if (starts(n, "avx2.gather.")) {
		auto &ls = leaves(RT); Type *et = cast<VectorType>(RT)->getElementType(); uint64_t sc = imm(4);
		for (size_t i = 0; i < ls.size(); i++) { T m = msb(a[3][i]); if (m == tm.tFalse) { r.push_back(a[0][i]); continue; } T ix = a[2][i]; if (tm.w(ix) < 64) ix = tm.sext(ix, 64); State s = st; s.pc.push_back(m); Val v = load(s, padd(a[1][0], tm.mulcLin(ix, sc)), et, 1); if (s.dead) { if (m == tm.tTrue) { st.dead = true; return r; } st.pc.push_back(tm.bnot(m)); r.push_back(a[0][i]); continue; } for (size_t k = st.pc.size() + 1; k < s.pc.size(); k++) st.pc.push_back(tm.implies(m, s.pc[k])); if (m == tm.tTrue) {} r.push_back(tm.ite(m, v[0], a[0][i])); }
		return r; }
	if (is({"sse3.ldu.dq", "avx.ldu.dq.256"})) return load(st, a[0][0], RT, 1);
	if (is({"avx.vzeroupper", "avx.vzeroall", "sse2.lfence", "sse2.mfence", "sse.sfence", "sse2.pause"})) return r;
	// control register: the default rounding mode and no flush-to-zero, any sticky exception flags; a write may change the flags only
	if (is({"sse.stmxcsr", "sse.ldmxcsr"}) && anyDirection) unsup("control register under an arbitrary rounding direction");
	if (is({"sse.stmxcsr"})) { static unsigned k; T f = tm.var(32, "mxcsr#" + std::to_string(k++)); store(st, a[0][0], Type::getInt32Ty(M.getContext()), Val{tm.bor(tm.band(f, tm.konst(32, 0x3f)), tm.konst(32, 0x1f80))}, 1); return r; }
	if (is({"sse.ldmxcsr"})) { Val v = load(st, a[0][0], Type::getInt32Ty(M.getContext()), 1); if (!st.dead) oblige(st, "mxcsr", "rounding mode and exception masks kept", tm.eq(tm.band(v[0], tm.konst(32, 0xffffffc0)), tm.konst(32, 0x1f80))); return r; }
	// scalar compares
	if (starts(n, "sse.comi") || starts(n, "sse2.comi") || starts(n, "sse.ucomi") || starts(n, "sse2.ucomi")) {
		T x = a[0][0], y = a[1][0]; size_t p = n.find("comi"); std::string k = n.substr(p + 4, 2);
		if (k == "eq") return boolres(tm.fcmp_eq(x, y));
		if (k == "lt") return boolres(tm.fcmp_lt(x, y)); if (k == "le") return boolres(tm.bor(tm.fcmp_lt(x, y), tm.fcmp_eq(x, y)));
		if (k == "gt") return boolres(tm.fcmp_lt(y, x)); if (k == "ge") return boolres(tm.bor(tm.fcmp_lt(y, x), tm.fcmp_eq(x, y))); if (k == "ne") return boolres(tm.bnot(tm.fcmp_eq(x, y)));
	}
	if (is({"sse.cmp.ss", "sse2.cmp.sd", "sse.cmp.ps", "sse2.cmp.pd", "avx.cmp.ps.256", "avx.cmp.pd.256"})) {
		unsigned p = imm(2) & 15; static const CmpInst::Predicate tbl[16] = {CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD, CmpInst::FCMP_UEQ, CmpInst::FCMP_ULT, CmpInst::FCMP_ULE, CmpInst::FCMP_FALSE, CmpInst::FCMP_ONE, CmpInst::FCMP_OGE, CmpInst::FCMP_OGT, CmpInst::FCMP_TRUE};
		size_t m = (n == "sse.cmp.ss" || n == "sse2.cmp.sd") ? 1 : sz(0); r = a[0];
		for (size_t i = 0; i < m; i++) r[i] = tm.sext(fcmp(tbl[p], a[0][i], a[1][i]), tm.w(a[0][i]));
		return r; }
	unsup("x86 intrinsic " + n);
}

Val Exec::libcall(Frame &F, State &st, const CallInst &C, const std::string &n0, std::vector<Val> &a) {
	std::string n = n0; Type *RT = C.getType();
	uninterp.insert(n);
	static const std::set<std::string> un = {"sin","cos","tan","asin","acos","atan","sinh","cosh","tanh","asinh","acosh","atanh","exp","exp2","expm1","log","log2","log10","log1p","cbrt","erf","erfc","tgamma","lgamma","logb","pow","atan2","hypot","fmod","remainder","fdim","nextafter","ldexp","scalbn","scalbln","ilogb","frexp","modf","remquo","nexttoward"};
	std::string b = n; if (!b.empty() && b.back() == 'f' && b != "erf" && b != "modf") b.pop_back(); if (b == "modff") b = "modf"; if (b == "er") b = "erf";
	auto fpw = [&] { return tm.w(a[0][0]); };
	if (b == "sincos") { std::string sf = n == "sincosf" ? "f" : ""; Type *ft = sf.empty() ? Type::getDoubleTy(M.getContext()) : Type::getFloatTy(M.getContext()); // GNU: the pair of the two functions
		store(st, a[1][0], ft, Val{tm.uf("libm_sin" + sf, fpw(), {a[0][0]})}, 1); if (st.dead) return {}; store(st, a[2][0], ft, Val{tm.uf("libm_cos" + sf, fpw(), {a[0][0]})}, 1); return {}; }
	if ((b == "nan") && a.size() == 1) return Val{tm.konst(scalarBits(RT), tm.nanbits(scalarBits(RT)))};
	if (!a.empty() && (RT->isFloatTy() || RT->isDoubleTy() || RT->isIntegerTy())) {
		if (n == "memcmp" || n == "bcmp") { T k = a[2][0]; if (!tm.isC(k)) unsup("memcmp"); Type *t = ArrayType::get(Type::getInt8Ty(M.getContext()), tm.cv(k)); if (!tm.cv(k)) return Val{tm.konst(32, 0)}; Val x = load(st, a[0][0], t, 1); if (st.dead) return {}; Val y = load(st, a[1][0], t, 1); if (st.dead) return {}; T e = tm.eq(cat(x), cat(y)); return Val{tm.ite(e, tm.konst(32, 0), tm.konst(32, 1))}; }
		if (fpw() <= 64) {
			if (b == "sqrt") return Val{tm.fsqrt(a[0][0])};
			if (b == "floor") return Val{tm.fround(0, a[0][0])}; if (b == "ceil") return Val{tm.fround(1, a[0][0])}; if (b == "trunc") return Val{tm.fround(2, a[0][0])};
			if (b == "rint" || b == "nearbyint") return Val{rcur(a[0][0])}; if (b == "round") return Val{tm.fround(4, a[0][0])};
			if (b == "lround" || b == "llround") return Val{tm.ftosi(tm.fround(4, a[0][0]), 64)}; if (b == "lrint" || b == "llrint") return Val{tm.ftosi(rcur(a[0][0]), 64)};
			if (b == "fma") return Val{tm.fma(a[0][0], a[1][0], a[2][0])};
			if (b == "fabs") return Val{tm.fabs(a[0][0])};
			if (b == "fmin") { T x = a[0][0], y = a[1][0]; return Val{tm.ite(tm.fnan(x), y, tm.ite(tm.fnan(y), x, tm.ite(tm.fcmp_lt(y, x), y, x)))}; }
			if (b == "fmax") { T x = a[0][0], y = a[1][0]; return Val{tm.ite(tm.fnan(x), y, tm.ite(tm.fnan(y), x, tm.ite(tm.fcmp_lt(x, y), y, x)))}; }
		}
		if (un.count(b)) {
			std::vector<T> v; std::vector<T> outs;
			for (size_t i = 0; i < a.size(); i++) if (C.getArgOperand(i)->getType()->isPointerTy()) outs.push_back(a[i][0]); else v.push_back(a[i][0]);
			for (T p : outs) { unsigned ow = b == "modf" ? fpw() : 32; Type *ot = b == "modf" ? RT : Type::getInt32Ty(M.getContext()); store(st, p, ot, Val{tm.uf("libm_" + n + "_out", ow, v)}, 1); if (st.dead) return {}; }
			T r = tm.uf("libm_" + n, scalarBits(RT), v);
			return Val{r};
		}
	}
	if (n == "open" || n == "open64") return Val{tm.konst(32, ~0ull)}; // no file can be opened (assumption of C23)
	if (n == "abort" || n == "_ZSt9terminatev" || has(n, "assert_err") || has(n, "__assert") || has(n, "_M_range_check") || has(n, "__throw_") || has(n, "__glibcxx_assert")) { oblige(st, "unreachable", "call to " + n, tm.tFalse); st.dead = true; return {}; }
	unsup("external function " + n);
}

// ---------------------------------------------------------------------------------------------------------------
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

struct Prover {
	Terms &tm; Smt &smt; unsigned fast_ms, ext_s;
	struct CacheVal { Res r; std::string who; };
	std::map<std::pair<uint64_t, uint64_t>, CacheVal> cache;
	std::map<std::string, uint64_t> by;
	Sweep sw{tm, smt};
	double deadline = 0; std::chrono::steady_clock::time_point T0;
	double remaining() const { return deadline > 0 ? deadline - std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() : 1e9; }

	void vars(T t, std::unordered_set<T> &seen, std::unordered_set<T> &out) {
		std::vector<T> st{t};
		while (!st.empty()) { T x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (tm.op(x) == VAR) out.insert(x); for (unsigned i = 0; i < tm.nodes[x].nch; i++) st.push_back(tm.ch(x, i)); }
	}
	std::vector<T> slice(const std::vector<T> &pc, T goal) {
		std::unordered_set<T> s1, v; vars(goal, s1, v);
		std::vector<std::pair<T, std::unordered_set<T>>> rest; for (T p : pc) { std::unordered_set<T> s, pv; vars(p, s, pv); rest.push_back({p, pv}); }
		std::vector<T> out; bool ch = true; std::vector<char> used(rest.size(), 0);
		while (ch) { ch = false; for (size_t i = 0; i < rest.size(); i++) if (!used[i]) { bool hit = rest[i].second.empty(); for (T x : rest[i].second) if (v.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (T x : rest[i].second) v.insert(x); } } }
		for (size_t i = 0; i < rest.size(); i++) if (used[i]) out.push_back(rest[i].first);
		return out;
	}
	std::pair<uint64_t, uint64_t> canon(const std::vector<T> &conj) {
		std::unordered_map<T, uint64_t> num; std::unordered_map<T, uint64_t> vn; uint64_t h1 = 1469598103934665603ull, h2 = 0x9E3779B97F4A7C15ull, k = 0;
		auto mix = [&](uint64_t x) { h1 ^= x; h1 *= 1099511628211ull; h1 ^= h1 >> 29; h2 += x + 0x7F4A7C159E3779B9ull; h2 ^= h2 << 25; h2 *= 0xD6E8FEB86659FD93ull; h2 ^= h2 >> 32; };
		for (T root : conj) {
			std::vector<std::pair<T, bool>> st{{root, false}};
			while (!st.empty()) {
				auto [t, d] = st.back(); st.pop_back(); if (num.count(t)) continue;
				const Node &n = tm.nodes[t];
				if (!d) { st.push_back({t, true}); for (int i = (int)n.nch - 1; i >= 0; i--) if (!num.count(tm.ch(t, i))) st.push_back({tm.ch(t, i), false}); continue; }
				num[t] = ++k; mix(n.op); mix(n.w); if (n.op == VAR) { auto it = vn.emplace(t, vn.size()).first; mix(it->second); } else if (n.op == BASE) { auto it = vn.emplace(t, vn.size()).first; mix(it->second); } else if (n.op == UF) { for (char ch : tm.names[n.val]) mix(ch); } else if (n.op == TBL) { auto *b = smt.tableBytes ? smt.tableBytes(n.val) : nullptr; if (b) { for (auto x : *b) mix(x); } else { mix(n.val); mix((uint64_t)&tm); } } else mix(n.val); mix(n.nch); for (unsigned i = 0; i < n.nch; i++) mix(num[tm.ch(t, i)]);
			}
			mix(0xABCDEF); mix(num[root]);
		}
		return {h1, h2};
	}
	// Case distinction on the comparisons that select between terms: both cases are discharged, each with the selection carried out.
	uint64_t splits = 0; unsigned swept = 0;
	void flatten(T t, std::vector<T> &out) {
		if (tm.w(t) == 1 && tm.op(t) == AND) { for (unsigned i = 0; i < tm.nodes[t].nch; i++) flatten(tm.ch(t, i), out); return; }
		if (tm.w(t) == 1 && tm.op(t) == NOT && tm.op(tm.ch(t, 0)) == OR) { T o = tm.ch(t, 0); for (unsigned i = 0; i < tm.nodes[o].nch; i++) flatten(tm.bnot(tm.ch(o, i)), out); return; }
		if (t != tm.tTrue) out.push_back(t);
	}
	/** Literals and small constraints without arithmetic: enough to see that a case is impossible. */
	bool refuted(std::vector<T> lits, const std::vector<T> &q) {
		for (T c : q) {
			std::unordered_set<T> seen; std::vector<T> st{c}; bool ok = true;
			while (!st.empty() && ok) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; uint8_t o = tm.op(t); ok = seen.size() < 60 && !(o >= FADD && o <= UITOF) && o != TBL && o != UF; for (unsigned i = 0; i < tm.nodes[t].nch; i++) st.push_back(tm.ch(t, i)); }
			if (ok) lits.push_back(c);
		}
		return smt.inproc(lits, false, nullptr, 500) == UNSAT;
	}
	Res split(const std::vector<T> &q, unsigned depth, std::vector<T> lits, unsigned &leaves) {
		for (T t : q) if (t == tm.tFalse) return UNSAT;
		for (T t : q) for (T u : q) if (t == tm.bnot(u)) return UNSAT;
		if (remaining() <= 0) return UNKNOWN;
		std::map<T, unsigned> cnt; std::unordered_set<T> seen; std::vector<T> st(q.begin(), q.end());
		while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; if (tm.op(t) == ITE) { T c = tm.ch(t, 0); if (tm.op(c) == NOT) c = tm.ch(c, 0); if (tm.op(c) == FLT || tm.op(c) == FEQ || tm.op(c) == EQ || tm.op(c) == ULT || tm.op(c) == SLT) cnt[c]++; } for (unsigned i = 0; i < tm.nodes[t].nch; i++) st.push_back(tm.ch(t, i)); }
		T at = 0; unsigned best = 0; for (auto &c : cnt) if (c.second > best) { best = c.second; at = c.first; }
		if (at == 0 || depth == 0) { if (++leaves > 24) return UNKNOWN; Res r = smt.inproc(q, false, nullptr, fast_ms); if (getenv("IRVC_DUMP")) fprintf(stderr, "    leaf: %d\n", (int)r); return r == UNSAT ? UNSAT : UNKNOWN; }
		splits++;
		static const bool trace = getenv("IRVC_DUMP"); if (trace) fprintf(stderr, "    split depth %u on %s (%u uses)\n", depth, tm.str(at, 5).c_str(), best);
		for (int v = 1; v >= 0; v--) {
			std::unordered_map<T, T> m; m[at] = tm.b(v);
			std::vector<T> r; for (T t : q) { T x = tm.subst(t, m); if (x != tm.tTrue) r.push_back(x); }
			r.push_back(v ? at : tm.bnot(at));
			auto nl = lits; T x = 0, y = 0;
			if (!v && tm.op(at) == FLT) { T o = tm.bnot(tm.fcmp_lt(tm.ch(at, 1), tm.ch(at, 0))); for (T p : nl) if (p == o) { x = tm.ch(at, 1); y = tm.ch(at, 0); } }
			nl.push_back(v ? at : tm.bnot(at));
			if (refuted(nl, r)) continue;
			Res rr;
			if (x) { // neither less than the other: equal, or not comparable
				T e = tm.eq(x, y); std::unordered_map<T, T> m2; m2[x] = y;
				T sl = tm.op(x) == CONCAT && tm.nodes[x].nch == 2 && tm.isC(tm.ch(x, 0)) ? tm.ch(x, 1) : x;
				if (tm.op(sl) == EXTRACT && tm.op(tm.ch(sl, 0)) == VAR) { T V = tm.ch(sl, 0); unsigned W = tm.w(V), h = tm.nodes[sl].val >> 32, l = (uint32_t)tm.nodes[sl].val; // the variable itself, its other bits kept
					std::vector<T> c; if (h + 1 < W) c.push_back(tm.extract(V, W - 1, h + 1)); c.push_back(tm.extract(y, tm.w(sl) - 1, 0)); if (l) c.push_back(tm.extract(V, l - 1, 0)); m2.clear(); m2[V] = tm.concat(c); }
				else if (tm.op(sl) == VAR) { m2.clear(); m2[sl] = tm.extract(y, tm.w(sl) - 1, 0); }
				 std::vector<T> r2; for (T t : r) { T z = tm.subst(t, m2); if (z != tm.tTrue) r2.push_back(z); } r2.push_back(e);
				rr = split(r2, depth - 1, nl, leaves);
				if (rr == UNSAT) { auto r3 = r; r3.push_back(tm.bnot(e)); if (!refuted(nl, r3)) rr = split(r3, depth - 1, nl, leaves); }
			} else rr = split(r, depth - 1, nl, leaves);
			if (rr != UNSAT) return UNKNOWN;
		}
		return UNSAT;
	}
	// proves pc => cond
	Res prove(const Obligation &o, Model *m, std::string *who) {
		T goal = tm.bnot(o.cond);
		std::vector<T> q = goal == tm.tTrue ? o.pc : slice(o.pc, goal);
		bool sliced = q.size() < o.pc.size();
		for (T p : q) if (p == tm.tFalse || p == o.cond) { by["simplifier"]++; *who = "simplifier"; return UNSAT; }
		q.push_back(goal);
		auto key = canon(q); auto it = cache.find(key);
		if (it != cache.end() && it->second.r == UNSAT) { by[it->second.who + " (same obligation up to renaming)"]++; *who = it->second.who; return UNSAT; }
		if (it != cache.end() && it->second.r == UNKNOWN) { *who = it->second.who; return UNKNOWN; }
		// obligations discharged by the other processes of this run (the directory belongs to the run and goes with it)
		static const char *dir = getenv("IRVC_CACHE"); std::string cf;
		if (dir) {
			char nm[64]; snprintf(nm, 64, "/%016lx%016lx", (unsigned long)key.first, (unsigned long)key.second); cf = dir + std::string(nm);
			std::ifstream in(cf); std::string w;
			if (in && std::getline(in, w) && !w.empty()) { cache[key] = {UNSAT, w}; by[w + " (same obligation up to renaming)"]++; *who = w; return UNSAT; }
		}
		const double left = remaining(); if (left <= 0) { *who = "time budget exhausted"; return UNKNOWN; }
		const unsigned ext_s = (unsigned)std::min<double>(this->ext_s, left + 1), fast_ms = (unsigned)std::min<double>(this->fast_ms, 1000 * left + 100);
		bool fp = smt.hasFP(q);
		static const bool dump = getenv("IRVC_DUMP"); Model dm;
		Res r = smt.inproc(q, false, dump ? &dm : nullptr, fast_ms); std::string w = fp ? "z3 (FP operations abstract)" : "z3";
		bool trysat = !fp && r == SAT;
		if (r != UNSAT && fp && swept < 40) {
			auto q2 = q; double s0 = sw.seconds; std::vector<T> fq; for (T t : q2) flatten(t, fq);
			if (sw.run(fq, 0.001 * fast_ms)) {
				bool no = false; for (T t : fq) no |= t == tm.tFalse;
				for (T t : fq) for (T u : fq) no |= t == tm.bnot(u);
				Res r2 = no ? UNSAT : smt.inproc(fq, false, nullptr, fast_ms);
				if (dump) fprintf(stderr, "    swept (%lu merged, %lu tried, %.1fs): %d\n", (unsigned long)sw.merged, (unsigned long)sw.tried, sw.seconds - s0, (int)r2);
				if (r2 == UNSAT) { r = UNSAT; w = "z3 (FP operations abstract, equivalences swept)"; }
				else { swept++; if (r2 == UNKNOWN || r == UNKNOWN) { q = fq; } }
			} else swept++;
		}
		if (dump && r == SAT) { for (auto &v : dm.vals) fprintf(stderr, "    %s = %lx\n", v.first.c_str(), (unsigned long)v.second); fprintf(stderr, "%s", dm.text.c_str()); }
		if (r == SAT && fp) {
			if (ext_s == 0) r = UNKNOWN;
			else { r = smt.inproc(q, true, nullptr, std::min(fast_ms, 3000u)); w = "z3 (exact FP)"; if (r == SAT) trysat = true; }
		}
		if (r == UNKNOWN && fp) { unsigned lv = 0; std::vector<T> fq; for (T t : q) flatten(t, fq); r = split(fq, 6, {}, lv); w = "z3 (FP operations abstract, by cases)"; }
		if (r == UNKNOWN && ext_s) { std::string ww; r = smt.external(q, m, ext_s, &ww); w = ww + " (external)"; }
		if (r == SAT && m) {
			std::vector<T> full = o.pc; full.push_back(goal); m->vals.clear();
			bool ffp = sliced ? smt.hasFP(full) : fp;
			Res rr = smt.inproc(full, ffp, m, fast_ms * 2);
			if (rr == UNSAT) { by[w + " (whole path condition)"]++; *who = w; return UNSAT; }
			if (rr != SAT) { std::string ww; smt.external(full, m, std::max(ext_s, 10u), &ww); }
		}
		(void)trysat;
		if (r == UNSAT) by[w]++;
		cache[key] = {r, w}; *who = w;
		if (r == UNSAT && dir) { std::string t = cf + "." + std::to_string(getpid()); { std::ofstream o(t); o << w << "\n"; } rename(t.c_str(), cf.c_str()); }
		return r;
	}
};

int main(int argc, char **argv) {
	std::string file, only, out; unsigned fast = 10000, ext = 30; bool verbose = false, list = false; unsigned maxFail = 6; double budget = 0; std::set<std::string> knownSkip;
	for (int i = 1; i < argc; i++) {
		std::string s = argv[i];
		if (s == "--only") only = argv[++i]; else if (s == "--fast") fast = atoi(argv[++i]); else if (s == "--ext") ext = atoi(argv[++i]); else if (s == "-v") verbose = true; else if (s == "--out") out = argv[++i]; else if (s == "--list") list = true; else if (s == "--maxfail") maxFail = atoi(argv[++i]); else if (s == "--budget") budget = atof(argv[++i]); else file = s;
	}
	LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(file, err, ctx);
	if (!M) { err.print("irvc", errs()); return 2; }
	std::ostringstream js; js << "{\"module\":\"" << jesc(file) << "\",\"functions\":[";
	bool first = true;
	auto T0 = std::chrono::steady_clock::now();
	std::vector<Function *> fns; for (auto &f : *M) if (!f.isDeclaration() && f.getName().starts_with("vc__")) fns.push_back(&f);
	std::unique_ptr<Terms> tm; std::unique_ptr<Smt> smt;
	std::map<std::pair<uint64_t, uint64_t>, Prover::CacheVal> sharedCache;
	for (auto *f : fns) {
		std::string name = f->getName().str();
		if (!only.empty() && name.find(only) == std::string::npos) continue;
		if (list) { std::cout << name << "\n"; continue; }
		if (!first) js << ",\n"; first = false;
		auto t0 = std::chrono::steady_clock::now();
		tm = std::make_unique<Terms>(); smt = std::make_unique<Smt>(*tm);
		Exec ex(*tm, *smt, *M); Prover P{*tm, *smt, fast, ext}; P.cache = sharedCache; P.deadline = budget; P.T0 = T0;
		js << "{\"name\":\"" << name << "\"";
		std::string error; uint64_t proved = 0, failed = 0, unknown = 0; std::ostringstream fails; bool ff = true;
		if (budget > 0 && std::chrono::duration<double>(t0 - T0).count() > budget) error = "time budget exhausted";
		else try {
			State st; ex.callFn(st, f, {}, nullptr);
			double texec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			// vacuity: the postcondition point must be reachable
			uint64_t cov = 0; for (auto &c : ex.coverPc) { Res r = c.second.empty() ? SAT : UNKNOWN; for (T t : c.second) if (t == tm->tFalse) r = UNSAT; if (r == UNKNOWN) r = smt->inproc(c.second, false, nullptr, fast); if (r == UNSAT) throw Unsupported("vacuous contract: cover '" + c.first + "' unreachable"); cov++; }
			js << ",\"covers\":" << cov;
			std::map<std::string, int> perLabel;
			for (auto &o : ex.obls) {
				std::string who; Model m;
				if (failed >= maxFail && o.cond != tm->tFalse) { unknown++; continue; }
				Res r;
				if (o.cond == tm->tFalse && o.pc.empty()) { r = SAT; who = "simplifier"; }
				else r = P.prove(o, &m, &who);
				if (verbose) fprintf(stderr, "  [%s] %s: %s %s by %s at %s\n", name.c_str(), o.kind.c_str(), o.label.c_str(), r == UNSAT ? "proved" : r == SAT ? "FAILED" : "unknown", who.c_str(), o.where.c_str());
				if (verbose && r != UNSAT) fprintf(stderr, "     cond %s\n", tm->str(o.cond, 14).c_str());
				if (r == UNSAT) { proved++; continue; }
				(r == SAT ? failed : unknown)++;
				std::ostringstream one;
				one << "{\"kind\":\"" << o.kind << "\",\"label\":\"" << jesc(o.label) << "\",\"where\":\"" << jesc(o.where) << "\",\"status\":\"" << (r == SAT ? "sat" : "unknown") << "\",\"by\":\"" << jesc(who) << "\",\"fp\":" << (smt->hasFP({o.cond}) ? "true" : "false") << ",\"cond\":\"" << jesc(tm->str(o.cond, 8).substr(0, 3000)) << "\",\"model\":[";
				for (size_t i = 0; i < ex.anyOrder.size(); i++) { auto it = m.vals.find(ex.anyOrder[i]); one << (i ? "," : "") << "[\"" << jesc(ex.anyOrder[i]) << "\"," << ex.anyWidth[i] << ",\"" << (it == m.vals.end() ? 0 : it->second) << "\"]"; }
				one << "]}";
				if (!ff) fails << ","; ff = false; fails << one.str();
				// failures are announced at once, so that the driver can replay them while the rest is being proved
				if (r == SAT && !out.empty()) { std::ofstream o(out + ".fail", std::ios::app); o << "{\"name\":\"" << name << "\",\"failure\":" << one.str() << "}\n"; }
			}
			for (auto &x : ex.trivially) { proved += x.second; if (x.second) P.by["simplifier"] += x.second; }
			js << ",\"exec_s\":" << texec << ",\"steps\":" << ex.steps << ",\"terms\":" << tm->nodes.size();
			js << ",\"called\":["; bool fc = true; for (auto &c : ex.called) if (has(c, "dpm")) { js << (fc ? "" : ",") << "\"" << jesc(c) << "\""; fc = false; } js << "]";
			js << ",\"kinds\":{"; std::map<std::string, uint64_t> kinds(ex.trivially); for (auto &o : ex.obls) kinds[o.kind]++; fc = true; for (auto &k : kinds) if (k.second) { js << (fc ? "" : ",") << "\"" << k.first << "\":" << k.second; fc = false; } js << "}";
		} catch (Unsupported &u) { error = u.what(); }
		if (error.empty() && proved + failed + unknown == 0) error = "no obligations generated";
		js << ",\"proved\":" << proved << ",\"failed\":" << failed << ",\"unknown\":" << unknown << ",\"failures\":[" << fails.str() << "]";
		js << ",\"by\":{"; bool fb = true; for (auto &b : P.by) { js << (fb ? "" : ",") << "\"" << jesc(b.first) << "\":" << b.second; fb = false; } js << "}";
		js << ",\"intrinsics\":["; fb = true; for (auto &b : ex.intrinsicsUsed) { js << (fb ? "" : ",") << "\"" << jesc(b) << "\""; fb = false; } js << "],\"external\":["; fb = true; for (auto &b : ex.uninterp) { js << (fb ? "" : ",") << "\"" << jesc(b) << "\""; fb = false; } js << "]";
		js << ",\"inputs\":["; for (size_t i = 0; i < ex.anyOrder.size(); i++) js << (i ? "," : "") << ex.anyWidth[i]; js << "]";
		if (!error.empty()) js << ",\"error\":\"" << jesc(error) << "\"";
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		js << ",\"solver_s\":" << smt->z3time + smt->exttime << ",\"queries\":" << smt->nquery << ",\"time_s\":" << dt << "}";
		for (auto &c : P.cache) if (c.second.r == UNSAT && !c.second.who.empty()) sharedCache[c.first] = c.second;
		if (verbose || out.empty()) fprintf(stderr, "%s: proved %lu failed %lu unknown %lu %.2fs (solver %.2fs, %u terms) %s\n", name.c_str(), proved, failed, unknown, dt, smt->z3time + smt->exttime, (unsigned)tm->nodes.size(), error.c_str());
	}
	js << "]}\n";
	if (list) return 0;
	if (out.empty()) { if (verbose) std::cout << js.str(); } else { std::ofstream o(out); o << js.str(); }
	_exit(0);
}
