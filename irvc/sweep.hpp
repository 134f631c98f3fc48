// Equivalence sweeping: terms that agree on concrete samples are candidates for equality; each candidate pair becomes an
// obligation of its own (the negated equality must be unsatisfiable), and only proved equalities are used to rewrite.
// The samples decide what is attempted, never what is accepted.
#pragma once
#include "smt.hpp"

struct Sweep {
	static constexpr unsigned S = 48;
	Terms &tm; Smt &smt;
	std::unordered_map<T, std::vector<uint64_t>> sig;     // value per sample; empty: not evaluated
	std::unordered_map<T, T> rep;                         // proved equal, unconditionally
	std::unordered_map<uint64_t, std::vector<T>> cls;
	std::set<std::pair<T, T>> failed;
	uint64_t merged = 0, tried = 0; double seconds = 0;
	Sweep(Terms &t, Smt &s) : tm(t), smt(s) {}

	static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
	static uint64_t hs(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h); }
	uint64_t sample(T t, unsigned k) {
		unsigned W = tm.w(t); uint64_t h = mix(hs(tm.names[tm.nodes[t].val]) + k * 0x9E3779B97F4A7C15ull), r = mix(h + 1);
		if (W != 32 && W != 64) return (k % 3 == 0 ? r : k % 3 == 1 ? r & 3 : h & r) & maskw(W);
		unsigned M = W == 32 ? 23 : 52; uint64_t bias = W == 32 ? 127 : 1023, mant = r & ((1ull << M) - 1), sg = (h >> 63) << (W - 1);
		switch (k < 4 ? 9 : h % 9) {
			case 0: case 1: return sg | ((bias - 6 + (h >> 8) % 14) << M) | mant;
			case 2: return sg | ((bias - 30 + (h >> 8) % 80) << M) | mant;
			case 3: return r & maskw(W);
			case 4: return sg | ((bias + (h >> 8) % 8) << M);
			case 5: { static const int sp[] = {0, 1, 2, 3, 4, 5}; switch (sp[(h >> 8) % 6]) { case 0: return sg; case 1: return sg | tm.infbits(W); case 2: return sg | tm.nanbits(W); case 3: return sg | (mant >> (1 + (h >> 16) % (M - 2))); case 4: return sg | tm.onebits(W); default: return sg | (tm.infbits(W) - 1); } }
			case 6: return (h >> 20) % 64;
			case 7: return sg | ((h >> 8) % (2 * bias)) << M | mant;
			case 8: return (r >> (h >> 8) % (W - 1)) & maskw(W);
			default: return sg | ((bias - 3 + (h >> 8) % 8) << M) | mant;
		}
	}
	uint64_t qn(uint64_t v, unsigned W) { return (W == 32 || W == 64) && (v & maskw(W - 1)) > tm.infbits(W) ? tm.nanbits(W) : v; }
	bool val(T t, std::vector<uint64_t> &r) { // children evaluated
		const Node n = tm.nodes[t]; unsigned W = n.w; if (W > 64) return false;
		std::vector<const std::vector<uint64_t> *> c(n.nch); std::vector<unsigned> cw(n.nch);
		for (unsigned i = 0; i < n.nch; i++) { auto &s = sig[tm.ch(t, i)]; if (s.empty()) return false; cw[i] = tm.w(tm.ch(t, i)); }
		for (unsigned i = 0; i < n.nch; i++) c[i] = &sig[tm.ch(t, i)];
		r.resize(S);
		for (unsigned k = 0; k < S; k++) {
			auto a = [&](unsigned i) { return (*c[i])[k]; };
			uint64_t x = 0;
			bool f32 = n.nch && cw[0] == 32;
			auto fd = [&](unsigned i) { return f32 ? (double)Terms::f(a(i)) : Terms::d(a(i)); };
			switch (n.op) {
				case CONST: x = n.val; break;
				case VAR: x = sample(t, k); break;
				case BASE: x = mix(n.val + 77) & ~63ull & 0x7fffffffffffull; break;
				case UNDEFNAN: x = tm.nanbits(W); break;
				case NOT: x = ~a(0); break;
				case AND: x = a(0); for (unsigned i = 1; i < n.nch; i++) x &= a(i); break;
				case OR: x = a(0); for (unsigned i = 1; i < n.nch; i++) x |= a(i); break;
				case XOR: x = a(0); for (unsigned i = 1; i < n.nch; i++) x ^= a(i); break;
				case ADD: x = n.val; for (unsigned i = 0; i < n.nch; i++) x += a(i); break;
				case MULC: x = a(0) * n.val; break;
				case MUL: x = a(0); for (unsigned i = 1; i < n.nch; i++) x *= a(i); break;
				case UDIV: x = a(1) ? a(0) / a(1) : ~0ull; break;
				case UREM: x = a(1) ? a(0) % a(1) : a(0); break;
				case SDIV: { int64_t p = sx(a(0), W), q = sx(a(1), W); x = !q ? (p < 0 ? 1 : ~0ull) : q == -1 ? 0 - (uint64_t)p : (uint64_t)(p / q); break; }
				case SREM: { int64_t p = sx(a(0), W), q = sx(a(1), W); x = !q ? (uint64_t)p : q == -1 ? 0 : (uint64_t)(p % q); break; }
				case SHL: x = a(1) >= W ? 0 : a(0) << a(1); break;
				case LSHR: x = a(1) >= W ? 0 : a(0) >> a(1); break;
				case ASHR: x = (uint64_t)(sx(a(0), W) >> (a(1) >= W ? W - 1 : a(1))); break;
				case EQ: x = a(0) == a(1); break;
				case ULT: x = a(0) < a(1); break;
				case SLT: x = sx(a(0), cw[0]) < sx(a(1), cw[1]); break;
				case ITE: x = a(0) ? a(1) : a(2); break;
				case CONCAT: x = 0; for (unsigned i = 0; i < n.nch; i++) x = (cw[i] >= 64 ? 0 : x << cw[i]) | a(i); break;
				case EXTRACT: x = a(0) >> (uint32_t)n.val; break;
				case SEXT: x = (uint64_t)sx(a(0), cw[0]); break;
				case FADD: x = W == 32 ? Terms::bits(Terms::f(a(0)) + Terms::f(a(1))) : Terms::bits(Terms::d(a(0)) + Terms::d(a(1))); x = qn(x, W); break;
				case FMUL: x = W == 32 ? Terms::bits(Terms::f(a(0)) * Terms::f(a(1))) : Terms::bits(Terms::d(a(0)) * Terms::d(a(1))); x = qn(x, W); break;
				case FDIV: x = W == 32 ? Terms::bits(Terms::f(a(0)) / Terms::f(a(1))) : Terms::bits(Terms::d(a(0)) / Terms::d(a(1))); x = qn(x, W); break;
				case FSQRT: x = W == 32 ? Terms::bits(std::sqrt(Terms::f(a(0)))) : Terms::bits(std::sqrt(Terms::d(a(0)))); x = qn(x, W); break;
				case FMA: x = W == 32 ? Terms::bits(std::fma(Terms::f(a(0)), Terms::f(a(1)), Terms::f(a(2)))) : Terms::bits(std::fma(Terms::d(a(0)), Terms::d(a(1)), Terms::d(a(2)))); x = qn(x, W); break;
				case FROUND: { double v = fd(0); if (v != v) { x = a(0) | (W == 32 ? 0x400000ull : 0x8000000000000ull); break; } v = n.val == 0 ? std::floor(v) : n.val == 1 ? std::ceil(v) : n.val == 2 ? std::trunc(v) : n.val == 3 ? std::nearbyint(v) : std::round(v); x = W == 32 ? Terms::bits((float)v) : Terms::bits(v); break; }
				case FEXT: x = qn(Terms::bits((double)Terms::f(a(0))), 64); break;
				case FTRUNC: x = qn(Terms::bits((float)Terms::d(a(0))), 32); break;
				case FTOSI: { double v = fd(0), lim = std::ldexp(1.0, W - 1); x = v > -lim - 1 && v < lim && (W < 64 || v >= -lim) ? (uint64_t)(int64_t)v : 1ull << (W - 1); break; }
				case FTOUI: { double v = fd(0), lim = std::ldexp(1.0, W); x = v > -1 && v < lim ? (uint64_t)v : 0; break; }
				case SITOF: { int64_t v = sx(a(0), cw[0]); x = W == 32 ? Terms::bits((float)v) : Terms::bits((double)v); break; }
				case UITOF: x = W == 32 ? Terms::bits((float)a(0)) : Terms::bits((double)a(0)); break;
				case FNAN: x = (a(0) & maskw(cw[0] - 1)) > tm.infbits(cw[0]); break;
				case FLT: x = fd(0) < fd(1); break;
				case FEQ: x = fd(0) == fd(1); break;
				case UF: { x = hs(tm.names[n.val]); for (unsigned i = 0; i < n.nch; i++) x = mix(x + a(i)); break; }
				case TBL: { auto *b = smt.tableBytes ? smt.tableBytes(n.val) : nullptr; if (b && W % 8 == 0 && a(0) + W / 8 <= b->size() && a(0) < b->size()) memcpy(&x, b->data() + a(0), W / 8); else x = mix(a(0) + n.val * 31); break; }
				default: return false;
			}
			r[k] = x & maskw(W);
		}
		return true;
	}
	void eval(T root) {
		if (sig.count(root)) return;
		std::vector<std::pair<T, bool>> st{{root, false}};
		while (!st.empty()) {
			auto [t, d] = st.back(); st.pop_back(); if (sig.count(t)) continue;
			if (!d) { st.push_back({t, true}); for (unsigned i = 0; i < tm.nodes[t].nch; i++) if (!sig.count(tm.ch(t, i))) st.push_back({tm.ch(t, i), false}); continue; }
			std::vector<uint64_t> r; if (!val(t, r)) r.clear(); sig[t] = std::move(r);
		}
	}
	bool equal(T x, T y, double &budget, unsigned &deep) {
		if (x == y) return true; if (x > y) std::swap(x, y); if (failed.count({x, y})) return false;
		tried++; auto t0 = std::chrono::steady_clock::now();
		std::vector<T> q{tm.bnot(tm.eq(x, y))}; bool ok = q[0] == tm.tFalse;
		static const bool trace = getenv("IRVC_SWEEP");
		Res r = ok ? UNSAT : smt.inproc(q, false, nullptr, 1500, true); ok = r == UNSAT;
		bool dp = false; if (!ok && deep) { deep--; dp = true; ok = smt.inproc(q, false, nullptr, 400) == UNSAT; }
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		budget -= dt; seconds += dt;
		if (trace) fprintf(stderr, "    sweep %s #%u #%u w%u %s %.2fs\n        %s\n        %s\n", ok ? "==" : r == SAT ? "!=" : "??", x, y, tm.w(x), dp ? "deep" : "", dt, tm.str(x, 7).substr(0, 600).c_str(), tm.str(y, 7).substr(0, 600).c_str());
		if (!ok) failed.insert({x, y});
		return ok;
	}
	static bool cut(uint8_t o) { return (o >= FADD && o <= UITOF) || o == UF || o == TBL; }
	/** Rewrites the conjunction with the equalities found. Returns false when nothing changed. */
	bool run(std::vector<T> &q, double budget) {
		std::vector<T> order; std::unordered_set<T> seen, cand;
		for (T root : q) {
			std::vector<std::pair<T, bool>> st{{root, false}};
			while (!st.empty()) {
				auto [t, d] = st.back(); st.pop_back(); if (d) { order.push_back(t); continue; }
				if (!seen.insert(t).second) continue;
				st.push_back({t, true}); uint8_t o = tm.op(t);
				for (unsigned i = 0; i < tm.nodes[t].nch; i++) { T c = tm.ch(t, i); if (cut(o) || o == FLT || o == FEQ || o == FNAN) cand.insert(c); st.push_back({c, false}); }
			}
		}
		unsigned deep = 10; bool changed = false;
		for (T t : order) {
			T x = t; auto it = rep.find(t);
			if (it != rep.end()) x = it->second;
			else {
				unsigned n = tm.nodes[t].nch; std::vector<T> c(n); bool same = true;
				for (unsigned i = 0; i < n; i++) { T k = tm.ch(t, i); auto j = rep.find(k); c[i] = j == rep.end() ? k : j->second; same &= c[i] == k; }
				if (!same) { x = tm.remake(tm.nodes[t].op, tm.nodes[t].w, tm.nodes[t].val, c); auto j = rep.find(x); if (j != rep.end()) x = j->second; }
				bool known = false;
				if (cand.count(t) && !tm.isC(x) && tm.w(x) > 1 && tm.w(x) <= 64 && tm.op(x) != VAR && tm.op(x) != UF && tm.op(x) != TBL && !(tm.op(x) >= FADD && tm.op(x) <= UITOF && !(tm.op(x) == FROUND))) known = true;
				if (cand.count(t) && !tm.isC(x) && tm.w(x) > 1 && tm.w(x) <= 64) {
					eval(x); auto &sg = sig[x];
					if (!sg.empty()) {
						uint64_t h = tm.w(x); bool allsame = true; for (auto v : sg) { h = mix(h ^ v) + v; allsame &= v == sg[0]; }
						if (allsame) { if (budget > 0 && known) { T k = tm.konst(tm.w(x), sg[0]); if (equal(x, k, budget, deep)) { x = k; merged++; } } }
						else {
							auto &v = cls[h]; bool hit = false; unsigned tries = 0;
							for (T r : v) { if (r == x) { hit = true; break; } }
							if (!hit) for (T r : v) { if (budget <= 0 || tries++ >= 3) break; bool ck = known || !(tm.op(r) >= FADD && tm.op(r) <= UITOF && tm.op(r) != FROUND); if (ck && equal(x, r, budget, deep)) { x = r; hit = true; merged++; break; } }
							if (!hit) v.push_back(x);
						}
					}
				}
				if (x != t) { rep[t] = x; }
			}
			if (x != t) changed = true;
		}
		if (!changed) return false;
		std::vector<T> r; for (T t : q) { auto it = rep.find(t); T x = it == rep.end() ? t : it->second; if (x != tm.tTrue) r.push_back(x); }
		q = r; return true;
	}
};
