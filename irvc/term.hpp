// Hash-consed bit-vector / floating-point terms with a rewriting simplifier.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>
#include <stdexcept>

using T = uint32_t;
typedef unsigned __int128 u128;

enum Op : uint8_t {
	CONST, VAR, BASE,
	NOT, AND, OR, XOR,
	ADD, MULC, MUL, UDIV, UREM, SDIV, SREM,
	SHL, LSHR, ASHR,
	EQ, ULT, SLT,
	ITE, CONCAT, EXTRACT, SEXT,
	FADD, FMUL, FDIV, FSQRT, FMA, FROUND /*val: 0 floor 1 ceil 2 trunc 3 rint(nearest even) 4 round(half away)*/,
	FEXT, FTRUNC, FTOSI, FTOUI, SITOF, UITOF,
	FNAN, FLT, FEQ,
	UF /* val: index of name */, TBL /* val: object id, aux = elem bytes */,
	UNDEFNAN, CTPOP
};

static const char *opname(uint8_t o) {
	static const char *n[] = {"const","var","base","not","and","or","xor","add","mulc","mul","udiv","urem","sdiv","srem","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","sext","fadd","fmul","fdiv","fsqrt","fma","fround","fext","ftrunc","ftosi","ftoui","sitof","uitof","fnan","flt","feq","uf","tbl","undefnan","ctpop"};
	return n[o];
}

struct Node { uint8_t op; uint16_t w; uint32_t nch, off; uint64_t val; };

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w)) >> (64 - w)); }

struct Terms {
	std::vector<Node> nodes;
	std::vector<T> pool;
	std::vector<uint32_t> table; // open addressing
	std::vector<std::string> names; // vars & ufs
	std::unordered_map<std::string, uint32_t> nameIdx;
	std::vector<uint64_t> objAlign; // for BASE
	T tTrue, tFalse;

	Terms() {
		table.assign(1 << 16, 0);
		nodes.push_back({CONST, 0, 0, 0, 0}); // id 0 invalid
		tFalse = konst(1, 0); tTrue = konst(1, 1);
	}
	const T *ch(T t) const { return &pool[nodes[t].off]; }
	T ch(T t, unsigned i) const { return pool[nodes[t].off + i]; }
	unsigned w(T t) const { return nodes[t].w; }
	uint8_t op(T t) const { return nodes[t].op; }
	bool isC(T t) const { return nodes[t].op == CONST; }
	uint64_t cv(T t) const { return nodes[t].val; }
	bool isC(T t, uint64_t v) const { return nodes[t].op == CONST && nodes[t].val == v; }

	uint64_t hashNode(uint8_t op, unsigned w, uint64_t val, const T *c, unsigned n) const {
		uint64_t h = op * 0x9E3779B97F4A7C15ull ^ (w * 0xC2B2AE3D27D4EB4Full) ^ (val + 0x165667B19E3779F9ull + (val << 6));
		for (unsigned i = 0; i < n; i++) { h ^= c[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; }
		h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
		return h;
	}
	T raw(uint8_t op, unsigned w, uint64_t val, const T *c, unsigned n) {
		if (nodes.size() * 2 > table.size()) rehash();
		uint64_t h = hashNode(op, w, val, c, n);
		size_t m = table.size() - 1, i = h & m;
		while (table[i]) {
			const Node &nd = nodes[table[i]];
			if (nd.op == op && nd.w == w && nd.val == val && nd.nch == n && (n == 0 || !memcmp(&pool[nd.off], c, n * sizeof(T)))) return table[i];
			i = (i + 1) & m;
		}
		T id = nodes.size();
		uint32_t off = pool.size();
		if (n) { // c may alias the pool
			std::vector<T> tmp(c, c + n);
			pool.insert(pool.end(), tmp.begin(), tmp.end());
		}
		nodes.push_back({op, (uint16_t)w, n, off, val});
		table[i] = id;
		if (nodes.size() > 60000000) throw Unsupported("term limit exceeded");
		return id;
	}
	void rehash() {
		std::vector<uint32_t> nt(table.size() * 2, 0);
		size_t m = nt.size() - 1;
		for (T id = 1; id < nodes.size(); id++) {
			const Node &nd = nodes[id];
			size_t i = hashNode(nd.op, nd.w, nd.val, nd.nch ? &pool[nd.off] : nullptr, nd.nch) & m;
			while (nt[i]) i = (i + 1) & m;
			nt[i] = id;
		}
		table.swap(nt);
	}
	T raw(uint8_t op, unsigned w, uint64_t val, std::initializer_list<T> c) { return raw(op, w, val, c.begin(), c.size()); }
	T raw(uint8_t op, unsigned w, uint64_t val, const std::vector<T> &c) { return raw(op, w, val, c.data(), c.size()); }

	T konst(unsigned w, uint64_t v) {
		if (w <= 64) return raw(CONST, w, v & maskw(w), nullptr, 0);
		// wide constants are concatenations, most significant first
		std::vector<T> parts;
		unsigned rem = w;
		std::vector<std::pair<unsigned, uint64_t>> ps;
		bool first = true;
		while (rem) { unsigned k = rem > 64 ? 64 : rem; ps.push_back({k, first ? v : 0}); first = false; rem -= k; }
		for (auto it = ps.rbegin(); it != ps.rend(); ++it) parts.push_back(konst(it->first, it->second));
		return raw(CONCAT, w, 0, parts);
	}
	T ones(unsigned w) { return w <= 64 ? konst(w, ~0ull) : bnot(konst(w, 0)); }
	uint32_t name(const std::string &s) {
		auto it = nameIdx.find(s);
		if (it != nameIdx.end()) return it->second;
		uint32_t i = names.size(); names.push_back(s); nameIdx[s] = i; return i;
	}
	T var(unsigned w, const std::string &s) { return raw(VAR, w, name(s), nullptr, 0); }
	T base(uint64_t obj) { return raw(BASE, 64, obj, nullptr, 0); }
	T b(bool v) { return v ? tTrue : tFalse; }

	// ---- bitwise ------------------------------------------------------------
	T bnot(T a) {
		unsigned W = w(a);
		if (isC(a)) return konst(W, ~cv(a));
		switch (op(a)) {
			case NOT: return ch(a, 0);
			case CONCAT: { std::vector<T> v(ch(a), ch(a) + nodes[a].nch); for (auto &x : v) x = bnot(x); return concat(v); }
			case ITE: { T c = ch(a, 0), p = ch(a, 1), q = ch(a, 2); if (isC(p) || isC(q)) return ite(c, bnot(p), bnot(q)); break; }
			case SEXT: return sext(bnot(ch(a, 0)), W);
		}
		return raw(NOT, W, 0, {a});
	}
	// split points for bitwise ops over concatenations
	void cuts(T a, std::vector<unsigned> &out) { // low offsets of boundaries, excluding 0 and W
		if (op(a) == CONCAT) { unsigned o = 0; for (int i = nodes[a].nch - 1; i > 0; i--) { o += w(ch(a, i)); out.push_back(o); } }
	}
	static void runs(uint64_t c, unsigned W, std::vector<unsigned> &out) {
		for (unsigned i = 1; i < W; i++) if (((c >> i) ^ (c >> (i - 1))) & 1) out.push_back(i);
	}
	T bitop(uint8_t o, T a, T b_) {
		if (w(a) != w(b_)) throw Unsupported("width mismatch in bitop");
		unsigned W = w(a);
		if (isC(a) && isC(b_)) { uint64_t x = cv(a), y = cv(b_); return konst(W, o == AND ? x & y : o == OR ? x | y : x ^ y); }
		if (isC(a)) std::swap(a, b_);
		if (a == b_) return o == XOR ? konst(W, 0) : a;
		if (W <= 64 && isC(b_)) {
			uint64_t c = cv(b_);
			if (c == 0) return o == AND ? b_ : a;
			if (c == maskw(W)) return o == AND ? a : o == OR ? b_ : bnot(a);
		}
		if ((op(a) == NOT && ch(a, 0) == b_) || (op(b_) == NOT && ch(b_, 0) == a)) return o == AND ? konst(W, 0) : ones(W);
		// if-then-else with the same condition, or constant arms
		{
			T x = a, y = b_;
			auto litarm = [&](T t) { return op(t) == ITE && (lit(ch(t, 1)) || lit(ch(t, 2))); };
			if (W > 1) {
				if (op(x) == ITE && op(y) == ITE && ch(x, 0) == ch(y, 0)) return ite(ch(x, 0), bitop(o, ch(x, 1), ch(y, 1)), bitop(o, ch(x, 2), ch(y, 2)));
				if (op(y) == SEXT && w(ch(y, 0)) == 1) std::swap(x, y);
				if (litarm(y) && !litarm(x)) std::swap(x, y);
				if (litarm(x)) {
					bool both = lit(ch(x, 1)) && lit(ch(x, 2));
					if (both || (o != XOR && (isZeroOnes(ch(x, 1)) || isZeroOnes(ch(x, 2))))) {
						T p = bitop(o, ch(x, 1), y), q = bitop(o, ch(x, 2), y);
						return ite(ch(x, 0), under(p, ch(x, 0), true), under(q, ch(x, 0), false));
					}
				}
			}
		}
		// slice along concatenation boundaries / runs of a constant
		if (W > 1) {
			std::vector<unsigned> cs;
			cuts(a, cs); cuts(b_, cs);
			if (isC(b_)) {
				std::vector<unsigned> r; runs(cv(b_), W, r);
				if (o != XOR || !cs.empty()) { if (r.size() <= 16) cs.insert(cs.end(), r.begin(), r.end()); }
				else if (r.size() <= 2) cs.insert(cs.end(), r.begin(), r.end());
			}
			if (!cs.empty()) {
				std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
				std::vector<T> parts; unsigned hi = W;
				for (int i = (int)cs.size(); i >= 0; i--) {
					unsigned lo = i ? cs[i - 1] : 0;
					parts.push_back(bitop(o, extract(a, hi - 1, lo), extract(b_, hi - 1, lo)));
					hi = lo;
				}
				return concat(parts);
			}
		}
		// n-ary flattening
		std::vector<T> v;
		auto add = [&](T t) { if (op(t) == o) v.insert(v.end(), ch(t), ch(t) + nodes[t].nch); else v.push_back(t); };
		add(a); add(b_);
		std::sort(v.begin(), v.end());
		std::vector<T> r; uint64_t kc = 0; bool hask = false;
		for (size_t i = 0; i < v.size(); i++) {
			if (isC(v[i])) { uint64_t c = cv(v[i]); kc = hask ? (o == AND ? kc & c : o == OR ? kc | c : kc ^ c) : c; hask = true; continue; }
			if (!r.empty() && r.back() == v[i]) { if (o == XOR) r.pop_back(); continue; }
			r.push_back(v[i]);
		}
		if (hask) {
			if (o == AND && kc == 0) return konst(W, 0);
			if (o == OR && kc == maskw(W)) return konst(W, kc);
			if (o == XOR && kc == maskw(W)) { T t = r.empty() ? konst(W, 0) : r.size() == 1 ? r[0] : raw(o, W, 0, r); return bnot(t); }
			if (!((o == AND && kc == maskw(W)) || (o != AND && kc == 0))) r.push_back(konst(W, kc));
		}
		if (o != XOR) {
			for (T t : r) if (op(t) == NOT && std::binary_search(r.begin(), r.end(), ch(t, 0))) return o == AND ? konst(W, 0) : ones(W);
			// absorption: a & (a | b) = a ; a & (~a | b) = a & b
			if (r.size() <= 64) {
				uint8_t dual = o == AND ? OR : AND;
				for (size_t i = 0; i < r.size(); i++) if (op(r[i]) == dual) {
					std::vector<T> keep; bool absorbed = false;
					for (unsigned k = 0; k < nodes[r[i]].nch && !absorbed; k++) {
						T x = ch(r[i], k);
						bool drop = false;
						for (size_t j = 0; j < r.size(); j++) if (j != i) {
							if (r[j] == x) { absorbed = true; break; }
							if ((op(r[j]) == NOT && ch(r[j], 0) == x) || (op(x) == NOT && ch(x, 0) == r[j])) drop = true;
						}
						if (!drop) keep.push_back(x);
					}
					if (absorbed) { std::vector<T> rr(r); rr.erase(rr.begin() + i); return nary(o, W, rr); }
					if (keep.size() != nodes[r[i]].nch) { std::vector<T> rr(r); rr.erase(rr.begin() + i); rr.push_back(keep.empty() ? (dual == OR ? konst(W, 0) : ones(W)) : nary(dual, W, keep)); return nary(o, W, rr); }
				}
			}
		}
		else {
			// pull negations out of xor
			bool neg = false, any = false;
			for (auto &t : r) if (op(t) == NOT) { t = ch(t, 0); neg = !neg; any = true; }
			if (any) { T t = nary(XOR, W, r); return neg ? bnot(t) : t; }
		}
		if (r.empty()) return o == AND ? ones(W) : konst(W, 0);
		if (r.size() == 1) return r[0];
		std::sort(r.begin(), r.end());
		return raw(o, W, 0, r);
	}
	T nary(uint8_t o, unsigned W, const std::vector<T> &v) {
		if (v.empty()) return o == AND ? ones(W) : konst(W, 0);
		T t = v[0];
		for (size_t i = 1; i < v.size(); i++) t = bitop(o, t, v[i]);
		return t;
	}
	bool lit(T t) { if (isC(t)) return true; if (op(t) == CONCAT) { for (unsigned i = 0; i < nodes[t].nch; i++) if (!isC(ch(t, i))) return false; return true; } return false; }
	bool isZeroOnes(T t) {
		if (isC(t)) return cv(t) == 0 || cv(t) == maskw(w(t));
		if (op(t) == CONCAT) { for (unsigned i = 0; i < nodes[t].nch; i++) if (!isC(ch(t, i))) return false; bool z = true, o = true; for (unsigned i = 0; i < nodes[t].nch; i++) { T c = ch(t, i); z &= cv(c) == 0; o &= cv(c) == maskw(w(c)); } return z || o; }
		return false;
	}
	// simplify t knowing that boolean c is v (only looks at the top)
	T under(T t, T c, bool v) {
		if (op(t) == ITE) {
			if (ch(t, 0) == c) return v ? ch(t, 1) : ch(t, 2);
		}
		if (t == c) return b(v);
		if (w(t) == 1 && op(t) == NOT && ch(t, 0) == c) return b(!v);
		return t;
	}
	T band(T a, T c) { return bitop(AND, a, c); }
	T bor(T a, T c) { return bitop(OR, a, c); }
	T bxor(T a, T c) { return bitop(XOR, a, c); }
	T andl(const std::vector<T> &v) { return nary(AND, 1, v); }
	T implies(T a, T c) { return bor(bnot(a), c); }

	// ---- structure ------------------------------------------------------------
	T concat(const std::vector<T> &in) { // most significant first
		std::vector<T> v;
		unsigned W = 0;
		for (T t : in) {
			if (w(t) == 0) continue;
			W += w(t);
			if (op(t) == CONCAT) for (unsigned i = 0; i < nodes[t].nch; i++) push(v, ch(t, i)); else push(v, t);
		}
		if (v.size() == 1) return v[0];
		return raw(CONCAT, W, 0, v);
	}
	T concat2(T hi, T lo) { return concat({hi, lo}); }
	void push(std::vector<T> &v, T t) {
		while (true) {
			if (v.empty()) { v.push_back(t); return; }
			T m = join(v.back(), t);
			if (!m) { v.push_back(t); return; }
			v.pop_back(); t = m;
			if (op(t) == CONCAT) { // joined into something structured: flatten
				std::vector<T> c(ch(t), ch(t) + nodes[t].nch);
				for (T x : c) v.push_back(x);
				return;
			}
		}
	}
	T join(T a, T c) { // a: more significant
		unsigned W = w(a) + w(c);
		if (isC(a) && isC(c)) { if (W <= 64) return konst(W, (cv(a) << w(c)) | cv(c)); return 0; }
		auto src = [&](T t, unsigned &hi, unsigned &lo) { if (op(t) == EXTRACT) { hi = nodes[t].val >> 32; lo = (uint32_t)nodes[t].val; return ch(t, 0); } hi = w(t) - 1; lo = 0; return t; };
		unsigned h1, l1, h2, l2; T s1 = src(a, h1, l1), s2 = src(c, h2, l2);
		if (s1 == s2 && l1 == h2 + 1) return extract(s1, h1, l2);
		// low parts of sums and products are kept narrow: recognise the part that continues the one above it
		if (op(a) == EXTRACT && l1 >= w(c) && (op(s1) == ADD || op(s1) == MUL || op(s1) == MULC) && l1 == w(c) && extract(s1, l1 - 1, 0) == c) return extract(s1, h1, 0);
		// sign bits on top of a value
		if (op(a) == SEXT && w(ch(a, 0)) == 1) {}
		if (op(a) == ITE && op(c) == ITE && ch(a, 0) == ch(c, 0)) return ite(ch(a, 0), concat2(ch(a, 1), ch(c, 1)), concat2(ch(a, 2), ch(c, 2)));
		if (op(a) == NOT && op(c) == NOT) { T j = join(ch(a, 0), ch(c, 0)); if (j) return bnot(j); }
		if ((op(a) == AND || op(a) == OR || op(a) == XOR) && op(a) == op(c) && nodes[a].nch == 2 && nodes[c].nch == 2) {
			T p = join(ch(a, 0), ch(c, 0)); T q = p ? join(ch(a, 1), ch(c, 1)) : 0;
			if (p && q && op(p) != CONCAT && op(q) != CONCAT) return rawBit(op(a), p, q);
			p = join(ch(a, 0), ch(c, 1)); q = p ? join(ch(a, 1), ch(c, 0)) : 0;
			if (p && q && op(p) != CONCAT && op(q) != CONCAT) return rawBit(op(a), p, q);
		}
		return 0;
	}
	T rawBit(uint8_t o, T p, T q) { if (p > q) std::swap(p, q); return bitop(o, p, q); }
	T extract(T a, unsigned hi, unsigned lo) {
		unsigned W = w(a);
		if (hi >= W || lo > hi) throw Unsupported("bad extract");
		if (lo == 0 && hi == W - 1) return a;
		unsigned K = hi - lo + 1;
		switch (op(a)) {
			case CONST: return konst(K, cv(a) >> lo);
			case EXTRACT: { unsigned l = (uint32_t)nodes[a].val; return extract(ch(a, 0), hi + l, lo + l); }
			case CONCAT: {
				std::vector<T> parts; unsigned o = W;
				for (unsigned i = 0; i < nodes[a].nch; i++) {
					T c = ch(a, i); unsigned cw = w(c); o -= cw; // c occupies [o, o+cw)
					unsigned l = std::max(lo, o), h = std::min(hi, o + cw - 1);
					if (l <= h && lo < o + cw && hi >= o) parts.push_back(extract(c, h - o, l - o));
				}
				return concat(parts);
			}
			case NOT: return bnot(extract(ch(a, 0), hi, lo));
			case AND: case OR: case XOR: {
				std::vector<T> v(ch(a), ch(a) + nodes[a].nch); uint8_t o = op(a);
				for (auto &x : v) x = extract(x, hi, lo);
				return nary(o, K, v);
			}
			case ITE: { T c = ch(a, 0), p = ch(a, 1), q = ch(a, 2); return ite(c, extract(p, hi, lo), extract(q, hi, lo)); }
			case SEXT: {
				T x = ch(a, 0); unsigned xw = w(x);
				if (hi < xw) return extract(x, hi, lo);
				if (lo >= xw - 1) return sext(extract(x, xw - 1, xw - 1), K);
				return sext(extract(x, xw - 1, lo), K);
			}
			case ADD: if (lo == 0) {
				std::vector<T> v(ch(a), ch(a) + nodes[a].nch); uint64_t k = nodes[a].val;
				for (auto &x : v) x = extract(x, hi, 0);
				T r = konst(K, k); for (T x : v) r = add(r, x);
				return r;
			} break;
			case MULC: if (lo == 0) { T x = ch(a, 0); uint64_t k = nodes[a].val; return mulc(extract(x, hi, 0), k); }
				{ // multiplication by a power of two is a shift
					uint64_t k = nodes[a].val;
					if (k && !(k & (k - 1))) return extract(shlk(ch(a, 0), __builtin_ctzll(k)), hi, lo);
				} break;
			case MUL: if (lo == 0) {
				std::vector<T> v(ch(a), ch(a) + nodes[a].nch);
				T r = extract(v[0], hi, 0); for (size_t i = 1; i < v.size(); i++) r = mul(r, extract(v[i], hi, 0));
				return r;
			} break;
		}
		return raw(EXTRACT, K, ((uint64_t)hi << 32) | lo, {a});
	}
	T zext(T a, unsigned W) { if (w(a) == W) return a; return concat2(konst(W - w(a), 0), a); }
	T sext(T a, unsigned W) {
		if (w(a) == W) return a;
		if (isC(a)) { if (W <= 64) return konst(W, sx(cv(a), w(a))); return cv(a) >> (w(a) - 1) & 1 ? concat2(ones(W - w(a)), a) : concat2(konst(W - w(a), 0), a); }
		if (w(a) == 1) return ite(a, ones(W), konst(W, 0));
		if (op(a) == SEXT) return sext(ch(a, 0), W);
		if (op(a) == CONCAT && isC(ch(a, 0))) { T t = ch(a, 0); return cv(t) >> (w(t) - 1) & 1 ? concat2(ones(W - w(a)), a) : concat2(konst(W - w(a), 0), a); }
		if (op(a) == ITE && (lit(ch(a, 1)) || lit(ch(a, 2)))) return ite(ch(a, 0), sext(ch(a, 1), W), sext(ch(a, 2), W));
		return raw(SEXT, W, 0, {a});
	}
	T truncT(T a, unsigned W) { return extract(a, W - 1, 0); }
	T shlk(T a, unsigned k) { unsigned W = w(a); if (!k) return a; if (k >= W) return konst(W, 0); return concat2(extract(a, W - 1 - k, 0), konst(k, 0)); }
	T lshrk(T a, unsigned k) { unsigned W = w(a); if (!k) return a; if (k >= W) return konst(W, 0); return concat2(konst(k, 0), extract(a, W - 1, k)); }
	T ashrk(T a, unsigned k) { unsigned W = w(a); if (!k) return a; if (k >= W) k = W - 1; return sext(extract(a, W - 1, k), W); }
	T ite(T c, T p, T q) {
		if (w(p) != w(q)) throw Unsupported("ite width mismatch");
		if (isC(c)) return cv(c) ? p : q;
		if (p == q) return p;
		if (op(c) == NOT) return ite(ch(c, 0), q, p);
		p = under(p, c, true); q = under(q, c, false);
		if (p == q) return p;
		if (w(p) == 1) {
			if (isC(p) && isC(q)) return cv(p) ? c : bnot(c);
			if (isC(p)) return cv(p) ? bor(c, q) : band(bnot(c), q);
			if (isC(q)) return cv(q) ? bor(bnot(c), p) : band(c, p);
			if (p == bnot(q)) return bnot(bxor(c, p));
		}
		// shared-structure concat: keep constants visible
		if (op(p) == CONCAT && op(q) == CONCAT && nodes[p].nch == nodes[q].nch) {
			bool same = true, shared = false;
			for (unsigned i = 0; i < nodes[p].nch; i++) { if (w(ch(p, i)) != w(ch(q, i))) same = false; else if (ch(p, i) == ch(q, i)) shared = true; }
			if (same && shared) { std::vector<T> pv(ch(p), ch(p) + nodes[p].nch), qv(ch(q), ch(q) + nodes[q].nch); for (size_t i = 0; i < pv.size(); i++) pv[i] = ite(c, pv[i], qv[i]); return rawConcat(pv); }
		}
		// ite(c, ite(d,x,y), y) = ite(c&d, x, y)
		if (op(p) == ITE && ch(p, 2) == q) return ite(band(c, ch(p, 0)), ch(p, 1), q);
		if (op(p) == ITE && ch(p, 1) == q) return ite(band(c, bnot(ch(p, 0))), ch(p, 2), q);
		if (op(q) == ITE && ch(q, 1) == p) return ite(bor(c, ch(q, 0)), p, ch(q, 2));
		if (op(q) == ITE && ch(q, 2) == p) return ite(bor(c, bnot(ch(q, 0))), p, ch(q, 1));
		return raw(ITE, w(p), 0, {c, p, q});
	}
	T rawConcat(const std::vector<T> &in) { // joins constants/extracts only, not ites
		std::vector<T> v; unsigned W = 0;
		for (T t : in) {
			W += w(t);
			auto one = [&](T x) {
				if (!v.empty() && !(op(v.back()) == ITE && op(x) == ITE)) { T m = join(v.back(), x); if (m && op(m) != CONCAT) { v.back() = m; return; } }
				v.push_back(x);
			};
			if (op(t) == CONCAT) for (unsigned i = 0; i < nodes[t].nch; i++) one(ch(t, i)); else one(t);
		}
		return v.size() == 1 ? v[0] : raw(CONCAT, W, 0, v);
	}

	// ---- arithmetic ------------------------------------------------------------
	T add(T a, T c) {
		unsigned W = w(a);
		if (W != w(c)) throw Unsupported("width mismatch in add");
		if (W == 1) return bxor(a, c);
		if (W > 64) throw Unsupported("wide add");
		uint64_t k = 0; std::map<T, uint64_t> co; // ordered
		auto acc = [&](T t, uint64_t m) {
			std::function<void(T, uint64_t)> go = [&](T x, uint64_t mm) {
				if (isC(x)) k += cv(x) * mm;
				else if (op(x) == ADD) { k += nodes[x].val * mm; std::vector<T> v(ch(x), ch(x) + nodes[x].nch); for (T y : v) go(y, mm); }
				else if (op(x) == MULC) co[ch(x, 0)] += nodes[x].val * mm;
				else co[x] += mm;
			};
			go(t, m);
		};
		acc(a, 1); acc(c, 1);
		return lin(W, co, k);
	}
	T lin(unsigned W, const std::map<T, uint64_t> &co, uint64_t k) {
		std::vector<T> v;
		for (auto &[t, m] : co) { uint64_t mm = m & maskw(W); if (!mm) continue; v.push_back(mm == 1 ? t : raw(MULC, W, mm, {t})); }
		k &= maskw(W);
		if (v.empty()) return konst(W, k);
		// x + ~x = -1
		if (v.size() == 2 && co.size() == 2) {
			if (op(v[0]) == NOT && ch(v[0], 0) == v[1]) return konst(W, k - 1);
			if (op(v[1]) == NOT && ch(v[1], 0) == v[0]) return konst(W, k - 1);
		}
		if (v.size() == 1 && op(v[0]) == NOT && 0) {}
		if (v.size() == 1 && k == 0) { if (op(v[0]) == MULC) return normMulc(v[0]); return v[0]; }
		std::sort(v.begin(), v.end());
		return raw(ADD, W, k, v);
	}
	T normMulc(T t) { return t; }
	T mulc(T a, uint64_t k) {
		unsigned W = w(a); k &= maskw(W);
		if (k == 0) return konst(W, 0);
		if (k == 1) return a;
		if (W == 1) return a;
		if (isC(a)) return konst(W, cv(a) * k);
		if (op(a) == ADD) { std::map<T, uint64_t> co; for (unsigned i = 0; i < nodes[a].nch; i++) { T x = ch(a, i); if (op(x) == MULC) co[ch(x, 0)] += nodes[x].val * k; else co[x] += k; } return lin(W, co, nodes[a].val * k); }
		if (op(a) == MULC) return mulc(ch(a, 0), nodes[a].val * k);
		if (op(a) == ITE && lit(ch(a, 1)) && lit(ch(a, 2))) return ite(ch(a, 0), mulc(ch(a, 1), k), mulc(ch(a, 2), k));
		if (!(k & (k - 1))) return shlk(a, __builtin_ctzll(k));
		return raw(MULC, W, k, {a});
	}
	T neg(T a) { return mulcLin(a, ~0ull); }
	T mulcLin(T a, uint64_t k) { unsigned W = w(a); k &= maskw(W); if (W == 1) return k ? a : tFalse; if (isC(a)) return konst(W, cv(a) * k); if (op(a) == ADD || op(a) == MULC) return mulc(a, k); if (k == 0) return konst(W, 0); if (k == 1) return a;
		if (op(a) == ITE && lit(ch(a, 1)) && lit(ch(a, 2))) return ite(ch(a, 0), mulcLin(ch(a, 1), k), mulcLin(ch(a, 2), k));
		return raw(MULC, W, k, {a}); }
	T sub(T a, T c) {
		if (w(a) == 1) return bxor(a, c);
		if (op(a) == BASE && op(c) == BASE && a == c) return konst(64, 0);
		return add(a, mulcLin(c, ~0ull));
	}
	bool zx32(T t) { return op(t) == CONCAT && isC(ch(t, 0), 0) && w(ch(t, 0)) >= 32; }
	T mul(T a, T c) {
		unsigned W = w(a);
		if (W == 1) return band(a, c);
		if (isC(a)) return mulc(c, cv(a));
		if (isC(c)) return mulc(a, cv(c));
		if (W > 64) throw Unsupported("wide mul");
		// x * ite(c,k1,k2)
		if (op(c) == ITE && isC(ch(c, 1)) && isC(ch(c, 2))) return ite(ch(c, 0), mulc(a, cv(ch(c, 1))), mulc(a, cv(ch(c, 2))));
		if (op(a) == ITE && isC(ch(a, 1)) && isC(ch(a, 2))) return mul(c, a);
		std::vector<T> v;
		auto put = [&](T t) { if (op(t) == MUL) v.insert(v.end(), ch(t), ch(t) + nodes[t].nch); else v.push_back(t); };
		uint64_t k = 1;
		auto strip = [&](T t) { if (op(t) == MULC) { k *= nodes[t].val; return ch(t, 0); } return t; };
		put(strip(a)); put(strip(c));
		std::sort(v.begin(), v.end());
		T r = raw(MUL, W, 0, v);
		return k == 1 ? r : mulc(r, k);
	}
	T udiv(T a, T c) {
		unsigned W = w(a);
		if (isC(c) && cv(c)) { uint64_t k = cv(c); if (isC(a)) return konst(W, cv(a) / k); if (!(k & (k - 1))) return lshrk(a, __builtin_ctzll(k)); }
		return raw(UDIV, W, 0, {a, c});
	}
	T urem(T a, T c) {
		unsigned W = w(a);
		if (isC(c) && cv(c)) { uint64_t k = cv(c); if (isC(a)) return konst(W, cv(a) % k); if (!(k & (k - 1))) return band(a, konst(W, k - 1)); }
		return raw(UREM, W, 0, {a, c});
	}
	T sdiv(T a, T c) {
		unsigned W = w(a);
		if (isC(c) && isC(a) && cv(c)) { int64_t x = sx(cv(a), W), y = sx(cv(c), W); if (y == -1) return konst(W, -(uint64_t)x); return konst(W, x / y); }
		return raw(SDIV, W, 0, {a, c});
	}
	T srem(T a, T c) {
		unsigned W = w(a);
		if (isC(c) && isC(a) && cv(c)) { int64_t x = sx(cv(a), W), y = sx(cv(c), W); if (y == -1) return konst(W, 0); return konst(W, x % y); }
		return raw(SREM, W, 0, {a, c});
	}
	T shift(uint8_t o, T a, T c) {
		unsigned W = w(a);
		if (isC(c)) { uint64_t k = cv(c); if (k >= W) return o == ASHR ? ashrk(a, W - 1) : konst(W, 0); return o == SHL ? shlk(a, k) : o == LSHR ? lshrk(a, k) : ashrk(a, k); }
		if (isC(a, 0)) return a;
		if (op(c) == ITE && isC(ch(c, 1)) && isC(ch(c, 2))) return ite(ch(c, 0), shift(o, a, ch(c, 1)), shift(o, a, ch(c, 2)));
		return raw(o, W, 0, {a, c});
	}

	// ---- predicates ------------------------------------------------------------
	T eq(T a, T c) {
		if (w(a) != w(c)) throw Unsupported("eq width mismatch");
		if (a == c) return tTrue;
		unsigned W = w(a);
		if (isC(a) && isC(c)) return tFalse;
		if (W == 1) { if (isC(a)) std::swap(a, c); if (isC(c)) return cv(c) ? a : bnot(a); return bnot(bxor(a, c)); }
		if (isC(a)) std::swap(a, c);
		if (op(a) == NOT && op(c) == NOT) return eq(ch(a, 0), ch(c, 0));
		if (op(a) == NOT && c == ch(a, 0)) return tFalse;
		if (op(c) == NOT && a == ch(c, 0)) return tFalse;
		if (op(a) == CONCAT || op(c) == CONCAT) {
			// split; worthwhile when some part is constant on either side
			std::vector<unsigned> cs; cuts(a, cs); cuts(c, cs);
			std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
			T r = tTrue; unsigned hi = W;
			for (int i = (int)cs.size(); i >= 0; i--) {
				unsigned lo = i ? cs[i - 1] : 0;
				r = band(r, eq(extract(a, hi - 1, lo), extract(c, hi - 1, lo)));
				if (r == tFalse) return r;
				hi = lo;
			}
			return r;
		}
		auto ptrlike = [&](T t) { return op(t) == BASE || (op(t) == ADD && hasBase(t)); };
		if (W == 64 && (ptrlike(a) || ptrlike(c))) {
			T d = sub(a, c);
			if (isC(d)) return b(cv(d) == 0);
			T ba = baseOf(a), bc = baseOf(c);
			if (ba && bc && ba != bc) return tFalse;
			if ((ba && isC(c, 0)) ) return tFalse;
		}
		if (W <= 64 && (op(a) == ADD || op(c) == ADD)) {
			T d = sub(a, c);
			if (isC(d)) return b(cv(d) == 0);
			if (isC(c) && op(a) == ADD && nodes[a].nch == 1 && op(ch(a, 0)) != MULC && nodes[a].val) return eq(ch(a, 0), konst(W, cv(c) - nodes[a].val));
		}
		if (op(a) == ITE && op(c) == ITE && ch(a, 0) == ch(c, 0)) return ite(ch(a, 0), eq(ch(a, 1), ch(c, 1)), eq(ch(a, 2), ch(c, 2)));
		if (op(c) == ITE && op(a) != ITE) std::swap(a, c);
		if (op(a) == ITE) {
			if (lit(c) && (lit(ch(a, 1)) || lit(ch(a, 2)))) return ite(ch(a, 0), eq(ch(a, 1), c), eq(ch(a, 2), c));
			if (ch(a, 1) == c) return bor(ch(a, 0), eq(ch(a, 2), c));
			if (ch(a, 2) == c) return bor(bnot(ch(a, 0)), eq(ch(a, 1), c));
			if (lit(ch(a, 1)) && lit(ch(a, 2)) && W > 1) return ite(ch(a, 0), eq(ch(a, 1), c), eq(ch(a, 2), c));
		}
		if (op(a) == SEXT && isC(c)) {
			T x = ch(a, 0); uint64_t v = cv(c); unsigned xw = w(x);
			if (W <= 64 && ((uint64_t)sx(v, xw) & maskw(W)) == v) return eq(x, konst(xw, v));
			if (W <= 64) return tFalse;
		}
		if (op(a) == SEXT && op(c) == SEXT && w(ch(a, 0)) == w(ch(c, 0))) return eq(ch(a, 0), ch(c, 0));
		if (op(a) == XOR && isC(c, 0) && nodes[a].nch == 2) return eq(ch(a, 0), ch(a, 1));
		if (a > c && !isC(c)) std::swap(a, c);
		return raw(EQ, 1, 0, {a, c});
	}
	bool hasBase(T t) { for (unsigned i = 0; i < nodes[t].nch; i++) if (op(ch(t, i)) == BASE) return true; return false; }
	T baseOf(T t) { // unique base with coefficient one
		if (op(t) == BASE) return t;
		if (op(t) != ADD) return 0;
		T r = 0; for (unsigned i = 0; i < nodes[t].nch; i++) if (op(ch(t, i)) == BASE) { if (r) return 0; r = ch(t, i); }
		return r;
	}
	T ult(T a, T c) {
		unsigned W = w(a);
		if (W != w(c)) throw Unsupported("ult width mismatch");
		if (a == c) return tFalse;
		if (isC(a) && isC(c)) return b(cv(a) < cv(c));
		if (isC(c, 0)) return tFalse;
		if (W <= 64 && isC(a, maskw(W))) return tFalse;
		if (isC(c, 1)) return eq(a, konst(W, 0));
		if (isC(a, 0)) return bnot(eq(c, a));
		if (W == 1) return band(bnot(a), c);
		if (op(a) == SEXT && op(c) == SEXT && w(ch(a, 0)) == w(ch(c, 0))) return ult(ch(a, 0), ch(c, 0));
		if (W == 64) { T x = baseOf(a), y = baseOf(c); if (x && x == y) return slt(sub(a, x), sub(c, x)); }
		// drop common leading zeros
		if (op(a) == CONCAT && op(c) == CONCAT && isC(ch(a, 0)) && isC(ch(c, 0))) {
			unsigned k = std::min(w(ch(a, 0)), w(ch(c, 0)));
			T x = extract(a, W - 1, W - k), y = extract(c, W - 1, W - k);
			if (cv(x) != cv(y)) return b(cv(x) < cv(y));
			return ult(extract(a, W - 1 - k, 0), extract(c, W - 1 - k, 0));
		}
		if (op(a) == CONCAT && isC(ch(a, 0), 0) && isC(c)) { unsigned k = w(ch(a, 0)); if (W <= 64) { if (cv(c) >> (W - k)) return tTrue; return ult(extract(a, W - 1 - k, 0), konst(W - k, cv(c))); } }
		if (op(c) == CONCAT && isC(ch(c, 0), 0) && isC(a)) { unsigned k = w(ch(c, 0)); if (W <= 64) { if (cv(a) >> (W - k)) return tFalse; return ult(konst(W - k, cv(a)), extract(c, W - 1 - k, 0)); } }
		if (op(a) == ITE && lit(c) && (lit(ch(a, 1)) || lit(ch(a, 2)))) return ite(ch(a, 0), ult(ch(a, 1), c), ult(ch(a, 2), c));
		if (op(c) == ITE && lit(a) && (lit(ch(c, 1)) || lit(ch(c, 2)))) return ite(ch(c, 0), ult(a, ch(c, 1)), ult(a, ch(c, 2)));
		// xor / add with the sign bit on both sides: signed compare
		return raw(ULT, 1, 0, {a, c});
	}
	T slt(T a, T c) {
		unsigned W = w(a);
		if (a == c) return tFalse;
		if (isC(a) && isC(c)) return b(sx(cv(a), W) < sx(cv(c), W));
		if (isC(c, 0)) return extract(a, W - 1, W - 1);
		if (W <= 64 && isC(a, maskw(W))) return bnot(extract(c, W - 1, W - 1));
		T sa = extract(a, W - 1, W - 1), sc = extract(c, W - 1, W - 1);
		if (op(a) == SEXT && op(c) == SEXT && w(ch(a, 0)) == w(ch(c, 0))) return slt(ch(a, 0), ch(c, 0));
		if (isC(sa) && isC(sc)) { if (cv(sa) != cv(sc)) return b(cv(sa) > cv(sc)); if (W > 1) return ult(extract(a, W - 2, 0), extract(c, W - 2, 0)); }
		if (op(a) == ITE && lit(c) && (lit(ch(a, 1)) || lit(ch(a, 2)))) return ite(ch(a, 0), slt(ch(a, 1), c), slt(ch(a, 2), c));
		if (op(c) == ITE && lit(a) && (lit(ch(c, 1)) || lit(ch(c, 2)))) return ite(ch(c, 0), slt(a, ch(c, 1)), slt(a, ch(c, 2)));
		return raw(SLT, 1, 0, {a, c});
	}
	T ule(T a, T c) { return bnot(ult(c, a)); }
	T sle(T a, T c) { return bnot(slt(c, a)); }

	T ctpop(T a) {
		unsigned W = w(a);
		if (isC(a)) return konst(W, __builtin_popcountll(cv(a)));
		// as a sum of bits when small
		T r = konst(W, 0);
		if (W == 1) return a;
		for (unsigned i = 0; i < W; i++) r = add(r, zext(extract(a, i, i), W));
		return r;
	}
	T cttz(T a) { unsigned W = w(a); T r = konst(W, W); for (int i = W - 1; i >= 0; i--) r = ite(extract(a, i, i), konst(W, i), r); return r; }
	T ctlz(T a) { unsigned W = w(a); T r = konst(W, W); for (unsigned i = 0; i < W; i++) r = ite(extract(a, i, i), konst(W, W - 1 - i), r); return r; }

	// ---- floating point ------------------------------------------------------------
	static double d(uint64_t v) { double x; memcpy(&x, &v, 8); return x; }
	static float f(uint64_t v) { float x; uint32_t u = v; memcpy(&x, &u, 4); return x; }
	static uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
	static uint64_t bits(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
	unsigned ebits(unsigned W) { return W == 32 ? 8 : 11; }
	unsigned mbits(unsigned W) { return W == 32 ? 23 : 52; }
	uint64_t infbits(unsigned W) { return W == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; }
	uint64_t nanbits(unsigned W) { return W == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull; }
	uint64_t onebits(unsigned W) { return W == 32 ? 0x3f800000ull : 0x3ff0000000000000ull; }
	bool cnan(T a) { return isC(a) && (cv(a) & maskw(w(a) - 1)) > infbits(w(a)); }
	T fneg(T a) { unsigned W = w(a); return concat2(bnot(extract(a, W - 1, W - 1)), extract(a, W - 2, 0)); }
	T fabs(T a) { unsigned W = w(a); return concat2(konst(1, 0), extract(a, W - 2, 0)); }
	T fbin(uint8_t o, T a, T c) {
		unsigned W = w(a);
		if (W != 32 && W != 64) throw Unsupported("fp width");
		if (isC(a) && isC(c)) {
			if (W == 32) { volatile float x = f(cv(a)), y = f(cv(c)); volatile float r = o == FADD ? x + y : o == FMUL ? x * y : x / y; return konst(32, bits((float)r)); }
			volatile double x = d(cv(a)), y = d(cv(c)); volatile double r = o == FADD ? x + y : o == FMUL ? x * y : x / y; return konst(64, bits((double)r));
		}
		if (o == FMUL) {
			if (isC(a, onebits(W))) std::swap(a, c);
			// x * 1 and x * -1 keep the value (NaN stays NaN): only safe up to NaN payload, which is not modelled
			if (a > c) std::swap(a, c);
		}
		if (o == FADD && a > c) std::swap(a, c);
		return raw(o, W, 0, {a, c});
	}
	T fsub(T a, T c) { return fbin(FADD, a, fneg(c)); }
	T fsqrt(T a) {
		if (isC(a) && !cnan(a)) { if (w(a) == 32) { float x = f(cv(a)); if (!(x < 0)) return konst(32, bits(std::sqrt(x))); } else { double x = d(cv(a)); if (!(x < 0)) return konst(64, bits(std::sqrt(x))); } }
		return raw(FSQRT, w(a), 0, {a});
	}
	T fma(T a, T c, T e) {
		if (isC(a) && isC(c) && isC(e) && !cnan(a) && !cnan(c) && !cnan(e)) { uint64_t r = w(a) == 32 ? bits(std::fma(f(cv(a)), f(cv(c)), f(cv(e)))) : bits(std::fma(d(cv(a)), d(cv(c)), d(cv(e)))); return konst(w(a), r); }
		if (a > c) std::swap(a, c); return raw(FMA, w(a), 0, {a, c, e}); }
	T fround(unsigned mode, T a) {
		if (isC(a) && !cnan(a)) {
			if (w(a) == 32) { float x = f(cv(a)); float r = mode == 0 ? std::floor(x) : mode == 1 ? std::ceil(x) : mode == 2 ? std::trunc(x) : mode == 3 ? std::nearbyint(x) : std::round(x); return konst(32, bits(r)); }
			double x = d(cv(a)); double r = mode == 0 ? std::floor(x) : mode == 1 ? std::ceil(x) : mode == 2 ? std::trunc(x) : mode == 3 ? std::nearbyint(x) : std::round(x); return konst(64, bits(r));
		}
		return raw(FROUND, w(a), mode, {a});
	}
	T fext(T a) { if (isC(a) && !cnan(a)) return konst(64, bits((double)f(cv(a)))); return raw(FEXT, 64, 0, {a}); }
	T ftrunc(T a) { if (op(a) == FEXT) return ch(a, 0); if (isC(a) && !cnan(a)) { volatile float r = (float)d(cv(a)); return konst(32, bits((float)r)); } return raw(FTRUNC, 32, 0, {a}); }
	T ftosi(T a, unsigned W) {
		if (isC(a)) { double x = w(a) == 32 ? f(cv(a)) : d(cv(a)); double lim = std::ldexp(1.0, W - 1); if (x > -lim - 1 && x < lim && (W < 64 || x >= -lim)) return konst(W, (int64_t)x); }
		return raw(FTOSI, W, 0, {a});
	}
	T ftoui(T a, unsigned W) {
		if (isC(a)) { double x = w(a) == 32 ? f(cv(a)) : d(cv(a)); double lim = std::ldexp(1.0, W); if (x > -1 && x < lim) return konst(W, (uint64_t)x); }
		return raw(FTOUI, W, 0, {a});
	}
	T sitof(T a, unsigned W) { if (isC(a)) { int64_t v = sx(cv(a), w(a)); return W == 32 ? konst(32, bits((float)v)) : konst(64, bits((double)v)); } return raw(SITOF, W, 0, {a}); }
	T uitof(T a, unsigned W) { if (isC(a)) { uint64_t v = cv(a); return W == 32 ? konst(32, bits((float)v)) : konst(64, bits((double)v)); }
		if (op(a) == CONCAT && isC(ch(a, 0), 0)) { // provably non-negative
			unsigned z = w(ch(a, 0)); if (z > 1) return raw(UITOF, W, 0, {extract(a, w(a) - 1 - z, 0)}); return raw(UITOF, W, 0, {extract(a, w(a) - 2, 0)}); }
		return raw(UITOF, W, 0, {a}); }
	T fnan(T a) {
		unsigned W = w(a);
		if (isC(a)) return b(cnan(a));
		switch (op(a)) {
			case SITOF: case UITOF: return tFalse;
			case FEXT: case FTRUNC: case FROUND: return fnan(ch(a, 0));
			case ITE: return ite(ch(a, 0), fnan(ch(a, 1)), fnan(ch(a, 2)));
			case NOT: break;
		}
		T m = extract(a, W - 2, 0);
		// isnan only depends on the magnitude
		if (op(m) == ITE) return ite(ch(m, 0), fnan(concat2(konst(1, 0), ch(m, 1))), fnan(concat2(konst(1, 0), ch(m, 2))));
		if (isC(m)) return b(cv(m) > infbits(W));
		T e = extract(a, W - 2, mbits(W));
		if (isC(e) && cv(e) != maskw(ebits(W))) return tFalse;
		if (op(e) == CONCAT) for (unsigned i = 0; i < nodes[e].nch; i++) if (isC(ch(e, i)) && cv(ch(e, i)) != maskw(w(ch(e, i)))) return tFalse;
		T base = a;
		if (op(m) == EXTRACT && w(ch(m, 0)) == W && (nodes[m].val == ((uint64_t)(W - 2) << 32))) base = ch(m, 0);
		else if (base != a || op(a) == CONCAT) { base = concat2(konst(1, 0), m); }
		if (base != a) return fnan(base);
		return raw(FNAN, 1, 0, {a});
	}
	T fcmp_lt(T a, T c) {
		if (a == c) return tFalse;
		if (isC(a) && isC(c)) { if (w(a) == 32) return b(f(cv(a)) < f(cv(c))); return b(d(cv(a)) < d(cv(c))); }
		if (cnan(a) || cnan(c)) return tFalse;
		if (op(a) == ITE && lit(ch(a, 1)) && lit(ch(a, 2))) return ite(ch(a, 0), fcmp_lt(ch(a, 1), c), fcmp_lt(ch(a, 2), c));
		if (op(c) == ITE && lit(ch(c, 1)) && lit(ch(c, 2))) return ite(ch(c, 0), fcmp_lt(a, ch(c, 1)), fcmp_lt(a, ch(c, 2)));
		return raw(FLT, 1, 0, {a, c});
	}
	T fcmp_eq(T a, T c) {
		if (a == c) return bnot(fnan(a));
		if (isC(a) && isC(c)) { if (w(a) == 32) return b(f(cv(a)) == f(cv(c))); return b(d(cv(a)) == d(cv(c))); }
		if (cnan(a) || cnan(c)) return tFalse;
		if (a > c) std::swap(a, c);
		if (op(a) == ITE && lit(ch(a, 1)) && lit(ch(a, 2))) return ite(ch(a, 0), fcmp_eq(ch(a, 1), c), fcmp_eq(ch(a, 2), c));
		if (op(c) == ITE && lit(ch(c, 1)) && lit(ch(c, 2))) return ite(ch(c, 0), fcmp_eq(a, ch(c, 1)), fcmp_eq(a, ch(c, 2)));
		return raw(FEQ, 1, 0, {a, c});
	}
	T fcmp_uno(T a, T c) { return bor(fnan(a), fnan(c)); }
	T fsame(T a, T c) { return bor(eq(a, c), band(fnan(a), fnan(c))); }
	T uf(const std::string &nm, unsigned W, const std::vector<T> &args) { return raw(UF, W, name(nm), args); }

	/** Rebuilds root with the terms in `m` replaced (m doubles as the memo). */
	T subst(T root, std::unordered_map<T, T> &m) {
		std::vector<std::pair<T, bool>> st{{root, false}};
		while (!st.empty()) {
			auto [t, done] = st.back(); st.pop_back(); if (m.count(t)) continue;
			unsigned n = nodes[t].nch; if (!n) { m[t] = t; continue; }
			if (!done) { st.push_back({t, true}); for (unsigned i = 0; i < n; i++) if (!m.count(ch(t, i))) st.push_back({ch(t, i), false}); continue; }
			std::vector<T> c(n); bool same = true; for (unsigned i = 0; i < n; i++) { c[i] = m[ch(t, i)]; same &= c[i] == ch(t, i); }
			m[t] = same ? t : remake(nodes[t].op, nodes[t].w, nodes[t].val, c);
		}
		return m[root];
	}
	T remake(uint8_t o, unsigned W, uint64_t val, const std::vector<T> &c) {
		switch (o) {
			case NOT: return bnot(c[0]);
			case AND: case OR: case XOR: return nary(o, W, c);
			case ADD: { T r = konst(W, val); for (T x : c) r = add(r, x); return r; }
			case MULC: return mulcLin(c[0], val);
			case MUL: return mul(c[0], c[1]);
			case UDIV: return udiv(c[0], c[1]); case UREM: return urem(c[0], c[1]); case SDIV: return sdiv(c[0], c[1]); case SREM: return srem(c[0], c[1]);
			case SHL: case LSHR: case ASHR: return shift(o, c[0], c[1]);
			case EQ: return eq(c[0], c[1]); case ULT: return ult(c[0], c[1]); case SLT: return slt(c[0], c[1]);
			case ITE: return ite(c[0], c[1], c[2]);
			case CONCAT: return concat(c);
			case EXTRACT: return extract(c[0], val >> 32, (uint32_t)val);
			case SEXT: return sext(c[0], W);
			case FADD: case FMUL: case FDIV: return fbin(o, c[0], c[1]);
			case FSQRT: return fsqrt(c[0]); case FMA: return fma(c[0], c[1], c[2]); case FROUND: return fround(val, c[0]);
			case FEXT: return fext(c[0]); case FTRUNC: return ftrunc(c[0]); case FTOSI: return ftosi(c[0], W); case FTOUI: return ftoui(c[0], W);
			case SITOF: return sitof(c[0], W); case UITOF: return uitof(c[0], W);
			case FNAN: return fnan(c[0]); case FLT: return fcmp_lt(c[0], c[1]); case FEQ: return fcmp_eq(c[0], c[1]);
			default: return raw(o, W, val, c);
		}
	}

	std::string str(T t, int depth = 6) {
		const Node &n = nodes[t];
		char buf[64];
		if (n.op == CONST) { snprintf(buf, 64, "%#llx:%u", (unsigned long long)n.val, n.w); return buf; }
		if (n.op == VAR) return names[n.val];
		if (n.op == BASE) { snprintf(buf, 64, "base%llu", (unsigned long long)n.val); return buf; }
		if (depth == 0) { snprintf(buf, 64, "#%u", t); return buf; }
		std::string s = "(" + std::string(opname(n.op));
		if (n.op == EXTRACT) { snprintf(buf, 64, "[%u:%u]", (unsigned)(n.val >> 32), (unsigned)n.val); s += buf; }
		else if (n.op == UF) s += ":" + names[n.val];
		else if (n.val) { snprintf(buf, 64, ":%#llx", (unsigned long long)n.val); s += buf; }
		for (unsigned i = 0; i < n.nch; i++) s += " " + str(ch(t, i), depth - 1);
		return s + ")";
	}
};
