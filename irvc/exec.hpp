// Symbolic executor / verification condition generator for LLVM IR.
#pragma once
#include "term.hpp"
#include "smt.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <optional>

using namespace llvm;
using Val = SmallVector<T, 4>;

struct BRef { T t; uint32_t idx; };
struct Obj { uint64_t size = 0, align = 1; bool constant = false; std::string name; std::vector<BRef> by; };
using ObjP = std::shared_ptr<Obj>;

struct State {
	std::map<uint64_t, ObjP> mem;
	std::vector<T> pc;
	Val xmm1; // virtual second-result register
	bool dead = false;
};

struct FnInfo {
	DenseMap<const Value *, int> slot; int nslots = 0;
	DenseMap<const BasicBlock *, const BasicBlock *> ipdom; // nullptr: function exit
	SmallVector<const BasicBlock *, 2> rets;
};
struct Frame { FnInfo *fi; const Function *fn; std::vector<Val> regs; Val ret; bool returned = false; std::vector<uint64_t> allocas; };

struct Obligation { std::string kind, label, where; T cond; std::vector<T> pc; };

struct Exec {
	Terms &tm; Smt &smt; Module &M; const DataLayout &DL;
	std::map<const Function *, std::unique_ptr<FnInfo>> infos;
	std::map<uint64_t, ObjP> base; // globals
	DenseMap<const GlobalValue *, uint64_t> gobj;
	std::map<uint64_t, const Function *> fobj;
	std::map<uint64_t, std::vector<uint8_t>> tblBytes;
	uint64_t nextObj = 1, nfresh = 0, nany = 0, steps = 0, maxSteps = 60000000;
	int forkDepth = 0;
	bool anyDirection = false; // the rounding direction is arbitrary: rounding in the current direction is then an opaque function
	T rcur(T x) { return anyDirection ? tm.uf("round_current_direction", tm.w(x), {x}) : tm.fround(3, x); }
	std::vector<Obligation> obls; std::vector<std::string> covers; std::vector<std::pair<std::string, std::vector<T>>> coverPc;
	std::map<std::string, uint64_t> trivially;
	std::set<std::string> uninterp, called, intrinsicsUsed;
	const Instruction *cur = nullptr;
	std::vector<const Instruction *> stack;
	std::vector<std::string> anyOrder; std::vector<unsigned> anyWidth;

	Exec(Terms &t, Smt &s, Module &m) : tm(t), smt(s), M(m), DL(m.getDataLayout()) {
		smt.tableBytes = [this](uint64_t o) -> const std::vector<uint8_t> * { auto it = tblBytes.find(o); return it == tblBytes.end() ? nullptr : &it->second; };
	}

	std::string where() {
		std::string s;
		auto loc = [](const Instruction *i) -> std::string { if (!i) return ""; if (auto &d = i->getDebugLoc()) { auto *sc = cast<DIScope>(d.getScope()); std::string f = sc->getFilename().str(); auto p = f.find("/repo/"); if (p != std::string::npos) f = f.substr(p + 6); return f + ":" + std::to_string(d.getLine()); } return ""; };
		s = loc(cur);
		for (int i = (int)stack.size() - 1; i >= 0; i--) { std::string l = loc(stack[i]); if (l.find("dpm/") != std::string::npos && s.find("dpm/") == std::string::npos) { s += " via " + l; break; } }
		return s;
	}
	void oblige(State &st, const std::string &kind, const std::string &label, T cond) {
		trivially[kind] += 0;
		if (cond == tm.tTrue) { trivially[kind]++; return; }
		Obligation o{kind, label, where(), cond, st.pc};
		obls.push_back(o);
	}
	[[noreturn]] void unsup(const std::string &m) { throw Unsupported(m + " at " + where()); }

	// ---- types ------------------------------------------------------------
	unsigned scalarBits(Type *t) {
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64;
		if (t->isPointerTy()) return 64;
		if (t->isX86_FP80Ty()) return 80;
		std::string s; raw_string_ostream o(s); t->print(o); throw Unsupported("type " + s);
	}
	struct Leaf { unsigned bits; uint64_t off; };
	std::map<Type *, std::vector<Leaf>> leafCache;
	const std::vector<Leaf> &leaves(Type *t) {
		auto it = leafCache.find(t); if (it != leafCache.end()) return it->second;
		std::vector<Leaf> v; flat(t, 0, v); return leafCache[t] = v;
	}
	void flat(Type *t, uint64_t off, std::vector<Leaf> &v) {
		if (t->isVoidTy()) return;
		if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + sl->getElementOffset(i), v); return; }
		if (auto *a = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, v); return; }
		if (auto *a = dyn_cast<FixedVectorType>(t)) { unsigned eb = scalarBits(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) v.push_back({eb, off + (uint64_t)i * eb / 8}); return; }
		v.push_back({scalarBits(t), off});
	}
	T freshv(unsigned w, const char *p = "u") { return tm.var(w, std::string(p) + "!" + std::to_string(nfresh++)); }

	// ---- memory ------------------------------------------------------------
	uint64_t newObj(State &st, uint64_t size, uint64_t align, const std::string &name, bool constant = false) {
		auto o = std::make_shared<Obj>(); o->size = size; o->align = align; o->name = name; o->constant = constant; o->by.assign(size, BRef{0, 0});
		uint64_t id = nextObj++; st.mem[id] = o; return id;
	}
	uint64_t globalObj(const GlobalValue *g) {
		auto it = gobj.find(g); if (it != gobj.end()) return it->second;
		uint64_t id = nextObj++; gobj[g] = id;
		if (auto *f = dyn_cast<Function>(g)) { fobj[id] = f; return id; }
		auto *gv = dyn_cast<GlobalVariable>(g); if (!gv) throw Unsupported("alias");
		auto o = std::make_shared<Obj>(); o->size = DL.getTypeAllocSize(gv->getValueType()); o->align = gv->getAlign() ? gv->getAlign()->value() : DL.getABITypeAlign(gv->getValueType()).value(); o->name = g->getName().str(); o->constant = gv->isConstant();
		o->by.assign(o->size, BRef{0, 0});
		base[id] = o;
		if (gv->hasInitializer()) {
			initC(*o, gv->getInitializer(), 0);
			if (gv->isConstant()) {
				std::vector<uint8_t> b(o->size, 0); bool ok = true;
				for (uint64_t i = 0; i < o->size && ok; i++) { BRef r = o->by[i]; if (!r.t) continue; if (!tm.isC(r.t)) ok = false; else b[i] = tm.cv(r.t) >> (8 * r.idx); }
				if (ok) tblBytes[id] = b;
			}
		}
		return id;
	}
	void initC(Obj &o, const Constant *c, uint64_t off) {
		Type *t = c->getType();
		if (isa<UndefValue>(c)) return;
		if (auto *s = dyn_cast<StructType>(t)) { auto *sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) initC(o, c->getAggregateElement(i), off + sl->getElementOffset(i)); return; }
		if (t->isArrayTy()) { uint64_t es = DL.getTypeAllocSize(t->getArrayElementType()); for (uint64_t i = 0; i < t->getArrayNumElements(); i++) initC(o, c->getAggregateElement(i), off + i * es); return; }
		Val v = constant(c); putLeaves(o, t, off, v);
	}
	void putLeaves(Obj &o, Type *t, uint64_t off, const Val &v) {
		auto &ls = leaves(t);
		for (size_t i = 0; i < ls.size(); i++) {
			unsigned bits = ls[i].bits, bytes = (bits + 7) / 8; T x = v[i];
			if (bits % 8) { if (t->isVectorTy()) throw Unsupported("store of bit vector"); x = tm.zext(x, bytes * 8); }
			for (unsigned k = 0; k < bytes; k++) o.by[off + ls[i].off + k] = {x, k};
		}
	}
	T getBytes(Obj &o, uint64_t off, unsigned bytes) {
		BRef r0 = o.by[off];
		if (r0.t && r0.idx == 0 && tm.w(r0.t) == bytes * 8) { bool all = true; for (unsigned k = 1; k < bytes && all; k++) all = o.by[off + k].t == r0.t && o.by[off + k].idx == k; if (all) return r0.t; }
		std::vector<T> parts; // most significant first
		for (int k = bytes - 1; k >= 0;) {
			BRef &r = o.by[off + k];
			if (!r.t) { r = {freshv(8, "undef"), 0}; }
			BRef h = o.by[off + k]; int j = k;
			while (j > 0 && o.by[off + j - 1].t == h.t && h.t && o.by[off + j - 1].idx + 1 == o.by[off + j].idx) j--;
			parts.push_back(tm.extract(h.t, h.idx * 8 + 7, o.by[off + j].idx * 8));
			k = j - 1;
		}
		return tm.concat(parts);
	}
	Obj &mut(State &st, uint64_t id) { auto it = st.mem.find(id); if (it == st.mem.end()) { auto b = base.find(id); if (b == base.end()) unsup("write to dead object"); it = st.mem.emplace(id, b->second).first; it->second = std::make_shared<Obj>(*b->second); return *it->second; }
		if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second); return *it->second; }
	Obj *get(State &st, uint64_t id) { auto it = st.mem.find(id); if (it != st.mem.end()) return it->second.get(); auto b = base.find(id); return b == base.end() ? nullptr : b->second.get(); }

	struct Addr { uint64_t obj; T off; };
	bool resolve(T p, Addr &a) {
		if (tm.op(p) == BASE) { a = {tm.nodes[p].val, tm.konst(64, 0)}; return true; }
		if (tm.op(p) == ADD) { T b = tm.baseOf(p); if (b) { a = {tm.nodes[b].val, tm.sub(p, b)}; return true; } }
		return false;
	}
	uint64_t knownAlign(T off) { // largest power of two dividing every value of off (<=64)
		if (tm.isC(off)) { uint64_t v = tm.cv(off); return v ? std::min<uint64_t>(64, v & -v) : 64; }
		if (tm.op(off) == ADD) { uint64_t a = tm.nodes[off].val ? (tm.nodes[off].val & -tm.nodes[off].val) : 64; for (unsigned i = 0; i < tm.nodes[off].nch; i++) a = std::min(a, knownAlign(tm.ch(off, i))); return std::min<uint64_t>(64, a); }
		if (tm.op(off) == MULC) { uint64_t k = tm.nodes[off].val & -tm.nodes[off].val; return std::min<uint64_t>(64, k * knownAlign(tm.ch(off, 0))); }
		if (tm.op(off) == CONCAT) { T l = tm.ch(off, tm.nodes[off].nch - 1); if (tm.isC(l, 0)) return std::min<uint64_t>(64, 1ull << std::min(6u, tm.w(l))); }
		if (tm.op(off) == ITE) return std::min(knownAlign(tm.ch(off, 1)), knownAlign(tm.ch(off, 2)));
		return 1;
	}
	void checkAccess(State &st, const char *what, Obj *o, T off, uint64_t bytes, uint64_t align) {
		if (o->size < bytes) { oblige(st, "inbounds", std::string(what) + " " + o->name, tm.tFalse); st.dead = true; return; }
		T inb = tm.ule(off, tm.konst(64, o->size - bytes));
		oblige(st, "inbounds", std::string(what) + " " + o->name, inb);
		if (inb == tm.tFalse) { st.dead = true; return; }
		if (inb != tm.tTrue) st.pc.push_back(inb);
		if (align > 1) {
			T ok = o->align < align ? tm.tFalse : knownAlign(off) >= align ? tm.tTrue : tm.eq(tm.band(off, tm.konst(64, align - 1)), tm.konst(64, 0));
			oblige(st, "align", std::string(what) + " " + o->name, ok);
		}
	}
	std::vector<uint64_t> candidates(T off, uint64_t size, uint64_t bytes) {
		uint64_t step = knownAlign(off); std::vector<uint64_t> c;
		uint64_t start = 0;
		if (tm.op(off) == ADD) { // constant part decides the residue
			T var = tm.sub(off, tm.konst(64, tm.nodes[off].val)); step = knownAlign(var); start = tm.nodes[off].val & (step - 1);
		}
		for (uint64_t o = start; o + bytes <= size; o += step) c.push_back(o);
		if (c.size() > 600) unsup("symbolic offset with too many candidates");
		return c;
	}
	Val load(State &st, T p, Type *ty, uint64_t align) {
		auto &ls = leaves(ty); uint64_t sz = DL.getTypeStoreSize(ty);
		if (tm.op(p) == ITE) {
			T c = tm.ch(p, 0), a = tm.ch(p, 1), b = tm.ch(p, 2);
			State s1 = st, s2 = st; s1.pc.push_back(c); s2.pc.push_back(tm.bnot(c));
			Val x = load(s1, a, ty, align), y = load(s2, b, ty, align); Val r;
			if (s1.dead && s2.dead) { st.dead = true; return x; }
			if (s1.dead) { st = s2; return y; } if (s2.dead) { st = s1; return x; }
			for (size_t i = 0; i < x.size(); i++) r.push_back(tm.ite(c, x[i], y[i]));
			return r;
		}
		Addr a; Val r;
		auto dummy = [&] { Val d; for (auto &l : ls) d.push_back(tm.konst(l.bits, 0)); return d; };
		if (!resolve(p, a)) { oblige(st, "pointer", "load through invalid pointer " + tm.str(p, 3), tm.tFalse); st.dead = true; return dummy(); }
		Obj *o = get(st, a.obj);
		if (!o) { oblige(st, "pointer", "load from dead object", tm.tFalse); st.dead = true; return dummy(); }
		checkAccess(st, "load", o, a.off, sz, align);
		if (st.dead) return dummy();
		auto rd = [&](Obj &ob, uint64_t off, const Leaf &l) { T x = getBytes(ob, off + l.off, (l.bits + 7) / 8); return l.bits % 8 ? tm.extract(x, l.bits - 1, 0) : x; };
		if (tm.isC(a.off)) {
			uint64_t off = tm.cv(a.off);
			// uninitialised bytes become fresh variables: needs a private copy
			bool un = false; for (uint64_t i = 0; i < sz && !un; i++) un = !o->by[off + i].t;
			Obj &ob = un ? mut(st, a.obj) : *o;
			for (auto &l : ls) r.push_back(rd(ob, off, l));
			return r;
		}
		if (tblBytes.count(a.obj) && !st.mem.count(a.obj)) {
			for (auto &l : ls) {
				T off = tm.add(a.off, tm.konst(64, l.off));
				auto &tb = tblBytes[a.obj];
				// few candidates: exact selection
				std::vector<uint64_t> cs; bool few = l.bits % 8 == 0;
				if (few) { auto c = candidates(a.off, o->size, sz); if (c.size() <= 8) cs = c; else few = false; }
				if (few) { T v = tm.konst(l.bits, 0); bool first = true; for (auto c : cs) { uint64_t x = 0; memcpy(&x, tb.data() + c + l.off, l.bits / 8); T k = tm.konst(l.bits, x); v = first ? k : tm.ite(tm.eq(a.off, tm.konst(64, c)), k, v); first = false; } r.push_back(v); }
				else r.push_back(tm.raw(TBL, l.bits, a.obj, {off}));
			}
			return r;
		}
		auto cs = candidates(a.off, o->size, sz);
		Obj &ob = mut(st, a.obj);
		for (auto &l : ls) {
			T v = 0;
			for (auto c : cs) { T x = rd(ob, c, l); v = v ? tm.ite(tm.eq(a.off, tm.konst(64, c)), x, v) : x; }
			r.push_back(v);
		}
		return r;
	}
	void store(State &st, T p, Type *ty, const Val &v, uint64_t align) {
		auto &ls = leaves(ty); uint64_t sz = DL.getTypeStoreSize(ty);
		if (tm.op(p) == ITE) {
			T c = tm.ch(p, 0); State s1 = st, s2 = st; s1.pc.push_back(c); s2.pc.push_back(tm.bnot(c));
			store(s1, tm.ch(p, 1), ty, v, align); store(s2, tm.ch(p, 2), ty, v, align);
			st = mergeStates(st.pc, c, s1, s2); return;
		}
		Addr a;
		if (!resolve(p, a)) { oblige(st, "pointer", "store through invalid pointer " + tm.str(p, 3), tm.tFalse); st.dead = true; return; }
		Obj *o = get(st, a.obj);
		if (!o) { oblige(st, "pointer", "store to dead object", tm.tFalse); st.dead = true; return; }
		if (o->constant) { oblige(st, "frame", "store to constant " + o->name, tm.tFalse); st.dead = true; return; }
		checkAccess(st, "store", o, a.off, sz, align);
		if (st.dead) return;
		Obj &ob = mut(st, a.obj);
		if (tm.isC(a.off)) { putLeaves(ob, ty, tm.cv(a.off), v); return; }
		auto cs = candidates(a.off, ob.size, sz);
		for (auto c : cs) {
			T hit = tm.eq(a.off, tm.konst(64, c)); Val nv;
			for (size_t i = 0; i < ls.size(); i++) { unsigned bytes = (ls[i].bits + 7) / 8; T old = getBytes(ob, c + ls[i].off, bytes); T x = v[i]; if (ls[i].bits % 8) { x = tm.zext(x, bytes * 8); } T m = tm.ite(hit, x, old); for (unsigned k = 0; k < bytes; k++) ob.by[c + ls[i].off + k] = {m, k}; }
		}
	}
	// byte-wise copy with constant size
	void copyBytes(State &st, T dst, T src, uint64_t n) {
		if (!n) return;
		Type *aty = ArrayType::get(Type::getInt8Ty(M.getContext()), n);
		Addr d, s;
		if (resolve(dst, d) && resolve(src, s) && tm.isC(d.off) && tm.isC(s.off)) {
			Obj *so = get(st, s.obj), *dObj = get(st, d.obj);
			if (!so || !dObj) { oblige(st, "pointer", "memcpy on dead object", tm.tFalse); st.dead = true; return; }
			checkAccess(st, "memcpy source", so, s.off, n, 1); if (st.dead) return;
			if (dObj->constant) { oblige(st, "frame", "memcpy to constant", tm.tFalse); st.dead = true; return; }
			checkAccess(st, "memcpy destination", dObj, d.off, n, 1); if (st.dead) return;
			std::vector<BRef> tmp(so->by.begin() + tm.cv(s.off), so->by.begin() + tm.cv(s.off) + n);
			Obj &o = mut(st, d.obj); std::copy(tmp.begin(), tmp.end(), o.by.begin() + tm.cv(d.off)); return;
		}
		Val v = load(st, src, aty, 1); if (st.dead) return; store(st, dst, aty, v, 1);
	}

	// ---- merging ------------------------------------------------------------
	T conj(const std::vector<T> &v, size_t from) { T r = tm.tTrue; for (size_t i = from; i < v.size(); i++) r = tm.band(r, v[i]); return r; }
	void mergeObj(T c, Obj &x, const Obj &y) { // x := c ? x : y
		for (uint64_t i = 0; i < x.size;) {
			BRef a = x.by[i], b = y.by[i];
			if (a.t == b.t && a.idx == b.idx) { i++; continue; }
			unsigned n = 1;
			if (a.t && b.t) {
				unsigned la = tm.w(a.t) / 8 - a.idx, lb = tm.w(b.t) / 8 - b.idx, m = std::min(la, lb);
				while (n < m && i + n < x.size && x.by[i + n].t == a.t && x.by[i + n].idx == a.idx + n && y.by[i + n].t == b.t && y.by[i + n].idx == b.idx + n) n++;
				// prefer naturally sized pieces
				T ta = tm.extract(a.t, (a.idx + n) * 8 - 1, a.idx * 8), tb = tm.extract(b.t, (b.idx + n) * 8 - 1, b.idx * 8);
				T m2 = tm.ite(c, ta, tb);
				for (unsigned k = 0; k < n; k++) x.by[i + k] = {m2, k};
			} else {
				// uninitialised on one side: anything is allowed on that side
				T ta = a.t ? tm.extract(a.t, a.idx * 8 + 7, a.idx * 8) : freshv(8, "undef"), tb = b.t ? tm.extract(b.t, b.idx * 8 + 7, b.idx * 8) : freshv(8, "undef");
				x.by[i] = {tm.ite(c, ta, tb), 0};
			}
			i += n;
		}
	}
	State mergeStates(const std::vector<T> &pc0, T c, State &a, State &b) {
		if (a.dead && b.dead) { State s = a; return s; }
		if (a.dead) return b; if (b.dead) return a;
		State r; r.pc = pc0;
		T pa = conj(a.pc, pc0.size()), pb = conj(b.pc, pc0.size());
		T o = tm.bor(pa, pb); if (o != tm.tTrue) r.pc.push_back(o);
		auto ia = a.mem.begin(), ib = b.mem.begin();
		while (ia != a.mem.end() || ib != b.mem.end()) {
			if (ib == b.mem.end() || (ia != a.mem.end() && ia->first < ib->first)) { auto bb = base.find(ia->first); if (bb != base.end()) { auto no = std::make_shared<Obj>(*ia->second); mergeObj(c, *no, *bb->second); r.mem.emplace(ia->first, no); } else r.mem.insert(*ia); ++ia; continue; }
			if (ia == a.mem.end() || ib->first < ia->first) { auto bb = base.find(ib->first); if (bb != base.end()) { auto no = std::make_shared<Obj>(*ib->second); mergeObj(tm.bnot(c), *no, *bb->second); r.mem.emplace(ib->first, no); } else r.mem.insert(*ib); ++ib; continue; }
			if (ia->second == ib->second) r.mem.insert(*ia);
			else { auto no = std::make_shared<Obj>(*ia->second); mergeObj(c, *no, *ib->second); r.mem.emplace(ia->first, no); }
			++ia; ++ib;
		}
		r.xmm1 = mergeVal(c, a.xmm1, b.xmm1);
		return r;
	}
	Val mergeVal(T c, const Val &a, const Val &b) {
		if (a.size() != b.size()) return a.empty() ? b : a;
		Val r; for (size_t i = 0; i < a.size(); i++) r.push_back(a[i] == b[i] ? a[i] : tm.w(a[i]) == tm.w(b[i]) ? tm.ite(c, a[i], b[i]) : a[i]);
		return r;
	}

	// ---- CFG ------------------------------------------------------------
	FnInfo *info(const Function *f) {
		auto &p = infos[f]; if (p) return p.get();
		p = std::make_unique<FnInfo>(); FnInfo &fi = *p;
		for (auto &a : f->args()) fi.slot[&a] = fi.nslots++;
		for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) fi.slot[&i] = fi.nslots++;
		// post-dominators over blocks that can reach a return
		std::vector<const BasicBlock *> blocks; for (auto &bb : *f) blocks.push_back(&bb);
		DenseMap<const BasicBlock *, int> idx; for (size_t i = 0; i < blocks.size(); i++) idx[blocks[i]] = i;
		size_t n = blocks.size(); std::vector<char> reach(n, 0);
		std::vector<std::vector<int>> succ(n);
		for (size_t i = 0; i < n; i++) for (auto *s : successors(blocks[i])) succ[i].push_back(idx[s]);
		bool ch = true;
		for (size_t i = 0; i < n; i++) if (isa<ReturnInst>(blocks[i]->getTerminator())) reach[i] = 1;
		while (ch) { ch = false; for (size_t i = 0; i < n; i++) if (!reach[i]) for (int s : succ[i]) if (reach[s]) { reach[i] = 1; ch = true; break; } }
		// iterative dataflow on sets (functions are small): pdom as bitsets
		std::vector<std::vector<bool>> pd(n, std::vector<bool>(n + 1, true)); // index n: exit
		for (size_t i = 0; i < n; i++) if (!reach[i]) pd[i].assign(n + 1, true);
		ch = true;
		while (ch) {
			ch = false;
			for (int i = n - 1; i >= 0; i--) if (reach[i]) {
				std::vector<bool> x(n + 1, true);
				if (isa<ReturnInst>(blocks[i]->getTerminator())) { x.assign(n + 1, false); x[n] = true; }
				else for (int s : succ[i]) if (reach[s]) for (size_t k = 0; k <= n; k++) if (!pd[s][k]) x[k] = false;
				x[i] = true;
				if (x != pd[i]) { pd[i] = x; ch = true; }
			}
		}
		for (size_t i = 0; i < n; i++) {
			if (!reach[i]) { fi.ipdom[blocks[i]] = nullptr; continue; }
			// the strict post-dominator that is post-dominated by all others
			const BasicBlock *best = nullptr; size_t bestc = 0;
			for (size_t k = 0; k < n; k++) if (k != i && pd[i][k] && reach[k]) { size_t c = 0; for (size_t m = 0; m <= n; m++) c += pd[k][m]; if (c > bestc) { bestc = c; best = blocks[k]; } }
			fi.ipdom[blocks[i]] = best;
		}
		return &fi;
	}

	bool feasible(State &st, T c) {
		std::vector<T> v = st.pc; v.push_back(c);
		return smt.inproc(v, false, nullptr, 3000) != UNSAT;
	}

	void phis(Frame &F, const BasicBlock *bb, const BasicBlock *prev) {
		std::vector<std::pair<int, Val>> nv;
		for (auto &ph : bb->phis()) nv.push_back({F.fi->slot[&ph], eval(F, ph.getIncomingValueForBlock(prev))});
		for (auto &x : nv) F.regs[x.first] = x.second;
	}
	// runs from bb until stop (phis of stop evaluated) or function exit; st.dead if no path survives
	void run(Frame &F, State &st, const BasicBlock *bb, const BasicBlock *prev, const BasicBlock *stop, bool phisDone) {
		while (true) {
			if (prev && !phisDone) phis(F, bb, prev);
			phisDone = false;
			if (bb == stop && prev) return;
			const Instruction *term = bb->getTerminator();
			for (auto &I : *bb) {
				if (isa<PHINode>(I)) continue;
				if (&I == term) break;
				cur = &I;
				if (++steps > maxSteps) unsup("step limit");
				inst(F, st, I);
				if (st.dead) return;
			}
			cur = term;
			if (auto *r = dyn_cast<ReturnInst>(term)) { if (r->getReturnValue()) F.ret = eval(F, r->getReturnValue()); F.returned = true; return; }
			if (isa<UnreachableInst>(term)) { oblige(st, "unreachable", "unreachable code", tm.tFalse); st.dead = true; return; }
			if (auto *br = dyn_cast<BranchInst>(term)) {
				if (br->isUnconditional()) { prev = bb; bb = br->getSuccessor(0); continue; }
				T c = eval(F, br->getCondition())[0];
				if (tm.isC(c)) { prev = bb; bb = br->getSuccessor(tm.cv(c) ? 0 : 1); continue; }
				const BasicBlock *J = F.fi->ipdom[bb];
				if (!forked(F, st, c, br->getSuccessor(0), br->getSuccessor(1), bb, J)) return;
				if (!J || F.returned) return;
				prev = bb; bb = J; phisDone = true;
				if (bb == stop) return;
				continue;
			}
			if (auto *sw = dyn_cast<SwitchInst>(term)) {
				T c = eval(F, sw->getCondition())[0];
				if (tm.isC(c)) { auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), tm.cv(c)); prev = bb; bb = sw->findCaseValue(ci)->getCaseSuccessor(); continue; }
				// chain of forks
				const BasicBlock *J = F.fi->ipdom[bb];
				std::function<void(Frame &, State &, unsigned)> go = [&](Frame &f, State &s, unsigned k) {
					if (k == sw->getNumCases()) { run(f, s, sw->getDefaultDest(), bb, J, false); return; }
					auto cs = *(sw->case_begin() + k);
					T e = tm.eq(c, tm.konst(tm.w(c), cs.getCaseValue()->getZExtValue()));
					if (e == tm.tFalse) { go(f, s, k + 1); return; }
					Frame f2 = f; State s2 = s; std::vector<T> pc0 = s.pc;
					s.pc.push_back(e); s2.pc.push_back(tm.bnot(e));
					run(f, s, cs.getCaseSuccessor(), bb, J, false);
					go(f2, s2, k + 1);
					join(f, s, f2, s2, e, pc0);
				};
				go(F, st, 0);
				if (st.dead || !J || F.returned) return;
				prev = bb; bb = J; phisDone = true; if (bb == stop) return; continue;
			}
			unsup("terminator");
		}
	}
	void join(Frame &F, State &st, Frame &F2, State &s2, T c, const std::vector<T> &pc0) {
		if (st.dead && s2.dead) return;
		if (st.dead) { F = F2; st = s2; return; }
		if (s2.dead) return;
		State m = mergeStates(pc0, c, st, s2); st = m;
		for (size_t i = 0; i < F.regs.size(); i++) if (F.regs[i] != F2.regs[i]) F.regs[i] = mergeVal(c, F.regs[i], F2.regs[i]);
		if (F.returned != F2.returned) unsup("partial return at join");
		if (F.returned) F.ret = mergeVal(c, F.ret, F2.ret);
		for (auto a : F2.allocas) if (std::find(F.allocas.begin(), F.allocas.end(), a) == F.allocas.end()) F.allocas.push_back(a);
	}
	bool forked(Frame &F, State &st, T c, const BasicBlock *b1, const BasicBlock *b2, const BasicBlock *from, const BasicBlock *J) {
		T nc = tm.bnot(c); std::vector<T> pc0 = st.pc;
		bool f1 = true, f2 = true;
		for (T t : st.pc) { if (t == c) f2 = false; if (t == nc) f1 = false; }
		if (f1 && f2 && forkDepth > 6) { f1 = feasible(st, c); if (f1) f2 = feasible(st, nc); }
		if (forkDepth > 400) unsup("unbounded symbolic loop");
		forkDepth++;
		if (f1 && f2) {
			Frame F2 = F; State s2 = st; st.pc.push_back(c); s2.pc.push_back(nc);
			run(F, st, b1, from, J, false); run(F2, s2, b2, from, J, false);
			join(F, st, F2, s2, c, pc0);
		} else { run(F, st, f1 ? b1 : b2, from, J, false); }
		forkDepth--;
		return !st.dead;
	}

	Val callFn(State &st, const Function *f, const std::vector<Val> &args, const CallBase *cb) {
		if (stack.size() > 400) unsup("call depth");
		called.insert(f->getName().str());
		Frame F; F.fi = info(f); F.fn = f; F.regs.resize(F.fi->nslots);
		unsigned k = 0;
		for (auto &a : f->args()) {
			Val v = args[k];
			if (a.hasByValAttr()) { uint64_t sz = DL.getTypeAllocSize(a.getParamByValType()); uint64_t al = a.getParamAlign() ? a.getParamAlign()->value() : 8; uint64_t id = newObj(st, sz, al, "byval"); copyBytes(st, tm.base(id), v[0], sz); v = Val{tm.base(id)}; F.allocas.push_back(id); }
			F.regs[F.fi->slot[&a]] = v; k++;
		}
		const Instruction *save = cur; stack.push_back(cur);
		run(F, st, &f->getEntryBlock(), nullptr, nullptr, false);
		stack.pop_back(); cur = save;
		for (auto id : F.allocas) st.mem.erase(id);
		return F.ret;
	}

	// ---- values ------------------------------------------------------------
	Val constant(const Constant *c) {
		Val r; Type *t = c->getType();
		if (auto *ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() <= 64) r.push_back(tm.konst(ci->getBitWidth(), ci->getZExtValue()));
			else { std::vector<T> p; auto &v = ci->getValue(); unsigned W = ci->getBitWidth(); for (int i = (W + 63) / 64 - 1; i >= 0; i--) p.push_back(tm.konst(std::min(64u, W - i * 64), v.getRawData()[i])); r.push_back(tm.concat(p)); }
			return r;
		}
		if (auto *cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { r.push_back(tm.concat2(tm.konst(b.getBitWidth() - 64, b.getRawData()[1]), tm.konst(64, b.getRawData()[0]))); return r; } r.push_back(tm.konst(b.getBitWidth(), b.getZExtValue())); return r; }
		if (isa<ConstantPointerNull>(c)) { r.push_back(tm.konst(64, 0)); return r; }
		if (isa<UndefValue>(c)) { for (auto &l : leaves(t)) r.push_back(freshv(l.bits, "undef")); return r; }
		if (isa<ConstantAggregateZero>(c)) { for (auto &l : leaves(t)) r.push_back(tm.konst(l.bits, 0)); return r; }
		if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
			unsigned n = isa<ConstantAggregate>(c) ? cast<ConstantAggregate>(c)->getNumOperands() : cast<ConstantDataSequential>(c)->getNumElements();
			for (unsigned i = 0; i < n; i++) for (T x : constant(c->getAggregateElement(i))) r.push_back(x);
			return r;
		}
		if (auto *g = dyn_cast<GlobalValue>(c)) { r.push_back(tm.base(globalObj(g))); return r; }
		if (auto *ce = dyn_cast<ConstantExpr>(c)) {
			if (ce->getOpcode() == Instruction::GetElementPtr) { r.push_back(gep(cast<GEPOperator>(ce), [&](const Value *v) { return constant(cast<Constant>(v)); })); return r; }
			if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::AddrSpaceCast) return constant(ce->getOperand(0));
			if (ce->getOpcode() == Instruction::Sub) { r.push_back(tm.sub(constant(ce->getOperand(0))[0], constant(ce->getOperand(1))[0])); return r; }
			if (ce->getOpcode() == Instruction::Add) { r.push_back(tm.add(constant(ce->getOperand(0))[0], constant(ce->getOperand(1))[0])); return r; }
		}
		std::string s; raw_string_ostream o(s); c->print(o); throw Unsupported("constant " + s);
	}
	Val eval(Frame &F, const Value *v) {
		if (auto *c = dyn_cast<Constant>(v)) return constant(c);
		auto it = F.fi->slot.find(v);
		if (it == F.fi->slot.end()) { std::string s; raw_string_ostream o(s); v->print(o); unsup("operand " + s); }
		return F.regs[it->second];
	}
	template<typename G> T gep(const GEPOperator *g, G &&ev) {
		T p = ev(g->getPointerOperand())[0];
		for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
			const Value *idx = it.getOperand();
			if (auto *s = it.getStructTypeOrNull()) { p = tm.add(p, tm.konst(64, DL.getStructLayout(s)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()))); continue; }
			uint64_t es = DL.getTypeAllocSize(it.getIndexedType());
			T i = ev(idx)[0]; unsigned w = tm.w(i); if (w < 64) i = tm.sext(i, 64); else if (w > 64) i = tm.extract(i, 63, 0);
			p = padd(p, tm.mulcLin(i, es));
		}
		return p;
	}
	T padd(T p, T off) { if (tm.op(p) == ITE) return tm.ite(tm.ch(p, 0), padd(tm.ch(p, 1), off), padd(tm.ch(p, 2), off)); return tm.add(p, off); }
	T cat(const Val &v) { std::vector<T> p(v.rbegin(), v.rend()); return tm.concat(p); }
	Val uncat(T x, Type *t) {
		auto &ls = leaves(t); Val r; unsigned o = 0; for (auto &l : ls) { r.push_back(tm.extract(x, o + l.bits - 1, o)); o += l.bits; } return r;
	}

	T fcmp(CmpInst::Predicate p, T a, T b) {
		switch (p) {
			case CmpInst::FCMP_FALSE: return tm.tFalse; case CmpInst::FCMP_TRUE: return tm.tTrue;
			case CmpInst::FCMP_OEQ: return tm.fcmp_eq(a, b);
			case CmpInst::FCMP_OGT: return tm.fcmp_lt(b, a);
			case CmpInst::FCMP_OGE: return tm.bor(tm.fcmp_lt(b, a), tm.fcmp_eq(a, b));
			case CmpInst::FCMP_OLT: return tm.fcmp_lt(a, b);
			case CmpInst::FCMP_OLE: return tm.bor(tm.fcmp_lt(a, b), tm.fcmp_eq(a, b));
			case CmpInst::FCMP_ONE: return tm.bor(tm.fcmp_lt(a, b), tm.fcmp_lt(b, a));
			case CmpInst::FCMP_ORD: return tm.bnot(tm.fcmp_uno(a, b));
			case CmpInst::FCMP_UNO: return tm.fcmp_uno(a, b);
			case CmpInst::FCMP_UEQ: return tm.bnot(tm.bor(tm.fcmp_lt(a, b), tm.fcmp_lt(b, a)));
			case CmpInst::FCMP_UGT: return tm.bnot(tm.bor(tm.fcmp_lt(a, b), tm.fcmp_eq(a, b)));
			case CmpInst::FCMP_UGE: return tm.bnot(tm.fcmp_lt(a, b));
			case CmpInst::FCMP_ULT: return tm.bnot(tm.bor(tm.fcmp_lt(b, a), tm.fcmp_eq(a, b)));
			case CmpInst::FCMP_ULE: return tm.bnot(tm.fcmp_lt(b, a));
			case CmpInst::FCMP_UNE: return tm.bnot(tm.fcmp_eq(a, b));
			default: unsup("fcmp");
		}
	}
	T icmp(CmpInst::Predicate p, T a, T b) {
		switch (p) {
			case CmpInst::ICMP_EQ: return tm.eq(a, b); case CmpInst::ICMP_NE: return tm.bnot(tm.eq(a, b));
			case CmpInst::ICMP_ULT: return tm.ult(a, b); case CmpInst::ICMP_ULE: return tm.ule(a, b);
			case CmpInst::ICMP_UGT: return tm.ult(b, a); case CmpInst::ICMP_UGE: return tm.ule(b, a);
			case CmpInst::ICMP_SLT: return tm.slt(a, b); case CmpInst::ICMP_SLE: return tm.sle(a, b);
			case CmpInst::ICMP_SGT: return tm.slt(b, a); case CmpInst::ICMP_SGE: return tm.sle(b, a);
			default: unsup("icmp");
		}
	}
	void inst(Frame &F, State &st, const Instruction &I) {
		Val r;
		switch (I.getOpcode()) {
			case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); uint64_t n = 1; if (A.isArrayAllocation()) { T c = eval(F, A.getArraySize())[0]; if (!tm.isC(c)) unsup("vla"); n = tm.cv(c); } uint64_t id = newObj(st, n * DL.getTypeAllocSize(A.getAllocatedType()), A.getAlign().value(), "local " + A.getName().str()); F.allocas.push_back(id); r.push_back(tm.base(id)); break; }
			case Instruction::Load: { auto &L = cast<LoadInst>(I); r = load(st, eval(F, L.getPointerOperand())[0], L.getType(), L.getAlign().value()); break; }
			case Instruction::Store: { auto &S = cast<StoreInst>(I); store(st, eval(F, S.getPointerOperand())[0], S.getValueOperand()->getType(), eval(F, S.getValueOperand()), S.getAlign().value()); return; }
			case Instruction::GetElementPtr: if (I.getType()->isVectorTy()) unsup("vector gep"); r.push_back(gep(cast<GEPOperator>(&I), [&](const Value *v) { return eval(F, v); })); break;
			case Instruction::BitCast: { Val v = eval(F, I.getOperand(0)); if (I.getOperand(0)->getType() == I.getType()) r = v; else { auto &la = leaves(I.getOperand(0)->getType()); auto &lb = leaves(I.getType()); bool same = la.size() == lb.size(); if (same) for (size_t i = 0; i < la.size(); i++) same &= la[i].bits == lb[i].bits; if (same) r = v; else r = uncat(cat(v), I.getType()); } break; }
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = eval(F, I.getOperand(0)); auto &l = leaves(I.getType()); for (size_t i = 0; i < v.size(); i++) r.push_back(tm.w(v[i]) > l[i].bits ? tm.truncT(v[i], l[i].bits) : tm.zext(v[i], l[i].bits)); break; }
			case Instruction::Freeze: r = eval(F, I.getOperand(0)); break;
			case Instruction::ExtractElement: {
				Val v = eval(F, I.getOperand(0)); T i = eval(F, I.getOperand(1))[0];
				if (tm.isC(i)) { if (tm.cv(i) >= v.size()) { oblige(st, "inbounds", "vector element index", tm.tFalse); st.dead = true; return; } r.push_back(v[tm.cv(i)]); }
				else { T b = tm.ult(i, tm.konst(tm.w(i), v.size())); oblige(st, "inbounds", "vector element index", b); if (b != tm.tTrue) st.pc.push_back(b); T x = v[0]; for (size_t k = 1; k < v.size(); k++) x = tm.ite(tm.eq(i, tm.konst(tm.w(i), k)), v[k], x); r.push_back(x); }
				break;
			}
			case Instruction::InsertElement: {
				Val v = eval(F, I.getOperand(0)); T x = eval(F, I.getOperand(1))[0], i = eval(F, I.getOperand(2))[0];
				if (tm.isC(i)) { if (tm.cv(i) >= v.size()) { oblige(st, "inbounds", "vector element index", tm.tFalse); st.dead = true; return; } v[tm.cv(i)] = x; }
				else { T b = tm.ult(i, tm.konst(tm.w(i), v.size())); oblige(st, "inbounds", "vector element index", b); if (b != tm.tTrue) st.pc.push_back(b); for (size_t k = 0; k < v.size(); k++) v[k] = tm.ite(tm.eq(i, tm.konst(tm.w(i), k)), x, v[k]); }
				r = v; break;
			}
			case Instruction::ShuffleVector: {
				auto &S = cast<ShuffleVectorInst>(I); Val a = eval(F, S.getOperand(0)), b = eval(F, S.getOperand(1)); unsigned eb = scalarBits(cast<VectorType>(I.getType())->getElementType());
				for (int m : S.getShuffleMask()) r.push_back(m < 0 ? freshv(eb, "undef") : (unsigned)m < a.size() ? a[m] : b[m - a.size()]); break;
			}
			case Instruction::ExtractValue: {
				auto &E = cast<ExtractValueInst>(I); Val v = eval(F, E.getAggregateOperand()); unsigned o = 0; Type *t = E.getAggregateOperand()->getType();
				for (unsigned i : E.indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += leaves(s->getElementType(k)).size(); t = s->getElementType(i); } else { t = t->getArrayElementType(); o += i * leaves(t).size(); } }
				for (size_t k = 0; k < leaves(t).size(); k++) r.push_back(v[o + k]); break;
			}
			case Instruction::InsertValue: {
				auto &E = cast<InsertValueInst>(I); Val v = eval(F, E.getAggregateOperand()), x = eval(F, E.getInsertedValueOperand()); unsigned o = 0; Type *t = E.getType();
				for (unsigned i : E.indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += leaves(s->getElementType(k)).size(); t = s->getElementType(i); } else { t = t->getArrayElementType(); o += i * leaves(t).size(); } }
				for (size_t k = 0; k < x.size(); k++) v[o + k] = x[k]; r = v; break;
			}
			case Instruction::Select: {
				Val c = eval(F, I.getOperand(0)), a = eval(F, I.getOperand(1)), b = eval(F, I.getOperand(2));
				for (size_t i = 0; i < a.size(); i++) r.push_back(tm.ite(c.size() == 1 ? c[0] : c[i], a[i], b[i])); break;
			}
			case Instruction::ICmp: { Val a = eval(F, I.getOperand(0)), b = eval(F, I.getOperand(1)); for (size_t i = 0; i < a.size(); i++) r.push_back(icmp(cast<CmpInst>(I).getPredicate(), a[i], b[i])); break; }
			case Instruction::FCmp: { Val a = eval(F, I.getOperand(0)), b = eval(F, I.getOperand(1)); for (size_t i = 0; i < a.size(); i++) { if (tm.w(a[i]) > 64) unsup("long double compare"); r.push_back(fcmp(cast<CmpInst>(I).getPredicate(), a[i], b[i])); } break; }
			case Instruction::FNeg: { for (T x : eval(F, I.getOperand(0))) r.push_back(tm.fneg(x)); break; }
			case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
				unsigned W = scalarBits(I.getType()->getScalarType());
				if (W > 64 && I.getOpcode() != Instruction::ZExt && I.getOpcode() != Instruction::SExt) unsup("long double conversion");
				for (T x : eval(F, I.getOperand(0))) {
					if (tm.w(x) > 64 && I.getOpcode() != Instruction::Trunc) unsup("wide conversion");
					switch (I.getOpcode()) {
						case Instruction::Trunc: r.push_back(tm.truncT(x, W)); break; case Instruction::ZExt: r.push_back(tm.zext(x, W)); break; case Instruction::SExt: r.push_back(tm.sext(x, W)); break;
						case Instruction::FPTrunc: r.push_back(tm.ftrunc(x)); break; case Instruction::FPExt: r.push_back(tm.fext(x)); break;
						case Instruction::FPToSI: r.push_back(tm.ftosi(x, W)); break; case Instruction::FPToUI: r.push_back(tm.ftoui(x, W)); break;
						case Instruction::SIToFP: r.push_back(tm.sitof(x, W)); break; default: r.push_back(tm.uitof(x, W)); break;
					}
				}
				break;
			}
			case Instruction::Call: { r = call(F, st, cast<CallInst>(I)); if (st.dead) return; break; }
			default:
				if (auto *B = dyn_cast<BinaryOperator>(&I)) {
					Val a = eval(F, B->getOperand(0)), b = eval(F, B->getOperand(1));
					for (size_t i = 0; i < a.size(); i++) r.push_back(binop(st, B->getOpcode(), a[i], b[i]));
					break;
				}
				unsup(std::string("instruction ") + I.getOpcodeName());
		}
		if (!I.getType()->isVoidTy()) F.regs[F.fi->slot[&I]] = r;
	}
	T binop(State &st, unsigned op, T a, T b) {
		unsigned W = tm.w(a);
		auto shiftok = [&] { T ok = tm.ult(b, tm.konst(W, W)); oblige(st, "shift", "shift count below the operand width", ok); };
		if (anyDirection && (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv)) unsup("floating-point arithmetic under an arbitrary rounding direction");
		switch (op) {
			case Instruction::Add: return tm.add(a, b); case Instruction::Sub: return tm.sub(a, b); case Instruction::Mul: return tm.mul(a, b);
			case Instruction::And: return tm.band(a, b); case Instruction::Or: return tm.bor(a, b); case Instruction::Xor: return tm.bxor(a, b);
			case Instruction::Shl: shiftok(); return tm.shift(SHL, a, b); case Instruction::LShr: shiftok(); return tm.shift(LSHR, a, b); case Instruction::AShr: shiftok(); return tm.shift(ASHR, a, b);
			case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
				oblige(st, "divzero", "division by zero", tm.bnot(tm.eq(b, tm.konst(W, 0))));
				return op == Instruction::UDiv ? tm.udiv(a, b) : op == Instruction::URem ? tm.urem(a, b) : op == Instruction::SDiv ? tm.sdiv(a, b) : tm.srem(a, b);
			case Instruction::FAdd: if (W > 64) unsup("long double"); return tm.fbin(FADD, a, b);
			case Instruction::FSub: if (W > 64) unsup("long double"); return tm.fsub(a, b);
			case Instruction::FMul: if (W > 64) unsup("long double"); return tm.fbin(FMUL, a, b);
			case Instruction::FDiv: if (W > 64) unsup("long double"); return tm.fbin(FDIV, a, b);
			default: unsup("binary operator");
		}
	}
	std::string cstr(State &st, T p) {
		Addr a; if (!resolve(p, a) || !tm.isC(a.off)) unsup("name string"); Obj *o = get(st, a.obj); std::string s;
		for (uint64_t i = tm.cv(a.off); i < o->size; i++) { BRef r = o->by[i]; uint8_t ch = r.t ? tm.cv(r.t) >> (8 * r.idx) : 0; if (!ch) break; s += ch; }
		return s;
	}
	Val call(Frame &F, State &st, const CallInst &C);
	Val vcapi(Frame &F, State &st, const CallInst &C, const std::string &n, std::vector<Val> &a);
	Val intrinsic(Frame &F, State &st, const CallInst &C, const Function *f, std::vector<Val> &a);
	Val x86(Frame &F, State &st, const CallInst &C, const std::string &n, std::vector<Val> &a);
	Val libcall(Frame &F, State &st, const CallInst &C, const std::string &n, std::vector<Val> &a);
};
