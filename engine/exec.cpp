#include "exec.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <chrono>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <cxxabi.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>

using namespace llvm;
typedef std::chrono::steady_clock Clock;
static Clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(Clock::now() - g_t0).count(); }

static std::unique_ptr<Module> M;
static const DataLayout* DL;

// ------------------------------------------------------------------ compiled form
struct Opd { int s; };  // >=0: slot, <0: constant ~s
struct PhiCopy { int dst; Opd src; };
struct CFunc;
struct Inst {
	u32 op;             // llvm opcode
	int dst = -1;
	u32 w = 0;          // result scalar width (0 for aggregates / vectors)
	u32 ow = 0;         // operand scalar width
	u32 lanes = 0;      // vector lanes (0 scalar)
	u32 pred = 0;
	bool isPtr = false, isFP = false;
	std::vector<Opd> ops;
	std::vector<u64> scale; // GEP scales; switch: unused
	u64 off = 0;            // GEP const offset / alloca size / load store size
	u32 t0 = 0, t1 = 0;     // branch targets
	std::vector<PhiCopy> e0, e1;
	std::vector<u32> swT; std::vector<u128> swV; std::vector<std::vector<PhiCopy>> swE;
	std::vector<u32> idx;
	std::vector<int> mask;
	Function* callee = nullptr;
	CFunc* cf = nullptr;
	int handler = -1;
	u32 iid = 0;
	bool nounwindCall = false;
	std::vector<u64> byval; // per arg: 0 or size
	Instruction* I = nullptr;
	Type* ty = nullptr;
};
struct CFunc {
	Function* F = nullptr;
	std::string name;
	std::vector<std::vector<Inst>> bbs;
	u32 nslots = 0;
	u32 nargs = 0;
	bool nounwind = false;
	bool executed = false;
	u64 calls = 0;
};

struct Frame {
	CFunc* f = nullptr;
	u32 bb = 0, ip = 0;
	std::vector<Val> slots;
	std::vector<u32> allocas;
};
struct Caught { u64 ptr; };
struct State {
	std::vector<Frame> st;
	Mem mem;
	std::vector<Node*> pc;
	std::unordered_set<u32> pcIds;
	ModelP model;
	std::map<std::string, u32> nameCount;
	std::vector<u32> symsUsed;
	std::map<u64, u64> excType;
	std::vector<Caught> caught;
	u64 lpPtr = 0, lpSel = 0;
	u64 lpTi = 0;
	u64 instrs = 0;
	u64 depth = 0;
	std::vector<const char*> reached;
	u32 bootIdx = 0;
	std::vector<std::string> observed;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ globals
static std::vector<Val> g_consts;
static std::unordered_map<const Value*, int> g_constIdx;
static std::unordered_map<const GlobalValue*, u64> g_addr;
static std::unordered_map<u64, const GlobalValue*> g_byAddr;
static std::unordered_map<const Function*, CFunc*> g_cfuncs;
static Mem g_initMem;
static std::vector<StateP> g_work;
static std::map<std::string, std::string> g_params;

struct Violation { std::string msg, func, key; std::vector<std::string> stack; std::vector<std::pair<std::string, std::string>> model; u64 count = 1; };
static std::vector<Violation> g_viol;
static std::map<std::string, size_t> g_violKey;
static std::map<std::string, u64> g_incomplete, g_reach;
static std::set<std::string> g_asserted;
static u64 g_paths = 0, g_instrs = 0, g_forks = 0, g_asserts = 0, g_assertUnknown = 0, g_states = 0, g_killed = 0, g_memChecks = 0;
static std::vector<std::vector<std::pair<std::string, std::string>>> g_samples;
static std::vector<std::vector<std::string>> g_sampleObs;
static std::vector<std::vector<std::string>> g_sampleReach;
static u64 g_maxPathInstr = 40000000;
static double g_timeLimit = 120;
static size_t g_maxSamples = 6;
static size_t g_maxViol = 40;
static bool g_trace = false;
static std::map<std::string, u128> g_fixed; // concrete replays inside the engine
static bool g_haveFixed = false;

struct PathEnd {};
struct Restart {};

static std::string demangle(const std::string& n) {
	int st; char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
	std::string r = st == 0 ? d : n; free(d); return r;
}
static std::string hex(u128 v) { char b[48]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

static Node* nd(const Val& v, u32 w) { return v.n ? v.n : mkConst(v.c, w); }
static Val mkv(Node* n) { Val v; if (isC(n)) v.c = n->val; else v.n = n; return v; }
static inline bool conc(const Val& v) { return v.n == nullptr; }
static Val mkAgg(size_t k) { Val v; v.agg = std::make_shared<std::vector<Val>>(k); return v; }
static std::vector<Val>& aggMut(Val& v) { if (v.agg.use_count() > 1) v.agg = std::make_shared<std::vector<Val>>(*v.agg); return *v.agg; }

// ------------------------------------------------------------------ reporting
static std::string locOf(State& s) {
	for (size_t i = s.st.size(); i-- > 0;) {
		Frame& f = s.st[i];
		Instruction* I = f.f->bbs[f.bb][f.ip].I;
		if (I && I->getDebugLoc()) {
			auto* L = I->getDebugLoc().get();
			return (L->getFilename() + ":" + std::to_string(L->getLine())).str();
		}
	}
	return "?";
}
static std::vector<std::pair<std::string, std::string>> modelOf(State& s, const Model& m) {
	std::vector<std::pair<std::string, std::string>> r;
	for (u32 si : s.symsUsed) if (!g_syms[si].uninit) r.push_back({g_syms[si].name, hex(m.get(si) & maskw(g_syms[si].w))});
	return r;
}
static void report(State& s, const std::string& msg, const ModelP& m) {
	Violation v; v.msg = msg;
	std::string fn = s.st.empty() ? "?" : s.st.back().f->name;
	std::string firstRepo;
	for (size_t i = s.st.size(); i-- > 0 && v.stack.size() < 40;) {
		Frame& f = s.st[i];
		std::string l;
		Instruction* I = f.f->bbs[f.bb][f.ip].I;
		if (I && I->getDebugLoc()) {
			auto* L = I->getDebugLoc().get();
			for (auto* Q = L; Q; Q = Q->getInlinedAt()) { l += (l.empty() ? " at " : " <- ") + (Q->getFilename() + ":" + std::to_string(Q->getLine())).str(); }
		}
		v.stack.push_back(demangle(f.f->name) + l);
		if (firstRepo.empty() && f.f->name.find("fastgltf") != std::string::npos) firstRepo = f.f->name;
	}
	v.func = demangle(firstRepo.empty() ? fn : firstRepo);
	v.key = msg + "|" + v.func + "|" + locOf(s);
	auto it = g_violKey.find(v.key);
	if (it != g_violKey.end()) { g_viol[it->second].count++; return; }
	if (g_viol.size() >= g_maxViol) return;
	v.model = modelOf(s, *m);
	g_violKey[v.key] = g_viol.size();
	g_viol.push_back(v);
	if (g_trace) fprintf(stderr, "VIOL %s in %s\n", msg.c_str(), v.func.c_str());
}
[[noreturn]] static void violate(State& s, const std::string& msg) { report(s, msg, s.model); g_killed++; throw PathEnd(); }
[[noreturn]] static void incomplete(State& s, const std::string& why) { g_incomplete[why + " @ " + (s.st.empty() ? "?" : demangle(s.st.back().f->name).substr(0, 160))]++; throw PathEnd(); }

// ------------------------------------------------------------------ constraints
static void addPc(State& s, Node* n) {
	if (isTrue(n)) return;
	if (n->op == Op::And && n->w == 1) { addPc(s, n->a); addPc(s, n->b); return; }
	if (s.pcIds.insert(n->id).second) s.pc.push_back(n);
}
static Node* renameUninit(Node* n, std::unordered_map<Node*, Node*>& memo) {
	if (!n->tainted) return n;
	auto it = memo.find(n); if (it != memo.end()) return it->second;
	Node* r;
	Node *a = n->a ? renameUninit(n->a, memo) : nullptr, *b = n->b ? renameUninit(n->b, memo) : nullptr, *c = n->c ? renameUninit(n->c, memo) : nullptr;
	switch (n->op) {
		case Op::Sym: r = mkSym("u!" + g_syms[n->aux].name, n->w, true); break;
		case Op::Ite: r = mkIte(a, b, c); break;
		case Op::Concat: r = mkConcat(a, b); break;
		case Op::Extract: r = mkExtract(a, n->aux, n->w); break;
		case Op::ZExt: r = mkZExt(a, n->w); break;
		case Op::SExt: r = mkSExt(a, n->w); break;
		case Op::FFma: r = mkTri(n->op, a, b, c); break;
		case Op::FSqrt: case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc: case Op::FRound: r = mkUn(n->op, a, n->w, n->aux); break;
		default: r = mkBin(n->op, a, b);
	}
	return memo[n] = r;
}
static Node* substUninitZero(Node* n, std::unordered_map<Node*, Node*>& memo) {
	if (!n->tainted) return n;
	auto it = memo.find(n); if (it != memo.end()) return it->second;
	Node* r;
	Node *a = n->a ? substUninitZero(n->a, memo) : nullptr, *b = n->b ? substUninitZero(n->b, memo) : nullptr, *c = n->c ? substUninitZero(n->c, memo) : nullptr;
	switch (n->op) {
		case Op::Sym: r = mkConst(0, n->w); break;
		case Op::Ite: r = mkIte(a, b, c); break;
		case Op::Concat: r = mkConcat(a, b); break;
		case Op::Extract: r = mkExtract(a, n->aux, n->w); break;
		case Op::ZExt: r = mkZExt(a, n->w); break;
		case Op::SExt: r = mkSExt(a, n->w); break;
		case Op::FFma: r = mkTri(n->op, a, b, c); break;
		case Op::FSqrt: case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc: case Op::FRound: r = mkUn(n->op, a, n->w, n->aux); break;
		default: r = mkBin(n->op, a, b);
	}
	return memo[n] = r;
}
// A decision depends on uninitialised memory: real dependence is a violation.
static Node* untaint(State& s, Node* n, const char* what) {
	if (!n->tainted) return n;
	std::unordered_map<Node*, Node*> memo, memo2;
	Node* r = renameUninit(n, memo);
	Node* diff = mkNot(mkBin(Op::Eq, n, r));
	ModelP m;
	SatRes q = checkSat(s.pc, diff, s.model, m, false);
	if (q == SatRes::Sat) { report(s, std::string("use of uninitialised memory in ") + what, m); g_killed++; throw PathEnd(); }
	if (q == SatRes::Unknown) incomplete(s, "uninitialised-memory query undecided");
	return substUninitZero(n, memo2);
}
static std::map<std::string, u64> g_forkSites;
static bool g_forkProfile = getenv("FGSE_FORKS") != nullptr;
static std::vector<std::string> stackOf(State& s);
static void pushFork(State& s, Node* cond, const ModelP& m) {
	if (g_forkProfile) { auto st = stackOf(s); std::string k; for (size_t i = 0; i < st.size() && i < 4; ++i) k += st[i].substr(0, 150) + " | "; g_forkSites[k]++; }
	auto t = std::make_unique<State>(s);
	addPc(*t, cond); t->model = m; t->depth++;
	g_forks++;
	g_work.push_back(std::move(t));
}
static std::vector<std::string> stackOf(State& s) {
	std::vector<std::string> r;
	for (size_t i = s.st.size(); i-- > 0 && r.size() < 6;) {
		Frame& f = s.st[i]; std::string l = demangle(f.f->name).substr(0, 60);
		Instruction* I = f.f->bbs[f.bb][f.ip].I;
		if (I && I->getDebugLoc()) for (auto* Q = I->getDebugLoc().get(); Q; Q = Q->getInlinedAt()) { auto fn = Q->getFilename().str(); auto p = fn.rfind('/'); l += " " + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(Q->getLine()); }
		r.push_back(l);
	}
	return r;
}
// Decide a 1-bit condition on the current path; forks the other side when feasible.
static bool decide(State& s, Node* c, const char* what = "branch") {
	if (isC(c)) return c->val != 0;
	c = untaint(s, c, what);
	if (isC(c)) return c->val != 0;
	bool v = evalNode(c, *s.model) != 0;
	if (g_realMode) { // the model is rounded and may be off the path
		if (s.pcIds.count(c->id)) return true;
		if (s.pcIds.count(mkNot(c)->id)) return false;
		ModelP m; Node* mine = v ? c : mkNot(c); SatRes r = checkSat(s.pc, mine, s.model, m);
		if (r == SatRes::Unsat) { addPc(s, mkNot(mine)); return !v; }
		if (r == SatRes::Sat) s.model = m;
	}
	Node* other = v ? mkNot(c) : c;
	if (s.pcIds.count((v ? c : mkNot(c))->id)) return v;
	ModelP m;
	SatRes r = checkSat(s.pc, other, s.model, m);
	if (r == SatRes::Sat) pushFork(s, other, m);
	else if (r == SatRes::Unknown) g_incomplete["branch query undecided @ " + demangle(s.st.back().f->name).substr(0, 120)]++;
	addPc(s, v ? c : mkNot(c));
	return v;
}
static u128 concretize(State& s, Node* n, const char* what = "value") {
	if (isC(n)) return n->val;
	n = untaint(s, n, what);
	if (isC(n)) return n->val;
	u128 v = evalNode(n, *s.model);
	if (g_realMode) { // the model is rounded: a value selected by comparisons of reals has to be asked for
		std::vector<Node*> todo{n}; std::set<u32> seen; std::set<u64> leaf; bool ok = true;
		while (!todo.empty()) { Node* x = todo.back(); todo.pop_back(); if (!seen.insert(x->id).second) continue; if (isC(x)) leaf.insert((u64)x->val); else if (x->op == Op::Ite) { todo.push_back(x->b); todo.push_back(x->c); } else { ok = false; break; } }
		if (ok) {
			bool found = false;
			for (u64 c : leaf) { ModelP cm; Node* e = mkBin(Op::Eq, n, mkConst(c, n->w)); if (isFalse(e)) continue; if (isTrue(e)) return c; SatRes r = checkSat(s.pc, e, s.model, cm); if (r == SatRes::Unsat) continue; if (r == SatRes::Sat) s.model = cm; v = c; found = true; break; }
			if (!found) throw PathEnd();
		}
	}
	Node* eq = mkBin(Op::Eq, n, mkConst(v, n->w));
	if (isTrue(eq)) return v;
	Node* ne = mkNot(eq);
	ModelP m;
	SatRes r = checkSat(s.pc, ne, s.model, m);
	if (r == SatRes::Sat) pushFork(s, ne, m);
	else if (r == SatRes::Unknown) g_incomplete["concretisation query undecided"]++;
	addPc(s, eq);
	return v;
}
static u64 concVal(State& s, const Val& v, u32 w, const char* what = "value") { return v.n ? (u64)concretize(s, v.n, what) : (u64)v.c; }
// A safety condition that must hold; if it can fail report, then continue where it holds.
static void mustHold(State& s, Node* c, const std::string& msg, bool isAssert = false) {
	if (isTrue(c)) return;
	if (isAssert && c->tainted) c = untaint(s, c, "assertion");
	if (isTrue(c)) return;
	ModelP m;
	SatRes r = checkSat(s.pc, mkNot(c), s.model, m, isAssert);
	if (r == SatRes::Sat) {
		report(s, msg, m);
		ModelP m2;
		if (evalNode(c, *s.model) == 1) { addPc(s, c); return; }
		if (checkSat(s.pc, c, s.model, m2) == SatRes::Sat) { s.model = m2; addPc(s, c); return; }
		g_killed++;
		throw PathEnd();
	}
	if (r == SatRes::Unknown) {
		g_assertUnknown++;
		g_incomplete["undecided: " + msg]++;
		if (evalNode(c, *s.model) != 1) throw PathEnd();
		addPc(s, c);
	}
}

// ------------------------------------------------------------------ memory
static inline u64 idOf(u64 a) { return a >> 32; }
static inline u64 offOf(u64 a) { return a & 0xffffffffu; }

static std::string describeBad(State& s, u64 addr, u64 size) {
	u64 id = idOf(addr);
	if (id == 0) return addr < 4096 ? "null pointer dereference" : "wild pointer dereference";
	const Obj* o = s.mem.get(id);
	if (!o) return "wild pointer dereference";
	if (o->kind == OK_Dead) return o->was == OK_Heap ? "heap use after free" : o->was == OK_Stack ? "stack use after return" : "use after free";
	if (o->kind == OK_Func) return "data access to function";
	const char* k = o->was == OK_Heap ? "heap" : o->was == OK_Stack ? "stack" : "global";
	return std::string(k) + " buffer overflow";
	(void)size;
}
static bool validRange(State& s, u64 addr, u64 size, bool write) {
	const Obj* o = s.mem.get(idOf(addr));
	if (!o || o->kind == OK_Dead || o->kind == OK_Func || o->kind == OK_None) return false;
	u64 off = offOf(addr);
	if (off > o->size || size > o->size - off) return false;
	if (write && o->readonly) return false;
	return true;
}
static void checkRange(State& s, u64 addr, u64 size, bool write) {
	if (size == 0) return;
	g_memChecks++;
	if (!validRange(s, addr, size, write)) {
		const Obj* o = s.mem.get(idOf(addr));
		if (write && o && o->readonly && o->kind != OK_Dead) violate(s, "write to read-only memory");
		violate(s, describeBad(s, addr, size) + (write ? " (write)" : " (read)"));
	}
}
static Node* byteNode(Bytes* b, u64 i) {
	if (b->st[i] == 0) return mkConst(b->c[i], 8);
	if (b->s.empty()) b->s.assign(b->c.size(), nullptr);
	if (b->st[i] == 2) { // a bounded pool of symbols: only whether a decision depends on one of them matters
		static std::vector<Node*> pool; static u64 k = 0; if (pool.size() < 61) pool.push_back(mkSym("uninit" + std::to_string(pool.size()), 8, true));
		b->s[i] = pool[k++ % pool.size()]; b->st[i] = 1;
	}
	return b->s[i];
}
static void setByte(Bytes* b, u64 i, Node* n) {
	if (isC(n)) { b->c[i] = (u8)n->val; b->st[i] = 0; return; }
	if (b->s.empty()) b->s.assign(b->c.size(), nullptr);
	b->s[i] = n; b->st[i] = 1;
}
static Node* concatBytes(const std::vector<Node*>& v) { // little endian
	Node* r = v[0];
	for (size_t i = 1; i < v.size(); ++i) r = mkConcat(v[i], r);
	return r;
}
static Val loadConc(State& s, u64 addr, u32 size) {
	checkRange(s, addr, size, false);
	u64 id = idOf(addr), off = offOf(addr);
	const Obj* o = s.mem.get(id);
	const Bytes* cb = o->b.get();
	bool all = true;
	for (u32 i = 0; i < size; ++i) if (cb->st[off + i]) { all = false; break; }
	Val v;
	if (all) { u128 x = 0; memcpy(&x, &cb->c[off], size); v.c = x; return v; }
	bool un = false; for (u32 i = 0; i < size; ++i) if (cb->st[off + i] == 2) un = true;
	Bytes* b = un ? s.mem.mutBytes(id) : const_cast<Bytes*>(cb);
	std::vector<Node*> bs(size);
	for (u32 i = 0; i < size; ++i) bs[i] = byteNode(b, off + i);
	return mkv(concatBytes(bs));
}
static void storeConc(State& s, u64 addr, u32 size, const Val& v) {
	checkRange(s, addr, size, true);
	Bytes* b = s.mem.mutBytes(idOf(addr)); u64 off = offOf(addr);
	if (!v.n) { memcpy(&b->c[off], &v.c, size); memset(&b->st[off], 0, size); return; }
	Node* n = v.n;
	if (n->w < size * 8) n = mkZExt(n, size * 8);
	for (u32 i = 0; i < size; ++i) setByte(b, off + i, mkExtract(n, i * 8, 8));
}
// Resolve a symbolic address: constrain the path to one object; returns object base, and the offset node.
struct Ref { u64 id; Node* off; u64 lo, hi; u64 step;  Node* idx = nullptr; u64 base = 0; };
static Ref resolve(State& s, Node* addr, u64 size, bool write) {
	addr = untaint(s, addr, "address");
	u64 cur = (u64)evalNode(addr, *s.model);
	u64 id = idOf(cur);
	const Obj* o = s.mem.get(id);
	bool ok = validRange(s, cur, size, write);
	if (!ok) violate(s, describeBad(s, cur, size) + (write ? " (write)" : " (read)"));
	Node* off = mkBin(Op::Sub, addr, mkConst((u128)id << 32, 64));
	u64 maxOff = o->size - size;
	Node* in = mkBin(Op::Ule, off, mkConst(maxOff, 64));
	if (!isTrue(in)) {
		ModelP m;
		SatRes r = checkSat(s.pc, mkNot(in), s.model, m);
		if (r == SatRes::Unknown) { g_incomplete["address query undecided"]++; }
		else if (r == SatRes::Sat) {
			// prefer an out-of-bounds witness relative to this very object
			Node* same = mkBin(Op::And, mkNot(in), mkBin(Op::Ult, mkBin(Op::Add, off, mkConst(1ull << 31, 64)), mkConst(1ull << 32, 64)));
			ModelP m2;
			if (checkSat(s.pc, same, s.model, m2) == SatRes::Sat) {
				// witness either lies outside this object; is it inside some other live one reachable legitimately?
				u64 a2 = (u64)evalNode(addr, *m2);
				ModelP keep = s.model; s.model = m2;
				std::string d = describeBad(s, idOf(a2) == id ? a2 : ((id << 32) | 0xffffffffu), size);
				if (idOf(a2) != id) d = "buffer underflow";
				report(s, d + (write ? " (write)" : " (read)"), m2);
				s.model = keep;
			} else pushFork(s, mkNot(in), m);
		}
		addPc(s, in);
	}
	Ref R; R.id = id; R.off = off;
	rangeOf(off, R.lo, R.hi);
	if (R.hi > maxOff) R.hi = maxOff;
	u64 kz = knownZero(off);
	u32 tz = ~kz ? __builtin_ctzll(~kz) : 63;
	// off = const + x*2^k : use alignment relative to the lower bound when both agree
	R.step = 1ull << tz;
	if (off->op == Op::Add && isC(off->b)) {
		u64 kz2 = knownZero(off->a); u32 t2 = ~kz2 ? __builtin_ctzll(~kz2) : 63;
		u64 c = (u64)off->b->val;
		if ((1ull << t2) > R.step) { R.step = 1ull << t2; u64 l = R.lo; u64 r0 = c % R.step; u64 base = l - l % R.step + r0; if (base < l) base += R.step; R.lo = base; }
	} else if (R.lo % R.step) R.lo += R.step - R.lo % R.step;
	// off = x*m + c with x small enough not to wrap: only multiples of m are reachable
	{
		Node* mul = off; u64 c = 0;
		if (off->op == Op::Add && isC(off->b)) { mul = off->a; c = (u64)off->b->val; }
		if (mul->op == Op::Mul && isC(mul->b) && c < (1ull << 32)) {
			u64 m = (u64)mul->b->val;
			if (m > R.step && m < (1ull << 32) && c <= maxOff) {
				Node* big = mkBin(Op::Ult, mkConst((maxOff - c) / m, 64), mul->a);
				ModelP mm;
				if (isFalse(big) || checkSat(s.pc, big, s.model, mm) == SatRes::Unsat) { R.step = m; R.lo = c; R.hi = c + (maxOff - c) / m * m; R.idx = mul->a; }
			}
		}
	}
	return R;
}
static const u64 MAXCAND = 2048;
static void tightenRange(State& s, Ref& R) {
	// binary search the feasible upper/lower bounds when interval analysis is too weak
	if ((R.hi - R.lo) / R.step < 300) return;
	auto can = [&](Node* q) { ModelP m; return checkSat(s.pc, q, s.model, m) != SatRes::Unsat; };
	u64 cur = (u64)evalNode(R.off, *s.model);
	u64 l = cur, h = R.hi;
	while (l < h) { u64 mid = l + (h - l) / 2; if (can(mkBin(Op::Ult, mkConst(mid, 64), R.off))) l = mid + 1; else h = mid; }
	R.hi = h;
	u64 l2 = R.lo, h2 = cur;
	while (l2 < h2) { u64 mid = l2 + (h2 - l2) / 2; if (can(mkBin(Op::Ule, R.off, mkConst(mid, 64)))) h2 = mid; else l2 = mid + 1; }
	if (R.step > 1 && (l2 - R.lo) % R.step) l2 += R.step - (l2 - R.lo) % R.step;
	if (R.idx) R.base += (l2 - R.lo) / R.step;
	R.lo = l2;
}
static Val loadVal(State& s, const Val& a, u32 size) {
	if (!a.n) return loadConc(s, (u64)a.c, size);
	Ref R = resolve(s, a.n, size, false);
	tightenRange(s, R);
	u64 ncand = (R.hi - R.lo) / R.step + 1;
	if (ncand == 1) return loadConc(s, (R.id << 32) + R.lo, size);
	if (ncand > MAXCAND) { u64 v = (u64)concretize(s, a.n, "address"); return loadConc(s, v, size); }
	std::vector<Node*> leaves;
	Bytes* b = s.mem.mutBytes(R.id);
	for (u64 i = 0; i < ncand; ++i) {
		std::vector<Node*> bs(size);
		for (u32 k = 0; k < size; ++k) bs[k] = byteNode(b, R.lo + i * R.step + k);
		leaves.push_back(concatBytes(bs));
	}
	Node* idx = R.idx ? R.idx : mkBin(Op::Sub, R.off, mkConst(R.lo, 64));
	if (R.idx) { if (R.base) idx = mkBin(Op::Sub, idx, mkConst(R.base, 64)); }
	else if (R.step > 1) idx = (R.step & (R.step - 1)) ? mkBin(Op::UDiv, idx, mkConst(R.step, 64)) : mkBin(Op::LShr, idx, mkConst(__builtin_ctzll(R.step), 64));
	return mkv(mkReadTable(leaves, idx));
}
static void storeVal(State& s, const Val& a, u32 size, const Val& v) {
	if (!a.n) { storeConc(s, (u64)a.c, size, v); return; }
	Ref R = resolve(s, a.n, size, true);
	tightenRange(s, R);
	u64 ncand = (R.hi - R.lo) / R.step + 1;
	if (ncand == 1) { storeConc(s, (R.id << 32) + R.lo, size, v); return; }
	if (ncand > 512) { u64 x = (u64)concretize(s, a.n, "address"); storeConc(s, x, size, v); return; }
	Bytes* b = s.mem.mutBytes(R.id);
	Node* n = nd(v, size * 8);
	if (n->w < size * 8) n = mkZExt(n, size * 8);
	for (u64 i = 0; i < ncand; ++i) {
		u64 o = R.lo + i * R.step;
		Node* c = R.idx ? mkBin(Op::Eq, R.idx, mkConst(i + R.base, 64)) : mkBin(Op::Eq, R.off, mkConst(o, 64));
		if (isFalse(c)) continue;
		for (u32 k = 0; k < size; ++k) setByte(b, o + k, mkIte(c, mkExtract(n, k * 8, 8), byteNode(b, o + k)));
	}
}
static void copyMem(State& s, u64 d, u64 src, u64 n, bool allowOverlap) {
	if (n == 0) return;
	checkRange(s, src, n, false); checkRange(s, d, n, true);
	if (!allowOverlap && d != src && idOf(d) == idOf(src)) {
		u64 lo = std::min(d, src), hi = std::max(d, src);
		if (lo + n > hi) violate(s, "memcpy with overlapping ranges");
	}
	Bytes* db = s.mem.mutBytes(idOf(d));
	const Bytes* sb = s.mem.get(idOf(src))->b.get();
	u64 doff = offOf(d), so = offOf(src);
	if (db == sb) {
		std::vector<u8> c(sb->c.begin() + so, sb->c.begin() + so + n), st(sb->st.begin() + so, sb->st.begin() + so + n);
		std::vector<Node*> sy; if (!sb->s.empty()) sy.assign(sb->s.begin() + so, sb->s.begin() + so + n);
		memcpy(&db->c[doff], c.data(), n); memcpy(&db->st[doff], st.data(), n);
		if (!sy.empty()) std::copy(sy.begin(), sy.end(), db->s.begin() + doff);
		return;
	}
	memcpy(&db->c[doff], &sb->c[so], n); memcpy(&db->st[doff], &sb->st[so], n);
	if (!sb->s.empty()) {
		bool any = false; for (u64 i = 0; i < n; ++i) if (sb->st[so + i] == 1) { any = true; break; }
		if (any) {
			if (db->s.empty()) db->s.assign(db->c.size(), nullptr);
			std::copy(sb->s.begin() + so, sb->s.begin() + so + n, db->s.begin() + doff);
		}
	}
}
static std::string readCStr(State& s, u64 a) {
	std::string r;
	for (;;) { Val v = loadConc(s, a++, 1); if (v.n) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; }
	return r;
}

// ------------------------------------------------------------------ module compilation
static u32 widthOf(Type* t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	if (t->isX86_FP80Ty()) return 80;
	if (t->isHalfTy()) return 16;
	return 0;
}
static u64 g_nUndef = 0;
static Val zeroOf(Type* t) {
	if (auto* v = dyn_cast<FixedVectorType>(t)) { Val r = mkAgg(v->getNumElements()); return r; }
	if (auto* st = dyn_cast<StructType>(t)) { Val r = mkAgg(st->getNumElements()); for (u32 i = 0; i < st->getNumElements(); ++i) (*r.agg)[i] = zeroOf(st->getElementType(i)); return r; }
	if (auto* a = dyn_cast<ArrayType>(t)) { Val r = mkAgg(a->getNumElements()); for (u32 i = 0; i < a->getNumElements(); ++i) (*r.agg)[i] = zeroOf(a->getElementType()); return r; }
	return Val();
}
static Val undefOf(Type* t) {
	if (auto* v = dyn_cast<FixedVectorType>(t)) { Val r = mkAgg(v->getNumElements()); for (auto& x : *r.agg) x = undefOf(v->getElementType()); return r; }
	if (auto* st = dyn_cast<StructType>(t)) { Val r = mkAgg(st->getNumElements()); for (u32 i = 0; i < st->getNumElements(); ++i) (*r.agg)[i] = undefOf(st->getElementType(i)); return r; }
	if (auto* a = dyn_cast<ArrayType>(t)) { Val r = mkAgg(a->getNumElements()); for (auto& x : *r.agg) x = undefOf(a->getElementType()); return r; }
	u32 w = widthOf(t);
	if (!w || w > 64) return Val();
	Val v; v.n = mkSym("undef" + std::to_string(g_nUndef++), w, true); return v;
}
static Val evalConst(const Constant* C);
static u64 constAddr(const Constant* C) { Val v = evalConst(C); return (u64)v.c; }
static Val evalConst(const Constant* C) {
	Type* t = C->getType();
	Val r;
	if (auto* ci = dyn_cast<ConstantInt>(C)) {
		if (ci->getBitWidth() > 128) return r;
		r.c = ci->getValue().getRawData()[0]; if (ci->getBitWidth() > 64) r.c |= (u128)ci->getValue().getRawData()[1] << 64; r.c &= maskw(ci->getBitWidth()); return r;
	}
	if (auto* cf = dyn_cast<ConstantFP>(C)) {
		APInt b = cf->getValueAPF().bitcastToAPInt();
		r.c = b.getRawData()[0]; if (b.getBitWidth() > 64) r.c |= (u128)b.getRawData()[1] << 64; return r;
	}
	if (isa<ConstantPointerNull>(C)) return r;
	if (isa<PoisonValue>(C)) return zeroOf(t);
	if (isa<UndefValue>(C)) return undefOf(t);
	if (isa<ConstantAggregateZero>(C)) return zeroOf(t);
	if (auto* g = dyn_cast<GlobalAlias>(C)) return evalConst(g->getAliasee());
	if (auto* g = dyn_cast<GlobalValue>(C)) { r.c = g_addr.at(g); return r; }
	if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { r = mkAgg(cd->getNumElements()); for (u32 i = 0; i < cd->getNumElements(); ++i) (*r.agg)[i] = evalConst(cd->getElementAsConstant(i)); return r; }
	if (auto* ca = dyn_cast<ConstantAggregate>(C)) { r = mkAgg(ca->getNumOperands()); for (u32 i = 0; i < ca->getNumOperands(); ++i) (*r.agg)[i] = evalConst(ca->getOperand(i)); return r; }
	if (auto* ce = dyn_cast<ConstantExpr>(C)) {
		if (auto* gep = dyn_cast<GEPOperator>(ce)) {
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(*DL, off)) { r.c = (constAddr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue()) & maskw(64); return r; }
		}
		switch (ce->getOpcode()) {
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { Val v = evalConst(ce->getOperand(0)); v.c &= maskw(std::max(1u, widthOf(t))); return v; }
			case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); v.c &= maskw(widthOf(t)); return v; }
			case Instruction::Sub: { r.c = (evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(widthOf(t)); return r; }
			case Instruction::Add: { r.c = (evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(widthOf(t)); return r; }
			case Instruction::ICmp: { auto a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c; r.c = ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; return r; }
			default: break;
		}
		std::string str; raw_string_ostream o(str); ce->print(o); fprintf(stderr, "fgse: unsupported constant expression %s\n", str.c_str());
	}
	return r;
}
static void writeInit(Bytes* b, u64 off, const Constant* C) {
	Type* t = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
	if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (u32 i = 0; i < st->getNumElements(); ++i) writeInit(b, off + (u64)L->getElementOffset(i), C->getAggregateElement(i)); return; }
	if (auto* a = dyn_cast<ArrayType>(t)) {
		if (auto* cds = dyn_cast<ConstantDataSequential>(C)) { StringRef raw = cds->getRawDataValues(); memcpy(&b->c[off], raw.data(), raw.size()); return; }
		u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) writeInit(b, off + i * es, C->getAggregateElement(i)); return;
	}
	if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); ++i) writeInit(b, off + i * es, C->getAggregateElement(i)); return; }
	Val v = evalConst(C);
	memcpy(&b->c[off], &v.c, DL->getTypeStoreSize(t));
}
static Opd opdOf(const Value* v, std::unordered_map<const Value*, int>& slots) {
	if (auto* c = dyn_cast<Constant>(v)) {
		auto it = g_constIdx.find(c);
		if (it == g_constIdx.end()) { g_consts.push_back(evalConst(c)); it = g_constIdx.emplace(c, (int)g_consts.size() - 1).first; }
		return {~it->second};
	}
	auto it = slots.find(v);
	if (it == slots.end()) { // metadata or inline asm
		g_consts.push_back(Val()); return {~((int)g_consts.size() - 1)};
	}
	return {it->second};
}
typedef void (*Handler)(State& s, Inst& I, std::vector<Val>& a, Val& ret);
static std::vector<std::pair<std::string, Handler>> g_handlers;
static std::unordered_map<std::string, int> g_handlerIdx;
static std::set<std::string> g_weak; // a harness may define these itself
static bool handled(const Function* f, std::unordered_map<std::string, int>::iterator h) { return h != g_handlerIdx.end() && (f->isDeclaration() || !g_weak.count(h->first)); }

static CFunc* compile(Function* F) {
	auto it = g_cfuncs.find(F);
	if (it != g_cfuncs.end()) return it->second;
	auto* cf = new CFunc(); g_cfuncs[F] = cf;
	cf->F = F; cf->name = F->getName().str(); cf->nounwind = F->doesNotThrow();
	std::unordered_map<const Value*, int> slots; int ns = 0;
	for (auto& A : F->args()) slots[&A] = ns++;
	cf->nargs = ns;
	std::unordered_map<const BasicBlock*, u32> bbi; u32 nb = 0;
	for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) slots[&I] = ns++; }
	cf->nslots = ns;
	cf->bbs.resize(nb);
	auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
		std::vector<PhiCopy> r;
		for (auto& P : to->phis()) r.push_back({slots[&P], opdOf(P.getIncomingValueForBlock(from), slots)});
		return r;
	};
	for (auto& B : *F) {
		auto& out = cf->bbs[bbi[&B]];
		for (auto& I : B) {
			if (isa<PHINode>(I)) continue;
			if (isa<DbgInfoIntrinsic>(I)) continue;
			Inst X; X.I = &I; X.op = I.getOpcode(); X.ty = I.getType();
			if (!I.getType()->isVoidTy()) X.dst = slots[&I];
			Type* t = I.getType();
			if (auto* v = dyn_cast<FixedVectorType>(t)) { X.lanes = v->getNumElements(); X.w = widthOf(v->getElementType()); X.isFP = v->getElementType()->isFloatingPointTy(); }
			else { X.w = widthOf(t); X.isPtr = t->isPointerTy(); X.isFP = t->isFloatingPointTy(); }
			if (I.getNumOperands() && !isa<CallBase>(I)) {
				Type* ot = I.getOperand(0)->getType();
				if (auto* v = dyn_cast<FixedVectorType>(ot)) { X.ow = widthOf(v->getElementType()); if (isa<CmpInst>(I)) X.isFP = v->getElementType()->isFloatingPointTy(); }
				else { X.ow = widthOf(ot); if (isa<CmpInst>(I)) X.isFP = ot->isFloatingPointTy(); }
			}
			if (auto* br = dyn_cast<BranchInst>(&I)) {
				if (br->isConditional()) { X.ops.push_back(opdOf(br->getCondition(), slots)); X.t0 = bbi[br->getSuccessor(0)]; X.t1 = bbi[br->getSuccessor(1)]; X.e0 = edge(&B, br->getSuccessor(0)); X.e1 = edge(&B, br->getSuccessor(1)); }
				else { X.t0 = bbi[br->getSuccessor(0)]; X.e0 = edge(&B, br->getSuccessor(0)); }
			} else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
				X.ops.push_back(opdOf(sw->getCondition(), slots));
				X.t0 = bbi[sw->getDefaultDest()]; X.e0 = edge(&B, sw->getDefaultDest());
				for (auto& c : sw->cases()) { X.swV.push_back(evalConst(c.getCaseValue()).c); X.swT.push_back(bbi[c.getCaseSuccessor()]); X.swE.push_back(edge(&B, c.getCaseSuccessor())); }
			} else if (auto* cb = dyn_cast<CallBase>(&I)) {
				if (auto* iv = dyn_cast<InvokeInst>(&I)) { X.t0 = bbi[iv->getNormalDest()]; X.t1 = bbi[iv->getUnwindDest()]; X.e0 = edge(&B, iv->getNormalDest()); X.e1 = edge(&B, iv->getUnwindDest()); }
				for (u32 k = 0; k < cb->arg_size(); ++k) { X.ops.push_back(opdOf(cb->getArgOperand(k), slots)); X.byval.push_back(cb->isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb->getParamByValType(k)) : 0); }
				X.nounwindCall = cb->doesNotThrow();
				Value* cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
				X.callee = dyn_cast<Function>(cv);
				if (!X.callee) { if (isa<InlineAsm>(cv)) X.handler = -3; else X.ops.push_back(opdOf(cb->getCalledOperand(), slots)); }
				else {
					X.iid = X.callee->getIntrinsicID();
					auto h = g_handlerIdx.find(X.callee->getName().str());
					if (handled(X.callee, h)) X.handler = h->second;
				}
			} else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
				X.ops.push_back(opdOf(gep->getPointerOperand(), slots));
				u64 off = 0;
				for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
					Value* op = gi.getOperand();
					if (auto* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
					u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
					if (auto* ci = dyn_cast<ConstantInt>(op)) { off += (u64)ci->getSExtValue() * sz; continue; }
					X.ops.push_back(opdOf(op, slots)); X.scale.push_back(sz);
					Type* it2 = op->getType(); X.idx.push_back(widthOf(it2->isVectorTy() ? cast<VectorType>(it2)->getElementType() : it2));
				}
				X.off = off;
			} else {
				for (auto& O : I.operands()) if (!isa<BasicBlock>(O)) X.ops.push_back(opdOf(O, slots));
				if (auto* c = dyn_cast<CmpInst>(&I)) X.pred = c->getPredicate();
				if (auto* a = dyn_cast<AllocaInst>(&I)) X.off = DL->getTypeAllocSize(a->getAllocatedType());
				if (auto* e = dyn_cast<ExtractValueInst>(&I)) X.idx.assign(e->idx_begin(), e->idx_end());
				if (auto* e = dyn_cast<InsertValueInst>(&I)) X.idx.assign(e->idx_begin(), e->idx_end());
				if (auto* e = dyn_cast<ShuffleVectorInst>(&I)) X.mask.assign(e->getShuffleMask().begin(), e->getShuffleMask().end());
			}
			out.push_back(std::move(X));
		}
	}
	return cf;
}

// ------------------------------------------------------------------ operations
static inline const Val& get(Frame& f, Opd o) { return o.s >= 0 ? f.slots[o.s] : g_consts[~o.s]; }

static Node* fneg(Node* a) { if (g_realMode && !isC(a)) return mkBin(Op::FSub, mkConst((u128)1 << (a->w - 1), a->w), a); return mkBin(Op::Xor, a, mkConst((u128)1 << (a->w - 1), a->w)); }
static Val binop(State& s, Inst& I, const Val& a, const Val& b, u32 w) {
	Op op; bool div = false;
	switch (I.op) {
		case Instruction::Add: op = Op::Add; break; case Instruction::Sub: op = Op::Sub; break; case Instruction::Mul: op = Op::Mul; break;
		case Instruction::UDiv: op = Op::UDiv; div = true; break; case Instruction::SDiv: op = Op::SDiv; div = true; break;
		case Instruction::URem: op = Op::URem; div = true; break; case Instruction::SRem: op = Op::SRem; div = true; break;
		case Instruction::And: op = Op::And; break; case Instruction::Or: op = Op::Or; break; case Instruction::Xor: op = Op::Xor; break;
		case Instruction::Shl: op = Op::Shl; break; case Instruction::LShr: op = Op::LShr; break; case Instruction::AShr: op = Op::AShr; break;
		case Instruction::FAdd: op = Op::FAdd; break; case Instruction::FSub: op = Op::FSub; break; case Instruction::FMul: op = Op::FMul; break;
		case Instruction::FDiv: op = Op::FDiv; break; case Instruction::FRem: op = Op::FRem; break;
		default: incomplete(s, "binop");
	}
	if (div) {
		if (!b.n) { if (b.c == 0) violate(s, "integer division by zero"); }
		else mustHold(s, mkNot(mkBin(Op::Eq, untaint(s, b.n, "divisor"), mkConst(0, w))), "integer division by zero");
	}
	if (!a.n && !b.n) {
		switch (op) { // fast paths
			case Op::Add: return Val((a.c + b.c) & maskw(w)); case Op::Sub: return Val((a.c - b.c) & maskw(w));
			case Op::And: return Val(a.c & b.c); case Op::Or: return Val(a.c | b.c); case Op::Xor: return Val(a.c ^ b.c);
			default: { bool ok; return Val(foldBin(op, a.c, b.c, w, ok)); }
		}
	}
	return mkv(mkBin(op, nd(a, w), nd(b, w)));
}
static Val cmpop(State& s, Inst& I, const Val& a, const Val& b, u32 w) {
	Node *x, *y;
	if (!I.isFP) {
		if (!a.n && !b.n) {
			bool ok; auto S = [&](Op o, u128 p, u128 q) { return (bool)foldBin(o, p, q, w, ok); };
			switch (I.pred) {
				case CmpInst::ICMP_EQ: return Val(a.c == b.c); case CmpInst::ICMP_NE: return Val(a.c != b.c);
				case CmpInst::ICMP_ULT: return Val(a.c < b.c); case CmpInst::ICMP_ULE: return Val(a.c <= b.c);
				case CmpInst::ICMP_UGT: return Val(a.c > b.c); case CmpInst::ICMP_UGE: return Val(a.c >= b.c);
				case CmpInst::ICMP_SLT: return Val(S(Op::Slt, a.c, b.c)); case CmpInst::ICMP_SLE: return Val(S(Op::Sle, a.c, b.c));
				case CmpInst::ICMP_SGT: return Val(S(Op::Slt, b.c, a.c)); case CmpInst::ICMP_SGE: return Val(S(Op::Sle, b.c, a.c));
			}
		}
		x = nd(a, w); y = nd(b, w);
		switch (I.pred) {
			case CmpInst::ICMP_EQ: return mkv(mkBin(Op::Eq, x, y)); case CmpInst::ICMP_NE: return mkv(mkNot(mkBin(Op::Eq, x, y)));
			case CmpInst::ICMP_ULT: return mkv(mkBin(Op::Ult, x, y)); case CmpInst::ICMP_ULE: return mkv(mkBin(Op::Ule, x, y));
			case CmpInst::ICMP_UGT: return mkv(mkBin(Op::Ult, y, x)); case CmpInst::ICMP_UGE: return mkv(mkBin(Op::Ule, y, x));
			case CmpInst::ICMP_SLT: return mkv(mkBin(Op::Slt, x, y)); case CmpInst::ICMP_SLE: return mkv(mkBin(Op::Sle, x, y));
			case CmpInst::ICMP_SGT: return mkv(mkBin(Op::Slt, y, x)); case CmpInst::ICMP_SGE: return mkv(mkBin(Op::Sle, y, x));
		}
	}
	x = nd(a, w); y = nd(b, w);
	Node* uno = nullptr; auto U = [&]() { return uno ? uno : (uno = mkBin(Op::FUno, x, y)); };
	switch (I.pred) {
		case CmpInst::FCMP_FALSE: return Val(0); case CmpInst::FCMP_TRUE: return Val(1);
		case CmpInst::FCMP_OEQ: return mkv(mkBin(Op::FEq, x, y));
		case CmpInst::FCMP_OGT: return mkv(mkBin(Op::FLt, y, x)); case CmpInst::FCMP_OGE: return mkv(mkBin(Op::FLe, y, x));
		case CmpInst::FCMP_OLT: return mkv(mkBin(Op::FLt, x, y)); case CmpInst::FCMP_OLE: return mkv(mkBin(Op::FLe, x, y));
		case CmpInst::FCMP_ONE: return mkv(mkBin(Op::And, mkNot(U()), mkNot(mkBin(Op::FEq, x, y))));
		case CmpInst::FCMP_ORD: return mkv(mkNot(U())); case CmpInst::FCMP_UNO: return mkv(U());
		case CmpInst::FCMP_UEQ: return mkv(mkBin(Op::Or, U(), mkBin(Op::FEq, x, y)));
		case CmpInst::FCMP_UGT: return mkv(mkNot(mkBin(Op::FLe, x, y))); case CmpInst::FCMP_UGE: return mkv(mkNot(mkBin(Op::FLt, x, y)));
		case CmpInst::FCMP_ULT: return mkv(mkNot(mkBin(Op::FLe, y, x))); case CmpInst::FCMP_ULE: return mkv(mkNot(mkBin(Op::FLt, y, x)));
		case CmpInst::FCMP_UNE: return mkv(mkNot(mkBin(Op::FEq, x, y)));
	}
	incomplete(s, "cmp");
}
static Val castop(State& s, Inst& I, u32 op, const Val& a, u32 ow, u32 w) {
	switch (op) {
		case Instruction::Trunc: if (!a.n) return Val(a.c & maskw(w)); return mkv(mkExtract(a.n, 0, w));
		case Instruction::ZExt: if (!a.n) return a; return mkv(mkZExt(a.n, w));
		case Instruction::SExt: return mkv(mkSExt(nd(a, ow), w));
		case Instruction::PtrToInt: case Instruction::IntToPtr: if (w == ow) return a; if (w < ow) return mkv(mkExtract(nd(a, ow), 0, w)); return mkv(mkZExt(nd(a, ow), w));
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
		case Instruction::FPTrunc: return mkv(mkUn(Op::FTrunc, nd(a, ow), w));
		case Instruction::FPExt: return mkv(mkUn(Op::FExt, nd(a, ow), w));
		case Instruction::FPToSI: return mkv(mkUn(Op::FToSI, nd(a, ow), w));
		case Instruction::FPToUI: return mkv(mkUn(Op::FToUI, nd(a, ow), w));
		case Instruction::SIToFP: return mkv(mkUn(Op::SIToF, nd(a, ow), w));
		case Instruction::UIToFP: return mkv(mkUn(Op::UIToF, nd(a, ow), w));
	}
	incomplete(s, "cast");
}
// flatten a value of type t into little-endian element list of granularity g bits
static void flatten(const Val& v, Type* t, std::vector<std::pair<Val, u32>>& out) {
	if (auto* vt = dyn_cast<FixedVectorType>(t)) { u32 w = widthOf(vt->getElementType()); for (auto& x : *v.agg) out.push_back({x, w}); return; }
	out.push_back({v, widthOf(t)});
}
static Val bitcastVal(const Val& v, Type* from, Type* to) {
	std::vector<std::pair<Val, u32>> in; flatten(v, from, in);
	u32 tw; size_t lanes; bool vec = false;
	if (auto* vt = dyn_cast<FixedVectorType>(to)) { tw = widthOf(vt->getElementType()); lanes = vt->getNumElements(); vec = true; }
	else { tw = widthOf(to); lanes = 1; }
	std::vector<Val> res;
	if (in[0].second == tw) for (auto& p : in) res.push_back(p.first);
	else if (in[0].second > tw) { for (auto& p : in) for (u32 o = 0; o < p.second; o += tw) res.push_back(p.first.n ? mkv(mkExtract(p.first.n, o, tw)) : Val((p.first.c >> o) & maskw(tw))); }
	else {
		u32 k = tw / in[0].second;
		for (size_t i = 0; i < in.size(); i += k) {
			bool c = true; for (u32 j = 0; j < k; ++j) if (in[i + j].first.n) c = false;
			if (c) { u128 x = 0; for (u32 j = 0; j < k; ++j) x |= in[i + j].first.c << (j * in[0].second); res.push_back(Val(x)); }
			else { Node* r = nd(in[i].first, in[i].second); for (u32 j = 1; j < k; ++j) r = mkConcat(nd(in[i + j].first, in[i + j].second), r); res.push_back(mkv(r)); }
		}
	}
	(void)lanes;
	if (!vec) return res[0];
	Val r = mkAgg(0); *r.agg = std::move(res); return r;
}
static Val loadTyped(State& s, const Val& a, Type* t) {
	if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		u32 ew = widthOf(vt->getElementType());
		if (ew % 8) { // bit vectors
			u32 total = ew * vt->getNumElements();
			Val x = loadVal(s, a, (total + 7) / 8); Val r = mkAgg(vt->getNumElements());
			for (u32 i = 0; i < vt->getNumElements(); ++i) (*r.agg)[i] = mkv(mkExtract(nd(x, (total + 7) / 8 * 8), i * ew, ew));
			return r;
		}
		Val r = mkAgg(vt->getNumElements());
		if (a.n) resolve(s, a.n, ew / 8 * vt->getNumElements(), false); else checkRange(s, (u64)a.c, ew / 8 * vt->getNumElements(), false);
		for (u32 i = 0; i < vt->getNumElements(); ++i) { Val p = a.n ? mkv(mkBin(Op::Add, a.n, mkConst(i * ew / 8, 64))) : Val(a.c + i * ew / 8); (*r.agg)[i] = loadVal(s, p, ew / 8); }
		return r;
	}
	if (t->isStructTy() || t->isArrayTy()) {
		Val r = mkAgg(t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements());
		for (u32 i = 0; i < r.agg->size(); ++i) {
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(t->getArrayElementType());
			Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
			Val p = a.n ? mkv(mkBin(Op::Add, a.n, mkConst(off, 64))) : Val(a.c + off);
			(*r.agg)[i] = loadTyped(s, p, et);
		}
		return r;
	}
	u32 w = widthOf(t); u32 sz = DL->getTypeStoreSize(t);
	Val v = loadVal(s, a, sz);
	if (w < sz * 8) { if (v.n) return mkv(mkExtract(v.n, 0, w)); v.c &= maskw(w); }
	return v;
}
static void storeTyped(State& s, const Val& a, Type* t, const Val& v) {
	if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		u32 ew = widthOf(vt->getElementType());
		if (ew % 8) {
			u32 total = ew * vt->getNumElements(); Node* r = nd((*v.agg)[0], ew);
			for (u32 i = 1; i < v.agg->size(); ++i) r = mkConcat(nd((*v.agg)[i], ew), r);
			storeVal(s, a, (total + 7) / 8, mkv(mkZExt(r, (total + 7) / 8 * 8))); return;
		}
		if (a.n) resolve(s, a.n, ew / 8 * v.agg->size(), true); else checkRange(s, (u64)a.c, ew / 8 * v.agg->size(), true);
		for (u32 i = 0; i < v.agg->size(); ++i) { Val p = a.n ? mkv(mkBin(Op::Add, a.n, mkConst(i * ew / 8, 64))) : Val(a.c + i * ew / 8); storeVal(s, p, ew / 8, (*v.agg)[i]); }
		return;
	}
	if (t->isStructTy() || t->isArrayTy()) {
		for (u32 i = 0; i < v.agg->size(); ++i) {
			u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(t->getArrayElementType());
			Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
			Val p = a.n ? mkv(mkBin(Op::Add, a.n, mkConst(off, 64))) : Val(a.c + off);
			storeTyped(s, p, et, (*v.agg)[i]);
		}
		return;
	}
	u32 sz = DL->getTypeStoreSize(t);
	storeVal(s, a, sz, v);
}

// ------------------------------------------------------------------ control flow
static void takeEdge(State& s, Frame& f, u32 target, const std::vector<PhiCopy>& e) {
	if (e.size() == 1) { f.slots[e[0].dst] = get(f, e[0].src); }
	else if (!e.empty()) {
		static thread_local std::vector<Val> tmp; tmp.clear();
		for (auto& p : e) tmp.push_back(get(f, p.src));
		for (size_t i = 0; i < e.size(); ++i) f.slots[e[i].dst] = std::move(tmp[i]);
	}
	f.bb = target; f.ip = 0;
	(void)s;
}
static void popFrame(State& s) {
	for (u32 id : s.st.back().allocas) s.mem.kill(id);
	s.st.pop_back();
}
static void enter(State& s, CFunc* cf, const std::vector<Val>& args, const std::vector<u64>* byval) {
	if (s.st.size() > 400) incomplete(s, "recursion depth");
	if (!cf->executed) cf->executed = true;
	cf->calls++;
	s.st.emplace_back();
	Frame& f = s.st.back();
	f.f = cf; f.slots.resize(cf->nslots);
	for (u32 i = 0; i < cf->nargs && i < args.size(); ++i) {
		f.slots[i] = args[i];
		if (byval && i < byval->size() && (*byval)[i]) {
			u64 p = s.mem.alloc((*byval)[i], OK_Stack, 2);
			f.allocas.push_back(idOf(p));
			copyMem(s, p, (u64)args[i].c, (*byval)[i], true);
			f.slots[i] = Val(p);
		}
	}
}
// exceptions ------------------------------------------------------------------
static const std::map<std::string, std::string>& extBases() {
	static std::map<std::string, std::string> m = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
		{"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTINSt8ios_base7failureB5cxx11E", "_ZTISt12system_error"}};
	return m;
}
static std::vector<std::string> g_tiNames; // id -> name
static u64 tiId(const std::string& n) { for (size_t i = 0; i < g_tiNames.size(); ++i) if (g_tiNames[i] == n) return i + 1; g_tiNames.push_back(n); return g_tiNames.size(); }
static void tiBases(const std::string& n, std::set<std::string>& out) {
	if (!out.insert(n).second) return;
	auto it = extBases().find(n); if (it != extBases().end()) tiBases(it->second, out);
	if (auto* g = M->getNamedGlobal(n)) if (g->hasInitializer()) {
		auto* c = dyn_cast<ConstantStruct>(g->getInitializer());
		if (c) for (u32 i = 2; i < c->getNumOperands(); ++i) if (auto* b = dyn_cast<GlobalVariable>(c->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI")) tiBases(b->getName().str(), out);
	}
}
static bool tiMatch(const Constant* clause, u64 thrown) {
	if (isa<ConstantPointerNull>(clause)) return true;
	std::set<std::string> b; tiBases(g_tiNames[thrown - 1], b);
	return b.count(clause->stripPointerCasts()->getName().str()) > 0;
}
// returns: 0 none, 1 cleanup, 2 catch
static int lpMatch(Function* F, LandingPadInst* lp, u64 thrown, u64& sel) {
	sel = 0; (void)F;
	for (u32 i = 0; i < lp->getNumClauses(); ++i) {
		if (lp->isCatch(i)) { if (tiMatch(lp->getClause(i), thrown)) { auto* c = lp->getClause(i); sel = isa<ConstantPointerNull>(c) ? tiId("<any>") : tiId(c->stripPointerCasts()->getName().str()); return 2; } }
		else { // filter: matches when the thrown type is not listed
			bool in = false; auto* a = lp->getClause(i);
			for (u32 k = 0; k < a->getNumOperands(); ++k) if (tiMatch(cast<Constant>(a->getOperand(k)), thrown)) in = true;
			if (!in) { sel = (u64)-1; return 2; }
		}
	}
	return lp->isCleanup() ? 1 : 0;
}
static void unwind(State& s, u64 ptr, u64 ti) {
	// search phase
	bool found = false;
	for (size_t i = s.st.size(); i-- > 0;) {
		Frame& f = s.st[i]; Inst& I = f.f->bbs[f.bb][f.ip];
		if (auto* iv = dyn_cast_or_null<InvokeInst>(I.I)) { u64 sel; if (lpMatch(f.f->F, iv->getLandingPadInst(), ti, sel) == 2) { found = true; break; } }
		else if (I.nounwindCall || f.f->nounwind) break;
	}
	if (!found) violate(s, "uncaught exception " + demangle(g_tiNames[ti - 1]).substr(0, 80));
	while (!s.st.empty()) {
		Frame& f = s.st.back(); Inst& I = f.f->bbs[f.bb][f.ip];
		if (auto* iv = dyn_cast_or_null<InvokeInst>(I.I)) {
			u64 sel; int r = lpMatch(f.f->F, iv->getLandingPadInst(), ti, sel);
			if (r) { s.lpPtr = ptr; s.lpSel = sel; s.lpTi = ti; takeEdge(s, f, I.t1, I.e1); return; }
		}
		popFrame(s);
	}
	violate(s, "uncaught exception");
}
static void throwBuiltin(State& s, const char* ti) {
	u64 p = s.mem.alloc(64, OK_Exc, 0); u64 id = tiId(ti);
	s.excType[p] = id;
	unwind(s, p, id);
	throw Restart();
}

static void finishPath(State& s);
#include "builtins.inc"

// ------------------------------------------------------------------ main step
static void doCall(State& s, Inst& I) {
	Frame& f = s.st.back();
	std::vector<Val> args; args.reserve(I.ops.size());
	for (auto& o : I.ops) args.push_back(get(f, o));
	if (I.handler == -3) { f.ip++; if (I.I && isa<InvokeInst>(I.I)) { f.ip--; takeEdge(s, f, I.t0, I.e0); } return; }
	Function* callee = I.callee;
	int handler = I.handler;
	if (!callee) {
		Val fp = args.back(); args.pop_back();
		u64 a = concVal(s, fp, 64, "function pointer");
		auto it = g_byAddr.find(a);
		if (it == g_byAddr.end() || !isa<Function>(it->second)) violate(s, a < 4096 ? "call through null function pointer" : "call through invalid function pointer");
		callee = const_cast<Function*>(cast<Function>(it->second));
		auto h = g_handlerIdx.find(callee->getName().str());
		if (handled(callee, h)) handler = h->second;
	}
	if (handler < 0 && callee->isIntrinsic()) {
		Val ret; intrinsic(s, I, callee, args, ret);
		Frame& f2 = s.st.back();
		if (I.dst >= 0) f2.slots[I.dst] = std::move(ret);
		if (isa<InvokeInst>(I.I)) takeEdge(s, f2, I.t0, I.e0); else f2.ip++;
		return;
	}
	if (handler >= 0) {
		Val ret; g_handlers[handler].second(s, I, args, ret);
		Frame& f2 = s.st.back();
		if (I.dst >= 0) f2.slots[I.dst] = std::move(ret);
		if (isa<InvokeInst>(I.I)) takeEdge(s, f2, I.t0, I.e0); else f2.ip++;
		return;
	}
	if (callee->isDeclaration()) incomplete(s, "external function " + callee->getName().str());
	CFunc* cf = I.callee ? (I.cf ? I.cf : (I.cf = compile(callee))) : compile(callee);
	enter(s, cf, args, &I.byval);
}
static void doReturn(State& s, Val v) {
	popFrame(s);
	if (s.st.empty()) return;
	Frame& f = s.st.back(); Inst& I = f.f->bbs[f.bb][f.ip];
	if (I.dst >= 0) f.slots[I.dst] = std::move(v);
	if (isa<InvokeInst>(I.I)) takeEdge(s, f, I.t0, I.e0); else f.ip++;
}
static Val selectVal(State& s, Inst& I, const Val& c, const Val& a, const Val& b, Type* t) {
	if (!c.n) return c.c ? a : b;
	if (t->isPointerTy()) {
		if (!a.n && !b.n && a.c == b.c) return a;
		bool same = !a.n && !b.n && idOf((u64)a.c) == idOf((u64)b.c) && idOf((u64)a.c) != 0;
		if (!same) return decide(s, c.n, "pointer select") ? a : b;
	}
	if (a.agg) {
		Val r = mkAgg(a.agg->size());
		for (size_t i = 0; i < a.agg->size(); ++i) {
			Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
			(*r.agg)[i] = selectVal(s, I, c, (*a.agg)[i], (*b.agg)[i], et);
		}
		return r;
	}
	u32 w = widthOf(t);
	return mkv(mkIte(c.n, nd(a, w), nd(b, w)));
}
static void step(State& s) {
	Frame& f = s.st.back();
	Inst& I = f.f->bbs[f.bb][f.ip];
	s.instrs++; g_instrs++;
	switch (I.op) {
		case Instruction::Ret: doReturn(s, I.ops.empty() ? Val() : get(f, I.ops[0])); return;
		case Instruction::Br: {
			if (I.ops.empty()) { takeEdge(s, f, I.t0, I.e0); return; }
			const Val& c = get(f, I.ops[0]);
			bool t = c.n ? decide(s, c.n) : c.c != 0;
			if (t) takeEdge(s, f, I.t0, I.e0); else takeEdge(s, f, I.t1, I.e1);
			return;
		}
		case Instruction::Switch: {
			Val c = get(f, I.ops[0]);
			if (c.n) {
				Node* n = untaint(s, c.n, "switch");
				u128 v = evalNode(n, *s.model);
				u32 target = I.t0; int sel = -1;
				for (size_t i = 0; i < I.swV.size(); ++i) if (I.swV[i] == v) { target = I.swT[i]; sel = (int)i; break; }
				Node* cond = nullptr;
				const std::vector<PhiCopy>* e = sel < 0 ? &I.e0 : &I.swE[sel];
				if (sel < 0) { cond = mkConst(1, 1); for (auto x : I.swV) cond = mkBin(Op::And, cond, mkNot(mkBin(Op::Eq, n, mkConst(x, n->w)))); }
				else {
					// group cases sharing target and (phi) edges
					cond = mkConst(0, 1);
					for (size_t i = 0; i < I.swV.size(); ++i) if (I.swT[i] == target) {
						bool sameE = I.swE[i].size() == e->size(); for (size_t k = 0; sameE && k < e->size(); ++k) sameE = I.swE[i][k].src.s == (*e)[k].src.s;
						if (sameE) cond = mkBin(Op::Or, cond, mkBin(Op::Eq, n, mkConst(I.swV[i], n->w)));
					}
				}
				ModelP m; Node* other = mkNot(cond);
				SatRes r = checkSat(s.pc, other, s.model, m);
				if (r == SatRes::Sat) pushFork(s, other, m);
				else if (r == SatRes::Unknown) g_incomplete["switch query undecided"]++;
				addPc(s, cond);
				takeEdge(s, f, target, *e);
				return;
			}
			for (size_t i = 0; i < I.swV.size(); ++i) if (I.swV[i] == c.c) { takeEdge(s, f, I.swT[i], I.swE[i]); return; }
			takeEdge(s, f, I.t0, I.e0); return;
		}
		case Instruction::Unreachable: violate(s, "unreachable code reached");
		case Instruction::Call: case Instruction::Invoke: doCall(s, I); return;
		case Instruction::LandingPad: {
			Val r = mkAgg(2); (*r.agg)[0] = Val(s.lpPtr); (*r.agg)[1] = Val(s.lpSel & 0xffffffff);
			f.slots[I.dst] = r; f.ip++; return;
		}
		case Instruction::Resume: {
			u64 p = (u64)(*get(f, I.ops[0]).agg)[0].c; u64 ti = s.excType[p];
			popFrame(s);
			if (s.st.empty()) violate(s, "uncaught exception");
			unwind(s, p, ti); return;
		}
		case Instruction::Alloca: {
			u64 n = concVal(s, get(f, I.ops[0]), 64, "alloca size");
			u64 p = s.mem.alloc(I.off * n, OK_Stack, 2);
			f.allocas.push_back(idOf(p)); f.slots[I.dst] = Val(p); break;
		}
		case Instruction::Load: {
			Val r = loadTyped(s, get(f, I.ops[0]), I.ty);
			f.slots[I.dst] = std::move(r); break;
		}
		case Instruction::Store: { storeTyped(s, get(f, I.ops[1]), I.I->getOperand(0)->getType(), get(f, I.ops[0])); break; }
		case Instruction::GetElementPtr: {
			if (I.lanes) {
				Val r = mkAgg(I.lanes);
				for (u32 l = 0; l < I.lanes; ++l) {
					const Val& b0 = get(f, I.ops[0]); Val p = b0.agg ? (*b0.agg)[l] : b0;
					Node* acc = mkBin(Op::Add, nd(p, 64), mkConst(I.off, 64));
					for (size_t k = 0; k < I.scale.size(); ++k) { const Val& x0 = get(f, I.ops[k + 1]); Val x = x0.agg ? (*x0.agg)[l] : x0; acc = mkBin(Op::Add, acc, mkBin(Op::Mul, mkSExt(nd(x, I.idx[k]), 64), mkConst(I.scale[k], 64))); }
					(*r.agg)[l] = mkv(acc);
				}
				f.slots[I.dst] = r; break;
			}
			const Val& b = get(f, I.ops[0]);
			bool allc = !b.n; u64 c = (u64)b.c + I.off;
			for (size_t k = 0; k < I.scale.size() && allc; ++k) { const Val& x = get(f, I.ops[k + 1]); if (x.n) { allc = false; break; } u64 xv = (u64)x.c; u32 w = I.idx[k]; if (w < 64) { u64 sb = 1ull << (w - 1); xv = (xv ^ sb) - sb; } c += xv * I.scale[k]; }
			if (allc) { f.slots[I.dst] = Val(c); break; }
			Node* acc = mkBin(Op::Add, nd(b, 64), mkConst(I.off, 64));
			for (size_t k = 0; k < I.scale.size(); ++k) { const Val& x = get(f, I.ops[k + 1]); acc = mkBin(Op::Add, acc, mkBin(Op::Mul, mkSExt(nd(x, I.idx[k]), 64), mkConst(I.scale[k], 64))); }
			f.slots[I.dst] = mkv(acc); break;
		}
		case Instruction::ICmp: case Instruction::FCmp: {
			const Val &a = get(f, I.ops[0]), &b = get(f, I.ops[1]);
			if (I.lanes) { Val r = mkAgg(I.lanes); for (u32 l = 0; l < I.lanes; ++l) (*r.agg)[l] = cmpop(s, I, (*a.agg)[l], (*b.agg)[l], I.ow); f.slots[I.dst] = r; }
			else f.slots[I.dst] = cmpop(s, I, a, b, I.ow);
			break;
		}
		case Instruction::Select: {
			const Val c = get(f, I.ops[0]), a = get(f, I.ops[1]), b = get(f, I.ops[2]);
			if (c.agg) {
				Val r = mkAgg(c.agg->size()); Type* et = cast<VectorType>(I.ty)->getElementType();
				for (size_t l = 0; l < c.agg->size(); ++l) (*r.agg)[l] = selectVal(s, I, (*c.agg)[l], (*a.agg)[l], (*b.agg)[l], et);
				f.slots[I.dst] = r;
			} else { Val r = selectVal(s, I, c, a, b, I.ty); f.slots[I.dst] = std::move(r); }
			break;
		}
		case Instruction::Freeze: {
			Val v = get(f, I.ops[0]);
			std::function<void(Val&)> fz = [&](Val& x) { if (x.agg) { for (auto& y : aggMut(x)) fz(y); } else if (x.n && x.n->tainted) { std::unordered_map<Node*, Node*> memo; x = mkv(substUninitZero(x.n, memo)); } };
			fz(v); f.slots[I.dst] = v; break;
		}
		case Instruction::ExtractValue: { const Val* v = &get(f, I.ops[0]); for (u32 i : I.idx) v = &(*v->agg)[i]; Val r = *v; f.slots[I.dst] = std::move(r); break; }
		case Instruction::InsertValue: {
			Val v = get(f, I.ops[0]); Val* p = &v;
			for (u32 i : I.idx) { auto& a = aggMut(*p); p = &a[i]; }
			*p = get(f, I.ops[1]); f.slots[I.dst] = std::move(v); break;
		}
		case Instruction::ExtractElement: {
			u64 i = concVal(s, get(f, I.ops[1]), 64, "vector index"); const Val& v = get(f, I.ops[0]);
			Val r = i < v.agg->size() ? (*v.agg)[i] : Val(); f.slots[I.dst] = std::move(r); break;
		}
		case Instruction::InsertElement: {
			u64 i = concVal(s, get(f, I.ops[2]), 64, "vector index"); Val v = get(f, I.ops[0]);
			if (i < v.agg->size()) aggMut(v)[i] = get(f, I.ops[1]);
			f.slots[I.dst] = std::move(v); break;
		}
		case Instruction::ShuffleVector: {
			const Val &a = get(f, I.ops[0]), &b = get(f, I.ops[1]); Val r = mkAgg(I.mask.size()); size_t n = a.agg->size();
			for (size_t i = 0; i < I.mask.size(); ++i) if (I.mask[i] >= 0) (*r.agg)[i] = (size_t)I.mask[i] < n ? (*a.agg)[I.mask[i]] : (*b.agg)[I.mask[i] - n];
			f.slots[I.dst] = r; break;
		}
		case Instruction::FNeg: {
			const Val& a = get(f, I.ops[0]);
			if (I.lanes) { Val r = mkAgg(I.lanes); for (u32 l = 0; l < I.lanes; ++l) (*r.agg)[l] = mkv(fneg(nd((*a.agg)[l], I.w))); f.slots[I.dst] = r; }
			else f.slots[I.dst] = mkv(fneg(nd(a, I.w)));
			break;
		}
		case Instruction::BitCast: { Val r = bitcastVal(get(f, I.ops[0]), I.I->getOperand(0)->getType(), I.ty); f.slots[I.dst] = std::move(r); break; }
		case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
		case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
			const Val& a = get(f, I.ops[0]);
			if (I.lanes) { Val r = mkAgg(I.lanes); for (u32 l = 0; l < I.lanes; ++l) (*r.agg)[l] = castop(s, I, I.op, (*a.agg)[l], I.ow, I.w); f.slots[I.dst] = r; }
			else f.slots[I.dst] = castop(s, I, I.op, a, I.ow, I.w);
			break;
		}
		case Instruction::Fence: break;
		case Instruction::AtomicRMW: {
			auto* A = cast<AtomicRMWInst>(I.I); Val p = get(f, I.ops[0]), v = get(f, I.ops[1]);
			Val old = loadTyped(s, p, I.ty); Node *o = nd(old, I.w), *x = nd(v, I.w), *r;
			switch (A->getOperation()) {
				case AtomicRMWInst::Xchg: r = x; break; case AtomicRMWInst::Add: r = mkBin(Op::Add, o, x); break; case AtomicRMWInst::Sub: r = mkBin(Op::Sub, o, x); break;
				case AtomicRMWInst::And: r = mkBin(Op::And, o, x); break; case AtomicRMWInst::Or: r = mkBin(Op::Or, o, x); break; case AtomicRMWInst::Xor: r = mkBin(Op::Xor, o, x); break;
				default: incomplete(s, "atomicrmw");
			}
			storeTyped(s, p, I.ty, mkv(r)); f.slots[I.dst] = old; break;
		}
		case Instruction::AtomicCmpXchg: {
			Val p = get(f, I.ops[0]), e = get(f, I.ops[1]), n = get(f, I.ops[2]); Type* t = I.I->getOperand(1)->getType(); u32 w = widthOf(t);
			Val old = loadTyped(s, p, t); bool eq = decide(s, mkBin(Op::Eq, nd(old, w), nd(e, w)));
			if (eq) storeTyped(s, p, t, n);
			Val r = mkAgg(2); (*r.agg)[0] = old; (*r.agg)[1] = Val(eq); f.slots[I.dst] = r; break;
		}
		default: {
			if (I.I->isBinaryOp()) {
				const Val &a = get(f, I.ops[0]), &b = get(f, I.ops[1]);
				if (I.lanes) { Val r = mkAgg(I.lanes); for (u32 l = 0; l < I.lanes; ++l) (*r.agg)[l] = binop(s, I, (*a.agg)[l], (*b.agg)[l], I.w); f.slots[I.dst] = r; }
				else f.slots[I.dst] = binop(s, I, a, b, I.w);
				break;
			}
			incomplete(s, std::string("instruction ") + I.I->getOpcodeName());
		}
	}
	f.ip++;
}

static std::vector<CFunc*> g_boot;
static void finishPath(State& s) {
	g_paths++;
	for (auto* r : s.reached) g_reach[r]++;
	// reservoir: keep the first few and then spread
	if (g_samples.size() < g_maxSamples || (g_paths & (g_paths - 1)) == 0) {
		size_t at = g_samples.size() < g_maxSamples ? g_samples.size() : (size_t)(__builtin_ctzll(g_paths) % g_maxSamples);
		if (at == g_samples.size()) { g_samples.emplace_back(); g_sampleObs.emplace_back(); g_sampleReach.emplace_back(); }
		g_samples[at] = modelOf(s, *s.model);
		g_sampleReach[at].assign(s.reached.begin(), s.reached.end());
		g_sampleObs[at] = s.observed;
	}
}
static void runState(StateP sp) {
	State& s = *sp;
	g_states++;
	u64 tick = 0;
	try {
		for (;;) {
			if (s.st.empty()) {
				if (s.bootIdx < g_boot.size()) { enter(s, g_boot[s.bootIdx++], {}, nullptr); continue; }
				finishPath(s); return;
			}
			try { step(s); } catch (Restart&) {}
			if (s.instrs > g_maxPathInstr) incomplete(s, "path instruction limit");
			if ((++tick & 0xfff) == 0 && elapsed() > g_timeLimit) { g_incomplete["time limit"]++; return; }
		}
	} catch (PathEnd&) {}
}
static std::string jstr(const std::string& s) {
	std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}
static void writeResult(const std::string& path, const std::string& entry) {
	if (g_forkProfile) { std::vector<std::pair<u64, std::string>> v; for (auto& p : g_forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; ++i) fprintf(stderr, "forks %llu at %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
	std::string o = "{\n";
	auto kv = [&](const char* k, const std::string& v, bool last = false) { o += std::string("  ") + jstr(k) + ": " + v + (last ? "\n" : ",\n"); };
	auto modelJ = [&](const std::vector<std::pair<std::string, std::string>>& m) { std::string r = "{"; for (size_t i = 0; i < m.size(); ++i) r += (i ? ", " : "") + jstr(m[i].first) + ": " + jstr(m[i].second); return r + "}"; };
	kv("entry", jstr(entry));
	kv("paths", std::to_string(g_paths)); kv("states", std::to_string(g_states)); kv("forks", std::to_string(g_forks)); kv("killed", std::to_string(g_killed));
	kv("instructions", std::to_string(g_instrs)); kv("memory_checks", std::to_string(g_memChecks));
	kv("asserts", std::to_string(g_asserts)); kv("asserts_undecided", std::to_string(g_assertUnknown));
	kv("queries", std::to_string(g_stats.queries)); kv("sat", std::to_string(g_stats.sat)); kv("unsat", std::to_string(g_stats.unsat)); kv("unknown", std::to_string(g_stats.unknown));
	kv("cache_hits", std::to_string(g_stats.cacheHits)); kv("model_hits", std::to_string(g_stats.modelHits)); kv("external", std::to_string(g_stats.external));
	kv("solver_s", std::to_string(g_stats.solverTime)); kv("max_query_s", std::to_string(g_stats.maxQuery)); kv("wall_s", std::to_string(elapsed()));
	kv("symbols", std::to_string(g_syms.size()));
	{ std::string r = "{"; bool f = true; for (auto& p : g_incomplete) { r += (f ? "" : ", ") + jstr(p.first) + ": " + std::to_string(p.second); f = false; } kv("incomplete", r + "}"); }
	{ std::string r = "{"; bool f = true; for (auto& p : g_reach) { r += (f ? "" : ", ") + jstr(p.first) + ": " + std::to_string(p.second); f = false; } kv("reach", r + "}"); }
	{ std::string r = "["; bool f = true; for (auto& p : g_asserted) { r += (f ? "" : ", ") + jstr(p); f = false; } kv("asserted", r + "]"); }
	{ std::string r = "["; bool f = true; for (auto& p : g_cfuncs) if (p.second->executed && p.second->name.find("8fastgltf") != std::string::npos) { r += (f ? "" : ", ") + jstr(demangle(p.second->name).substr(0, 140)); f = false; } kv("functions", r + "]"); }
	{ std::string r = "["; for (size_t i = 0; i < g_samples.size(); ++i) { r += (i ? ", " : "") + std::string("{\"model\": ") + modelJ(g_samples[i]) + ", \"reach\": ["; for (size_t k = 0; k < g_sampleReach[i].size(); ++k) r += (k ? ", " : "") + jstr(g_sampleReach[i][k]); r += "], \"obs\": ["; for (size_t k = 0; k < g_sampleObs[i].size(); ++k) r += (k ? ", " : "") + jstr(g_sampleObs[i][k]); r += "]}"; } kv("samples", r + "]"); }
	{ std::string r = "["; for (size_t i = 0; i < g_viol.size(); ++i) { auto& v = g_viol[i]; r += (i ? ",\n   " : "") + std::string("{\"msg\": ") + jstr(v.msg) + ", \"func\": " + jstr(v.func) + ", \"count\": " + std::to_string(v.count) + ", \"key\": " + jstr(v.key) + ", \"stack\": ["; for (size_t k = 0; k < v.stack.size(); ++k) r += (k ? ", " : "") + jstr(v.stack[k]); r += "], \"model\": " + modelJ(v.model) + "}"; } kv("violations", r + "]", true); }
	o += "}\n";
	if (path == "-") fputs(o.c_str(), stdout); else { std::ofstream f(path); f << o; }
}

int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	g_t0 = Clock::now();
	std::string mod, entry, out = "-";
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto val = [&](const char* p) { return a.substr(strlen(p)); };
		if (a.rfind("--entry=", 0) == 0) entry = val("--entry=");
		else if (a.rfind("--out=", 0) == 0) out = val("--out=");
		else if (a.rfind("--time=", 0) == 0) g_timeLimit = atof(val("--time=").c_str());
		else if (a.rfind("--query-time=", 0) == 0) g_solverTimeout = atof(val("--query-time=").c_str());
		else if (a.rfind("--final-time=", 0) == 0) g_finalTimeout = atof(val("--final-time=").c_str());
		else if (a.rfind("--max-instr=", 0) == 0) g_maxPathInstr = strtoull(val("--max-instr=").c_str(), 0, 0);
		else if (a.rfind("--samples=", 0) == 0) g_maxSamples = atoi(val("--samples=").c_str());
		else if (a.rfind("--dump=", 0) == 0) g_dumpDir = val("--dump=");
		else if (a == "--real") g_realMode = true;
		else if (a == "--trace") g_trace = true;
		else if (a.rfind("--param=", 0) == 0) { std::string kv = val("--param="); size_t e = kv.find('='); g_params[kv.substr(0, e)] = kv.substr(e + 1); }
		else if (a.rfind("--fix=", 0) == 0) { g_haveFixed = true; std::ifstream f(val("--fix=")); std::string k, v; while (f >> k >> v) g_fixed[k] = strtoull(v.c_str(), 0, 0); }
		else mod = a;
	}
	{ struct rlimit rl = {2048ull << 20, 2048ull << 20}; setrlimit(RLIMIT_STACK, &rl); }
	g_deadline = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + g_timeLimit + 5;
	std::thread([&] { // the solver may not stop when asked to: give what has been decided so far
		std::this_thread::sleep_for(std::chrono::duration<double>(g_timeLimit + std::max(45.0, 2 * g_finalTimeout)));
		g_incomplete["the solver did not stop"]++;
		writeResult(out, entry); fflush(nullptr); _exit(0);
	}).detach();
	LLVMContext ctx; SMDiagnostic err;
	M = parseIRFile(mod, err, ctx);
	if (!M) { err.print("fgse", errs()); return 2; }
	DL = &M->getDataLayout();
	initHandlers();
	// addresses
	for (auto& G : M->globals()) {
		u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
		u64 a = g_initMem.alloc(sz, OK_Global, 0);
		g_addr[&G] = a; g_byAddr[a] = &G;
	}
	for (auto& F : *M) { u64 a = g_initMem.alloc(0, OK_Func, 0); g_addr[&F] = a; g_byAddr[a] = &F; }
	for (auto& G : M->globals()) if (G.hasInitializer()) {
		writeInit(g_initMem.mutBytes(idOf(g_addr[&G])), 0, G.getInitializer());
		if (G.isConstant()) g_initMem.mut(idOf(g_addr[&G]))->readonly = true;
	}
	Function* E = M->getFunction(entry);
	if (!E) { fprintf(stderr, "fgse: no entry %s\n", entry.c_str()); return 2; }
	if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) {
		std::vector<std::pair<u64, Function*>> v;
		if (auto* a = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : a->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), F}); }
		std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
		for (auto& p : v) g_boot.push_back(compile(p.second));
	}
	g_boot.push_back(compile(E));
	auto s = std::make_unique<State>();
	s->mem = g_initMem;
	s->model = newModel({});
	g_work.push_back(std::move(s));
	while (!g_work.empty()) {
		if (elapsed() > g_timeLimit) { g_incomplete["time limit (pending states)"] += g_work.size(); break; }
		StateP x = std::move(g_work.back()); g_work.pop_back();
		runState(std::move(x));
	}
	writeResult(out, entry);
	fflush(nullptr);
	_exit(0);
}
