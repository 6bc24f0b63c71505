#include "expr.hpp"
#include <z3.h>
#include <cmath>
#include <chrono>
#include <unordered_set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <cerrno>

std::vector<SymInfo> g_syms;
Stats g_stats;
bool g_realMode = false;
double g_deadline = 0;
double g_solverTimeout = 15, g_finalTimeout = 60;
std::string g_dumpDir;
u64 g_dumpCount = 0;

u128 maskw(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

// ---------------------------------------------------------------- interning
namespace {
struct NHash { size_t operator()(const Node* n) const { return n->hash; } };
struct NEq {
	bool operator()(const Node* x, const Node* y) const {
		return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val;
	}
};
std::unordered_set<Node*, NHash, NEq> g_nodes;
std::vector<Node*> g_arena; size_t g_arenaPos = 0;
u32 g_nextId = 1;

struct VHash { size_t operator()(const std::vector<u64>& v) const { size_t h = 1469598103934665603ull; for (u64 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
std::unordered_set<std::vector<u64>, VHash> g_symsets;
const std::vector<u64>* internSet(std::vector<u64> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return &*g_symsets.insert(std::move(v)).first; }
std::map<std::pair<const void*, const void*>, const std::vector<u64>*> g_unionMemo;
const std::vector<u64>* unionSet(const std::vector<u64>* a, const std::vector<u64>* b) {
	if (a == b || b->empty()) return a;
	if (a->empty()) return b;
	if (a > b) std::swap(a, b);
	auto k = std::make_pair((const void*)a, (const void*)b);
	auto it = g_unionMemo.find(k);
	if (it != g_unionMemo.end()) return it->second;
	std::vector<u64> r(std::max(a->size(), b->size()), 0);
	for (size_t i = 0; i < a->size(); ++i) r[i] |= (*a)[i];
	for (size_t i = 0; i < b->size(); ++i) r[i] |= (*b)[i];
	return g_unionMemo[k] = internSet(std::move(r));
}

Node* intern(Op op, u32 w, Node* a, Node* b, Node* c, u128 val, u32 aux) {
	Node t; memset(&t, 0, sizeof t);
	t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.val = val; t.aux = aux;
	size_t h = (size_t)op * 0x9E3779B97F4A7C15ull + w * 1000003u + aux * 7919u;
	auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
	mix((u64)(uintptr_t)a); mix((u64)(uintptr_t)b * 31); mix((u64)(uintptr_t)c * 131); mix((u64)val); mix((u64)(val >> 64));
	t.hash = h;
	auto it = g_nodes.find(&t);
	if (it != g_nodes.end()) return *it;
	if (g_arena.empty() || g_arenaPos == 4096) { g_arena.push_back((Node*)malloc(sizeof(Node) * 4096)); g_arenaPos = 0; }
	Node* n = g_arena.back() + g_arenaPos++;
	*n = t;
	n->id = g_nextId++;
	n->tainted = (a && a->tainted) || (b && b->tainted) || (c && c->tainted);
	static const std::vector<u64>* empty = internSet({});
	if (op == Op::Sym) {
		std::vector<u64> v(aux / 64 + 1, 0); v[aux / 64] |= 1ull << (aux % 64);
		n->syms = internSet(v);
		n->tainted = g_syms[aux].uninit;
	} else {
		n->syms = empty;
		if (a) n->syms = a->syms;
		if (b) n->syms = unionSet(n->syms, b->syms);
		if (c) n->syms = unionSet(n->syms, c->syms);
	}
	g_nodes.insert(n);
	return n;
}
__int128 sx(u128 v, u32 w) { if (w >= 128) return (__int128)v; u128 s = (u128)1 << (w - 1); return (__int128)((v ^ s) - s); }
float asF(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
double asD(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
u128 ofF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
long double asL(u128 v) { long double f = 0; memcpy(&f, &v, 10); return f; }
u128 ofL(long double f) { u128 x = 0; memcpy(&x, &f, 10); return x; }
u128 ofD(double f) { u64 x; memcpy(&x, &f, 8); return x; }

// value of any supported format; arithmetic happens in the format's own precision
static long double asAny(u128 v, u32 w) { return w == 32 ? (long double)asF(v) : w == 64 ? (long double)asD(v) : asL(v); }
static u128 ofAny(long double v, u32 w) { return w == 32 ? ofF((float)v) : w == 64 ? ofD((double)v) : ofL(v); }
template <class F> static u128 withF(u32 w, u128 a, u128 b, F&& f) { return w == 32 ? (u128)ofF(f(asF(a), asF(b))) : w == 64 ? (u128)ofD(f(asD(a), asD(b))) : ofL(f(asL(a), asL(b))); }
template <class F> static u128 cmpF(u32 w, u128 a, u128 b, F&& f) { return w == 32 ? f(asF(a), asF(b)) : w == 64 ? f(asD(a), asD(b)) : f(asL(a), asL(b)); }
template <class F> F roundMode(F v, u32 mode) {
	switch (mode) { case 0: return std::nearbyint(v); case 1: return std::round(v); case 2: return std::ceil(v); case 3: return std::floor(v); default: return std::trunc(v); }
}
u128 foldUn(Op op, u128 a, u32 aw, u32 w, u32 aux) {
	switch (op) {
		case Op::FSqrt: return withF(aw, a, a, [](auto x, auto) { return std::sqrt(x); });
		case Op::FRound: return withF(aw, a, a, [&](auto x, auto) { return roundMode(x, aux); });
		case Op::FExt: case Op::FTrunc: return ofAny(asAny(a, aw), w);
		case Op::SIToF: { long long s = (long long)sx(a, aw); return w == 32 ? ofF((float)s) : w == 64 ? ofD((double)s) : ofL((long double)s); }
		case Op::UIToF: { unsigned long long s = (unsigned long long)a; return w == 32 ? ofF((float)s) : w == 64 ? ofD((double)s) : ofL((long double)s); }
		case Op::FToSI: { long double d = asAny(a, aw); if (!(d > -9.3e18 && d < 9.2233720368547758e18)) { return ((u128)1 << (w - 1)) & maskw(w); } return (u128)(__int128)(long long)d & maskw(w); }
		case Op::FToUI: { long double d = asAny(a, aw); if (!(d > -1.0 && d < 1.8446744073709551e19)) { return 0; } return (u128)(unsigned long long)d & maskw(w); }
		default: abort();
	}
}
}

u128 foldBin(Op op, u128 a, u128 b, u32 w, bool& ok) {
	ok = true;
	u128 m = maskw(w);
	switch (op) {
		case Op::Add: return (a + b) & m;
		case Op::Sub: return (a - b) & m;
		case Op::Mul: return (a * b) & m;
		case Op::UDiv: return b ? a / b : m;
		case Op::URem: return b ? a % b : a;
		case Op::SDiv: { __int128 x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
		case Op::SRem: { __int128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
		case Op::And: return a & b;
		case Op::Or: return a | b;
		case Op::Xor: return a ^ b;
		case Op::Shl: return b >= w ? 0 : (a << (u32)b) & m;
		case Op::LShr: return b >= w ? 0 : a >> (u32)b;
		case Op::AShr: { u32 s = b >= w ? w - 1 : (u32)b; return (u128)(sx(a, w) >> s) & m; }
		case Op::Eq: return a == b;
		case Op::Ult: return a < b;
		case Op::Ule: return a <= b;
		case Op::Slt: return sx(a, w) < sx(b, w);
		case Op::Sle: return sx(a, w) <= sx(b, w);
		case Op::FAdd: return withF(w, a, b, [](auto x, auto y) { return x + y; });
		case Op::FSub: return withF(w, a, b, [](auto x, auto y) { return x - y; });
		case Op::FMul: return withF(w, a, b, [](auto x, auto y) { return x * y; });
		case Op::FDiv: return withF(w, a, b, [](auto x, auto y) { return x / y; });
		case Op::FRem: return withF(w, a, b, [](auto x, auto y) { return std::fmod(x, y); });
		case Op::FEq: return cmpF(w, a, b, [](auto x, auto y) { return x == y; });
		case Op::FLt: return cmpF(w, a, b, [](auto x, auto y) { return x < y; });
		case Op::FLe: return cmpF(w, a, b, [](auto x, auto y) { return x <= y; });
		case Op::FUno: return cmpF(w, a, b, [](auto x, auto y) { return std::isunordered(x, y); });
		default: ok = false; return 0;
	}
}

Node* mkConst(u128 v, u32 w) { return intern(Op::Const, w, 0, 0, 0, v & maskw(w), 0); }
Node* mkSym(const std::string& name, u32 w, bool uninit) {
	g_syms.push_back({name, w, uninit});
	return intern(Op::Sym, w, 0, 0, 0, 0, (u32)g_syms.size() - 1);
}

static bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle || op == Op::FEq || op == Op::FLt || op == Op::FLe || op == Op::FUno; }
static bool isComm(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq || op == Op::FEq || op == Op::FUno || op == Op::FAdd || op == Op::FMul; }

Node* mkNot(Node* a) { return mkBin(Op::Xor, a, mkConst(maskw(a->w), a->w)); }

void rangeOf(Node* n, u64& lo, u64& hi) {
	u64 full = (u64)maskw(n->w > 64 ? 64 : n->w);
	if (n->w > 64) { lo = 0; hi = ~0ull; return; }
	if (n->rangeDone) { lo = n->lo; hi = n->hi; return; }
	u64 L = 0, H = full, al, ah, bl, bh;
	switch (n->op) {
		case Op::Const: L = H = (u64)n->val; break;
		case Op::ZExt: rangeOf(n->a, L, H); break;
		case Op::And: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); H = std::min(ah, bh); break; }
		case Op::Or: case Op::Xor: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); u64 m = ah | bh; u32 k = m ? 64 - __builtin_clzll(m) : 0; H = k >= 64 ? ~0ull : ((1ull << k) - 1); if (n->op == Op::Or) L = std::max(al, bl); break; }
		case Op::Add: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); u128 s = (u128)ah + bh; if (s <= full) { L = al + bl; H = (u64)s; } break; }
		case Op::Sub: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); if (al >= bh) { L = al - bh; H = ah - bl; } break; }
		case Op::Mul: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); u128 s = (u128)ah * bh; if (s <= full) { L = al * bl; H = (u64)s; } break; }
		case Op::UDiv: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); if (bl > 0) { L = al / bh; H = ah / bl; } break; }
		case Op::URem: { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); if (bl > 0) H = std::min(ah, bh - 1); break; }
		case Op::LShr: { rangeOf(n->a, al, ah); if (isC(n->b) && n->b->val < n->w) { L = al >> (u32)n->b->val; H = ah >> (u32)n->b->val; } else H = ah; break; }
		case Op::Shl: { rangeOf(n->a, al, ah); if (isC(n->b) && n->b->val < n->w) { u128 s = (u128)ah << (u32)n->b->val; if (s <= full) { L = al << (u32)n->b->val; H = (u64)s; } } break; }
		case Op::Ite: { rangeOf(n->b, al, ah); rangeOf(n->c, bl, bh); L = std::min(al, bl); H = std::max(ah, bh); break; }
		case Op::Extract: if (n->aux == 0) { if (n->a->w <= 64) { rangeOf(n->a, al, ah); if (ah <= full) { L = al; H = ah; } } } break;
		case Op::Concat: { if (n->w <= 64) { rangeOf(n->a, al, ah); rangeOf(n->b, bl, bh); L = (al << n->b->w) + bl; H = (ah << n->b->w) + bh; } break; }
		default: break;
	}
	if (H > full) { L = 0; H = full; }
	n->lo = L; n->hi = H; n->rangeDone = true;
	lo = L; hi = H;
}
u64 knownZero(Node* n) {
	if (n->w > 64) return 0;
	if (n->kzDone) return n->kz;
	u64 full = (u64)maskw(n->w), r = 0;
	switch (n->op) {
		case Op::Const: r = ~(u64)n->val; break;
		case Op::And: r = knownZero(n->a) | knownZero(n->b); break;
		case Op::Or: case Op::Xor: r = knownZero(n->a) & knownZero(n->b); break;
		case Op::ZExt: r = knownZero(n->a) | ~(u64)maskw(n->a->w); break;
		case Op::Shl: if (isC(n->b) && n->b->val < n->w) { u32 s = (u32)n->b->val; r = (knownZero(n->a) << s) | ((1ull << s) - 1); } break;
		case Op::LShr: if (isC(n->b) && n->b->val < n->w) { u32 s = (u32)n->b->val; r = (knownZero(n->a) >> s) | ~(full >> s); } break;
		case Op::Mul: case Op::Add: case Op::Sub: {
			u64 x = knownZero(n->a), y = knownZero(n->b);
			u32 tx = ~x ? __builtin_ctzll(~x) : 64, ty = ~y ? __builtin_ctzll(~y) : 64;
			u32 t = n->op == Op::Mul ? std::min(64u, tx + ty) : std::min(tx, ty);
			r = t >= 64 ? ~0ull : ((1ull << t) - 1);
			break;
		}
		case Op::Ite: r = knownZero(n->b) & knownZero(n->c); break;
		case Op::Extract: if (n->a->w <= 64) r = knownZero(n->a) >> n->aux; break;
		case Op::Concat: r = (knownZero(n->a) << n->b->w) | (knownZero(n->b) & (u64)maskw(n->b->w)); break;
		default: break;
	}
	u64 lo, hi; rangeOf(n, lo, hi);
	if (hi < full) { u32 k = hi ? 64 - __builtin_clzll(hi) : 0; if (k < 64) r |= ~((1ull << k) - 1); }
	r &= full;
	n->kz = r; n->kzDone = true;
	return r;
}

Node* mkExtract(Node* a, u32 lo, u32 w) {
	if (lo == 0 && w == a->w) return a;
	switch (a->op) {
		case Op::Const: return mkConst(a->val >> lo, w);
		case Op::Extract: return mkExtract(a->a, a->aux + lo, w);
		case Op::Concat: {
			u32 lw = a->b->w;
			if (lo >= lw) return mkExtract(a->a, lo - lw, w);
			if (lo + w <= lw) return mkExtract(a->b, lo, w);
			return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
		}
		case Op::ZExt: {
			u32 iw = a->a->w;
			if (lo >= iw) return mkConst(0, w);
			if (lo + w <= iw) return mkExtract(a->a, lo, w);
			return mkZExt(mkExtract(a->a, lo, iw - lo), w);
		}
		case Op::SExt: { u32 iw = a->a->w; if (lo + w <= iw) return mkExtract(a->a, lo, w); if (lo == 0) return mkSExt(a->a, w); break; }
		case Op::And: case Op::Or: case Op::Xor:
			if (isC(a->a) || isC(a->b) || lo + w <= 64) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
			break;
		case Op::Add: case Op::Sub: case Op::Mul:
			if (lo == 0 && w < a->w) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
			break;
		case Op::Shl: if (isC(a->b)) { u32 s = (u32)a->b->val; if (lo >= s) return mkExtract(a->a, lo - s, w); if (lo + w <= s) return mkConst(0, w); } break;
		case Op::LShr: if (isC(a->b)) { u32 s = (u32)a->b->val; if (lo + s + w <= a->w) return mkExtract(a->a, lo + s, w); if (lo + s >= a->w) return mkConst(0, w); return mkZExt(mkExtract(a->a, lo + s, a->w - lo - s), w); } break;
		case Op::Ite: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
		default: break;
	}
	return intern(Op::Extract, w, a, 0, 0, 0, lo);
}
Node* mkConcat(Node* hi, Node* lo) {
	u32 w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
	if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
	if (hi->op == Op::Extract && hi->a == lo && hi->aux == lo->w) return mkExtract(hi->a, 0, w);
	if (isFalse(hi)) return mkZExt(lo, w);
	// (hi . (x . y)): try to merge hi with x
	if (lo->op == Op::Concat && hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
		return mkConcat(mkExtract(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
	if (lo->op == Op::ZExt) { // hi . (0 . x)
		// keep as is
	}
	if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
	if (g_realMode && hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c)); // parts of one selected value
	return intern(Op::Concat, w, hi, lo, 0, 0, 0);
}
Node* mkZExt(Node* a, u32 w) {
	if (w == a->w) return a;
	if (isC(a)) return mkConst(a->val, w);
	if (a->op == Op::ZExt) return mkZExt(a->a, w);
	if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
	return intern(Op::ZExt, w, a, 0, 0, 0, 0);
}
Node* mkSExt(Node* a, u32 w) {
	if (w == a->w) return a;
	if (isC(a)) return mkConst((u128)sx(a->val, a->w), w);
	if (a->op == Op::SExt) return mkSExt(a->a, w);
	if (a->op == Op::ZExt) return mkZExt(a->a, w);
	if (a->op == Op::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
	if (a->w <= 64) { u64 lo, hi; rangeOf(a, lo, hi); if (hi < (1ull << (a->w - 1))) return mkZExt(a, w); }
	return intern(Op::SExt, w, a, 0, 0, 0, 0);
}
Node* mkIte(Node* c, Node* a, Node* b) {
	if (isTrue(c)) return a;
	if (isFalse(c)) return b;
	if (a == b) return a;
	if (c->op == Op::Xor && isC(c->b)) return mkIte(c->a, b, a);
	if (a->w == 1) {
		if (isTrue(a) && isFalse(b)) return c;
		if (isFalse(a) && isTrue(b)) return mkNot(c);
		if (isTrue(a)) return mkBin(Op::Or, c, b);
		if (isFalse(a)) return mkBin(Op::And, mkNot(c), b);
		if (isTrue(b)) return mkBin(Op::Or, mkNot(c), a);
		if (isFalse(b)) return mkBin(Op::And, c, a);
	}
	if (a->op == Op::Ite && a->a == c) a = a->b;
	if (b->op == Op::Ite && b->a == c) b = b->c;
	if (a == b) return a;
	return intern(Op::Ite, a->w, c, a, b, 0, 0);
}

Node* mkBin(Op op, Node* a, Node* b) {
	u32 w = a->w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %u %u\n", (int)op, a->w, b->w); abort(); }
	u32 rw = isCmp(op) ? 1 : w;
	if (isC(a) && isC(b)) { bool ok; u128 r = foldBin(op, a->val, b->val, w, ok); if (ok) return mkConst(r, rw); }
	if (isComm(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
	u128 m = maskw(w);
	if (g_realMode && op >= Op::FAdd && op <= Op::FDiv && w >= 32 && w <= 64) { // laws of the real numbers
		auto is = [&](Node* n, double v) { return isC(n) && (n->w == 32 ? (double)asF(n->val) : asD(n->val)) == v; };
		if (op == Op::FAdd) { if (is(a, 0)) return b; if (is(b, 0)) return a; }
		if (op == Op::FSub) { if (is(b, 0)) return a; if (a == b) return mkConst(0, w); if (is(a, 0) && b->op == Op::FSub && is(b->a, 0)) return b->b; }
		if (op == Op::FMul) { if (is(a, 1)) return b; if (is(b, 1)) return a; if (is(a, 0) || is(b, 0)) return mkConst(0, w); }
		if (op == Op::FDiv) { if (is(b, 1)) return a; }
	}
	switch (op) {
		case Op::Add:
			if (isFalse(b)) return a;
			if (isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, a->a, mkConst(a->b->val + b->val, w));
			if (!isC(b) && a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Add, a->a, b), a->b);
			if (!isC(b) && b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Add, a, b->a), b->b);
			if (b->op == Op::Sub && b->b == a) return b->a;
			if (a->op == Op::Sub && a->b == b) return a->a;
			break;
		case Op::Sub:
			if (a == b) return mkConst(0, w);
			if (isC(b)) return mkBin(Op::Add, a, mkConst(-b->val, w));
			if (a->op == Op::Add) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
			if (b->op == Op::Add && isC(b->b)) return mkBin(Op::Add, mkBin(Op::Sub, a, b->a), mkConst(-b->b->val, w));
			if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Add, mkBin(Op::Sub, a->a, b), a->b);
			break;
		case Op::Mul:
			if (isC(b)) {
				if (b->val == 0) return b;
				if (b->val == 1) return a;
				if ((b->val & (b->val - 1)) == 0) { u32 k = 0; while (((b->val >> k) & 1) == 0) ++k; return mkBin(Op::Shl, a, mkConst(k, w)); }
				if (a->op == Op::Mul && isC(a->b)) return mkBin(Op::Mul, a->a, mkConst(a->b->val * b->val, w));
			}
			break;
		case Op::UDiv: if (isC(b) && b->val == 1) return a;
			if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { u32 k = 0; while (((b->val >> k) & 1) == 0) ++k; return mkBin(Op::LShr, a, mkConst(k, w)); }
			break;
		case Op::URem: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(Op::And, a, mkConst(b->val - 1, w)); break;
		case Op::And:
			if (a == b) return a;
			if (isC(b)) {
				if (b->val == 0) return b;
				if (b->val == m) return a;
				if (a->op == Op::And && isC(a->b)) return mkBin(Op::And, a->a, mkConst(a->b->val & b->val, w));
				// low-bit mask -> zext(extract)
				if (((b->val + 1) & b->val) == 0) { u32 k = 0; while ((b->val >> k) & 1) ++k; return mkZExt(mkExtract(a, 0, k), w); }
				if (w <= 64 && ((~(u64)b->val & (u64)m) & ~knownZero(a)) == 0) return a;
				if (a->op == Op::ZExt && w <= 128) { u128 im = maskw(a->a->w); if ((b->val & im) != b->val) return mkBin(Op::And, a, mkConst(b->val & im, w)); return mkZExt(mkBin(Op::And, a->a, mkConst(b->val, a->a->w)), w); }
			}
			if (w == 1) { if ((a->op == Op::Xor && isC(a->b) && a->a == b) || (b->op == Op::Xor && isC(b->b) && b->a == a)) return mkConst(0, 1); }
			break;
		case Op::Or:
			if (a == b) return a;
			if (isFalse(b)) return a;
			if (isC(b) && b->val == m) return b;
			if (w == 1) { if ((a->op == Op::Xor && isC(a->b) && a->a == b) || (b->op == Op::Xor && isC(b->b) && b->a == a)) return mkConst(1, 1); }
			// disjoint zext | shl pattern -> concat
			if (w <= 128) {
				Node *lo = a, *hi = b;
				for (int t = 0; t < 2; ++t, std::swap(lo, hi)) {
					if (hi->op == Op::Shl && isC(hi->b) && lo->op == Op::ZExt) {
						u32 s = (u32)hi->b->val;
						if (lo->a->w == s && s < w) return mkConcat(mkExtract(hi->a, 0, w - s), lo->a);
						if (lo->a->w < s && s < w) return mkConcat(mkExtract(hi->a, 0, w - s), mkZExt(lo->a, s));
					}
					if (hi->op == Op::Concat && isFalse(hi->b) && lo->op == Op::ZExt && lo->a->w <= hi->b->w) return mkConcat(hi->a, mkZExt(lo->a, hi->b->w));
					if (hi->op == Op::ZExt && hi->a->op == Op::Concat && isFalse(hi->a->b) && lo->op == Op::ZExt && lo->a->w <= hi->a->b->w) return mkZExt(mkConcat(hi->a->a, mkZExt(lo->a, hi->a->b->w)), w);
				}
			}
			break;
		case Op::Xor:
			if (a == b) return mkConst(0, w);
			if (isFalse(b)) return a;
			if (isC(b)) {
				if (a->op == Op::Xor && isC(a->b)) return mkBin(Op::Xor, a->a, mkConst(a->b->val ^ b->val, w));
				if (w == 1 && a->op == Op::Ult) return mkBin(Op::Ule, a->b, a->a);
				if (w == 1 && a->op == Op::Ule) return mkBin(Op::Ult, a->b, a->a);
				if (w == 1 && a->op == Op::Slt) return mkBin(Op::Sle, a->b, a->a);
				if (w == 1 && a->op == Op::Sle) return mkBin(Op::Slt, a->b, a->a);
			}
			break;
		case Op::Shl:
			if (isFalse(b)) return a;
			if (isC(b)) {
				if (b->val >= w) return mkConst(0, w);
				u32 s = (u32)b->val;
				if (a->op == Op::Shl && isC(a->b)) return mkBin(Op::Shl, a->a, mkConst(a->b->val + s, w));
				if (a->op == Op::ZExt && a->a->w + s <= w) return mkZExt(mkConcat(a->a, mkConst(0, s)), w);
			}
			break;
		case Op::LShr:
			if (isFalse(b)) return a;
			if (isC(b)) { if (b->val >= w) return mkConst(0, w); return mkZExt(mkExtract(a, (u32)b->val, w - (u32)b->val), w); }
			break;
		case Op::AShr:
			if (isFalse(b)) return a;
			if (w <= 64) { u64 lo, hi; rangeOf(a, lo, hi); if (hi < (1ull << (w - 1))) return mkBin(Op::LShr, a, b); }
			if (isC(b)) { u32 s = b->val >= w ? w - 1 : (u32)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
			break;
		case Op::Eq:
			if (a == b) return mkConst(1, 1);
			if (w == 1 && isC(b)) return isTrue(b) ? a : mkNot(a);
			if (isC(b)) {
				if (a->op == Op::ZExt) { if (b->val >> a->a->w) return mkConst(0, 1); return mkBin(Op::Eq, a->a, mkConst(b->val, a->a->w)); }
				if (a->op == Op::SExt) { u128 t = b->val & maskw(a->a->w); if (((u128)sx(t, a->a->w) & m) != b->val) return mkConst(0, 1); return mkBin(Op::Eq, a->a, mkConst(t, a->a->w)); }
				if (a->op == Op::Add && isC(a->b)) return mkBin(Op::Eq, a->a, mkConst(b->val - a->b->val, w));
				if (a->op == Op::Xor && isC(a->b)) return mkBin(Op::Eq, a->a, mkConst(b->val ^ a->b->val, w));
				if (a->op == Op::Sub && b->val == 0) return mkBin(Op::Eq, a->a, a->b);
				if (a->op == Op::Xor && b->val == 0) return mkBin(Op::Eq, a->a, a->b);
				if (a->op == Op::Ite) {
					if (isC(a->b) && isC(a->c)) { bool x = a->b->val == b->val, y = a->c->val == b->val; if (x && y) return mkConst(1, 1); if (!x && !y) return mkConst(0, 1); return x ? a->a : mkNot(a->a); }
					if (isC(a->b) && a->b->val != b->val) return mkBin(Op::And, mkNot(a->a), mkBin(Op::Eq, a->c, b));
					if (isC(a->c) && a->c->val != b->val) return mkBin(Op::And, a->a, mkBin(Op::Eq, a->b, b));
				}
				if (a->op == Op::Concat && (isC(a->a) || isC(a->b) || w > 64 || true)) {
					return mkBin(Op::And, mkBin(Op::Eq, a->a, mkConst(b->val >> a->b->w, a->a->w)), mkBin(Op::Eq, a->b, mkConst(b->val, a->b->w)));
				}
				if (w <= 64) { u64 lo, hi; rangeOf(a, lo, hi); if ((u64)b->val < lo || (u64)b->val > hi) return mkConst(0, 1); if ((u64)b->val & knownZero(a)) return mkConst(0, 1); }
			} else {
				if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(Op::Eq, a->a, b->a);
				if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(Op::Eq, a->a, b->a);
				if (w <= 64) { u64 al, ah, bl, bh; rangeOf(a, al, ah); rangeOf(b, bl, bh); if (ah < bl || bh < al) return mkConst(0, 1); }
			}
			break;
		case Op::Ult: case Op::Ule: {
			if (a == b) return mkConst(op == Op::Ule, 1);
			if (w <= 64) {
				u64 al, ah, bl, bh; rangeOf(a, al, ah); rangeOf(b, bl, bh);
				if (op == Op::Ult) { if (ah < bl) return mkConst(1, 1); if (al >= bh) return mkConst(0, 1); }
				else { if (ah <= bl) return mkConst(1, 1); if (al > bh) return mkConst(0, 1); }
			}
			if (a->op == Op::ZExt && b->op == Op::ZExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
			if (a->op == Op::ZExt && isC(b) && (b->val >> a->a->w) == 0) return mkBin(op, a->a, mkConst(b->val, a->a->w));
			if (b->op == Op::ZExt && isC(a) && (a->val >> b->a->w) == 0) return mkBin(op, mkConst(a->val, b->a->w), b->a);
			break;
		}
		case Op::Slt: case Op::Sle: {
			if (a == b) return mkConst(op == Op::Sle, 1);
			if (w <= 64) {
				u64 al, ah, bl, bh, s = 1ull << (w - 1); rangeOf(a, al, ah); rangeOf(b, bl, bh);
				bool an = al >= s, ap = ah < s, bn = bl >= s, bp = bh < s;
				if ((ap && bp) || (an && bn)) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
				if (an && bp) return mkConst(1, 1);
				if (ap && bn) return mkConst(0, 1);
			}
			if (a->op == Op::SExt && b->op == Op::SExt && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
			if (a->op == Op::SExt && isC(b)) { u128 t = b->val & maskw(a->a->w); if (((u128)sx(t, a->a->w) & m) == b->val) return mkBin(op, a->a, mkConst(t, a->a->w)); return mkConst(sx(b->val, w) > 0, 1); }
			if (b->op == Op::SExt && isC(a)) { u128 t = a->val & maskw(b->a->w); if (((u128)sx(t, b->a->w) & m) == a->val) return mkBin(op, mkConst(t, b->a->w), b->a); return mkConst(sx(a->val, w) < 0, 1); }
			break;
		}
		default: break;
	}
	return intern(op, rw, a, b, 0, 0, 0);
}
Node* mkUn(Op op, Node* a, u32 w, u32 aux) {
	if (isC(a)) return mkConst(foldUn(op, a->val, a->w, w, aux), w);
	if (op == Op::FTrunc && a->op == Op::FExt && a->a->w == w) return a->a;
	if (op == Op::FTrunc && a->op == Op::FExt && a->a->w < w) return mkUn(Op::FExt, a->a, w, 0);
	if (op == Op::FExt && a->op == Op::FExt) return mkUn(Op::FExt, a->a, w, 0); // exact (modulo NaN payload quieting)
	return intern(op, w, a, 0, 0, 0, aux);
}
Node* mkTri(Op op, Node* a, Node* b, Node* c) {
	if (op == Op::FFma && isC(a) && isC(b) && isC(c)) {
		return a->w == 32 ? mkConst(ofF(std::fma(asF(a->val), asF(b->val), asF(c->val))), 32) : mkConst(ofD(std::fma(asD(a->val), asD(b->val), asD(c->val))), 64);
	}
	return intern(op, a->w, a, b, c, 0, 0);
}
static Node* readRec(const std::vector<Node*>& l, size_t base, u32 bits, Node* idx) {
	if (base >= l.size()) return nullptr;
	if (bits == 0) return l[base];
	Node* lo = readRec(l, base, bits - 1, idx);
	Node* hi = readRec(l, base + ((size_t)1 << (bits - 1)), bits - 1, idx);
	if (!hi || lo == hi) return lo;
	if (!lo) return hi;
	return mkIte(mkExtract(idx, bits - 1, 1), hi, lo);
}
Node* mkReadTable(const std::vector<Node*>& leaves, Node* idx) {
	u32 bits = 0; while (((size_t)1 << bits) < leaves.size()) ++bits;
	// a constant table that is affine over GF(2) (checked entry by entry) is the xor of the entries of its index bits
	if (bits >= 4 && leaves.size() == (size_t)1 << bits && leaves[0]->w > 1) {
		bool affine = true;
		for (size_t i = 0; affine && i < leaves.size(); ++i) affine = isC(leaves[i]) && (i < 2 || (i & (i - 1)) == 0 || leaves[i]->val == (leaves[i & (i - 1)]->val ^ leaves[i & -i]->val ^ leaves[0]->val));
		if (affine) {
			Node* r = leaves[0];
			for (u32 k = 0; k < bits; ++k) r = mkBin(Op::Xor, r, mkIte(mkExtract(idx, k, 1), mkConst(leaves[(size_t)1 << k]->val ^ leaves[0]->val, r->w), mkConst(0, r->w)));
			return r;
		}
	}
	return readRec(leaves, 0, bits, idx);
}

static u32 g_stamp = 0;
ModelP newModel(std::vector<u128> v) { auto m = std::make_shared<Model>(); m->stamp = ++g_stamp; m->v = std::move(v); return m; }

u128 evalNode(Node* n, const Model& m) {
	if (n->op == Op::Const) return n->val;
	if (n->op == Op::Sym) return m.get(n->aux) & maskw(n->w);
	if (n->estamp == m.stamp) return n->ev;
	u128 r = 0; bool ok = true;
	switch (n->op) {
		case Op::Ite: r = evalNode(n->a, m) ? evalNode(n->b, m) : evalNode(n->c, m); break;
		case Op::Concat: r = (evalNode(n->a, m) << n->b->w) | evalNode(n->b, m); break;
		case Op::Extract: r = (evalNode(n->a, m) >> n->aux) & maskw(n->w); break;
		case Op::ZExt: r = evalNode(n->a, m); break;
		case Op::SExt: r = (u128)sx(evalNode(n->a, m), n->a->w) & maskw(n->w); break;
		case Op::FFma: { u128 a = evalNode(n->a, m), b = evalNode(n->b, m), c = evalNode(n->c, m); r = n->w == 32 ? ofF(std::fma(asF(a), asF(b), asF(c))) : ofD(std::fma(asD(a), asD(b), asD(c))); break; }
		case Op::FSqrt: case Op::FRound: case Op::FExt: case Op::FTrunc: case Op::SIToF: case Op::UIToF: case Op::FToSI: case Op::FToUI:
			r = foldUn(n->op, evalNode(n->a, m), n->a->w, n->w, n->aux); break;
		default: r = foldBin(n->op, evalNode(n->a, m), evalNode(n->b, m), n->a->w, ok); break;
	}
	n->estamp = m.stamp; n->ev = r;
	return r;
}

// ---------------------------------------------------------------- Z3
static Z3_context ctx = nullptr;
static Z3_sort s32, s64, s80;
static Z3_ast rmRNE;
static bool g_realOpaque = false; // real mode met an operation without a meaning over the reals
static std::unordered_map<u32, std::vector<Z3_ast>> g_sideOf; // node id -> side conditions
static Z3_solver mkSolverTO(double secs);
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void initZ3() {
	if (ctx) return;
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	ctx = Z3_mk_context(cfg);
	Z3_set_error_handler(ctx, z3err);
	s32 = Z3_mk_fpa_sort_32(ctx); s64 = Z3_mk_fpa_sort_64(ctx); s80 = Z3_mk_fpa_sort(ctx, 15, 64);
	rmRNE = Z3_mk_fpa_rne(ctx);
	Z3_inc_ref(ctx, rmRNE);
}
static Z3_sort bvs(u32 w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast tr(Node* n);
static Z3_ast trB(Node* n);
static Z3_ast trF(Node* n);
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1))); }
static bool isFOp(Op o) { return o >= Op::FAdd && o <= Op::FFma; }
static Z3_ast realConst(double d) {
	// exact rational of a double
	int e; double m = frexp(d, &e); long long mi = (long long)ldexp(m, 53); e -= 53;
	Z3_ast x = Z3_mk_int64(ctx, mi, Z3_mk_real_sort(ctx));
	if (e == 0) return x;
	Z3_ast two = Z3_mk_int64(ctx, 2, Z3_mk_real_sort(ctx));
	Z3_ast p = two; // build 2^|e| numerically
	std::string s = "1"; int k = abs(e);
	for (int i = 0; i < k; ++i) { int c = 0; for (int j = (int)s.size() - 1; j >= 0; --j) { int dgt = (s[j] - '0') * 2 + c; s[j] = '0' + dgt % 10; c = dgt / 10; } if (c) s.insert(s.begin(), '0' + c); }
	p = Z3_mk_numeral(ctx, s.c_str(), Z3_mk_real_sort(ctx));
	if (e > 0) { Z3_ast a[2] = {x, p}; return Z3_simplify(ctx, Z3_mk_mul(ctx, 2, a)); }
	return Z3_simplify(ctx, Z3_mk_div(ctx, x, p));
}
// FP-valued translation (IEEE sort or Real in real mode)
static Z3_ast trF(Node* n) {
	if (n->z3fp) return (Z3_ast)n->z3fp;
	Z3_ast r = nullptr;
	Z3_sort so = n->w == 32 ? s32 : n->w == 64 ? s64 : s80;
	if (g_realMode) {
		Z3_ast ab[2];
		switch (n->op) {
			case Op::Const: r = realConst(n->w == 32 ? (double)asF(n->val) : n->w == 64 ? asD(n->val) : (double)asL(n->val)); break;
			case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("r!" + g_syms[n->aux].name + "!" + std::to_string(n->aux)).c_str()), Z3_mk_real_sort(ctx)); break;
			case Op::FAdd: ab[0] = trF(n->a); ab[1] = trF(n->b); r = Z3_mk_add(ctx, 2, ab); break;
			case Op::FSub: ab[0] = trF(n->a); ab[1] = trF(n->b); r = Z3_mk_sub(ctx, 2, ab); break;
			case Op::FMul: ab[0] = trF(n->a); ab[1] = trF(n->b); r = Z3_mk_mul(ctx, 2, ab); break;
			case Op::FDiv: r = Z3_mk_div(ctx, trF(n->a), trF(n->b)); break;
			case Op::FFma: { ab[0] = trF(n->a); ab[1] = trF(n->b); Z3_ast m = Z3_mk_mul(ctx, 2, ab); ab[0] = m; ab[1] = trF(n->c); r = Z3_mk_add(ctx, 2, ab); break; }
			case Op::FExt: case Op::FTrunc: r = trF(n->a); break;
			case Op::Ite: r = Z3_mk_ite(ctx, trB(n->a), trF(n->b), trF(n->c)); break;
			case Op::FSqrt: {
				r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("sqrt!" + std::to_string(n->id)).c_str()), Z3_mk_real_sort(ctx));
				Z3_inc_ref(ctx, r);
				Z3_ast mm[2] = {r, r}, x = trF(n->a), zero = Z3_mk_int64(ctx, 0, Z3_mk_real_sort(ctx));
				Z3_ast sq = Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, mm), x), nn = Z3_mk_ge(ctx, r, zero);
				Z3_ast pos = Z3_mk_ge(ctx, x, zero);
				Z3_ast c1[2] = {sq, nn}; Z3_ast both = Z3_mk_and(ctx, 2, c1); Z3_ast side = Z3_mk_implies(ctx, pos, both);
				Z3_inc_ref(ctx, side); g_sideOf[n->id].push_back(side);
				break;
			}
			// sign-bit flips of a float: -x ; |x|
			case Op::Xor: if (isC(n->b) && n->b->val == ((u128)1 << (n->w - 1))) { r = Z3_mk_unary_minus(ctx, trF(n->a)); } break;
			case Op::And: break;
			default: break;
		}
		if (!r) { g_realOpaque = true; fprintf(stderr, "real mode: untranslatable float %s\n", nodeStr(n, 4).c_str()); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("opaque!" + std::to_string(n->id)).c_str()), Z3_mk_real_sort(ctx)); }
	} else {
		switch (n->op) {
			case Op::FAdd: r = Z3_mk_fpa_add(ctx, rmRNE, trF(n->a), trF(n->b)); break;
			case Op::FSub: r = Z3_mk_fpa_sub(ctx, rmRNE, trF(n->a), trF(n->b)); break;
			case Op::FMul: r = Z3_mk_fpa_mul(ctx, rmRNE, trF(n->a), trF(n->b)); break;
			case Op::FDiv: r = Z3_mk_fpa_div(ctx, rmRNE, trF(n->a), trF(n->b)); break;
			case Op::FRem: r = Z3_mk_fpa_rem(ctx, trF(n->a), trF(n->b)); break;
			case Op::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rmRNE, trF(n->a)); break;
			case Op::FFma: r = Z3_mk_fpa_fma(ctx, rmRNE, trF(n->a), trF(n->b), trF(n->c)); break;
			case Op::FRound: { Z3_ast m[5] = {rmRNE, Z3_mk_fpa_rna(ctx), Z3_mk_fpa_rtp(ctx), Z3_mk_fpa_rtn(ctx), Z3_mk_fpa_rtz(ctx)}; r = Z3_mk_fpa_round_to_integral(ctx, m[n->aux], trF(n->a)); break; }
			case Op::FExt: case Op::FTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rmRNE, trF(n->a), so); break;
			case Op::SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rmRNE, tr(n->a), so); break;
			case Op::UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rmRNE, tr(n->a), so); break;
			case Op::Ite: r = Z3_mk_ite(ctx, trB(n->a), trF(n->b), trF(n->c)); break;
			case Op::Xor: if (isC(n->b) && n->b->val == ((u128)1 << (n->w - 1)) && (isFOp(n->a->op) || n->a->op >= Op::SIToF)) { r = Z3_mk_fpa_neg(ctx, trF(n->a)); break; } // fallthrough
			default: {
				Z3_ast b = tr(n);
				if (n->w == 80) b = Z3_mk_concat(ctx, Z3_mk_extract(ctx, 79, 64, b), Z3_mk_extract(ctx, 62, 0, b)); // without the explicit integer bit
				r = Z3_mk_fpa_to_fp_bv(ctx, b, so); break;
			}
		}
	}
	Z3_inc_ref(ctx, r);
	n->z3fp = r;
	return r;
}
static Z3_ast trB(Node* n) { // boolean translation of a 1-bit node
	switch (n->op) {
		case Op::Const: return n->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
		case Op::Eq: if (n->a->w == 1) return Z3_mk_iff(ctx, trB(n->a), trB(n->b)); return Z3_mk_eq(ctx, tr(n->a), tr(n->b));
		case Op::Ult: return Z3_mk_bvult(ctx, tr(n->a), tr(n->b));
		case Op::Ule: return Z3_mk_bvule(ctx, tr(n->a), tr(n->b));
		case Op::Slt: return Z3_mk_bvslt(ctx, tr(n->a), tr(n->b));
		case Op::Sle: return Z3_mk_bvsle(ctx, tr(n->a), tr(n->b));
		case Op::And: { Z3_ast x[2] = {trB(n->a), trB(n->b)}; return Z3_mk_and(ctx, 2, x); }
		case Op::Or: { Z3_ast x[2] = {trB(n->a), trB(n->b)}; return Z3_mk_or(ctx, 2, x); }
		case Op::Xor: if (isC(n->b)) return n->b->val ? Z3_mk_not(ctx, trB(n->a)) : trB(n->a); return Z3_mk_xor(ctx, trB(n->a), trB(n->b));
		case Op::Ite: return Z3_mk_ite(ctx, trB(n->a), trB(n->b), trB(n->c));
		case Op::FEq: return g_realMode ? Z3_mk_eq(ctx, trF(n->a), trF(n->b)) : Z3_mk_fpa_eq(ctx, trF(n->a), trF(n->b));
		case Op::FLt: return g_realMode ? Z3_mk_lt(ctx, trF(n->a), trF(n->b)) : Z3_mk_fpa_lt(ctx, trF(n->a), trF(n->b));
		case Op::FLe: return g_realMode ? Z3_mk_le(ctx, trF(n->a), trF(n->b)) : Z3_mk_fpa_leq(ctx, trF(n->a), trF(n->b));
		case Op::FUno: { if (g_realMode) return Z3_mk_false(ctx); Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, trF(n->a)), Z3_mk_fpa_is_nan(ctx, trF(n->b))}; return Z3_mk_or(ctx, 2, x); }
		case Op::Extract: if (g_realMode && n->aux == n->a->w - 1 && (isFOp(n->a->op) || n->a->op == Op::FTrunc || n->a->op == Op::FExt || n->a->op == Op::Sym)) return Z3_mk_lt(ctx, trF(n->a), Z3_mk_int64(ctx, 0, Z3_mk_real_sort(ctx))); break;
		default: break;
	}
	return Z3_mk_eq(ctx, tr(n), Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
}
static Z3_ast bvNum(u128 v, u32 w) {
	if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, bvs(w));
	return Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(ctx, (u64)v, bvs(64)));
}
static Z3_ast tr(Node* n) {
	if (n->z3bv) return (Z3_ast)n->z3bv;
	Z3_ast r = nullptr;
	switch (n->op) {
		case Op::Const: r = bvNum(n->val, n->w); break;
		case Op::Sym: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s!" + std::to_string(n->aux)).c_str()), bvs(n->w)); break;
		case Op::Add: r = Z3_mk_bvadd(ctx, tr(n->a), tr(n->b)); break;
		case Op::Sub: r = Z3_mk_bvsub(ctx, tr(n->a), tr(n->b)); break;
		case Op::Mul: r = Z3_mk_bvmul(ctx, tr(n->a), tr(n->b)); break;
		case Op::UDiv: r = Z3_mk_bvudiv(ctx, tr(n->a), tr(n->b)); break;
		case Op::SDiv: r = Z3_mk_bvsdiv(ctx, tr(n->a), tr(n->b)); break;
		case Op::URem: r = Z3_mk_bvurem(ctx, tr(n->a), tr(n->b)); break;
		case Op::SRem: r = Z3_mk_bvsrem(ctx, tr(n->a), tr(n->b)); break;
		case Op::And: r = n->w == 1 ? b2bv(trB(n)) : Z3_mk_bvand(ctx, tr(n->a), tr(n->b)); break;
		case Op::Or: r = n->w == 1 ? b2bv(trB(n)) : Z3_mk_bvor(ctx, tr(n->a), tr(n->b)); break;
		case Op::Xor: r = n->w == 1 ? b2bv(trB(n)) : (isC(n->b) && n->b->val == maskw(n->w)) ? Z3_mk_bvnot(ctx, tr(n->a)) : Z3_mk_bvxor(ctx, tr(n->a), tr(n->b)); break;
		case Op::Shl: r = Z3_mk_bvshl(ctx, tr(n->a), tr(n->b)); break;
		case Op::LShr: r = Z3_mk_bvlshr(ctx, tr(n->a), tr(n->b)); break;
		case Op::AShr: r = Z3_mk_bvashr(ctx, tr(n->a), tr(n->b)); break;
		case Op::Ite: r = Z3_mk_ite(ctx, trB(n->a), tr(n->b), tr(n->c)); break;
		case Op::Concat: r = Z3_mk_concat(ctx, tr(n->a), tr(n->b)); break;
		case Op::Extract: r = Z3_mk_extract(ctx, n->aux + n->w - 1, n->aux, tr(n->a)); break;
		case Op::ZExt: r = Z3_mk_zero_ext(ctx, n->w - n->a->w, tr(n->a)); break;
		case Op::SExt: r = Z3_mk_sign_ext(ctx, n->w - n->a->w, tr(n->a)); break;
		case Op::FToSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), trF(n->a), n->w); break;
		case Op::FToUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), trF(n->a), n->w); break;
		case Op::Eq: case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: case Op::FEq: case Op::FLt: case Op::FLe: case Op::FUno:
			r = b2bv(trB(n)); break;
		default: r = Z3_mk_fpa_to_ieee_bv(ctx, trF(n)); break;
	}
	Z3_inc_ref(ctx, r);
	n->z3bv = r;
	return r;
}

static bool overlaps(const std::vector<u64>* a, const std::vector<u64>* b) {
	size_t k = std::min(a->size(), b->size());
	for (size_t i = 0; i < k; ++i) if ((*a)[i] & (*b)[i]) return true;
	return false;
}
struct QKeyHash { size_t operator()(const std::vector<u32>& v) const { size_t h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct QRes { SatRes r; std::vector<std::pair<u32, u128>> vals; };
static std::unordered_map<std::vector<u32>, QRes, QKeyHash> g_qcache;
static bool hasFP(Node* n, std::unordered_set<u32>& seen) {
	if (!n || !seen.insert(n->id).second) return false;
	if (n->op >= Op::FAdd) return true;
	return hasFP(n->a, seen) || hasFP(n->b, seen) || hasFP(n->c, seen);
}
static u128 numVal(Z3_ast v, u32 w) {
	if (w <= 64) { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, v, &x)) return x; return 0; }
	const char* s = Z3_get_numeral_binary_string(ctx, v);
	u128 r = 0; for (; s && *s; ++s) r = r * 2 + (*s - '0'); return r;
}
static std::string tmpName(const char* suffix) {
	static int k = 0; return "/tmp/fgse_" + std::to_string(getpid()) + "_" + std::to_string(k++) + suffix;
}
// portfolio fallback on SMT-LIB2 text: returns sat/unsat/unknown only
static SatRes externalCheck(const std::string& smt, double secs) {
	std::string f = tmpName(".smt2");
	{ std::ofstream o(f); o << smt; }
	g_stats.external++;
	const char* cmds[] = {"cvc5 -q --tlimit=%d %s 2>/dev/null", "z3-new -T:%d %s 2>/dev/null"};
	SatRes r = SatRes::Unknown;
	for (int i = 0; i < 2 && r == SatRes::Unknown; ++i) {
		char cmd[512]; snprintf(cmd, sizeof cmd, cmds[i], i == 0 ? (int)(secs * 1000) : (int)secs, f.c_str());
		FILE* p = popen(cmd, "r"); if (!p) continue;
		char buf[256] = {0}; std::string out; while (fgets(buf, sizeof buf, p)) out += buf; pclose(p);
		if (out.find("error") != std::string::npos) continue;
		if (out.compare(0, 5, "unsat") == 0) r = SatRes::Unsat;
		else if (out.compare(0, 3, "sat") == 0) r = SatRes::Sat;
	}
	unlink(f.c_str());
	return r;
}

// ---- equalities of expressions that are affine over GF(2) (CRCs): each bit as the xor of input bits
typedef std::vector<u32> XorForm; // sorted input bits (symbol * 128 + bit); the constant 1 is ~0u
static XorForm xorForms(const XorForm& a, const XorForm& b) { XorForm r; std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
typedef std::shared_ptr<const std::vector<XorForm>> Forms;
static Forms affineBits(Node* n, std::unordered_map<Node*, Forms>& memo) {
	auto it = memo.find(n); if (it != memo.end()) return it->second;
	std::vector<XorForm> r(n->w); bool ok = true;
	auto sub = [&](Node* x) { auto f = affineBits(x, memo); if (!f) ok = false; return f; };
	switch (n->op) {
		case Op::Const: for (u32 i = 0; i < n->w; ++i) if ((n->val >> i) & 1) r[i] = {~0u}; break;
		case Op::Sym: for (u32 i = 0; i < n->w; ++i) r[i] = {n->aux * 128 + i}; break;
		case Op::Xor: { auto a = sub(n->a); if (!ok) break; auto b = sub(n->b); if (!ok) break; for (u32 i = 0; i < n->w; ++i) r[i] = xorForms((*a)[i], (*b)[i]); break; }
		case Op::And: { Node *x = n->a, *c = n->b; if (isC(x)) std::swap(x, c); if (!isC(c)) { ok = false; break; } auto a = sub(x); if (!ok) break; for (u32 i = 0; i < n->w; ++i) if ((c->val >> i) & 1) r[i] = (*a)[i]; break; }
		case Op::Shl: case Op::LShr: { if (!isC(n->b)) { ok = false; break; } auto a = sub(n->a); if (!ok) break; u64 k = (u64)n->b->val; for (u32 i = 0; i < n->w; ++i) if (n->op == Op::Shl ? i >= k : i + k < n->w) r[i] = (*a)[n->op == Op::Shl ? i - k : i + k]; break; }
		case Op::Sub: { if (!isC(n->a) || n->a->val != 0) { ok = false; break; } // 0 - bit
			auto b = sub(n->b); if (!ok) break; for (u32 i = 1; i < n->w; ++i) if (!(*b)[i].empty()) ok = false; for (u32 i = 0; i < n->w && ok; ++i) r[i] = (*b)[0]; break; }
		case Op::Mul: { Node *x = n->a, *c = n->b; if (isC(x)) std::swap(x, c); if (!isC(c)) { ok = false; break; } // bit * constant
			auto b = sub(x); if (!ok) break; for (u32 i = 1; i < n->w; ++i) if (!(*b)[i].empty()) ok = false; for (u32 i = 0; i < n->w && ok; ++i) if ((c->val >> i) & 1) r[i] = (*b)[0]; break; }
		case Op::Concat: { auto a = sub(n->a); if (!ok) break; auto b = sub(n->b); if (!ok) break; for (u32 i = 0; i < n->w; ++i) r[i] = i < n->b->w ? (*b)[i] : (*a)[i - n->b->w]; break; }
		case Op::Extract: { auto a = sub(n->a); if (!ok) break; for (u32 i = 0; i < n->w; ++i) r[i] = (*a)[i + n->aux]; break; }
		case Op::ZExt: case Op::SExt: { auto a = sub(n->a); if (!ok) break; for (u32 i = 0; i < n->w; ++i) if (i < n->a->w) r[i] = (*a)[i]; else if (n->op == Op::SExt) r[i] = (*a)[n->a->w - 1]; break; }
		case Op::Eq: { if (n->a->w != 1) { ok = false; break; } auto a = sub(n->a); if (!ok) break; auto b = sub(n->b); if (!ok) break; r[0] = xorForms(xorForms((*a)[0], (*b)[0]), {~0u}); break; }
		case Op::Ite: { auto c = sub(n->a); if (!ok) break; auto t = sub(n->b); if (!ok) break; auto e = sub(n->c); if (!ok) break;
			for (u32 i = 0; i < n->w && ok; ++i) { auto d = xorForms((*t)[i], (*e)[i]); if (d.empty()) r[i] = (*e)[i]; else if (d.size() == 1 && d[0] == ~0u) r[i] = xorForms((*e)[i], (*c)[0]); else ok = false; } break; }
		default: ok = false;
	}
	Forms f; if (ok) f = std::make_shared<const std::vector<XorForm>>(std::move(r));
	return memo[n] = f;
}
static Node* simplifyAffine(Node* q) {
	if (q->op == Op::Eq && q->a->w > 1) {
		std::unordered_map<Node*, Forms> memo; auto a = affineBits(q->a, memo), b = a ? affineBits(q->b, memo) : nullptr; if (!b) return q;
		bool same = true; for (u32 i = 0; i < q->a->w; ++i) { auto d = xorForms((*a)[i], (*b)[i]); if (d.size() == 1 && d[0] == ~0u) return mkConst(0, 1); if (!d.empty()) same = false; }
		return same ? mkConst(1, 1) : q;
	}
	if (q->w == 1 && (q->op == Op::Xor || q->op == Op::And || q->op == Op::Or || q->op == Op::Eq)) { Node *a = simplifyAffine(q->a), *b = simplifyAffine(q->b); return a == q->a && b == q->b ? q : mkBin(q->op, a, b); }
	return q;
}
static Z3_ast realConst(u32 si) { return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("r!" + g_syms[si].name + "!" + std::to_string(si)).c_str()), Z3_mk_real_sort(ctx)); }
static void modelValue(Z3_model m, u32 si, u128& v) {
	Z3_ast ev = nullptr;
	Z3_ast c2 = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s!" + std::to_string(si)).c_str()), bvs(g_syms[si].w));
	if (g_realMode) {
		Z3_ast c = realConst(si);
		if (Z3_model_eval(ctx, m, c, true, &ev)) {
			double d = 0;
			if (Z3_is_numeral_ast(ctx, ev)) d = Z3_get_numeral_double(ctx, ev);
			else if (Z3_is_algebraic_number(ctx, ev)) { Z3_ast lo = Z3_get_algebraic_number_lower(ctx, ev, 20); d = Z3_get_numeral_double(ctx, lo); }
			v = g_syms[si].w == 32 ? ofF((float)d) : g_syms[si].w == 64 ? ofD(d) : 0;
		}
		if (g_syms[si].w < 32 && Z3_model_eval(ctx, m, c2, true, &ev)) v = numVal(ev, g_syms[si].w);
	} else if (Z3_model_eval(ctx, m, c2, true, &ev)) v = numVal(ev, g_syms[si].w);
}
// Solver run in a child process that is ended after secs. fix >= 0: with small values chosen for all inputs but up to two.
static Z3_lbool forkCheck(Z3_solver s, const std::vector<u64>* S, QRes& qr, double secs, int fix, bool* gaveUp = nullptr) {
	int fd[2]; if (pipe(fd)) return Z3_L_UNDEF;
	fflush(nullptr);
	pid_t p = fork();
	if (p < 0) { close(fd[0]); close(fd[1]); return Z3_L_UNDEF; }
	std::vector<u32> syms;
	for (size_t i = 0; i < S->size(); ++i) for (int b = 0; b < 64; ++b) if (((*S)[i] >> b) & 1) syms.push_back((u32)(i * 64 + b));
	if (p == 0) {
		close(fd[0]);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit rl = {(rlim_t)secs + 2, (rlim_t)secs + 2}; setrlimit(RLIMIT_CPU, &rl); // a second line of defence
		Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps); Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), 4294967295u); Z3_solver_set_params(ctx, s, ps);
		if (fix >= 0) {
			static const int nums[] = {1, 2, -1, 3, 0, -2, 4, 5, -3, 1, 7, -4};
			u32 x = 12345u + 7919u * (u32)fix; size_t n = 0, freeAt = fix % 3 == 0 ? ~(size_t)0 : (size_t)fix * 5;
			size_t nr = 0; for (u32 si : syms) nr += g_syms[si].w >= 32;
			for (u32 si : syms) if (g_syms[si].w == 32 || g_syms[si].w == 64) {
				size_t at = n++; x = x * 1664525u + 1013904223u;
				if (nr && freeAt != ~(size_t)0 && (at == freeAt % nr || (fix > 6 && at == (freeAt + 2) % nr))) continue;
				Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, realConst(si), Z3_mk_real(ctx, nums[(x >> 16) % 12], fix & 1 ? 2 : 1)));
			}
		}
		Z3_lbool r = Z3_solver_check(ctx, s);
		std::vector<u64> o; o.push_back((u64)(r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 2 : 3));
		if (r == Z3_L_TRUE) {
			Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
			for (u32 si : syms) { u128 v = 0; modelValue(m, si, v); o.push_back((u64)v); o.push_back((u64)(v >> 64)); }
		}
		size_t n = 0; const char* d = (const char*)o.data();
		while (n < o.size() * 8) { ssize_t k = write(fd[1], d + n, o.size() * 8 - n); if (k <= 0) break; n += (size_t)k; }
		_exit(0);
	}
	close(fd[1]);
	std::vector<u64> o(1 + 2 * syms.size(), 0); size_t got = 0; auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(secs);
	while (true) {
		double w = std::chrono::duration<double>(end - std::chrono::steady_clock::now()).count();
		pollfd pf{fd[0], POLLIN, 0}; int k = poll(&pf, 1, w <= 0 ? 0 : (int)(w * 1000) + 1);
		if (k == 0) break;
		if (k < 0) { if (errno == EINTR) continue; break; }
		ssize_t n = read(fd[0], (char*)o.data() + got, o.size() * 8 - got); if (n <= 0) break; got += (size_t)n;
		if (got == o.size() * 8 || (got >= 8 && o[0] != 1)) break;
	}
	static std::vector<pid_t> ended; int st; kill(p, SIGKILL); close(fd[0]); ended.push_back(p);
	ended.erase(std::remove_if(ended.begin(), ended.end(), [&](pid_t q) { return waitpid(q, &st, WNOHANG) != 0; }), ended.end());
	if (got < 8) return Z3_L_UNDEF;
	if (o[0] == 2) return Z3_L_FALSE;
	if (o[0] == 3 && gaveUp) *gaveUp = true;
	if (o[0] != 1 || got != o.size() * 8) return Z3_L_UNDEF;
	qr.vals.clear(); for (size_t i = 0; i < syms.size(); ++i) qr.vals.push_back({syms[i], (u128)o[1 + 2 * i] | ((u128)o[2 + 2 * i] << 64)});
	return Z3_L_TRUE;
}
SatRes checkSat(const std::vector<Node*>& pc, Node* q, const ModelP& base, ModelP& out, bool final_) {
	if (isFalse(q)) return SatRes::Unsat;
	if (evalNode(q, *base) == 1 && !g_realMode) { g_stats.modelHits++; out = base; return SatRes::Sat; }
	if (isTrue(q)) { out = base; return SatRes::Sat; }
	if (final_ && !g_realMode) {
		auto t0 = std::chrono::steady_clock::now(); q = simplifyAffine(q); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if (isFalse(q)) { g_stats.queries++; g_stats.unsat++; g_stats.solverTime += dt; return SatRes::Unsat; }
	}
	// independent-constraint slicing
	std::vector<Node*> rel; rel.push_back(q);
	const std::vector<u64>* S = q->syms;
	std::vector<char> used(pc.size(), 0);
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t i = 0; i < pc.size(); ++i)
			if (!used[i] && overlaps(pc[i]->syms, S)) { used[i] = 1; rel.push_back(pc[i]); S = unionSet(S, pc[i]->syms); ch = true; }
	}
	std::vector<u32> key; for (Node* n : rel) key.push_back(n->id);
	std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_qcache.find(key);
	if (it != g_qcache.end() && !(it->second.r == SatRes::Unknown && final_)) {
		g_stats.cacheHits++;
		if (it->second.r == SatRes::Sat) {
			std::vector<u128> v = base->v; v.resize(g_syms.size(), 0);
			for (auto& p : it->second.vals) v[p.first] = p.second;
			out = newModel(std::move(v));
		}
		return it->second.r;
	}
	auto t0 = std::chrono::steady_clock::now();
	std::unordered_set<u32> seen; bool fp = false; for (Node* n : rel) if (hasFP(n, seen)) { fp = true; break; }
	// floating point constraints over few input bits are decided by evaluating them for every value
	if (fp && !g_realMode) {
		std::vector<u32> free; u32 bits = 0;
		for (size_t i = 0; i < S->size(); ++i) for (int b = 0; b < 64; ++b) if (((*S)[i] >> b) & 1) { free.push_back((u32)(i * 64 + b)); bits += g_syms[free.back()].w; }
		if (bits <= 16) {
			std::vector<u128> v = base->v; v.resize(g_syms.size(), 0); QRes qr; qr.r = SatRes::Unsat;
			for (u64 x = 0; x < (1ull << bits) && qr.r == SatRes::Unsat; ++x) {
				u64 y = x; for (u32 f : free) { v[f] = y & (u64)maskw(g_syms[f].w); y >>= g_syms[f].w; }
				auto m = newModel(v); bool all = true; for (Node* n : rel) if (evalNode(n, *m) != 1) { all = false; break; }
				if (all) { qr.r = SatRes::Sat; for (u32 f : free) qr.vals.push_back({f, v[f]}); out = m; }
			}
			double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			g_stats.solverTime += dt; g_stats.maxQuery = std::max(g_stats.maxQuery, dt); g_stats.queries++;
			if (qr.r == SatRes::Sat) g_stats.sat++; else g_stats.unsat++;
			g_qcache[key] = qr; return qr.r;
		}
	}
	initZ3();
	double to = final_ ? g_finalTimeout : g_solverTimeout;
	std::vector<Z3_ast> cs; for (Node* n : rel) { Z3_ast a = trB(n); Z3_inc_ref(ctx, a); cs.push_back(a); }
	Z3_solver s = mkSolverTO(0);
	bool useTactic = final_ || fp || g_realMode;
	std::vector<Z3_ast> sides;
	if (g_realMode) {
		std::unordered_set<u32> sd; std::vector<Node*> st(rel.begin(), rel.end());
		while (!st.empty()) {
			Node* n = st.back(); st.pop_back(); if (!n || !sd.insert(n->id).second) continue;
			auto it = g_sideOf.find(n->id); if (it != g_sideOf.end()) sides.insert(sides.end(), it->second.begin(), it->second.end());
			st.push_back(n->a); st.push_back(n->b); st.push_back(n->c);
		}
	}
	auto setup = [&](double secs) {
		Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
		Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)(secs * 1000));
		Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
		if (!useTactic) Z3_solver_push(ctx, s);
		for (Z3_ast a : cs) Z3_solver_assert(ctx, s, a);
		for (Z3_ast a : sides) Z3_solver_assert(ctx, s, a);
	};
	if (useTactic) { // strategic solver
		if (g_realMode && fp) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_NRA"));
		else if (g_realMode) s = Z3_mk_solver(ctx);
		else {
			Z3_tactic t = Z3_mk_tactic(ctx, fp ? "qffpbv" : "qfbv"); Z3_tactic_inc_ref(ctx, t);
			s = Z3_mk_solver_from_tactic(ctx, t); Z3_tactic_dec_ref(ctx, t);
		}
		Z3_solver_inc_ref(ctx, s);
	}
	setup(to);
	std::string dump;
	if (final_ && !g_dumpDir.empty()) {
		dump = Z3_solver_to_string(ctx, s);
		std::ofstream o(g_dumpDir + "/q" + std::to_string(g_dumpCount++) + ".smt2");
		o << "(set-logic ALL)\n" << dump << "(check-sat)\n";
	}
	QRes qr; qr.r = SatRes::Unknown;
	bool forked = g_realMode && fp && final_; // nonlinear arithmetic does not reliably stop at a timeout: decided in a child that is ended
	Z3_lbool r = Z3_L_UNDEF;
	if (forked) {
		double left = g_deadline > 0 ? g_deadline - std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() : 1e9;
		bool gaveUp = false;
		auto limit = [&](double t) { return std::max(0.5, std::min(t, left)); };
		// briefly in full, then under small values of every input (a model of these is one of the query), then in full again
		r = forkCheck(s, S, qr, limit(std::min(to, 1.5)), -1, &gaveUp);
		if (r == Z3_L_UNDEF && final_) for (int k = 0; k < 3 && r != Z3_L_TRUE; ++k) { if (forkCheck(s, S, qr, limit(1.0), k) == Z3_L_TRUE) r = Z3_L_TRUE; }
		if (r == Z3_L_UNDEF && !gaveUp && to > 1.5) r = forkCheck(s, S, qr, limit(to), -1);
		if (r == Z3_L_UNDEF) { // conditions beyond nonlinear real arithmetic
			Z3_solver_dec_ref(ctx, s); s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); setup(0); r = forkCheck(s, S, qr, limit(to), -1);
		}
		if (r == Z3_L_UNDEF && final_) for (int k = 3; k < 12 && r != Z3_L_TRUE; ++k) { if (forkCheck(s, S, qr, limit(1.5), k) == Z3_L_TRUE) r = Z3_L_TRUE; }
	} else {
		r = Z3_solver_check(ctx, s);
		if (r == Z3_L_UNDEF && g_realMode && fp) { Z3_solver_dec_ref(ctx, s); s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); setup(to); r = Z3_solver_check(ctx, s); }
	}
	SatRes res = r == Z3_L_TRUE ? SatRes::Sat : r == Z3_L_FALSE ? SatRes::Unsat : SatRes::Unknown;
	if (res == SatRes::Unknown && getenv("FGSE_DEBUG")) fprintf(stderr, "unknown: %s %s\n", Z3_solver_get_reason_unknown(ctx, s), nodeStr(q, 7).c_str());
	if (res == SatRes::Sat && final_ && g_realOpaque) res = SatRes::Unknown;
	qr.r = res;
	if (res == SatRes::Sat && forked) {
		std::vector<u128> v = base->v; v.resize(g_syms.size(), 0);
		for (auto& p : qr.vals) v[p.first] = p.second;
		out = newModel(std::move(v));
	} else if (res == SatRes::Sat) {
		std::vector<u128> v = base->v; v.resize(g_syms.size(), 0);
		Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
		for (size_t i = 0; i < S->size(); ++i) for (int b = 0; b < 64; ++b) if (((*S)[i] >> b) & 1) {
			u32 si = (u32)(i * 64 + b);
			modelValue(m, si, v[si]);
			qr.vals.push_back({si, v[si]});
		}
		Z3_model_dec_ref(ctx, m);
		out = newModel(std::move(v));
		if (!g_realMode) for (Node* n : rel) if (evalNode(n, *out) != 1) {
			// evaluation mismatch (e.g. NaN payloads): do not trust the model
			static int warned = 0; if (warned++ < 5) fprintf(stderr, "warning: model does not satisfy %s\n", nodeStr(n, 4).c_str());
			res = qr.r = SatRes::Unknown; break;
		}
	} else if (res == SatRes::Unknown && final_) {
		if (dump.empty()) dump = Z3_solver_to_string(ctx, s);
		res = externalCheck("(set-logic ALL)\n" + dump + "(check-sat)\n", to);
		if (res == SatRes::Sat) res = SatRes::Unknown; // no model available: undecided
		qr.r = res;
	}
	if (!useTactic) Z3_solver_pop(ctx, s, 1); else Z3_solver_dec_ref(ctx, s);
	for (Z3_ast a : cs) Z3_dec_ref(ctx, a);
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_stats.solverTime += dt; g_stats.maxQuery = std::max(g_stats.maxQuery, dt); g_stats.queries++;
	if (res == SatRes::Sat) g_stats.sat++; else if (res == SatRes::Unsat) g_stats.unsat++; else g_stats.unknown++;
	g_qcache[key] = qr;
	return res;
}
static Z3_solver g_simple = nullptr;
static Z3_solver mkSolverTO(double) {
	if (!g_simple) { g_simple = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, g_simple); }
	return g_simple;
}

std::string nodeStr(Node* n, int d) {
	static const char* names[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext",
		"fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "ffma", "feq", "flt", "fle", "funo", "ftosi", "ftoui", "sitof", "uitof", "fext", "ftrunc", "fround"};
	if (isC(n)) { char b[40]; snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)n->val, n->w); return b; }
	if (n->op == Op::Sym) return g_syms[n->aux].name;
	if (d == 0) return "...";
	std::string s = "(" + std::string(names[(int)n->op]);
	if (n->op == Op::Extract) s += "[" + std::to_string(n->aux) + "+" + std::to_string(n->w) + "]";
	for (Node* k : {n->a, n->b, n->c}) if (k) s += " " + nodeStr(k, d - 1);
	return s + ")";
}
