// Hash-consed bit-vector / IEEE expression layer of fgse with an SMT (Z3) back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <functional>

typedef unsigned __int128 u128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum class Op : u8 {
	Const, Sym,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
	FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma, FEq, FLt, FLe, FUno,
	FToSI, FToUI, SIToF, UIToF, FExt, FTrunc, FRound, // FRound: aux = 0 rne,1 rna,2 up,3 down,4 zero
};

struct Node {
	Op op;
	u8 tainted;   // depends on uninitialised memory
	uint16_t w;   // width in bits
	u32 id;
	u32 aux;      // Extract: low bit, Sym: symbol index, FRound: mode
	Node *a, *b, *c;
	u128 val;     // Const
	size_t hash;
	// evaluation cache
	u32 estamp;
	u128 ev;
	// unsigned interval cache (widths <= 64)
	bool rangeDone;
	u64 lo, hi;
	bool kzDone;
	u64 kz; // known zero bits (width <= 64)
	const std::vector<u64>* syms; // interned symbol bitset
	void *z3bv, *z3fp;  // cached translations
};

struct SymInfo { std::string name; u32 w; bool uninit; };
struct Model {
	u32 stamp;
	std::vector<u128> v; // value per symbol index
	u128 get(u32 i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<const Model> ModelP;

extern std::vector<SymInfo> g_syms;

u128 maskw(u32 w);
Node* mkConst(u128 v, u32 w);
Node* mkSym(const std::string& name, u32 w, bool uninit = false);
Node* mkBin(Op op, Node* a, Node* b);
Node* mkNot(Node* a);          // bitwise
Node* mkIte(Node* c, Node* a, Node* b);
Node* mkExtract(Node* a, u32 lo, u32 w);
Node* mkConcat(Node* hi, Node* lo);
Node* mkZExt(Node* a, u32 w);
Node* mkSExt(Node* a, u32 w);
Node* mkUn(Op op, Node* a, u32 w, u32 aux = 0);
Node* mkTri(Op op, Node* a, Node* b, Node* c);
Node* mkReadTable(const std::vector<Node*>& leaves, Node* idx); // idx < leaves.size() assumed
inline bool isC(Node* n) { return n->op == Op::Const; }
inline bool isTrue(Node* n) { return n->op == Op::Const && n->val == 1; }
inline bool isFalse(Node* n) { return n->op == Op::Const && n->val == 0; }
void rangeOf(Node* n, u64& lo, u64& hi);
u64 knownZero(Node* n);
u128 evalNode(Node* n, const Model& m);
ModelP newModel(std::vector<u128> v);

// Concrete semantics shared by folding and evaluation
u128 foldBin(Op op, u128 a, u128 b, u32 w, bool& ok);

struct Stats {
	u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, external = 0;
	double solverTime = 0, maxQuery = 0;
};
extern Stats g_stats;
extern bool g_realMode;          // floats are exact reals
extern double g_deadline;       // steady-clock seconds after which no query is waited for (0: none)
extern double g_solverTimeout;   // seconds per query
extern double g_finalTimeout;    // seconds for assertion queries
extern std::string g_dumpDir;    // when set, assertion queries are dumped as SMT-LIB2
extern u64 g_dumpCount;

enum class SatRes { Sat, Unsat, Unknown };
// Is the conjunction of (the relevant slice of) pc and q satisfiable? On Sat, out is a model
// of pc && q built from base (which must satisfy pc).
SatRes checkSat(const std::vector<Node*>& pc, Node* q, const ModelP& base, ModelP& out, bool final_ = false);
std::string nodeStr(Node* n, int depth = 6);
