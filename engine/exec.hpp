// fgse: symbolic executor for LLVM IR (bounded, path-forking, SMT-decided).
#pragma once
#include "expr.hpp"
#include <set>
#include <deque>

struct Val {
	Node* n = nullptr;
	u128 c = 0;
	std::shared_ptr<std::vector<Val>> agg;
	Val() {}
	explicit Val(u128 v) : c(v) {}
};

struct Bytes {
	std::vector<u8> c;      // concrete bytes
	std::vector<u8> st;     // 0 concrete, 1 symbolic, 2 uninitialised
	std::vector<Node*> s;   // symbolic bytes (allocated on demand)
};
enum ObjKind : u8 { OK_None, OK_Global, OK_Heap, OK_Stack, OK_Func, OK_Exc, OK_Dead };
struct Obj {
	std::shared_ptr<Bytes> b;
	u64 size = 0;
	ObjKind kind = OK_None;
	bool readonly = false;
	u8 allocKind = 0; // 0 malloc,1 new,2 new[]
	ObjKind was = OK_None;
};
struct Chunk { Obj o[64]; };

struct Mem {
	std::vector<std::shared_ptr<Chunk>> ch;
	u32 next = 1;
	u32 liveHeap = 0;
	const Obj* get(u64 id) const { if (id == 0 || id >= next) return nullptr; return &ch[id >> 6]->o[id & 63]; }
	Obj* mut(u64 id) {
		auto& c = ch[id >> 6];
		if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
		return &c->o[id & 63];
	}
	Bytes* mutBytes(u64 id) {
		Obj* o = mut(id);
		if (o->b.use_count() > 1) o->b = std::make_shared<Bytes>(*o->b);
		return o->b.get();
	}
	u64 alloc(u64 size, ObjKind k, u8 fill /*0 zero,2 uninit*/) {
		u32 id = next++;
		if ((id >> 6) >= ch.size()) ch.push_back(std::make_shared<Chunk>());
		Obj* o = mut(id);
		o->size = size; o->kind = k; o->was = k;
		o->b = std::make_shared<Bytes>();
		o->b->c.assign(size, 0); o->b->st.assign(size, fill);
		if (k == OK_Heap) liveHeap++;
		return (u64)id << 32;
	}
	void kill(u64 id) {
		Obj* o = mut(id);
		if (o->kind == OK_Heap) liveHeap--;
		o->kind = OK_Dead; o->b.reset();
	}
};
