// Intrinsics, C/C++ runtime functions and the fgse_* harness interface.
static Node* ctpop(Node* n) { Node* r = mkConst(0, n->w); for (u32 i = 0; i < n->w; ++i) r = mkBin(Op::Add, r, mkZExt(mkExtract(n, i, 1), n->w)); return r; }
static Node* cttz(Node* n) { Node* r = mkConst(n->w, n->w); for (u32 i = n->w; i-- > 0;) r = mkIte(mkExtract(n, i, 1), mkConst(i, n->w), r); return r; }
static Node* ctlz(Node* n) { Node* r = mkConst(n->w, n->w); for (u32 i = 0; i < n->w; ++i) r = mkIte(mkExtract(n, i, 1), mkConst(n->w - 1 - i, n->w), r); return r; }
static Node* bswap(Node* n) { Node* r = nullptr; for (u32 i = 0; i < n->w; i += 8) { Node* b = mkExtract(n, i, 8); r = r ? mkConcat(r, b) : b; } return r; }
static Node* smin(Node* a, Node* b, bool sg, bool mx) { Node* lt = mkBin(sg ? Op::Slt : Op::Ult, a, b); return mx ? mkIte(lt, b, a) : mkIte(lt, a, b); }
static Node* fabsN(Node* a) {
	if (g_realMode && !isC(a)) { return mkIte(mkBin(Op::FLt, a, mkConst(0, a->w)), fneg(a), a); }
	return mkBin(Op::And, a, mkConst(maskw(a->w - 1), a->w));
}
// number of leading bits known to equal the sign bit
static u32 signBits(Node* n, int depth = 0) {
	u32 w = n->w;
	if (isC(n)) { u32 k = 1; bool sg = (n->val >> (w - 1)) & 1; while (k < w && (((n->val >> (w - 1 - k)) & 1) != 0) == sg) ++k; return k; }
	if (depth < 8) {
		if (n->op == Op::SExt) return w - n->a->w + signBits(n->a, depth + 1);
		if (n->op == Op::ZExt) return w - n->a->w;
		if (n->op == Op::Concat) return signBits(n->a, depth + 1);
		if (n->op == Op::Ite) return std::min(signBits(n->b, depth + 1), signBits(n->c, depth + 1));
		if (n->op == Op::Extract) { u32 above = n->a->w - (n->aux + w), k = signBits(n->a, depth + 1); return k <= above ? 1 : std::min(k - above, w); }
	}
	return 1;
}
static Node* overflowBit(Op op, bool sg, Node* a, Node* b) {
	u32 w = a->w;
	if (op == Op::Mul) {
		// narrow factors
		if (sg && (w - signBits(a) + 1) + (w - signBits(b) + 1) <= w) return mkConst(0, 1);
		if (sg && a->op == Op::ZExt && b->op == Op::ZExt && a->a->w + b->a->w < w) return mkConst(0, 1);
		if (2 * w <= 128) {
			Node *x = sg ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), *y = sg ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w);
			Node* p = mkBin(Op::Mul, x, y);
			Node* lo = mkExtract(p, 0, w);
			return mkNot(mkBin(Op::Eq, p, sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w)));
		}
	}
	Node *x = sg ? mkSExt(a, w + 1) : mkZExt(a, w + 1), *y = sg ? mkSExt(b, w + 1) : mkZExt(b, w + 1);
	Node* p = mkBin(op, x, y); Node* lo = mkExtract(p, 0, w);
	return mkNot(mkBin(Op::Eq, p, sg ? mkSExt(lo, w + 1) : mkZExt(lo, w + 1)));
}
static Node* satop(Op op, bool sg, Node* a, Node* b) {
	u32 w = a->w; Node* r = mkBin(op, a, b); Node* ov = overflowBit(op, sg, a, b);
	Node* lim;
	if (!sg) lim = op == Op::Add ? mkConst(maskw(w), w) : mkConst(0, w);
	else lim = mkIte(mkExtract(a, w - 1, 1), mkConst((u128)1 << (w - 1), w), mkConst(maskw(w - 1), w));
	return mkIte(ov, lim, r);
}
static Node* satTrunc(Node* n, u32 w) { // signed saturation of n to w bits
	Node* mx = mkConst(maskw(w - 1), n->w); Node* mn = mkSExt(mkConst((u128)1 << (w - 1), w), n->w);
	return mkExtract(mkIte(mkBin(Op::Slt, mx, n), mx, mkIte(mkBin(Op::Slt, n, mn), mn, n)), 0, w);
}
static Node* crc32step(Node* crc, Node* data) { // crc: 32 bits, data: 8/16/32/64 bits
	Node* r = crc;
	for (u32 byte = 0; byte < data->w; byte += 8) {
		r = mkBin(Op::Xor, r, mkZExt(mkExtract(data, byte, 8), 32));
		for (int i = 0; i < 8; ++i) {
			Node* bit = mkExtract(r, 0, 1);
			r = mkBin(Op::Xor, mkBin(Op::LShr, r, mkConst(1, 32)), mkIte(bit, mkConst(0x82F63B78u, 32), mkConst(0, 32)));
		}
	}
	return r;
}
static Val lanewise(Inst& I, const std::vector<Val>& a, u32 n, u32 w, u32 lanes, const std::function<Node*(std::vector<Node*>&)>& f) {
	(void)I;
	auto one = [&](u32 l, bool vec) { std::vector<Node*> v; for (u32 k = 0; k < n; ++k) v.push_back(nd(vec ? (*a[k].agg)[l] : a[k], w)); return mkv(f(v)); };
	if (!lanes) return one(0, false);
	Val r = mkAgg(lanes); for (u32 l = 0; l < lanes; ++l) (*r.agg)[l] = one(l, true); return r;
}
static Val frozenUninit(const Val& v) { return v; }

static void intrinsic(State& s, Inst& I, Function* F, std::vector<Val>& a, Val& ret) {
	u32 id = F->getIntrinsicID();
	u32 w = I.w, L = I.lanes;
	auto lw = [&](u32 n, const std::function<Node*(std::vector<Node*>&)>& f) { ret = lanewise(I, a, n, w, L, f); };
	switch (id) {
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
		case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::sideeffect:
		case Intrinsic::x86_avx_vzeroupper:
			return;
		case Intrinsic::stacksave: return;
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: ret = a[0]; return;
		case Intrinsic::is_constant: ret = Val(0); return;
		case Intrinsic::objectsize: ret = Val(maskw(w)); return;
		case Intrinsic::trap: violate(s, "trap"); case Intrinsic::debugtrap: violate(s, "trap");
		case Intrinsic::ubsantrap: {
			static const std::map<u32, const char*> k = {{0, "add overflow"}, {1, "builtin unreachable"}, {3, "division overflow"}, {5, "float cast overflow"}, {11, "load of invalid value"}, {12, "missing return"}, {13, "mul overflow"}, {14, "negate overflow"}, {20, "shift out of bounds"}, {21, "sub overflow"}, {22, "type mismatch"}, {23, "alignment"}, {24, "vla bound"}, {18, "out of bounds"}, {19, "pointer overflow"}, {4, "dynamic type cache miss"}, {16, "nonnull arg"}, {17, "nonnull return"}};
			auto it = k.find((u32)a[0].c);
			violate(s, std::string("undefined behaviour: ") + (it == k.end() ? std::to_string((u32)a[0].c) : it->second));
		}
		case Intrinsic::eh_typeid_for: { auto* c = cast<Constant>(cast<CallBase>(I.I)->getArgOperand(0))->stripPointerCasts(); ret = Val(tiId(isa<ConstantPointerNull>(c) ? "<any>" : c->getName().str())); return; }
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
			u64 n = concVal(s, a[2], 64, "memcpy length");
			if (!n) return;
			u64 d = concVal(s, a[0], 64, "memcpy destination"), src = concVal(s, a[1], 64, "memcpy source");
			copyMem(s, d, src, n, true); return;
		}
		case Intrinsic::memset: case Intrinsic::memset_inline: {
			u64 n = concVal(s, a[2], 64, "memset length"); if (!n) return;
			u64 d = concVal(s, a[0], 64, "memset destination"); checkRange(s, d, n, true);
			Bytes* b = s.mem.mutBytes(idOf(d)); u64 o = offOf(d);
			if (!a[1].n) { memset(&b->c[o], (int)(u8)a[1].c, n); memset(&b->st[o], 0, n); }
			else for (u64 i = 0; i < n; ++i) setByte(b, o + i, a[1].n);
			return;
		}
		case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
			u32 ww = widthOf(F->getArg(0)->getType()); Node *x = nd(a[0], ww), *y = nd(a[1], ww);
			bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
			Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Op::Sub : Op::Mul;
			ret = mkAgg(2); (*ret.agg)[0] = mkv(mkBin(op, x, y)); (*ret.agg)[1] = mkv(overflowBit(op, sg, x, y)); return;
		}
		case Intrinsic::uadd_sat: lw(2, [](auto& v) { return satop(Op::Add, false, v[0], v[1]); }); return;
		case Intrinsic::usub_sat: lw(2, [](auto& v) { return satop(Op::Sub, false, v[0], v[1]); }); return;
		case Intrinsic::sadd_sat: lw(2, [](auto& v) { return satop(Op::Add, true, v[0], v[1]); }); return;
		case Intrinsic::ssub_sat: lw(2, [](auto& v) { return satop(Op::Sub, true, v[0], v[1]); }); return;
		case Intrinsic::smax: lw(2, [](auto& v) { return smin(v[0], v[1], true, true); }); return;
		case Intrinsic::smin: lw(2, [](auto& v) { return smin(v[0], v[1], true, false); }); return;
		case Intrinsic::umax: lw(2, [](auto& v) { return smin(v[0], v[1], false, true); }); return;
		case Intrinsic::umin: lw(2, [](auto& v) { return smin(v[0], v[1], false, false); }); return;
		case Intrinsic::abs: { ret = lanewise(I, a, 1, w, L, [](auto& v) { return mkIte(mkExtract(v[0], v[0]->w - 1, 1), mkBin(Op::Sub, mkConst(0, v[0]->w), v[0]), v[0]); }); return; }
		case Intrinsic::ctpop: lw(1, [](auto& v) { return ctpop(v[0]); }); return;
		case Intrinsic::cttz: lw(1, [](auto& v) { return cttz(v[0]); }); return;
		case Intrinsic::ctlz: lw(1, [](auto& v) { return ctlz(v[0]); }); return;
		case Intrinsic::bswap: lw(1, [](auto& v) { return bswap(v[0]); }); return;
		case Intrinsic::bitreverse: lw(1, [](auto& v) { Node* r = nullptr; for (u32 i = 0; i < v[0]->w; ++i) { Node* b = mkExtract(v[0], i, 1); r = r ? mkConcat(r, b) : b; } return r; }); return;
		case Intrinsic::fshl: case Intrinsic::fshr: {
			bool left = id == Intrinsic::fshl;
			lw(3, [left](auto& v) { u32 w = v[0]->w; Node* sh = mkBin(Op::URem, v[2], mkConst(w, w)); Node* inv = mkBin(Op::Sub, mkConst(w, w), sh); // shift >= w yields 0
				return left ? mkBin(Op::Or, mkBin(Op::Shl, v[0], sh), mkBin(Op::LShr, v[1], inv)) : mkBin(Op::Or, mkBin(Op::Shl, v[0], inv), mkBin(Op::LShr, v[1], sh)); });
			return;
		}
		case Intrinsic::fabs: lw(1, [](auto& v) { return fabsN(v[0]); }); return;
		case Intrinsic::sqrt: lw(1, [](auto& v) { return mkUn(Op::FSqrt, v[0], v[0]->w); }); return;
		case Intrinsic::fma: lw(3, [](auto& v) { return mkTri(Op::FFma, v[0], v[1], v[2]); }); return;
		case Intrinsic::fmuladd: lw(3, [](auto& v) { return mkBin(Op::FAdd, mkBin(Op::FMul, v[0], v[1]), v[2]); }); return;
		case Intrinsic::floor: lw(1, [](auto& v) { return mkUn(Op::FRound, v[0], v[0]->w, 3); }); return;
		case Intrinsic::ceil: lw(1, [](auto& v) { return mkUn(Op::FRound, v[0], v[0]->w, 2); }); return;
		case Intrinsic::trunc: lw(1, [](auto& v) { return mkUn(Op::FRound, v[0], v[0]->w, 4); }); return;
		case Intrinsic::round: lw(1, [](auto& v) { return mkUn(Op::FRound, v[0], v[0]->w, 1); }); return;
		case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: lw(1, [](auto& v) { return mkUn(Op::FRound, v[0], v[0]->w, 0); }); return;
		case Intrinsic::copysign: lw(2, [](auto& v) {
			if (g_realMode && !(isC(v[0]) && isC(v[1]))) { Node* ab = fabsN(v[0]); return mkIte(mkBin(Op::FLt, v[1], mkConst(0, v[1]->w)), fneg(ab), ab); }
			u32 w = v[0]->w; return mkBin(Op::Or, mkBin(Op::And, v[0], mkConst(maskw(w - 1), w)), mkBin(Op::And, v[1], mkConst((u128)1 << (w - 1), w))); }); return;
		case Intrinsic::minnum: lw(2, [](auto& v) { return mkIte(mkBin(Op::FUno, v[0], v[0]), v[1], mkIte(mkBin(Op::FUno, v[1], v[1]), v[0], mkIte(mkBin(Op::FLt, v[1], v[0]), v[1], v[0]))); }); return;
		case Intrinsic::maxnum: lw(2, [](auto& v) { return mkIte(mkBin(Op::FUno, v[0], v[0]), v[1], mkIte(mkBin(Op::FUno, v[1], v[1]), v[0], mkIte(mkBin(Op::FLt, v[0], v[1]), v[1], v[0]))); }); return;
		case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
			Op op = id == Intrinsic::vector_reduce_add ? Op::Add : id == Intrinsic::vector_reduce_or ? Op::Or : id == Intrinsic::vector_reduce_and ? Op::And : Op::Xor;
			Node* r = nd((*a[0].agg)[0], w); for (size_t i = 1; i < a[0].agg->size(); ++i) r = mkBin(op, r, nd((*a[0].agg)[i], w)); ret = mkv(r); return;
		}
		case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: {
			bool sg = id == Intrinsic::fptosi_sat; u32 ow = widthOf(F->getArg(0)->getType()->getScalarType());
			auto cvt = [&](Node* x) {
				double lo = sg ? -std::ldexp(1.0, w - 1) : 0, hi = sg ? std::ldexp(1.0, w - 1) : std::ldexp(1.0, w);
				auto fc = [&](double d) { if (ow == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); return mkConst(b, 32); } u64 b; memcpy(&b, &d, 8); return mkConst(b, 64); };
				Node* mx = mkConst(sg ? maskw(w - 1) : maskw(w), w); Node* mn = mkConst(sg ? (u128)1 << (w - 1) : 0, w);
				return mkIte(mkBin(Op::FUno, x, x), mkConst(0, w), mkIte(mkBin(Op::FLe, fc(hi), x), mx, mkIte(mkBin(Op::FLt, x, fc(lo)), mn, mkUn(sg ? Op::FToSI : Op::FToUI, x, w))));
			};
			if (L) { ret = mkAgg(L); for (u32 l = 0; l < L; ++l) (*ret.agg)[l] = mkv(cvt(nd((*a[0].agg)[l], ow))); } else ret = mkv(cvt(nd(a[0], ow)));
			return;
		}
		// --- x86 SIMD used by the codecs
		case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b: {
			ret = mkAgg(L);
			for (u32 l = 0; l < L; ++l) {
				u32 base = l / 16 * 16; Node* c = nd((*a[1].agg)[l], 8);
				if (isC(c)) { if (c->val & 0x80) (*ret.agg)[l] = Val(0); else (*ret.agg)[l] = (*a[0].agg)[base + (c->val & 15)]; continue; }
				std::vector<Node*> t; for (u32 k = 0; k < 16; ++k) t.push_back(nd((*a[0].agg)[base + k], 8));
				(*ret.agg)[l] = mkv(mkIte(mkExtract(c, 7, 1), mkConst(0, 8), mkReadTable(t, mkExtract(c, 0, 4))));
			}
			return;
		}
		case Intrinsic::x86_ssse3_pmadd_ub_sw_128: case Intrinsic::x86_avx2_pmadd_ub_sw: {
			ret = mkAgg(L);
			for (u32 l = 0; l < L; ++l) {
				auto m = [&](u32 k) { return mkBin(Op::Mul, mkZExt(nd((*a[0].agg)[k], 8), 32), mkSExt(nd((*a[1].agg)[k], 8), 32)); };
				(*ret.agg)[l] = mkv(satTrunc(mkBin(Op::Add, m(2 * l), m(2 * l + 1)), 16));
			}
			return;
		}
		case Intrinsic::x86_sse2_pmadd_wd: case Intrinsic::x86_avx2_pmadd_wd: {
			ret = mkAgg(L);
			for (u32 l = 0; l < L; ++l) {
				auto m = [&](u32 k) { return mkBin(Op::Mul, mkSExt(nd((*a[0].agg)[k], 16), 32), mkSExt(nd((*a[1].agg)[k], 16), 32)); };
				(*ret.agg)[l] = mkv(mkBin(Op::Add, m(2 * l), m(2 * l + 1)));
			}
			return;
		}
		case Intrinsic::x86_sse41_pblendvb: case Intrinsic::x86_avx2_pblendvb: {
			ret = mkAgg(L);
			for (u32 l = 0; l < L; ++l) (*ret.agg)[l] = mkv(mkIte(mkExtract(nd((*a[2].agg)[l], 8), 7, 1), nd((*a[1].agg)[l], 8), nd((*a[0].agg)[l], 8)));
			return;
		}
		case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: {
			Node* r = nullptr; for (auto& x : *a[0].agg) { Node* b = mkExtract(nd(x, 8), 7, 1); r = r ? mkConcat(b, r) : b; }
			ret = mkv(mkZExt(r, 32)); return;
		}
		case Intrinsic::x86_sse2_packuswb_128: {
			ret = mkAgg(16);
			for (u32 l = 0; l < 16; ++l) { Node* x = nd((*a[l / 8].agg)[l % 8], 16); (*ret.agg)[l] = mkv(mkIte(mkExtract(x, 15, 1), mkConst(0, 8), mkIte(mkBin(Op::Ult, mkConst(255, 16), x), mkConst(255, 8), mkExtract(x, 0, 8)))); }
			return;
		}
		case Intrinsic::x86_avx2_permd: {
			ret = mkAgg(8); std::vector<Node*> t; for (auto& x : *a[0].agg) t.push_back(nd(x, 32));
			for (u32 l = 0; l < 8; ++l) { Node* c = mkExtract(nd((*a[1].agg)[l], 32), 0, 3); (*ret.agg)[l] = isC(c) ? (*a[0].agg)[(u32)c->val] : mkv(mkReadTable(t, c)); }
			return;
		}
		case Intrinsic::x86_sse42_crc32_32_8: ret = mkv(crc32step(nd(a[0], 32), nd(a[1], 8))); return;
		case Intrinsic::x86_sse42_crc32_32_16: ret = mkv(crc32step(nd(a[0], 32), nd(a[1], 16))); return;
		case Intrinsic::x86_sse42_crc32_32_32: ret = mkv(crc32step(nd(a[0], 32), nd(a[1], 32))); return;
		case Intrinsic::x86_sse42_crc32_64_64: ret = mkv(mkZExt(crc32step(mkExtract(nd(a[0], 64), 0, 32), nd(a[1], 64)), 64)); return;
		default: incomplete(s, "intrinsic " + F->getName().str());
	}
}

// ------------------------------------------------------------------ named functions
static const u64 MAX_ALLOC = 256ull << 20;
static u64 allocHeap(State& s, u64 n, u8 kind, u8 fill) {
	u64 p = s.mem.alloc(n, OK_Heap, fill); s.mem.mut(idOf(p))->allocKind = kind; return p;
}
static bool tooBig(State& s, const Val& v, u64& n) {
	// symbolic sizes: split "absurdly large" (allocation fails) from the enumerated rest
	if (v.n) {
		Node* big = mkBin(Op::Ult, mkConst(1ull << 46, 64), v.n);
		if (decide(s, big, "allocation size")) return true;
		n = (u64)concretize(s, v.n, "allocation size");
	} else n = (u64)v.c;
	if (n > (1ull << 46)) return true;
	if (n > MAX_ALLOC) incomplete(s, "allocation larger than the modelled heap");
	return false;
}
static void hNew(State& s, Inst&, std::vector<Val>& a, Val& ret) { u64 n; if (tooBig(s, a[0], n)) throwBuiltin(s, "_ZTISt9bad_alloc"); ret = Val(allocHeap(s, n, 1, 2)); }
static void hNewNT(State& s, Inst&, std::vector<Val>& a, Val& ret) { u64 n; if (tooBig(s, a[0], n)) { ret = Val(0); return; } ret = Val(allocHeap(s, n, 1, 2)); }
static void hMalloc(State& s, Inst&, std::vector<Val>& a, Val& ret) { u64 n; if (tooBig(s, a[0], n)) { ret = Val(0); return; } ret = Val(allocHeap(s, n, 0, 2)); }
static void hCalloc(State& s, Inst&, std::vector<Val>& a, Val& ret) { u64 x = concVal(s, a[0], 64), y = concVal(s, a[1], 64); if (x * y > MAX_ALLOC) incomplete(s, "calloc size"); ret = Val(allocHeap(s, x * y, 0, 0)); }
static void hFree(State& s, Inst&, std::vector<Val>& a, Val&) {
	u64 p = concVal(s, a[0], 64, "free"); if (!p) return;
	const Obj* o = s.mem.get(idOf(p));
	if (!o) violate(s, "free of wild pointer");
	if (o->kind == OK_Dead) violate(s, o->was == OK_Heap ? "double free" : "free of non-heap memory");
	if (o->kind != OK_Heap) violate(s, "free of non-heap memory");
	if (offOf(p)) violate(s, "free of interior pointer");
	s.mem.kill(idOf(p));
}
static void hNop(State&, Inst&, std::vector<Val>&, Val& ret) { ret = Val(0); }
static void hTerminate(State& s, Inst&, std::vector<Val>&, Val&) { violate(s, "std::terminate called"); }
static void hAbort(State& s, Inst&, std::vector<Val>&, Val&) { violate(s, "abort called"); }
static void hPureVirtual(State& s, Inst&, std::vector<Val>&, Val&) { violate(s, "pure virtual call"); }
static void hAssertFail(State& s, Inst&, std::vector<Val>&, Val&) { violate(s, "assertion failed"); }
static void hMemcpy(State& s, Inst&, std::vector<Val>& a, Val& ret) { u64 n = concVal(s, a[2], 64, "memcpy length"); ret = a[0]; if (!n) return; copyMem(s, concVal(s, a[0], 64), concVal(s, a[1], 64), n, true); }
static void hMemset(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	u64 n = concVal(s, a[2], 64, "memset length"); ret = a[0]; if (!n) return; u64 d = concVal(s, a[0], 64); checkRange(s, d, n, true);
	Bytes* b = s.mem.mutBytes(idOf(d)); Node* v = mkExtract(nd(a[1], 32), 0, 8); for (u64 i = 0; i < n; ++i) setByte(b, offOf(d) + i, v);
}
static void hMemcmp(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	u64 n = concVal(s, a[2], 64, "memcmp length"); if (!n) { ret = Val(0); return; }
	u64 p = concVal(s, a[0], 64), q = concVal(s, a[1], 64); checkRange(s, p, n, false); checkRange(s, q, n, false);
	Node* r = mkConst(0, 32);
	for (u64 i = n; i-- > 0;) {
		Node *x = nd(loadConc(s, p + i, 1), 8), *y = nd(loadConc(s, q + i, 1), 8);
		Node* e = mkBin(Op::Eq, x, y);
		r = mkIte(e, r, mkIte(mkBin(Op::Ult, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
	}
	ret = mkv(r);
}
static void hBcmp(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	u64 n = concVal(s, a[2], 64, "memcmp length"); if (!n) { ret = Val(0); return; }
	u64 p = concVal(s, a[0], 64), q = concVal(s, a[1], 64); checkRange(s, p, n, false); checkRange(s, q, n, false);
	Node* e = mkConst(1, 1);
	for (u64 i = n; i-- > 0;) e = mkBin(Op::And, e, mkBin(Op::Eq, nd(loadConc(s, p + i, 1), 8), nd(loadConc(s, q + i, 1), 8)));
	ret = mkv(mkIte(e, mkConst(0, 32), mkConst(1, 32)));
}
static void hStrlen(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	u64 p = concVal(s, a[0], 64), n = 0;
	for (;;) { Val v = loadConc(s, p + n, 1); bool z = v.n ? decide(s, mkBin(Op::Eq, v.n, mkConst(0, 8)), "strlen") : v.c == 0; if (z) break; ++n; }
	ret = Val(n);
}
static void hMemchr(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	u64 n = concVal(s, a[2], 64); u64 p = n ? concVal(s, a[0], 64) : 0; Node* ch = mkExtract(nd(a[1], 32), 0, 8);
	for (u64 i = 0; i < n; ++i) { Node* e = mkBin(Op::Eq, nd(loadConc(s, p + i, 1), 8), ch); if (decide(s, e, "memchr")) { ret = Val(p + i); return; } }
	ret = Val(0);
}
static void hStrcmp(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	u64 p = concVal(s, a[0], 64), q = concVal(s, a[1], 64);
	for (u64 i = 0;; ++i) {
		Node *x = nd(loadConc(s, p + i, 1), 8), *y = nd(loadConc(s, q + i, 1), 8);
		if (!decide(s, mkBin(Op::Eq, x, y), "strcmp")) { ret = mkv(mkIte(mkBin(Op::Ult, x, y), mkConst(0xffffffff, 32), mkConst(1, 32))); return; }
		if (decide(s, mkBin(Op::Eq, x, mkConst(0, 8)), "strcmp")) { ret = Val(0); return; }
	}
}
static void hSqrt(State&, Inst& I, std::vector<Val>& a, Val& ret) { ret = mkv(mkUn(Op::FSqrt, nd(a[0], I.w), I.w)); }
static void hFmod(State&, Inst& I, std::vector<Val>& a, Val& ret) { ret = mkv(mkBin(Op::FRem, nd(a[0], I.w), nd(a[1], I.w))); }
static void hOpaqueF(State& s, Inst& I, std::vector<Val>& a, Val& ret) {
	bool c = true; for (auto& x : a) if (x.n) c = false;
	if (!c) incomplete(s, "transcendental function on symbolic value");
	std::string n = I.callee->getName().str(); double x, y = 0;
	auto g = [&](const Val& v) { if (I.w == 32) { u32 b = (u32)v.c; float f; memcpy(&f, &b, 4); return (double)f; } u64 b = (u64)v.c; double d; memcpy(&d, &b, 8); return d; };
	x = g(a[0]); if (a.size() > 1) y = g(a[1]);
	if (n.back() == 'f') n.pop_back();
	double r = n == "sin" ? sin(x) : n == "cos" ? cos(x) : n == "tan" ? tan(x) : n == "acos" ? acos(x) : n == "asin" ? asin(x) : n == "atan2" ? atan2(x, y) : n == "pow" ? pow(x, y) : n == "exp" ? exp(x) : n == "log" ? log(x) : 0;
	if (I.w == 32) { float f = (float)r; u32 b; memcpy(&b, &f, 4); ret = Val(b); } else { u64 b; memcpy(&b, &r, 8); ret = Val(b); }
}
// exceptions
static void hAllocExc(State& s, Inst&, std::vector<Val>& a, Val& ret) { u64 n = concVal(s, a[0], 64); ret = Val(s.mem.alloc(n + 8, OK_Exc, 2)); }
static void hFreeExc(State&, Inst&, std::vector<Val>&, Val&) {}
static void hThrow(State& s, Inst&, std::vector<Val>& a, Val&) {
	u64 p = (u64)a[0].c; auto it = g_byAddr.find((u64)a[1].c);
	u64 ti = tiId(it == g_byAddr.end() ? "?" : it->second->getName().str());
	s.excType[p] = ti;
	unwind(s, p, ti); throw Restart();
}
static void hBeginCatch(State& s, Inst&, std::vector<Val>& a, Val& ret) { s.caught.push_back({(u64)a[0].c}); ret = a[0]; }
static void hEndCatch(State& s, Inst&, std::vector<Val>&, Val&) { if (!s.caught.empty()) s.caught.pop_back(); }
static void hRethrow(State& s, Inst&, std::vector<Val>&, Val&) { if (s.caught.empty()) violate(s, "rethrow without exception"); u64 p = s.caught.back().ptr; unwind(s, p, s.excType[p]); throw Restart(); }
static void hGuardAcquire(State& s, Inst&, std::vector<Val>& a, Val& ret) { Val v = loadConc(s, (u64)a[0].c, 1); ret = Val(v.c == 0); }
static void hGuardRelease(State& s, Inst&, std::vector<Val>& a, Val&) { storeConc(s, (u64)a[0].c, 1, Val(1)); }
template <int K> static void hThrowStd(State& s, Inst&, std::vector<Val>&, Val&) {
	static const char* t[] = {"_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt11logic_error", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call", "_ZTISt18bad_variant_access", "_ZTISt12system_error", "_ZTISt16invalid_argument"};
	throwBuiltin(s, t[K]);
}
// harness interface
static std::string uniqueName(State& s, const std::string& n) { u32 k = s.nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static std::unordered_map<std::string, Node*> g_symByName;
static Node* symFor(State& s, const std::string& base, u32 w) {
	std::string n = uniqueName(s, base);
	if (g_haveFixed) { auto it = g_fixed.find(n); return mkConst(it == g_fixed.end() ? 0 : it->second, w); }
	std::string k = n + ":" + std::to_string(w);
	auto it = g_symByName.find(k);
	Node* r;
	if (it != g_symByName.end()) r = it->second; else { r = mkSym(n, w); g_symByName[k] = r; }
	s.symsUsed.push_back(r->aux);
	return r;
}
static void hSym(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	std::string n = readCStr(s, concVal(s, a[0], 64)); u32 w = (u32)concVal(s, a[1], 32);
	ret = mkv(mkZExt(symFor(s, n, w), 64));
}
static void hSymF(State& s, Inst& I, std::vector<Val>& a, Val& ret) { ret = mkv(symFor(s, readCStr(s, concVal(s, a[0], 64)), I.w)); }
static void hBytes(State& s, Inst&, std::vector<Val>& a, Val&) {
	std::string n = readCStr(s, concVal(s, a[0], 64)); u64 p = concVal(s, a[1], 64), len = concVal(s, a[2], 64);
	if (len) checkRange(s, p, len, true);
	for (u64 i = 0; i < len; ++i) storeConc(s, p + i, 1, mkv(symFor(s, n + "[" + std::to_string(i) + "]", 8)));
}
static void hAssume(State& s, Inst&, std::vector<Val>& a, Val&) {
	Node* c = mkExtract(nd(a[0], 32), 0, 1);
	if (isTrue(c)) return;
	if (isFalse(c)) throw PathEnd();
	if (evalNode(c, *s.model) != 1) {
		ModelP m; SatRes r = checkSat(s.pc, c, s.model, m);
		if (r == SatRes::Unknown) { g_incomplete["assumption undecided"]++; throw PathEnd(); }
		if (r == SatRes::Unsat) throw PathEnd();
		s.model = m;
	}
	addPc(s, c);
}
static void hAssert(State& s, Inst&, std::vector<Val>& a, Val&) {
	std::string msg = readCStr(s, concVal(s, a[1], 64));
	g_asserts++; g_asserted.insert(msg);
	Node* c = mkExtract(nd(a[0], 32), 0, 1);
	if (isTrue(c)) return;
	if (isFalse(c)) violate(s, "assertion: " + msg);
	// conjunctions are discharged one conjunct at a time: each slice of the path condition stays small
	std::vector<Node*> todo{c}, cj;
	while (!todo.empty()) { Node* x = todo.back(); todo.pop_back(); if (x->op == Op::And) { todo.push_back(x->a); todo.push_back(x->b); } else cj.push_back(x); }
	if (cj.size() > 200) { mustHold(s, c, "assertion: " + msg, true); return; }
	std::reverse(cj.begin(), cj.end());
	for (Node* x : cj) mustHold(s, x, "assertion: " + msg, true);
}
static void hReach(State& s, Inst&, std::vector<Val>& a, Val&) {
	static std::set<std::string> names; auto it = names.insert(readCStr(s, concVal(s, a[0], 64))).first;
	for (auto* r : s.reached) if (r == it->c_str()) return;
	s.reached.push_back(it->c_str());
}
static void hFix(State& s, Inst&, std::vector<Val>& a, Val& ret) { ret = Val(concVal(s, a[0], 64, "choice")); }
static void hIsConst(State&, Inst&, std::vector<Val>& a, Val& ret) { ret = Val(a[0].n == nullptr); }
static void hLive(State& s, Inst&, std::vector<Val>&, Val& ret) { ret = Val(s.mem.liveHeap); }
static void hSymbolic(State&, Inst&, std::vector<Val>&, Val& ret) { ret = Val(1); }
static void hParam(State& s, Inst&, std::vector<Val>& a, Val& ret) {
	std::string n = readCStr(s, concVal(s, a[0], 64)); auto it = g_params.find(n);
	ret = it == g_params.end() ? a[1] : Val(strtoull(it->second.c_str(), 0, 0));
}
static void hPrint(State& s, Inst&, std::vector<Val>& a, Val&) {
	u64 p = concVal(s, a[0], 64), n = concVal(s, a[1], 64); std::string r;
	for (u64 i = 0; i < n; ++i) { Val v = loadConc(s, p + i, 1); u8 c = (u8)(v.n ? evalNode(v.n, *s.model) : v.c); r += (char)c; }
	fprintf(stderr, "[print] %s\n", r.c_str());
}
static void hPrintU(State& s, Inst&, std::vector<Val>& a, Val&) {
	fprintf(stderr, "[print] %s = %s (%s)\n", readCStr(s, (u64)a[0].c).c_str(), a[1].n ? nodeStr(a[1].n, 8).c_str() : "const", hex(a[1].n ? evalNode(a[1].n, *s.model) : a[1].c).c_str());
}
static void hObserve(State& s, Inst&, std::vector<Val>& a, Val&) {
	// record an observable value (evaluated under the path's sample model) for translator validation
	u64 v = (u64)(a[1].n ? evalNode(a[1].n, *s.model) : a[1].c);
	if (a[1].n && a[1].n->tainted) return;
	// the model may still be refined later on this path: remember only concrete ones
	if (a[1].n) return;
	s.observed.push_back(readCStr(s, (u64)a[0].c) + "=" + hex(v));
}
static void hInBounds(State& s, Inst&, std::vector<Val>& a, Val& ret) { // readable(p,n)
	u64 p = concVal(s, a[0], 64), n = concVal(s, a[1], 64); ret = Val(n == 0 || validRange(s, p, n, false));
}
static void hPinned(State& s, Inst&, std::vector<Val>& a, Val&) { // register an assertion as executed
	g_asserted.insert(readCStr(s, concVal(s, a[0], 64)));
}
static void hEnd(State& s, Inst&, std::vector<Val>&, Val&) { finishPath(s); throw PathEnd(); }
static void hUninit(State& s, Inst&, std::vector<Val>& a, Val&) { // mark memory uninitialised
	u64 p = concVal(s, a[0], 64), n = concVal(s, a[1], 64); if (!n) return; checkRange(s, p, n, true);
	Bytes* b = s.mem.mutBytes(idOf(p)); for (u64 i = 0; i < n; ++i) b->st[offOf(p) + i] = 2;
}
// all bytes of [p,p+n) are initialised (none depends on uninitialised memory)
static void hCheckInit(State& s, Inst&, std::vector<Val>& a, Val&) {
	u64 p = concVal(s, a[0], 64), n = concVal(s, a[1], 64); if (!n) return; checkRange(s, p, n, false);
	g_asserts++;
	for (u64 i = 0; i < n; ++i) { Val v = loadConc(s, p + i, 1); if (v.n && v.n->tainted) untaint(s, v.n, "output"); }
}
// bytewise equality of two buffers as a single boolean, without branching
static void hEqBytes(State& s, Inst& I, std::vector<Val>& a, Val& ret) { hBcmp(s, I, a, ret); ret = mkv(mkZExt(mkBin(Op::Eq, nd(ret, 32), mkConst(0, 32)), 32)); }

static void initHandlers() {
	auto H = [&](const char* n, Handler h) { g_handlerIdx[n] = (int)g_handlers.size(); g_handlers.push_back({n, h}); };
	H("_Znwm", hNew); H("_Znam", hNew); H("_ZnwmSt11align_val_t", hNew); H("_ZnamSt11align_val_t", hNew);
	H("_ZnwmRKSt9nothrow_t", hNewNT); H("_ZnamRKSt9nothrow_t", hNewNT); H("_ZnwmSt11align_val_tRKSt9nothrow_t", hNewNT); H("_ZnamSt11align_val_tRKSt9nothrow_t", hNewNT); H("malloc", hMalloc); H("calloc", hCalloc);
	for (auto* n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "free"}) H(n, hFree);
	for (auto* n : {"__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "__cxa_free_exception"}) H(n, hNop);
	H("_ZSt9terminatev", hTerminate); H("abort", hAbort); H("__cxa_pure_virtual", hPureVirtual); H("__assert_fail", hAssertFail); H("_ZSt21__glibcxx_assert_failPKciS0_S0_", hAssertFail);
	H("memcpy", hMemcpy); H("memmove", hMemcpy); H("memset", hMemset); H("memcmp", hMemcmp); H("bcmp", hBcmp); H("strlen", hStrlen); H("memchr", hMemchr); H("strcmp", hStrcmp);
	H("sqrtf", hSqrt); H("sqrt", hSqrt); H("fmodf", hFmod); H("fmod", hFmod);
	for (auto* n : {"sinf", "cosf", "tanf", "acosf", "asinf", "atan2f", "powf", "expf", "logf", "sin", "cos", "tan", "acos", "asin", "atan2", "pow", "exp", "log"}) { H(n, hOpaqueF); g_weak.insert(n); }
	H("__cxa_allocate_exception", hAllocExc); H("__cxa_throw", hThrow); H("__cxa_begin_catch", hBeginCatch); H("__cxa_end_catch", hEndCatch); H("__cxa_rethrow", hRethrow);
	H("__cxa_guard_acquire", hGuardAcquire); H("__cxa_guard_release", hGuardRelease); H("__cxa_guard_abort", hNop);
	H("_ZSt20__throw_out_of_rangePKc", hThrowStd<0>); H("_ZSt24__throw_out_of_range_fmtPKcz", hThrowStd<0>); H("_ZSt20__throw_length_errorPKc", hThrowStd<1>); H("_ZSt19__throw_logic_errorPKc", hThrowStd<2>);
	H("_ZSt17__throw_bad_allocv", hThrowStd<3>); H("_ZSt28__throw_bad_array_new_lengthv", hThrowStd<4>); H("_ZSt25__throw_bad_function_callv", hThrowStd<5>); H("_ZSt26__throw_bad_variant_accessPKc", hThrowStd<6>);
	H("_ZSt20__throw_system_errori", hThrowStd<7>); H("_ZSt24__throw_invalid_argumentPKc", hThrowStd<8>);
	H("fgse_sym", hSym); H("fgse_symf", hSymF); H("fgse_symd", hSymF); H("fgse_bytes", hBytes); H("fgse_assume", hAssume); H("fgse_assert", hAssert); H("fgse_reach", hReach); H("fgse_fix", hFix);
	H("fgse_is_const", hIsConst); H("fgse_live", hLive); H("fgse_symbolic", hSymbolic); H("fgse_param", hParam); H("fgse_print", hPrint); H("fgse_printu", hPrintU); H("fgse_observe", hObserve);
	H("fgse_readable", hInBounds); H("fgse_pinned", hPinned); H("fgse_end", hEnd); H("fgse_uninit", hUninit); H("fgse_check_init", hCheckInit); H("fgse_eq_bytes", hEqBytes);
}
