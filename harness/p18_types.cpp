// Generated indices (P18), hashing and bit utilities (P19), SmallVector (P20), StaticVector and Optional (P21), accessor bounds (P22).
#include "gltf.hpp"
#include <fastgltf/tools.hpp>
#include <fastgltf/util.hpp>
#include <algorithm>
#include <optional>
using vh::J;

// ---------------------------------------------------------------- P18
// a mesh document: primitives with or without indices, every vertex count of interest
static const uint64_t vertexCounts[] = {0, 1, 2, 3, 4, 100, 253, 254, 255, 256, 257, 300, 65533, 65534, 65535, 65536, 65537};
struct Prim { bool own, pos; unsigned acc; };
static void indexed(unsigned shape, uint64_t n0, uint64_t n1, bool on) {
	// shapes: primitives of two meshes
	static const std::vector<std::vector<Prim>> shapes[] = {
		{{{false, true, 0}}}, {{{true, true, 0}, {false, true, 1}}}, {{{false, true, 1}}, {{false, true, 0}}}, {{{true, true, 0}}, {{true, true, 1}}}, {{{false, true, 0}, {false, true, 0}}}, {{{false, false, 0}}}, {{{false, true, 0}}, {{true, false, 0}, {false, false, 0}}} };
	auto& ms = shapes[shape]; J j; j << "{" ASSET ",\"buffers\":[{\"byteLength\":64,\"uri\":\"b.bin\"}],\"bufferViews\":[{\"buffer\":0,\"byteLength\":64}],\"accessors\":[";
	for (unsigned i = 0; i < 2; ++i) { j << (i ? "," : "") << "{\"componentType\":5126,\"type\":\"VEC3\",\"bufferView\":0,\"count\":"; j.lit(i ? n1 : n0); j << "}"; }
	j << ",{\"componentType\":5123,\"type\":\"SCALAR\",\"bufferView\":0,\"count\":7}],\"meshes\":[";
	bool missing = false;
	for (size_t m = 0; m < ms.size(); ++m) {
		j << (m ? "," : "") << "{\"primitives\":[";
		for (size_t p = 0; p < ms[m].size(); ++p) {
			auto& x = ms[m][p]; j << (p ? "," : "") << "{\"attributes\":{\"NORMAL\":1"; if (x.pos) { j << ",\"POSITION\":"; j.lit(x.acc); } j << "}"; if (x.own) j << ",\"indices\":2"; j << "}";
			missing |= !x.own && !x.pos;
		}
		j << "]}";
	}
	j << "]}";
	auto e = vh::load(j, fg::Extensions::None, on ? fg::Options::GenerateMeshIndices : fg::Options::None);
	if (on && missing) { CHECK(e.error() != fg::Error::None, "without positions there is nothing to generate indices from"); REACH("missing"); return; }
	CHECK(e.error() == fg::Error::None, "the document loads"); if (e.error() != fg::Error::None) return;
	auto& a = e.get(); size_t made = 0;
	CHECK(a.meshes.size() == ms.size(), "no mesh is added");
	for (size_t m = 0; m < ms.size(); ++m) for (size_t p = 0; p < ms[m].size(); ++p) {
		auto& x = ms[m][p]; auto& pr = a.meshes[m].primitives[p];
		CHECK(pr.attributes.size() == (x.pos ? 2u : 1u), "attributes are kept");
		if (x.own) { CHECK(pr.indicesAccessor.has_value() && *pr.indicesAccessor == 2, "own indices are kept"); continue; }
		if (!on) { CHECK(!pr.indicesAccessor.has_value(), "nothing is generated unless asked for"); continue; }
		CHECK(pr.indicesAccessor.has_value() && *pr.indicesAccessor < a.accessors.size(), "the primitive has indices"); if (!pr.indicesAccessor.has_value()) continue;
		++made; uint64_t n = x.acc ? n1 : n0; auto& acc = a.accessors[*pr.indicesAccessor];
		CHECK(acc.count == n && acc.type == fg::AccessorType::Scalar && !acc.normalized && !acc.sparse.has_value(), "one index per vertex");
		auto ct = acc.componentType; CHECK(ct == fg::ComponentType::UnsignedByte || ct == fg::ComponentType::UnsignedShort || ct == fg::ComponentType::UnsignedInt, "indices have an unsigned type");
		uint64_t max = ct == fg::ComponentType::UnsignedByte ? 0xff : ct == fg::ComponentType::UnsignedShort ? 0xffff : 0xffffffff;
		CHECK(n == 0 || n - 1 < max, "every index fits, and none is the restart value");
		CHECK(acc.bufferViewIndex.has_value() && *acc.bufferViewIndex >= 1 && *acc.bufferViewIndex < a.bufferViews.size(), "the indices have their own buffer view"); if (!acc.bufferViewIndex.has_value()) continue;
		auto& v = a.bufferViews[*acc.bufferViewIndex]; size_t sz = fg::getComponentByteSize(ct);
		CHECK(!v.byteStride.has_value() && !v.meshoptCompression && v.bufferIndex >= 1 && v.bufferIndex < a.buffers.size(), "a tight view of their own buffer");
		CHECK(acc.byteOffset + n * sz <= v.byteLength && v.byteOffset + v.byteLength <= a.buffers[v.bufferIndex].byteLength, "the indices are inside the buffer");
		auto bytes = fg::DefaultBufferDataAdapter{}(a, *acc.bufferViewIndex); CHECK(bytes.size() >= n * sz, "the data is there");
		bool ok = true;
		for (uint64_t i = 0; i < n; ++i) { uint64_t g = 0; for (size_t b = 0; b < sz; ++b) g |= (uint64_t)bytes[acc.byteOffset + i * sz + b] << (8 * b); ok &= g == i; }
		CHECK(ok, "vertices are drawn in their order");
		if (n && n <= 300) { uint64_t i = vh::u64("index"); vh::assume(i < n); CHECK(fg::getAccessorElement<uint32_t>(a, acc, i) == i, "the accessor tools read them"); }
	}
	CHECK(a.accessors.size() == 3 + made, "the document's accessors are kept"); CHECK(a.accessors[0].count == n0 && a.accessors[1].count == n1 && a.accessors[2].count == 7, "with their counts");
	CHECK(a.bufferViews.size() == 1 + made && a.buffers.size() == 1 + made, "nothing else is added");
	REACH("generated");
}
extern "C" void mesh_indices() {
	unsigned shape = vh::choose("shape", 7); bool on = vh::flip("on"); constexpr unsigned N = sizeof(vertexCounts) / sizeof(*vertexCounts);
	uint64_t n0 = vertexCounts[vh::choose("count0", on && shape == 0 ? N : 3)], n1 = vertexCounts[on && (shape == 1 || shape == 2) ? vh::choose("count1", N) : 4]; indexed(shape, n0, n1, on);
}
// every vertex count up to 300
extern "C" void mesh_indices_small() { uint64_t n = vh::u64("count"); vh::assume(n <= 300); n = fgse_fix(n); indexed(0, n, 3, true); }

// ---------------------------------------------------------------- P19
static uint32_t crcRef(const uint8_t* d, size_t n) { // bit by bit, reflected polynomial 0x1EDC6F41
	uint32_t c = 0;
	for (size_t i = 0; i < n; ++i) { c ^= d[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (0x82f63b78u & (0u - (c & 1))); }
	return c;
}
static void crcOf(uint8_t* p, size_t n, size_t off) {
	auto* d = p + off; uint32_t want = crcRef(d, n); std::string_view s((const char*)d, n);
	switch (vh::choose("variant", 4)) {
		case 0: CHECK(fg::crc32c(s) == want, "crc32c of a text"); break;
		case 1: CHECK(fg::crc32c(d, n) == want, "crc32c of bytes"); break;
		case 2: CHECK(fg::sse_crc32c(s) == want, "sse_crc32c of a text"); break;
		case 3: CHECK(fg::sse_crc32c(d, n) == want, "sse_crc32c of bytes"); break;
	}
	free(p); REACH("hashed");
}
extern "C" void crc_any() {
	size_t n = vh::choose("length", (uint32_t)fgse_param("max", 64) + 1), off = vh::choose("offset", 2);
	auto* p = (uint8_t*)malloc(n + off + 1); fgse_bytes("d", p, n + off); crcOf(p, n, off);
}
// the hash of a buffer follows its content
extern "C" void crc_again() {
	uint8_t d[8]; fgse_bytes("d", d, 8); uint32_t a, b, wa;
	if (vh::flip("sse")) { a = fg::sse_crc32c(d, 8); wa = crcRef(d, 8); fgse_bytes("e", d, 8); b = fg::sse_crc32c(d, 8); }
	else { a = fg::crc32c(d, 8); wa = crcRef(d, 8); fgse_bytes("e", d, 8); b = fg::crc32c(d, 8); }
	CHECK(a == wa, "first hash"); CHECK(b == crcRef(d, 8), "second hash"); REACH("hashed");
}
template <class T> static void bitsOf(const char* name, unsigned function) {
	T v = (T)fgse_sym(name, sizeof(T) * 8); constexpr unsigned W = sizeof(T) * 8;
	switch (function) {
		case 0: { unsigned want = W; for (unsigned i = 0; i < W; ++i) if (v >> i & 1) want = W - 1 - i; CHECK(fg::clz(v) == want, "clz counts leading zeros"); break; }
		case 1: { uint64_t want = 0; for (unsigned i = 0; i < W; ++i) want += v >> i & 1; CHECK(fg::popcount(v) == want, "popcount counts ones"); break; }
		case 2: { T r = fg::byteswap(v); bool ok = true; for (unsigned i = 0; i < sizeof(T); ++i) ok &= (uint8_t)((uint64_t)r >> (8 * i)) == (uint8_t)((uint64_t)v >> (8 * (sizeof(T) - 1 - i))); CHECK(ok, "byteswap reverses bytes"); break; }
		case 3: { using S = std::make_signed_t<T>; S s = (S)v; T want = s < 0 ? (T)(0 - v) : v; CHECK(fg::uabs(s) == want, "uabs is the magnitude"); CHECK(fg::uabs(v) == v, "of unsigned values too"); break; }
	}
	REACH("computed");
}
static void bitsAny(unsigned f) { switch (vh::choose("width", 4)) { case 0: bitsOf<uint8_t>("v8", f); break; case 1: bitsOf<uint16_t>("v16", f); break; case 2: bitsOf<uint32_t>("v32", f); break; case 3: bitsOf<uint64_t>("v64", f); break; } }
extern "C" void bits_clz() { bitsAny(0); }
extern "C" void bits_popcount() { bitsAny(1); }
extern "C" void bits_bytes() { bitsAny(2); }
extern "C" void bits_abs() { bitsAny(3); }
extern "C" void align_any() {
	uint64_t v = vh::u64("v"); vh::assume(v < ~0ull - 4096); unsigned k = vh::choose("shift", 13); int64_t al = 1ll << k;
	uint64_t up = fg::alignUp(v, al), down = fg::alignDown(v, (uint64_t)al);
	CHECK(up >= v && up - v < (uint64_t)al && (up & (al - 1)) == 0, "alignUp gives the next multiple"); CHECK(down <= v && v - down < (uint64_t)al && (down & (al - 1)) == 0, "alignDown gives the previous multiple");
	uint64_t f = vh::u64("flags"), b = vh::u64("bit"); 
	auto o = (fg::Options)f, ob = (fg::Options)b; CHECK((uint64_t)(o | ob) == (f | b) && (uint64_t)(o & ob) == (f & b) && (uint64_t)~o == ~f, "flag operators"); CHECK(fg::hasBit(o, ob) == ((f | b) == f), "hasBit of flags");
	auto o2 = o; o2 |= ob; CHECK(o2 == (fg::Options)(f | b), "|="); o2 = o; o2 &= ob; CHECK(o2 == (fg::Options)(f & b), "&=");
	uint64_t x = vh::u64("x"), y = vh::u64("y"); CHECK(fg::max(x, y) == (x > y ? x : y) && fg::min(x, y) == (x < y ? x : y), "min and max"); REACH("computed");
}
extern "C" void starts_any() {
	size_t n = vh::choose("length", 5), m = vh::choose("prefix", 4); char a[8], b[8]; fgse_bytes("a", a, n); fgse_bytes("b", b, m);
	bool want = m <= n; for (size_t i = 0; i < m && i < n; ++i) want &= a[i] == b[i];
	CHECK(fg::startsWith({a, n}, {b, m}) == want, "startsWith compares the whole prefix"); REACH("computed");
}

// ---------------------------------------------------------------- P20
static int live = 0; static uint64_t heapUses = 0;
struct Tr { // knows where it was constructed
	uint32_t v; const Tr* self;
	static void ok(bool b) { CHECK(b, "only constructed elements are used"); }
	Tr() : v(0), self(this) { ++live; } Tr(uint32_t v) : v(v), self(this) { ++live; }
	Tr(const Tr& o) : v(o.v), self(this) { ok(o.self == &o); ++live; } Tr(Tr&& o) noexcept : v(o.v), self(this) { ok(o.self == &o); o.v = 0xdead; ++live; }
	Tr& operator=(const Tr& o) { ok(self == this && o.self == &o); v = o.v; return *this; } Tr& operator=(Tr&& o) noexcept { ok(self == this && o.self == &o); v = o.v; if (&o != this) o.v = 0xdead; return *this; }
	~Tr() { ok(self == this); self = nullptr; --live; }
};
static uint32_t val(const uint32_t& v) { return v; } static uint32_t val(const Tr& t) { Tr::ok(t.self == &t); return t.v; }
struct Block { void* p; size_t n; int id; };
static std::vector<Block>* blocks;
template <class T> struct Al {
	using value_type = T; int id = 0; Al() = default; explicit Al(int i) : id(i) {} template <class U> Al(const Al<U>& o) : id(o.id) {}
	T* allocate(size_t n) { auto* p = (T*)malloc(n * sizeof(T) + (n == 0)); blocks->push_back({p, n, id}); ++heapUses; return p; }
	void deallocate(T* p, size_t n) {
		for (auto& b : *blocks) if (b.p == p) { CHECK(b.n == n, "memory is returned with its size"); CHECK(b.id == id, "memory is returned to its allocator"); b = blocks->back(); blocks->pop_back(); free(p); return; }
		CHECK(false, "only allocated memory is returned");
	}
	friend bool operator==(const Al& a, const Al& b) { return a.id == b.id; } friend bool operator!=(const Al& a, const Al& b) { return a.id != b.id; }
};
using Model = std::vector<uint32_t>;
template <class V> static void agree(V& v, const Model& m) {
	const V& c = v; CHECK(v.size() == m.size() && v.empty() == m.empty() && v.size_in_bytes() == m.size() * sizeof(*v.data()), "it has the elements of the history"); if (v.size() != m.size()) fgse_end();
	CHECK(v.capacity() >= v.size(), "the capacity covers the size"); size_t i = 0;
	CHECK((size_t)(v.end() - v.begin()) == m.size() && c.cbegin() == v.begin() && c.cend() == v.end(), "iterators span the elements");
	for (auto& e : c) { CHECK(val(e) == m[i], "elements have the values of the history"); CHECK(&e == &v[i] && &e == &c.at(i) && &e == v.data() + i, "elements are found by index"); ++i; }
	for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; CHECK(&*it == &c[i], "reverse iterators go backwards"); }
	if (!m.empty()) { CHECK(&v.front() == v.data() && &c.back() == v.data() + m.size() - 1, "front and back"); CHECK(&*v.rbegin() == &v.back() && &*(v.rend() - 1) == &v.front() && &*c.crbegin() == &c.back() && &*(c.crend() - 1) == &c.front(), "reverse iterators"); }
	CHECK(fgse_readable(v.data(), v.capacity() * sizeof(*v.data())) || v.capacity() == 0, "the capacity is there");
}
template <class T> static void smallHistory(unsigned ops, bool two) {
	using V = fg::SmallVector<T, 2, Al<T>>; std::vector<Block> held; blocks = &held; live = 0; held.reserve(16);
	{
		Model ma, mb; Al<T> al(1), al2(two ? 2 : 1); V a(al), b(al2); uint32_t seq = 0;
		auto fresh = [&] { return vh::u32(vh::nm("v", seq++).c_str()); };
		static const unsigned sizes[4] = {0, 3, 2, 1};
		for (unsigned i = 0, n = sizes[vh::choose("first", 2)]; i < n; ++i) { auto x = fresh(); a.emplace_back(x); ma.push_back(x); }
		for (unsigned i = 0, n = sizes[1 + vh::choose("second", 2)]; i < n; ++i) { auto x = fresh(); b.emplace_back(x); mb.push_back(x); }
		for (unsigned k = 0; k < ops; ++k) {
			static const unsigned sz[4] = {0, 1, 3, 5}, rs[3] = {1, 3, 6};
			switch (vh::choose("op", 14)) {
				case 0: { auto x = fresh(); auto& r = a.emplace_back(x); ma.push_back(x); CHECK(&r == &a.back(), "emplace_back returns the new element"); break; }
				case 1: { auto n = sz[vh::choose("size", 4)]; a.resize(n); ma.resize(n); break; }
				case 2: { auto n = sz[vh::choose("size", 4)]; auto x = fresh(); T t(x); a.resize(n, t); ma.resize(n, x); CHECK(val(t) == x, "the value stays"); break; }
				case 3: { auto n = rs[vh::choose("capacity", 3)]; auto before = a.capacity(); a.reserve(n); CHECK(a.capacity() >= n && a.capacity() >= before, "reserve provides the capacity"); break; }
				case 4: a.shrink_to_fit(); break;
				case 5: a.clear(); ma.clear(); break;
				case 6: { auto n = sz[vh::choose("size", 4)]; auto x = fresh(); T t(x); a.assign(n, t); ma.assign(n, x); break; }
				case 7: { auto x = fresh(), y = fresh(), z = fresh(); switch (vh::choose("list", 3)) { case 0: a.assign({}); ma.clear(); break; case 1: a.assign({T(x)}); ma = {x}; break; case 2: a.assign({T(x), T(y), T(z)}); ma = {x, y, z}; break; } break; }
				case 8: a = b; ma = mb; break;
				case 9: a = std::move(b); ma = mb; mb.clear(); break;
				case 10: { V c(a); agree(c, ma); if (!ma.empty()) { c.front() = T(7u); c.shrink_to_fit(); } agree(a, ma); break; }
				case 11: { V c(std::move(a)); agree(c, ma); CHECK(a.empty(), "a moved-from vector is empty"); auto x = fresh(); a.emplace_back(x); c.emplace_back(x); ma.push_back(x); agree(c, ma); ma = {x}; break; }
				case 12: { auto& self = a; if (vh::flip("move")) a = std::move(self); else a = self; break; }
				case 13: { V c(b.size(), al2); c = std::move(a); a = std::move(b); b = std::move(c); std::swap(ma, mb); break; }
			}
			agree(a, ma); agree(b, mb);
		}
	}
	CHECK(live == 0, "every element is destroyed once"); CHECK(held.empty(), "all memory is returned"); REACH("done");
	for (auto& b : held) free(b.p);
}
extern "C" void small_plain() { smallHistory<uint32_t>((unsigned)fgse_param("ops", 3), false); }
extern "C" void small_tracked() { smallHistory<Tr>((unsigned)fgse_param("ops", 3), vh::flip("allocators")); }
extern "C" void small_construct() {
	using V = fg::SmallVector<Tr, 2, Al<Tr>>; std::vector<Block> held; blocks = &held; live = 0; held.reserve(8);
	{ unsigned n = vh::choose("n", 5); uint32_t x = vh::u32("x"), y = vh::u32("y"), z = vh::u32("z");
	  switch (vh::choose("how", 4)) { case 0: { V v(n); agree(v, Model(n)); break; } case 1: { Tr t(x); V v(n, t); agree(v, Model(n, x)); break; } case 2: { V v({Tr(x), Tr(y)}); agree(v, {x, y}); break; } case 3: { V v({Tr(x), Tr(y), Tr(z)}); agree(v, {x, y, z}); V w(v); agree(w, {x, y, z}); break; } } }
	CHECK(live == 0 && held.empty(), "everything is destroyed and returned"); REACH("done");
}

// ---------------------------------------------------------------- P21
template <class T> static void staticHistory(unsigned ops) {
	using V = fg::StaticVector<T>; live = 0; auto mem = fgse_live();
	{
		unsigned seq = 0; auto fresh = [&] { uint64_t u = fgse_sym(vh::nm("v", seq++).c_str(), sizeof(T) * 8); T t; memcpy(&t, &u, sizeof(T)); return t; };
		auto same = [](const V& v, const std::vector<T>& m) {
			CHECK(v.size() == m.size() && v.empty() == m.empty() && v.size_bytes() == m.size() * sizeof(T), "it has the elements it was given"); if (v.size() != m.size()) fgse_end();
			for (size_t i = 0; i < m.size(); ++i) CHECK(fgse_eq_bytes(&v[i], &m[i], sizeof(T)) && &v[i] == v.data() + i && v.begin() + i == &v[i], "elements have the values they were given");
			CHECK(v.end() == v.begin() + m.size() && v.cbegin() == v.begin() && v.cend() == v.end(), "iterators span the elements"); if constexpr (std::is_integral_v<T>) CHECK(v == m, "equal to a vector with the same elements");
		};
		auto make = [&](std::vector<T>& m) -> V {
			unsigned n = vh::choose("n", 4); m.clear(); T x = fresh();
			switch (vh::choose("how", 3)) {
				case 0: { V v(n); for (auto& e : v) { e = fresh(); m.push_back(e); } return v; }
				case 1: { m.assign(n, x); return V(n, x); }
				default: for (unsigned i = 0; i < n; ++i) m.push_back(fresh()); return V::fromVector(m);
			}
		};
		std::vector<T> ma, mb; V a = make(ma), b = make(mb); same(a, ma); same(b, mb);
		for (unsigned k = 0; k < ops; ++k) {
			switch (vh::choose("op", 5)) {
				case 0: { V c(a); same(c, ma); if (!ma.empty()) { c[0] = fresh(); } break; }
				case 1: { V c(std::move(a)); same(c, ma); ma.clear(); same(a, ma); std::swap(ma, mb); b = std::move(c); std::swap(ma, mb); mb = std::vector<T>(b.begin(), b.end()); break; }
				case 2: a = std::move(b); ma = mb; mb.clear(); break;
				case 3: { auto& self = a; a = std::move(self); break; }
				case 4: { bool eq = ma.size() == mb.size(); for (size_t i = 0; eq && i < ma.size(); ++i) eq = ma[i] == mb[i]; CHECK((a == b) == eq && (a == mb) == eq, "equal exactly if all elements are"); break; }
			}
			same(a, ma); same(b, mb);
		}
	}
	CHECK(fgse_live() == mem, "all memory is returned"); REACH("done");
}
extern "C" void static_vectors() { unsigned n = (unsigned)fgse_param("ops", 2); switch (vh::choose("type", 3)) { case 0: staticHistory<uint8_t>(n); break; case 1: staticHistory<uint32_t>(n); break; case 2: staticHistory<double>(n); break; } }
template <class T> static T some(const char* n);
template <> size_t some(const char* n) { auto v = vh::u64(n); vh::assume(v != ~0ull); return v; } // the flag value is documented not to be a value
template <> float some(const char* n) { auto v = vh::u32(n); vh::assume((v & 0x7fffffff) <= 0x7f800000u); return vh::fromBits32(v); }
template <> double some(const char* n) { auto v = vh::u64(n); vh::assume((v & 0x7fffffffffffffffull) <= 0x7ff0000000000000ull); return vh::fromBits(v); }
template <> fg::Filter some(const char* n) { auto v = vh::u16(n); vh::assume(v != 0xffff); return (fg::Filter)v; }
template <> fg::BufferTarget some(const char* n) { auto v = vh::u16(n); vh::assume(v != 0xffff); return (fg::BufferTarget)v; }
template <> uint32_t some(const char* n) { return vh::u32(n); }
template <class T> static bool eqv(T a, T b) { if constexpr (std::is_floating_point_v<T>) return vh::same(a, b); else return a == b; }
template <class T> static void optionalHistory(unsigned ops) {
	using O = fg::Optional<T>; using M = std::optional<T>; unsigned seq = 0; auto fresh = [&] { return some<T>(vh::nm("v", seq++).c_str()); };
	auto same = [](const O& o, const M& m) {
		CHECK(o.has_value() == m.has_value() && (bool)o == m.has_value(), "it holds a value exactly if one was given"); if (o.has_value() != m.has_value()) fgse_end();
		if (m) { CHECK(eqv(*o, *m) && eqv(o.value(), *m) && o.operator->() == &*o, "it holds the value it was given"); CHECK(o == *m || *m != *m, "it compares equal to its value"); CHECK(!(o != *m) || *m != *m, "and not unequal"); }
	};
	O a; M m; same(a, m); O b(fresh()); M n(*b); if (vh::flip("second")) { b = std::nullopt; n = std::nullopt; } same(b, n);
	for (unsigned k = 0; k < ops; ++k) {
		switch (vh::choose("op", 15)) {
			case 0: { T x = fresh(); a = x; m = x; break; }
			case 1: a = std::nullopt; m = std::nullopt; break;
			case 2: a.reset(); m.reset(); break;
			case 3: { T x = fresh(); T& r = a.emplace(x); m.emplace(x); CHECK(&r == &*a, "emplace returns the value"); break; }
			case 4: a = b; m = n; break;
			case 5: { O c(b); same(c, n); a = std::move(c); m = n; break; }
			case 6: a.swap(b); m.swap(n); break;
			case 7: std::swap(a, b); m.swap(n); break;
			case 8: { T d = fresh(); CHECK(eqv(a.value_or(d), m ? *m : d), "value_or gives the value or the default"); CHECK(eqv(O(a).value_or(d), m ? *m : d), "value_or of an expiring optional"); break; }
			case 9: { int calls = 0; T seen{}; auto r = a.transform([&](T v) { ++calls; seen = v; return (uint32_t)7; }); CHECK(calls == (m ? 1 : 0) && r.has_value() == m.has_value() && (!m || (*r == 7 && eqv(seen, *m))), "transform calls for a value"); break; }
			case 10: { int calls = 0; auto r = a.and_then([&](T v) { ++calls; return O(v); }); CHECK(calls == (m ? 1 : 0), "and_then calls for a value"); same(r, m); auto r2 = std::as_const(a).and_then([](T) { return O(std::nullopt); }); CHECK(!r2.has_value(), "and_then gives the function's result"); break; }
			case 11: { int calls = 0; T d = fresh(); M mr = m ? m : M(d); if constexpr (!std::is_same_v<O, M>) { O r(std::as_const(a).or_else([&] { ++calls; return O(d); })); same(r, mr); CHECK(calls == (m ? 0 : 1), "or_else calls without a value"); O r2(O(a).or_else([&] { return O(d); })); same(r2, mr); } break; }
			case 12: { M r = a; CHECK(r.has_value() == m.has_value() && (!m || eqv(*r, *m)), "converts to std::optional"); M r2 = O(a); CHECK(r2.has_value() == m.has_value() && (!m || eqv(*r2, *m)), "an expiring one converts to std::optional"); break; }
			case 13: { bool eq = m.has_value() == n.has_value() && (!m || *m == *n); CHECK((a == b) == eq, "equal if both hold equal values or none"); CHECK((a != b) == !eq, "unequal otherwise"); T x = fresh(); CHECK((a == x) == (m && *m == x) && (a != x) == !(m && *m == x), "compares to values"); break; }
			case 14: { T x = fresh(); O c(std::in_place, x); same(c, M(x)); O d(std::nullopt); same(d, M()); O e = x; a = std::move(e); m = x; break; }
		}
		same(a, m); same(b, n);
	}
	REACH("done");
}
extern "C" void optionals() { unsigned n = (unsigned)fgse_param("ops", 3); switch (vh::choose("type", 5)) { case 0: optionalHistory<size_t>(n); break; case 1: optionalHistory<float>(n); break; case 2: optionalHistory<double>(n); break; case 3: optionalHistory<fg::Filter>(n); break; case 4: optionalHistory<fg::BufferTarget>(n); break; } }
// which optional is used, and that it costs nothing where a flag value exists
extern "C" void optional_kinds() {
	CHECK((std::is_same_v<fg::Optional<uint32_t>, std::optional<uint32_t>>) && (std::is_same_v<fg::Optional<std::string>, std::optional<std::string>>), "other types use std::optional");
	CHECK(sizeof(fg::Optional<size_t>) == sizeof(size_t) && sizeof(fg::Optional<double>) == 8 && sizeof(fg::Optional<float>) == 4 && sizeof(fg::Optional<fg::Filter>) == sizeof(fg::Filter), "flag values need no room"); REACH("done");
}

// ---------------------------------------------------------------- P22
template <class T> static T number(const char* n) { if constexpr (std::is_same_v<T, double>) { return vh::finite64(n); } else return (T)vh::u64(n); }
template <class T, size_t N> static void include(unsigned start, unsigned count) {
	fg::Accessor a; T lo[N], hi[N]; bool hasLo = start & 1, hasHi = start & 2;
	auto given = [&](auto& slot, T* dst, const char* n) { slot = fg::AccessorBoundsArray::ForType<T>(N); for (size_t i = 0; i < N; ++i) { dst[i] = number<T>(vh::nm(n, i).c_str()); slot->template set<T>(i, dst[i]); } };
	if (hasLo) given(a.min, lo, "min"); if (hasHi) given(a.max, hi, "max");
	for (unsigned k = 0; k < count; ++k) {
		T x[N]; for (size_t i = 0; i < N; ++i) x[i] = number<T>((vh::nm("x", k) + "_" + std::to_string(i)).c_str());
		if constexpr (N == 1) a.updateBoundsToInclude(x[0]); else { fg::math::vec<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = x[i]; a.updateBoundsToInclude(v); }
		for (size_t i = 0; i < N; ++i) { lo[i] = !hasLo || x[i] < lo[i] ? x[i] : lo[i]; hi[i] = !hasHi || x[i] > hi[i] ? x[i] : hi[i]; }
		hasLo = hasHi = true;
	}
	CHECK(a.min.has_value() == hasLo && a.max.has_value() == hasHi, "bounds exist once something was included"); if (!hasLo || !hasHi) { REACH("open"); return; }
	CHECK(a.min->size() == N && a.max->size() == N && a.min->template isType<T>() && a.max->template isType<T>(), "bounds have the type and size of the values");
	for (size_t i = 0; i < N; ++i) { CHECK(a.min->template get<T>(i) == lo[i], "min is the smallest value included"); CHECK(a.max->template get<T>(i) == hi[i], "max is the largest value included"); }
	REACH("bounded");
}
extern "C" void bounds_include() {
	unsigned start = vh::choose("start", 4), n = vh::choose("count", (uint32_t)fgse_param("max", 2) + 1);
	switch (vh::choose("type", 8)) { case 0: include<int64_t, 1>(start, n); break; case 1: include<double, 1>(start, n); break; case 2: include<int64_t, 2>(start, n); break; case 3: include<double, 2>(start, n); break;
		case 4: include<int64_t, 3>(start, n); break; case 5: include<double, 3>(start, n); break; case 6: include<int64_t, 4>(start, n); break; case 7: include<double, 4>(start, n); break; }
}
extern "C" void bounds_values() {
	auto mem = fgse_live();
	{
		struct M { bool f; std::vector<uint64_t> v; }; using A = fg::AccessorBoundsArray; unsigned seq = 0;
		auto make = [&](M& m) { m.f = vh::flip("double"); m.v.assign(1 + vh::choose("n", 3), 0); A a(m.v.size(), m.f ? A::BoundsType::float64 : A::BoundsType::int64);
			for (size_t i = 0; i < m.v.size(); ++i) { if (m.f) CHECK(a.get<double>(i) == 0, "bounds start at zero"); else CHECK(a.get<int64_t>(i) == 0, "bounds start at zero"); auto x = vh::finite64(vh::nm("v", seq++).c_str()); m.v[i] = vh::bits(x); if (m.f) a.set<double>(i, x); else a.set<int64_t>(i, (int64_t)m.v[i]); } return a; };
		auto same = [](const A& a, const M& m) { CHECK(a.size() == m.v.size() && a.type() == (m.f ? A::BoundsType::float64 : A::BoundsType::int64) && a.isType<double>() == m.f && a.isType<int64_t>() == !m.f, "bounds keep their type and size");
			for (size_t i = 0; i < m.v.size(); ++i) { uint64_t g = m.f ? vh::bits(a.get<double>(i)) : (uint64_t)a.get<int64_t>(i); CHECK(g == m.v[i], "bounds keep their values"); } };
		M ma, mb; A a = make(ma), b = make(mb); same(a, ma); same(b, mb);
		for (unsigned k = 0, n = (unsigned)fgse_param("ops", 2); k < n; ++k) switch (vh::choose("op", 4)) {
			case 0: { A c(std::move(a)); same(c, ma); a = std::move(b); same(a, mb); b = std::move(c); std::swap(ma, mb); same(b, mb); break; }
			case 1: { std::swap(a, b); std::swap(ma, mb); same(a, ma); same(b, mb); break; }
			case 2: { auto& self = a; a = std::move(self); same(a, ma); break; }
			case 3: { std::optional<A> o; o = std::move(a); same(*o, ma); o = std::move(b); same(*o, mb); b = make(mb); a = std::move(*o); ma = M(); A c = make(ma); o.reset(); a = std::move(c); same(a, ma); same(b, mb); break; }
		}
	}
	CHECK(fgse_live() == mem, "all memory is returned"); REACH("done");
}
