// Accessor data as users read it: elements, conversions and bulk tools against a byte-level reading of
// the glTF specification (little endian components, 4-byte aligned matrix columns, strides, offsets, sparse data).
#include "vh.hpp"
#include <fastgltf/tools.hpp>
#include <functional>
namespace fg = fastgltf;
namespace fm = fastgltf::math;
using CT = fg::ComponentType;
using AT = fg::AccessorType;

// ---------------------------------------------------------------- the specification's reading
struct Kind { AT type; unsigned rows, cols; };
template <class T> struct El { static constexpr Kind kind{AT::Scalar, 1, 1}; using C = T; static T get(const T& v, unsigned) { return v; } };
#define EL(T, Comp, Type, R, Cl, EXPR) template <> struct El<T> { static constexpr Kind kind{AT::Type, R, Cl}; using C = Comp; static C get(const T& v, unsigned k) { return EXPR; } };
#define VEC(P, Comp) EL(fm::P##vec2, Comp, Vec2, 2, 1, v[k]) EL(fm::P##vec3, Comp, Vec3, 3, 1, v[k]) EL(fm::P##vec4, Comp, Vec4, 4, 1, v[k])
VEC(s8, int8_t) VEC(u8, uint8_t) VEC(s16, int16_t) VEC(u16, uint16_t) VEC(s32, int32_t) VEC(u32, uint32_t) VEC(f, float) VEC(d, double)
EL(fm::fquat, float, Vec4, 4, 1, v[k]) EL(fm::dquat, double, Vec4, 4, 1, v[k])
EL(fm::fmat2x2, float, Mat2, 2, 2, v.col(k / 2)[k % 2]) EL(fm::fmat3x3, float, Mat3, 3, 3, v.col(k / 3)[k % 3]) EL(fm::fmat4x4, float, Mat4, 4, 4, v.col(k / 4)[k % 4])

static const CT comps[8] = {CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort, CT::Int, CT::UnsignedInt, CT::Float, CT::Double};
static const unsigned compSize[8] = {1, 1, 2, 2, 4, 4, 4, 8};
static size_t colSize(Kind k, unsigned s) { size_t n = k.rows * s; return k.cols > 1 ? (n + 3) / 4 * 4 : n; }
static size_t elemSize(Kind k, unsigned s) { return colSize(k, s) * k.cols; }
static size_t compOffset(Kind k, unsigned s, unsigned i) { return i / k.rows * colSize(k, s) + i % k.rows * s; }

template <class S> static S raw(const uint8_t* p) {
	uint64_t u = 0; for (unsigned i = 0; i < sizeof(S); ++i) u |= (uint64_t)p[i] << (8 * i);
	S v; std::memcpy(&v, &u, sizeof(S)); return v;
}
template <class D, class S> static bool agrees(D got, S v, bool norm) {
	if constexpr (std::is_floating_point_v<D> && std::is_integral_v<S>) {
		if (!norm) return vh::same(got, (D)v);
		D w = (D)v / (D)std::numeric_limits<S>::max();
		return vh::same(got, w < (D)-1 ? (D)-1 : w);
	} else if constexpr (std::is_floating_point_v<D>) {
		if constexpr (std::is_same_v<D, S>) return vh::same(got, v);
		else return v != v || got == (D)v;
	} else if constexpr (std::is_integral_v<S>) {
		bool fits = (int64_t)v >= (int64_t)std::numeric_limits<D>::min() && (int64_t)v <= (int64_t)std::numeric_limits<D>::max();
		return !fits || (int64_t)got == (int64_t)v;
	} else {
		double d = v;
		bool fits = d > (double)std::numeric_limits<D>::min() - 1 && d < (double)std::numeric_limits<D>::max() + 1;
		if (!fits) return true;
		int64_t t = (int64_t)d; return (int64_t)got == t;
	}
}
template <class D> static bool compAt(D g, const uint8_t* q, unsigned ci, bool norm) {
	switch (ci) {
		case 0: return agrees(g, raw<int8_t>(q), norm); case 1: return agrees(g, raw<uint8_t>(q), norm); case 2: return agrees(g, raw<int16_t>(q), norm); case 3: return agrees(g, raw<uint16_t>(q), norm);
		case 4: return agrees(g, raw<int32_t>(q), norm); case 5: return agrees(g, raw<uint32_t>(q), norm); case 6: return agrees(g, raw<float>(q), norm); default: return agrees(g, raw<double>(q), norm);
	}
}
// floating point data is only stored as integers where it fits
template <class D> static void inRange(const uint8_t* q, unsigned ci) {
	if constexpr (std::is_integral_v<D>) if (ci >= 6) { double v = ci == 6 ? raw<float>(q) : raw<double>(q); vh::assume(v > (double)std::numeric_limits<D>::min() - 1 && v < (double)std::numeric_limits<D>::max() + 1); }
}
template <class T> static void inRangeAt(const uint8_t* p, unsigned ci) { constexpr Kind k = El<T>::kind; for (unsigned i = 0; i < k.rows * k.cols; ++i) inRange<typename El<T>::C>(p + compOffset(k, compSize[ci], i), ci); }
static void checkAt(bool ok, const char* what) { CHECK(ok, what); }
template <class T> static void isAt(const T& got, const uint8_t* p, unsigned ci, bool norm, const char* what) {
	constexpr Kind k = El<T>::kind;
	for (unsigned i = 0; i < k.rows * k.cols; ++i) checkAt(compAt(El<T>::get(got, i), p + compOffset(k, compSize[ci], i), ci, norm), what);
}
template <class T> static void isZero(const T& got, const char* what) {
	constexpr Kind k = El<T>::kind; bool ok = true;
	for (unsigned i = 0; i < k.rows * k.cols; ++i) ok &= El<T>::get(got, i) == typename El<T>::C(0);
	CHECK(ok, what);
}

// ---------------------------------------------------------------- assets
struct Setup {
	fg::Asset asset;
	std::vector<uint8_t*> mem; // exact-size copies behind byte views
	const uint8_t *base = nullptr, *values = nullptr; // first element, first sparse value
	size_t stride = 0, vstride = 0, count = 0; unsigned ci = 0; bool norm = false, sparse = false;
	std::vector<size_t> at; // sparse indices
	std::vector<std::vector<uint8_t>> keep;
	fg::Accessor& acc() { return asset.accessors[0]; }
	// adds a buffer with these bytes; mode: how it is held
	size_t buffer(std::vector<uint8_t> d, unsigned mode) {
		fg::Buffer b; b.byteLength = d.size();
		if (mode == 0) {
			auto* p = (uint8_t*)malloc(d.size()); memcpy(p, d.data(), d.size()); mem.push_back(p);
			fg::sources::ByteView v; v.bytes = fg::span<const std::byte>((std::byte*)p, d.size()); b.data = std::move(v);
		} else if (mode == 1) {
			fg::sources::Vector v; v.bytes.resize(d.size()); memcpy(v.bytes.data(), d.data(), d.size()); b.data = std::move(v);
		} else {
			fg::StaticVector<std::byte> s(d.size()); memcpy(s.data(), d.data(), d.size());
			b.data = fg::sources::Array{std::move(s), fg::MimeType::None};
		}
		asset.buffers.emplace_back(std::move(b)); return asset.buffers.size() - 1;
	}
	size_t view(size_t buf, size_t off, size_t len) { fg::BufferView v; v.bufferIndex = buf; v.byteOffset = off; v.byteLength = len; asset.bufferViews.emplace_back(std::move(v)); return asset.bufferViews.size() - 1; }
	~Setup() { for (auto* p : mem) free(p); }
};
struct Layout { size_t voff, aoff, pad; bool strided; };
static const Layout layouts[] = {{0, 0, 0, false}, {3, 0, 0, false}, {0, 2, 0, false}, {5, 4, 0, true}, {0, 0, 3, true}, {2, 8, 4, true}};
// the base data
static void baseData(Setup& s, Kind k, unsigned ci, size_t count, const Layout& l, unsigned mode) {
	size_t es = elemSize(k, compSize[ci]); s.stride = l.strided ? es + l.pad : es;
	size_t len = count ? l.aoff + (count - 1) * s.stride + es : l.aoff;
	s.buffer(std::vector<uint8_t>(1), 0); // a buffer nobody refers to
	s.keep.emplace_back(l.voff + len); auto& d = s.keep.back(); fgse_bytes("d", d.data(), d.size());
	auto b = s.buffer(d, mode); s.view(0, 0, 1);
	auto v = s.view(b, l.voff, len); if (l.strided) s.asset.bufferViews[v].byteStride = s.stride;
	s.acc().bufferViewIndex = v; s.acc().byteOffset = l.aoff; s.base = d.data() + l.voff + l.aoff;
}
static void accessor(Setup& s, Kind k, unsigned ci, size_t count, bool norm) {
	s.keep.reserve(8); s.asset.accessors.emplace_back(); s.ci = ci; s.count = count; s.norm = norm;
	auto& a = s.acc(); a.type = k.type; a.componentType = comps[ci]; a.count = count; a.byteOffset = 0; a.normalized = norm;
}
// sparse data for the elements named by the bits of mask
static void sparseData(Setup& s, Kind k, unsigned ci, unsigned mask, unsigned it, bool shifted) {
	s.sparse = true; s.vstride = elemSize(k, compSize[ci]);
	for (unsigned i = 0; i < 16; ++i) if (mask >> i & 1) s.at.push_back(i);
	size_t n = s.at.size(), isz = 1u << it; size_t ioff = shifted ? 4 : 0, iaoff = shifted ? 8 : 0, voff = shifted ? 3 : 0, vaoff = shifted ? 16 : 0;
	std::vector<uint8_t> ib(ioff + iaoff + n * isz);
	for (size_t i = 0; i < n; ++i) ib[ioff + iaoff + i * isz] = (uint8_t)s.at[i];
	auto bi = s.buffer(ib, 0);
	s.keep.emplace_back(voff + vaoff + n * s.vstride); auto& d = s.keep.back(); fgse_bytes("v", d.data(), d.size());
	auto bv = s.buffer(d, 0);
	fg::SparseAccessor sp; sp.count = n; sp.indexComponentType = it == 0 ? CT::UnsignedByte : it == 1 ? CT::UnsignedShort : CT::UnsignedInt;
	sp.valuesBufferView = s.view(bv, voff, vaoff + n * s.vstride); sp.valuesByteOffset = vaoff;
	sp.indicesBufferView = s.view(bi, ioff, iaoff + n * isz); sp.indicesByteOffset = iaoff;
	s.acc().sparse = sp; s.values = d.data() + voff + vaoff;
}
static const uint8_t* place(const Setup& s, size_t i) {
	if (s.sparse) for (size_t j = 0; j < s.at.size(); ++j) if (s.at[j] == i) return s.values + j * s.vstride;
	return s.base ? s.base + i * s.stride : nullptr;
}
template <class T> static void expect(const Setup& s, size_t i, const T& got, const char* what) {
	if (auto* p = place(s, i)) isAt(got, p, s.ci, s.norm, what); else isZero(got, what);
}
template <class T> static void inRange(const Setup& s) { for (size_t i = 0; i < s.count; ++i) if (auto* p = place(s, i)) inRangeAt<T>(p, s.ci); }
template <class F> static void withType(unsigned t, F f) {
	switch (t) {
#define ROW(N, P) case N: f(fm::P##vec2{}); break; case N + 1: f(fm::P##vec3{}); break; case N + 2: f(fm::P##vec4{}); break;
		case 0: f(int8_t{}); break; case 1: f(uint8_t{}); break; case 2: f(int16_t{}); break; case 3: f(uint16_t{}); break; case 4: f(int32_t{}); break; case 5: f(uint32_t{}); break; case 6: f(float{}); break; case 7: f(double{}); break;
		ROW(8, s8) ROW(11, u8) ROW(14, s16) ROW(17, u16) ROW(20, s32) ROW(23, u32) ROW(26, f) ROW(29, d)
		case 32: f(fm::fquat()); break; case 33: f(fm::dquat()); break; case 34: f(fm::fmat2x2()); break; case 35: f(fm::fmat3x3()); break; case 36: f(fm::fmat4x4()); break;
	}
}
template <class F> static void withSome(unsigned t, F f) {
	switch (t) { case 0: f(uint32_t{}); break; case 1: f(fm::fvec3{}); break; case 2: f(fm::s16vec4{}); break; case 3: f(fm::fmat3x3()); break; case 4: f(fm::fmat2x2()); break; case 5: f(fm::fquat()); break; case 6: f(fm::u8vec3{}); break; }
}
static const unsigned someComps[4] = {1, 3, 5, 6};

// ---------------------------------------------------------------- P17: every conversion
extern "C" void conv_elements() {
	withType(vh::choose("type", 37), [](auto tag) {
		using T = decltype(tag); Setup s; unsigned ci = vh::choose("comp", 8); bool norm = ci < 6 && vh::flip("normalized");
		accessor(s, El<T>::kind, ci, 1, norm); baseData(s, El<T>::kind, ci, 1, layouts[0], 0); inRange<T>(s);
		expect(s, 0, fg::getAccessorElement<T>(s.asset, s.acc(), 0), "element has the components' values in the destination type");
		REACH("read");
	});
}
extern "C" void conv_tables() {
	unsigned t = vh::choose("type", 7);
	static const Kind kinds[7] = {{AT::Scalar, 1, 1}, {AT::Vec2, 2, 1}, {AT::Vec3, 3, 1}, {AT::Vec4, 4, 1}, {AT::Mat2, 2, 2}, {AT::Mat3, 3, 3}, {AT::Mat4, 4, 4}};
	static const char* names[7] = {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"};
	unsigned c = vh::choose("comp", 8); Kind k = kinds[t]; static const uint16_t codes[8] = {5120, 5121, 5122, 5123, 5124, 5125, 5126, 5130};
	CHECK(fg::getNumComponents(k.type) == k.rows * k.cols, "number of components"); CHECK(fg::getElementRowCount(k.type) == k.rows, "rows");
	CHECK(fg::isMatrix(k.type) == (k.cols > 1), "matrix types"); CHECK(fg::getComponentByteSize(comps[c]) == compSize[c] && fg::getComponentBitSize(comps[c]) == compSize[c] * 8, "component size");
	CHECK(fg::getElementByteSize(k.type, comps[c]) == elemSize(k, compSize[c]), "element size with aligned columns");
	CHECK(fg::getGLComponentType(comps[c]) == codes[c] && fg::getComponentType(codes[c]) == comps[c], "component type codes");
	CHECK(fg::getAccessorType(names[t]) == k.type && fg::getAccessorTypeName(k.type) == names[t], "accessor type names");
	uint16_t any = vh::u16("code"); auto got = fg::getComponentType(any); bool known = false;
	for (unsigned i = 0; i < 8; ++i) if (any == codes[i]) { known = true; CHECK(got == comps[i], "every code maps to its type"); }
	if (!known) CHECK(got == CT::Invalid, "other codes are invalid");
	REACH("checked");
}
// components one by one
extern "C" void conv_components() {
	unsigned t = vh::choose("type", 7), ci = vh::choose("comp", 8); bool norm = ci < 6 && vh::flip("normalized");
	static const Kind kinds[7] = {{AT::Scalar, 1, 1}, {AT::Vec2, 2, 1}, {AT::Vec3, 3, 1}, {AT::Vec4, 4, 1}, {AT::Mat2, 2, 2}, {AT::Mat3, 3, 3}, {AT::Mat4, 4, 4}};
	Kind k = kinds[t]; Setup s; accessor(s, k, ci, 1, norm); baseData(s, k, ci, 1, layouts[0], 0); unsigned n = k.rows * k.cols;
	auto one = [&](auto tag) {
		using D = decltype(tag); D out[16]; for (unsigned i = 0; i < n; ++i) inRange<D>(s.base + compOffset(k, compSize[ci], i), ci);
		fg::copyComponentsFromAccessor<D>(s.asset, s.acc(), out);
		for (unsigned i = 0; i < n; ++i) CHECK(compAt(out[i], s.base + compOffset(k, compSize[ci], i), ci, norm), "component has its value in the destination type");
	};
	switch (vh::choose("dest", 8)) { case 0: one(int8_t{}); break; case 1: one(uint8_t{}); break; case 2: one(int16_t{}); break; case 3: one(uint16_t{}); break; case 4: one(int32_t{}); break; case 5: one(uint32_t{}); break; case 6: one(float{}); break; case 7: one(double{}); break; }
	REACH("read");
}
// floating point values stored as normalized integers: the nearest step
template <class D> static void quantize() {
	D n = (D)fgse_sym("n", sizeof(D) * 8); if (std::is_signed_v<D>) vh::assume(n > std::numeric_limits<D>::min());
	static const float parts[3] = {0, 0.25f, -0.25f}; float m = (float)std::numeric_limits<D>::max(), v = ((float)n + parts[vh::choose("part", 3)]) / m;
	vh::assume(v <= 1.0f && v >= (std::is_signed_v<D> ? -1.0f : 0.0f));
	bool wide = vh::flip("double"); std::vector<uint8_t> d(wide ? 8 : 4); if (wide) { double w = v; memcpy(d.data(), &w, 8); } else memcpy(d.data(), &v, 4);
	Setup s; accessor(s, El<D>::kind, wide ? 7 : 6, 1, true); auto b = s.buffer(d, 0); s.acc().bufferViewIndex = s.view(b, 0, d.size());
	CHECK(fg::getAccessorElement<D>(s.asset, s.acc(), 0) == n, "value is stored as the nearest step");
	REACH("stored");
}
extern "C" void conv_quantize() { switch (vh::choose("dest", 4)) { case 0: quantize<int8_t>(); break; case 1: quantize<uint8_t>(); break; case 2: quantize<int16_t>(); break; default: quantize<uint16_t>(); } }

// ---------------------------------------------------------------- P15: single elements
struct ViewsAdapter { // hands out copies of the views' bytes
	const Setup* s; fg::span<const std::byte> operator()(const fg::Asset& a, size_t v) const { return fg::DefaultBufferDataAdapter{}(a, v); }
};
extern "C" void elem_layouts() {
	withSome(vh::choose("type", 7), [](auto tag) {
		using T = decltype(tag); Setup s; unsigned ci = someComps[vh::choose("comp", 4)];
		auto& l = layouts[vh::choose("layout", 6)]; unsigned mode = vh::choose("held", 3);
		accessor(s, El<T>::kind, ci, 3, false); baseData(s, El<T>::kind, ci, 3, l, mode); inRange<T>(s);
		size_t i = vh::choose("index", 3);
		expect(s, i, fg::getAccessorElement<T>(s.asset, s.acc(), i), "element is read from its place");
		expect(s, i, fg::getAccessorElement<T>(s.asset, s.acc(), i, ViewsAdapter{&s}), "element is read through the adapter");
		REACH("read");
	});
}
static const unsigned count4 = 4;
template <class T> static void sparseSetup(Setup& s, bool sparse) {
	unsigned ci = someComps[vh::choose("comp", 4)]; bool norm = ci < 4 && vh::flip("normalized");
	accessor(s, El<T>::kind, ci, count4, norm);
	if (vh::flip("base")) baseData(s, El<T>::kind, ci, count4, layouts[vh::choose("layout", 2) * 5], 0);
	if (sparse) { unsigned it = vh::choose("indextype", 3); sparseData(s, El<T>::kind, ci, vh::choose("mask", 16), it, vh::flip("shifted")); }
	inRange<T>(s);
}
template <class F> static void withFew(unsigned t, F f) { switch (t) { case 0: f(uint16_t{}); break; case 1: f(fm::fvec2{}); break; case 2: f(fm::u8vec4{}); break; case 3: f(fm::fmat2x2()); break; } }
extern "C" void elem_sparse() {
	withFew(vh::choose("type", 4), [](auto tag) {
		using T = decltype(tag); Setup s; sparseSetup<T>(s, true);
		for (size_t i = 0; i < s.count; ++i) expect(s, i, fg::getAccessorElement<T>(s.asset, s.acc(), i), "sparse values replace the base data at their indices");
		REACH("read");
	});
}
extern "C" void elem_sparse_far() { // no base data: any number of elements
	Setup s; unsigned it = vh::choose("indextype", 3); size_t isz = 1u << it, n = 1 + vh::choose("n", 3); uint64_t max = it == 0 ? 0xff : it == 1 ? 0xffff : 0xffffffffu;
	accessor(s, El<uint16_t>::kind, 3, (size_t)1 << 40, false);
	std::vector<uint8_t> ib(n * isz); std::vector<uint64_t> at(n);
	for (size_t i = 0; i < n; ++i) { at[i] = vh::u32(vh::nm("at", (unsigned)i).c_str()); vh::assume(at[i] <= max); if (i) vh::assume(at[i] > at[i - 1]); for (size_t j = 0; j < isz; ++j) ib[i * isz + j] = (uint8_t)(at[i] >> 8 * j); }
	auto bi = s.buffer(ib, 0); std::vector<uint8_t> vb(2 * n); fgse_bytes("v", vb.data(), vb.size()); auto bv = s.buffer(vb, 0);
	fg::SparseAccessor sp; sp.count = n; sp.indexComponentType = it == 0 ? CT::UnsignedByte : it == 1 ? CT::UnsignedShort : CT::UnsignedInt;
	sp.indicesBufferView = s.view(bi, 0, ib.size()); sp.indicesByteOffset = 0; sp.valuesBufferView = s.view(bv, 0, vb.size()); sp.valuesByteOffset = 0; s.acc().sparse = sp;
	uint64_t i = vh::u64("index"); vh::assume(i < ((uint64_t)1 << 40));
	auto got = fg::getAccessorElement<uint16_t>(s.asset, s.acc(), i); unsigned want = 0;
	for (size_t j = 0; j < n; ++j) if (at[j] == i) want = vb[2 * j] | vb[2 * j + 1] << 8;
	CHECK(got == want, "an element is sparse exactly if its index is listed"); REACH("read");
}

// ---------------------------------------------------------------- P16: bulk tools
template <class T> static void each(Setup& s) {
	size_t n = 0;
	fg::iterateAccessor<T>(s.asset, s.acc(), [&](T v) { if (n < s.count) expect(s, n, v, "every element is passed, in order"); ++n; });
	CHECK(n == s.count, "iterateAccessor passes as many elements as there are");
	n = 0; bool ok = true;
	fg::iterateAccessorWithIndex<T>(s.asset, s.acc(), [&](T v, size_t i) { ok &= i == n; if (n < s.count) expect(s, n, v, "every element is passed with its index"); ++n; });
	CHECK(ok, "iterateAccessorWithIndex counts the elements"); CHECK(n == s.count, "iterateAccessorWithIndex passes as many elements as there are");
}
template <class T> static void range(Setup& s) {
	auto r = fg::iterateAccessor<T>(s.asset, s.acc()); size_t n = 0;
	for (auto v : r) { if (n < s.count) expect(s, n, v, "every element is passed, in order"); ++n; }
	CHECK(n == s.count, "the range has as many elements as there are"); CHECK((size_t)(r.end() - r.begin()) == s.count, "the distance is the count");
	// reading an element twice, through copies, and leaving elements out
	auto it = r.begin(); size_t skip = vh::choose("skip", 3); for (size_t i = 0; i < skip; ++i) ++it;
	auto copy = it; CHECK(copy == it && it != r.end(), "copies are equal");
	expect(s, skip, *it, "elements can be left out"); expect(s, skip, *it, "elements can be read twice"); expect(s, skip, *copy, "copies read the same element");
	auto old = it++; expect(s, skip, *old, "post-increment keeps the old position"); expect(s, skip + 1, *it, "post-increment moves on");
}
template <class T, size_t Stride> static void copy(Setup& s) {
	size_t len = s.count ? (s.count - 1) * Stride + sizeof(T) : 0; constexpr size_t guard = 8;
	auto* dst = (uint8_t*)malloc(len + guard); memset(dst, 0xA5, len + guard); auto exp = s.count;
	fg::copyFromAccessor<T, Stride>(s.asset, s.acc(), dst);
	for (size_t i = 0; i < exp; ++i) {
		T v; memcpy((void*)&v, dst + i * Stride, sizeof(T)); expect(s, i, v, "copyFromAccessor writes every element to its place");
		if (i + 1 < exp) for (size_t j = sizeof(T); j < Stride; ++j) CHECK(dst[i * Stride + j] == 0xA5, "bytes between elements are left alone");
	}
	for (size_t j = 0; j < guard; ++j) CHECK(dst[len + j] == 0xA5, "bytes after the last element are left alone");
	free(dst);
}
template <class C, class T> static void components(Setup& s) {
	constexpr unsigned n = El<T>::kind.rows * El<T>::kind.cols; size_t len = s.count * n * sizeof(C);
	auto* dst = (uint8_t*)malloc(len + 8); memset(dst, 0xA5, len + 8);
	for (size_t i = 0; i < s.count; ++i) for (unsigned j = 0; j < n; ++j) if (s.base) inRange<C>(s.base + i * s.stride + compOffset(El<T>::kind, compSize[s.ci], j), s.ci);
	fg::copyComponentsFromAccessor<C>(s.asset, s.acc(), dst); bool ok = true;
	for (size_t i = 0; i < s.count; ++i) for (unsigned j = 0; j < n; ++j) {
		C g; memcpy(&g, dst + (i * n + j) * sizeof(C), sizeof(C)); 
		if (!s.base) { ok &= g == C(0); continue; }
		auto* q = s.base + i * s.stride + compOffset(El<T>::kind, compSize[s.ci], j);
		CHECK(compAt(g, q, s.ci, s.norm), "copyComponentsFromAccessor writes the components one after the other");
	}
	CHECK(ok, "copyComponentsFromAccessor writes zeros for missing data");// the components one after the other");
	for (size_t j = 0; j < 8; ++j) CHECK(dst[len + j] == 0xA5, "bytes after the last component are left alone");
	free(dst);
}
template <class F> static void bulk(F f) { withFew(vh::choose("type", 4), [&](auto tag) { using T = decltype(tag); Setup s; sparseSetup<T>(s, vh::flip("sparse")); f(tag, s); REACH("done"); }); }
extern "C" void bulk_iterate() { bulk([](auto tag, Setup& s) { each<decltype(tag)>(s); }); }
extern "C" void bulk_range() { bulk([](auto tag, Setup& s) { range<decltype(tag)>(s); }); }
extern "C" void bulk_copy() { bulk([](auto tag, Setup& s) { using T = decltype(tag); if (vh::flip("strided")) copy<T, sizeof(T) + 4>(s); else copy<T, sizeof(T)>(s); }); }
extern "C" void bulk_components() {
	withFew(vh::choose("type", 4), [](auto tag) { using T = decltype(tag); Setup s; sparseSetup<T>(s, false);
		switch (vh::choose("dest", 4)) { case 0: components<float, T>(s); break; case 1: components<uint16_t, T>(s); break; case 2: components<uint8_t, T>(s); break; case 3: components<double, T>(s); break; } REACH("done"); });
}
// every element type through the copying tool: types, layouts, conversions
extern "C" void bulk_types() {
	withType(vh::choose("type", 37), [](auto tag) {
		using T = decltype(tag); Setup s; unsigned ci = vh::choose("comp", 8); bool norm = ci < 4 && vh::flip("normalized");
		accessor(s, El<T>::kind, ci, 2, norm); baseData(s, El<T>::kind, ci, 2, layouts[vh::choose("layout", 2) * 5], 0); inRange<T>(s); copy<T, sizeof(T)>(s); REACH("done");
	});
}
