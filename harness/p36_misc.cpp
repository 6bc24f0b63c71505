// Lookups by name, results, views of memory and tables of names.
#include "gltf.hpp"
#include <fastgltf/base64.hpp>
using vh::J;
static std::string sym(const char* n, unsigned max) { unsigned k = vh::choose((std::string(n) + "Length").c_str(), max + 1); std::string s; for (unsigned i = 0; i < k; ++i) { char c = (char)vh::u8(n); vh::assume(c != 0); s += c; } return s; }
template <class L> static L attrs(unsigned n, const std::string* names) { L l; for (unsigned i = 0; i < n; ++i) { fg::Attribute a; a.name = names[i]; a.accessorIndex = i; l.emplace_back(std::move(a)); } return l; }
// the first attribute with the name, or the end
template <class It> static void found(It it, It begin, It end, unsigned n, const std::string* names, const std::string& key) {
	unsigned want = n; for (unsigned i = n; i-- > 0;) if (names[i] == key) want = i;
	CHECK((end - begin) == (long)n, "the list is unchanged"); CHECK(it == begin + want, "the first attribute with the name is found, otherwise the end"); if (want < n) { CHECK(it->accessorIndex == want, "the attribute is the one in the list"); REACH("found"); } else REACH("absent");
}
extern "C" void attr_find() {
	using SV = decltype(fg::Primitive::attributes); unsigned n = vh::choose("attributes", (unsigned)fgse_param("n", 4)), kind = vh::choose("list", 4); std::string names[4], key = sym("key", 2); for (unsigned i = 0; i < n; ++i) names[i] = sym("name", 2);
	if (kind == 0) { fg::Primitive p; p.attributes = attrs<SV>(n, names); const auto& c = p; found(p.findAttribute(key), p.attributes.begin(), p.attributes.end(), n, names, key); found(c.findAttribute(key), c.attributes.cbegin(), c.attributes.cend(), n, names, key); }
	else if (kind == 1) { fg::Primitive p; std::string other[1] = {key}; p.targets.emplace_back(attrs<SV>(1, other)); p.targets.emplace_back(attrs<SV>(n, names)); const auto& c = p; found(p.findTargetAttribute(1, key), p.targets[1].begin(), p.targets[1].end(), n, names, key); found(c.findTargetAttribute(1, key), c.targets[1].cbegin(), c.targets[1].cend(), n, names, key); }
	else if (kind == 2) { fg::DracoCompressedPrimitive p{}; p.attributes = attrs<SV>(n, names); const auto& c = p; found(p.findAttribute(key), p.attributes.begin(), p.attributes.end(), n, names, key); found(c.findAttribute(key), c.attributes.cbegin(), c.attributes.cend(), n, names, key); }
	else { fg::Node p; p.instancingAttributes = attrs<decltype(p.instancingAttributes)>(n, names); const auto& c = p; found(p.findInstancingAttribute(key), p.instancingAttributes.begin(), p.instancingAttributes.end(), n, names, key); found(c.findInstancingAttribute(key), c.instancingAttributes.cbegin(), c.instancingAttributes.cend(), n, names, key); }
}
// Expected
extern "C" void expected() {
	using V = std::vector<int>; using X = fg::Expected<V>; int a = (int)vh::u32("a"), b = (int)vh::u32("b"); uint64_t code = vh::u64("error"); vh::assume(code != 0); auto err = (fg::Error)code;
	auto make = [&](bool ok, int v) -> X { if (ok) { V x; x.push_back(v); return X(std::move(x)); } return X(err); };
	bool ok1 = vh::flip("first"), ok2 = vh::flip("second"); unsigned how = vh::choose("how", 4);
	auto is = [&](X& x, bool ok, int v) {
		CHECK(x.error() == (ok ? fg::Error::None : err), "the error is kept"); CHECK((bool)x == ok, "it is true exactly without an error"); CHECK((x.get_if() != nullptr) == ok, "the value is there exactly without an error");
		const X& c = x; CHECK(c.get<0>() == x.error() && x.get<0>() == x.error(), "both parts can be taken"); if (!ok) { REACH("error"); return; }
		CHECK(x.get_if() == &x.get() && x.operator->() == &x.get() && c.operator->() == &x.get() && &x.get<1>() == &x.get() && &c.get<1>() == &x.get(), "every access is to the one value"); CHECK(x->size() == 1 && (*x.get_if())[0] == v, "the value is kept"); REACH("value");
	};
	X x = make(ok1, a), y = make(ok2, b); is(x, ok1, a); is(y, ok2, b);
	if (how == 0) { X z(std::move(x)); is(z, ok1, a); } else if (how == 1) { x = std::move(y); is(x, ok2, b); } else if (how == 2) { auto& [e, v] = x; CHECK(e == (ok1 ? fg::Error::None : err), "the error can be taken apart"); if (ok1) CHECK(v.size() == 1 && v[0] == a, "the value can be taken apart"); }
	else if (ok1) { V v = *std::move(x); CHECK(v.size() == 1 && v[0] == a, "the value can be moved out"); }
}
// span
template <class T> static void spanOf(const char* name) {
	T mem[6]; for (auto& m : mem) m = (T)vh::u64(name); unsigned n = vh::choose("size", 7); using S = fg::span<T>; S s(mem, n);
	CHECK(s.size() == n && s.size_bytes() == n * sizeof(T) && s.empty() == (n == 0) && s.data() == mem, "the span covers the memory"); CHECK(s.begin() == mem && s.end() == mem + n, "iteration covers the memory"); unsigned k = 0; for (auto it = s.rbegin(); it != s.rend(); ++it, ++k) CHECK(&*it == &mem[n - 1 - k], "reverse iteration is iteration in reverse"); CHECK(k == n, "reverse iteration covers the memory");
	unsigned i = n ? vh::choose("index", n) : 0; if (n) { CHECK(&s[i] == &mem[i] && &s.at(i) == &mem[i] && &s.front() == mem && &s.back() == &mem[n - 1], "elements are those of the memory"); REACH("element"); }
	unsigned c = vh::choose("count", n + 1), o = vh::choose("offset", n - c + 1); auto f = s.first(c), l = s.last(c), u = s.subspan(o, c), v = s.subspan(o);
	CHECK(f.data() == mem && f.size() == c, "first covers the first elements"); CHECK(l.data() == mem + n - c && l.size() == c, "last covers the last elements"); CHECK(u.data() == mem + o && u.size() == c, "subspan covers the elements at the offset"); CHECK(v.data() == mem + o && v.size() == n - o, "subspan covers the rest");
	S d; CHECK(d.empty() && d.data() == nullptr, "an empty span covers nothing"); d = u; CHECK(d.data() == u.data() && d.size() == c, "spans are copied"); std::array<T, 3> arr{}; S e(arr); CHECK(e.data() == arr.data() && e.size() == 3, "a span of an array covers it"); fg::span<const T> g((const std::array<T, 3>&)arr); CHECK(g.data() == arr.data() && g.size() == 3, "a span of a constant array covers it"); REACH("parts");
}
extern "C" void span_parts() { switch (vh::choose("type", 3)) { case 0: spanOf<uint8_t>("m"); break; case 1: spanOf<uint32_t>("m"); break; default: spanOf<uint64_t>("m"); } }
// tables
extern "C" void error_names() {
	static const char* names[] = {"None", "InvalidPath", "MissingExtensions", "UnknownRequiredExtension", "InvalidJson", "InvalidGltf", "InvalidOrMissingAssetField", "InvalidGLB", "MissingField", "MissingExternalBuffer", "UnsupportedVersion", "InvalidURI", "InvalidFileData", "FailedWritingFiles", "FileBufferAllocationFailed"};
	unsigned i = vh::choose("error", 15), k = vh::choose("other", 15); CHECK(fg::getErrorName((fg::Error)i) == names[i], "every error has its name"); auto m = fg::getErrorMessage((fg::Error)i); CHECK(m.empty() == (i == 0 || i == 8), "every error a user can see has a message"); if (i != k && !m.empty()) CHECK(m != fg::getErrorMessage((fg::Error)k), "messages tell errors apart"); REACH("named");
}
extern "C" void extension_names() {
	static const struct { const char* n; fg::Extensions b; } T[] = {
#define X(n) {#n, fg::Extensions::n}
	X(KHR_texture_transform), X(KHR_texture_basisu), X(MSFT_texture_dds), X(KHR_mesh_quantization), X(EXT_meshopt_compression), X(KHR_lights_punctual), X(EXT_texture_webp), X(KHR_materials_specular), X(KHR_materials_ior), X(KHR_materials_iridescence), X(KHR_materials_volume),
	X(KHR_materials_transmission), X(KHR_materials_clearcoat), X(KHR_materials_emissive_strength), X(KHR_materials_sheen), X(KHR_materials_unlit), X(KHR_materials_anisotropy), X(EXT_mesh_gpu_instancing), X(KHR_materials_pbrSpecularGlossiness), X(MSFT_packing_normalRoughnessMetallic),
	X(MSFT_packing_occlusionRoughnessMetallic), X(KHR_materials_dispersion), X(KHR_materials_variants), X(KHR_accessor_float64), X(KHR_draco_mesh_compression), X(KHR_implicit_shapes), X(KHR_physics_rigid_bodies), X(GODOT_single_root), X(KHR_materials_diffuse_transmission), X(KHR_node_visibility), X(KHR_node_selectability), X(KHR_node_hoverability)
#undef X
	}; constexpr unsigned N = sizeof(T) / sizeof(T[0]);
	unsigned i = vh::choose("one", N), k = vh::choose("two", N); uint64_t rest = vh::choose("rest", 3), bi = (uint64_t)T[i].b, bk = (uint64_t)T[k].b; CHECK(bi && (bi & (bi - 1)) == 0, "every extension is one bit"); CHECK((bi == bk) == (i == k), "every extension has its own bit");
	uint64_t bits = bi | bk; if (rest == 1) bits |= 1ull << 62; else if (rest == 2) { bits = 0; for (auto& t : T) bits |= (uint64_t)t.b; }
	auto l = fg::stringifyExtensionBits((fg::Extensions)bits); CHECK(l.size() == (rest == 2 ? N : i == k ? 1 : 2), "exactly the names of the bits are listed");
	auto count = [&](const char* n) { unsigned c = 0; for (auto& s : l) c += s == n; return c; }; for (unsigned x = 0; x < N; ++x) CHECK(count(T[x].n) == ((bits & (uint64_t)T[x].b) != 0), "exactly the names of the bits are listed, once each");
	uint64_t low = bits & (0 - bits); const char* want = ""; for (auto& t : T) if ((uint64_t)t.b == low) want = t.n; CHECK(fg::stringifyExtension((fg::Extensions)bits) == want, "the name of the lowest bit is returned"); CHECK(fg::stringifyExtension(fg::Extensions::None) == "" && fg::stringifyExtensionBits(fg::Extensions::None).empty(), "no bit has no name"); REACH("named");
}
// every MIME type an image can have is written and recognized by its own name
extern "C" void mime_names() {
	static const struct { fg::MimeType t; const char* n; } T[] = {{fg::MimeType::JPEG, "image/jpeg"}, {fg::MimeType::PNG, "image/png"}, {fg::MimeType::KTX2, "image/ktx2"}, {fg::MimeType::DDS, "image/vnd-ms.dds"}, {fg::MimeType::GltfBuffer, "application/gltf-buffer"}, {fg::MimeType::OctetStream, "application/octet-stream"}, {fg::MimeType::WEBP, "image/webp"}, {fg::MimeType::None, ""}};
	unsigned i = vh::choose("type", 8); CHECK(fg::getMimeTypeString(T[i].t) == T[i].n, "the name of the type"); bool view = vh::flip("view");
	J j; j << "{" ASSET ",\"bufferViews\":[{\"buffer\":0,\"byteLength\":1}],\"images\":[{" << (view ? "\"bufferView\":0" : "\"uri\":\"data:"); if (!view) j << T[i].n << ";base64,AAAA\""; else j << ",\"mimeType\":\"" << T[i].n << "\""; j << "}]}";
	auto r = vh::load(j); if (!i || r.error() == fg::Error::None || !view) { CHECK(r.error() == fg::Error::None, "the document loads"); } if (r.error() != fg::Error::None) return;
	auto& d = r.get().images[0].data; if (view) { auto* b = std::get_if<fg::sources::BufferView>(&d); CHECK(b != nullptr, "the view is kept"); if (b) CHECK(b->mimeType == T[i].t, "the type is recognized by its name"); } else { auto* a = std::get_if<fg::sources::Array>(&d); CHECK(a != nullptr, "the data is loaded"); if (a) CHECK(a->mimeType == T[i].t, "the type is recognized by its name"); } REACH("recognized");
}
