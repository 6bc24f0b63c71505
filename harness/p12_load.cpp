// Document level behaviour of the parser: asset metadata and required extensions (P12), category selection (P13),
// parser reuse (P28), extras callbacks (P31), totality (P06).
#include "gate.hpp"
#include <algorithm>
#include <simdjson.h>
using vh::Doc; using vh::Pol; using vh::J;
using C = fg::Category;
static bool is(const fg::Expected<fg::Asset>& e, fg::Error x) { return e.error() == x; }

// ---- P12 ----
extern "C" void asset_info() {
	J j; char v[4]; unsigned n = vh::choose("versionLength", 5); for (unsigned i = 0; i < n; ++i) { v[i] = (char)vh::u8("char"); vh::assume(v[i] >= 0x20 && v[i] < 0x7f && v[i] != '"' && v[i] != '\\'); }
	unsigned shape = vh::choose("asset", 6); bool dont = vh::flip("optional"), more = vh::flip("more"); unsigned order = vh::choose("order", 2);
	std::string a; fg::Asset want;
	J t; if (shape == 0 || shape == 1) {
		t << "\"asset\":{"; if (shape == 0) { t << "\"version\":"; t.str(v, n); }
		if (more) { if (shape == 0) t << ","; t << "\"copyright\":\"c b\",\"generator\":\"me\",\"minVersion\":\"2.0\",\"extras\":{}"; } t << "}";
	} else if (shape == 2) t << "\"asset\":7"; else if (shape == 3) t << "\"asset\":{\"version\":2.0}"; else if (shape == 4) t << "\"assets\":{\"version\":\"2.0\"}"; else t << "\"asset\":[{\"version\":\"2.0\"}]";
	if (order) { j << "{\"extensionsUsed\":[]," << t.s << "}"; } else { j << "{" << t.s << ",\"extensionsUsed\":[]}"; }
	if (shape == 4) { j.s.clear(); j << "{\"extensionsUsed\":[]}"; }
	auto e = vh::load(j, vh::AllExt, dont ? fg::Options::DontRequireValidAssetMember : fg::Options::None);
	if (dont) { CHECK(is(e, fg::Error::None), "without the asset member being required, the document loads"); REACH("optional"); return; }
	if (shape != 0) { CHECK(e.error() == (shape == 2 || shape == 5 ? fg::Error::InvalidJson : fg::Error::InvalidOrMissingAssetField), "a missing or malformed asset member is reported"); REACH("missing"); return; }
	if (n == 0) { CHECK(is(e, fg::Error::InvalidOrMissingAssetField), "an empty version is reported"); return; }
	bool two = v[0] == '2'; CHECK(is(e, fg::Error::None) == two, "exactly major version 2 is supported"); 
	if (e.error() != fg::Error::None) { CHECK(is(e, fg::Error::UnsupportedVersion), "another major version is reported as unsupported"); REACH("unsupported"); return; }
	auto& info = e.get().assetInfo; CHECK(info.has_value(), "asset info is present"); if (!info.has_value()) return;
	CHECK(info->gltfVersion.size() == n && fgse_eq_bytes(info->gltfVersion.data(), v, n), "the version is reported as written");
	CHECK(info->copyright == (more ? "c b" : "") && info->generator == (more ? "me" : ""), "copyright and generator are reported as written");
	REACH("loaded");
}
namespace { struct ExtName { const char* name; fg::Extensions bit; };
const ExtName exts[] = {
#define X(n) {#n, fg::Extensions::n}
	X(KHR_texture_transform), X(KHR_texture_basisu), X(MSFT_texture_dds), X(KHR_mesh_quantization), X(EXT_meshopt_compression), X(KHR_lights_punctual), X(EXT_texture_webp), X(KHR_materials_specular), X(KHR_materials_ior), X(KHR_materials_iridescence), X(KHR_materials_volume),
	X(KHR_materials_transmission), X(KHR_materials_clearcoat), X(KHR_materials_emissive_strength), X(KHR_materials_sheen), X(KHR_materials_unlit), X(KHR_materials_anisotropy), X(EXT_mesh_gpu_instancing), X(KHR_materials_pbrSpecularGlossiness), X(MSFT_packing_normalRoughnessMetallic),
	X(MSFT_packing_occlusionRoughnessMetallic), X(KHR_materials_dispersion), X(KHR_materials_variants), X(KHR_accessor_float64), X(KHR_draco_mesh_compression), X(KHR_implicit_shapes), X(KHR_physics_rigid_bodies), X(GODOT_single_root), X(KHR_materials_diffuse_transmission), X(KHR_node_visibility), X(KHR_node_selectability), X(KHR_node_hoverability),
#undef X
	{"KHR_texture_transform2", fg::Extensions::None}, {"", fg::Extensions::None}, {"khr_lights_punctual", fg::Extensions::None}, {"KHR_materials_io", fg::Extensions::None} };
constexpr unsigned NE = sizeof(exts) / sizeof(exts[0]); }
extern "C" void required_extensions() {
	unsigned n = vh::choose("required", 3), x = n > 0 ? vh::choose("first", NE) : 0, y = n > 1 ? vh::choose("second", 8) * 5 : 0; uint64_t on = vh::u64("enabled"); on &= (uint64_t)vh::AllExt;
	J j; j << "{" ASSET ",\"extensionsUsed\":[\"A\""; if (n > 0) j << ",\"" << exts[x].name << "\""; j << "]"; if (n) { j << ",\"extensionsRequired\":[\"" << exts[x].name << "\""; if (n > 1) j << ",\"" << exts[y].name << "\""; j << "]"; } j << "}";
	auto err = [&](unsigned k) { return exts[k].bit == fg::Extensions::None ? fg::Error::UnknownRequiredExtension : ((uint64_t)exts[k].bit & on) == 0 ? fg::Error::MissingExtensions : fg::Error::None; };
	auto e = vh::load(j, (fg::Extensions)on); auto w = n > 0 ? err(x) : fg::Error::None; if (n > 1 && w == fg::Error::None) w = err(y);
	CHECK(e.error() == w, "a document loads exactly if all its required extensions are known and enabled");
	if (e.error() != fg::Error::None) { REACH("rejected"); return; }
	auto& a = e.get(); CHECK(a.extensionsUsed.size() == (n > 0 ? 2 : 1) && a.extensionsUsed[0] == "A", "used extensions are reported as written");
	if (n > 0) CHECK(a.extensionsUsed[1] == exts[x].name, "used extensions are reported as written");
	CHECK(a.extensionsRequired.size() == n, "required extensions are reported as written"); if (n > 0) CHECK(a.extensionsRequired[0] == exts[x].name, "required extensions are reported as written"); if (n > 1) CHECK(a.extensionsRequired[1] == exts[y].name, "required extensions are reported as written");
	REACH("loaded");
}
extern "C" void extension_names() {
	unsigned x = vh::choose("extension", NE - 4); uint64_t more = vh::u64("higherBits"), b = (uint64_t)exts[x].bit; vh::assume((more & (b | (b - 1))) == 0); more &= (uint64_t)vh::AllExt;
	auto s = fg::stringifyExtension((fg::Extensions)(b | more));
	CHECK(s == exts[x].name, "the name of the lowest extension bit"); REACH("named");
}

// ---- P13 ----
// closure over the references between element kinds
static uint32_t closure(uint32_t c) {
	auto b = [](C x) { return (uint32_t)x; }; struct D { C from, to; }; static const D d[] = {{C::Scenes, C::Nodes}, {C::Nodes, C::Cameras}, {C::Nodes, C::Meshes}, {C::Nodes, C::Skins}, {C::Skins, C::Accessors}, {C::Skins, C::Nodes}, {C::Meshes, C::Accessors}, {C::Meshes, C::Materials},
		{C::Materials, C::Textures}, {C::Animations, C::Accessors}, {C::Textures, C::Images}, {C::Textures, C::Samplers}, {C::Images, C::BufferViews}, {C::Accessors, C::BufferViews}, {C::BufferViews, C::Buffers}};
	for (int r = 0; r < 6; ++r) for (auto& x : d) if (c & b(x.from)) c |= b(x.to);
	return c;
}
extern "C" void categories() {
	Doc d; d.small = true; d.pol = Pol::None; bool reversed = vh::flip("reversed");
	unsigned m = vh::choose("mode", 4); uint32_t c = 0; const uint32_t all13 = (1u << 13) - 1;
	if (m < 2) { unsigned x = vh::choose("first", 13), y = vh::choose("second", 13); vh::assume(x <= y); c = (1u << x) | (1u << y); if (m == 1) c = all13 & ~c; }
	else if (m == 2) c = ~0u; else { static const C k[] = {C::None, C::OnlyRenderable, C::OnlyAnimations, C::Asset, C::All}; c = (uint32_t)k[vh::choose("preset", 5)]; }
	unsigned absent = vh::choose("absent", 3); // which part of the document is missing altogether
	d.doc([&] {
		if (absent != 1) { d.accessors(); d.bufferViews(); d.buffers(); d.images(false); d.samplers(); d.textures(); d.animations(); }
		if (absent != 2) { d.cameras(false); d.material(); d.variants(); d.meshes(); d.skins(); d.nodes(true, true); d.scenes(); }
		d.lights(0); d.rootExtensions(); if (reversed) std::reverse(d.fields->begin(), d.fields->end());
	});
	fg::Parser p(vh::AllExt); auto e = vh::load(p, d.j, fg::Options::None, (C)c);
	CHECK(is(e, fg::Error::None), "the document loads"); if (!is(e, fg::Error::None)) return;
	auto& a = e.get(); auto& w = d.want; uint32_t in = c == ~0u ? c : closure(c);
	auto want = [&](C x) { return (in & (uint32_t)x) != 0; }; uint32_t avail = 0; unsigned present = 0;
	const C kinds[] = {C::Buffers, C::BufferViews, C::Accessors, C::Images, C::Samplers, C::Textures, C::Animations, C::Cameras, C::Materials, C::Meshes, C::Skins, C::Nodes, C::Scenes};
	const size_t num[] = {w.buffers.size(), w.bufferViews.size(), w.accessors.size(), w.images.size(), w.samplers.size(), w.textures.size(), w.animations.size(), w.cameras.size(), w.materials.size(), w.meshes.size(), w.skins.size(), w.nodes.size(), w.scenes.size()};
	for (int i = 0; i < 13; ++i) if (num[i] && want(kinds[i])) avail |= (uint32_t)kinds[i], ++present;
	CHECK((uint32_t)a.availableCategories == avail, "the available categories are those that were loaded");
	if (!want(C::Buffers)) w.buffers.clear(); if (!want(C::BufferViews)) w.bufferViews.clear(); if (!want(C::Accessors)) w.accessors.clear(); if (!want(C::Images)) w.images.clear(); if (!want(C::Samplers)) w.samplers.clear(); if (!want(C::Textures)) w.textures.clear();
	if (!want(C::Animations)) w.animations.clear(); if (!want(C::Cameras)) w.cameras.clear(); if (!want(C::Materials)) w.materials.clear(); if (!want(C::Meshes)) w.meshes.clear(); if (!want(C::Skins)) w.skins.clear(); if (!want(C::Nodes)) w.nodes.clear(); if (!want(C::Scenes)) w.scenes.clear();
	vh::Cmp cmp; cmp.v(a, w); if (present) REACH("loaded"); else REACH("nothing");
}

// ---- P31 ----
namespace { struct Call { C kind; size_t index; uint64_t value; }; std::vector<Call> calls; int user;
void onExtras(simdjson::dom::object* o, std::size_t i, C k, void* p) { CHECK(p == &user, "the user pointer is handed over"); uint64_t v = 0; auto err = (*o)["v"].get_uint64().get(v); CHECK(err == simdjson::SUCCESS, "the extras object of the element is handed over"); calls.push_back({k, i, v}); } }
extern "C" void extras() {
	struct K { C kind; const char *key, *pre, *body; int ext; }; static const K kinds[] = {
		{C::Accessors, "accessors", "", "\"componentType\":5121,\"type\":\"SCALAR\",\"count\":1", 0}, {C::Animations, "animations", "", "\"channels\":[{\"sampler\":0,\"target\":{\"path\":\"scale\"}}],\"samplers\":[{\"input\":0,\"output\":0}]", 0}, {C::Buffers, "buffers", "", "\"byteLength\":1,\"uri\":\"a\"", 0}, {C::BufferViews, "bufferViews", "", "\"buffer\":0,\"byteLength\":1", 0},
		{C::Cameras, "cameras", "", "\"type\":\"perspective\",\"perspective\":{\"yfov\":1,\"znear\":1}", 0}, {C::Images, "images", "", "\"uri\":\"a\"", 0}, {C::Materials, "materials", "", "\"name\":\"m\"", 0}, {C::Meshes, "meshes", "", "\"primitives\":[{\"attributes\":{\"A\":0}}]", 0}, {C::Nodes, "nodes", "", "\"name\":\"m\"", 0}, {C::Samplers, "samplers", "", "\"name\":\"m\"", 0}, {C::Scenes, "scenes", "", "\"name\":\"m\"", 0},
		{C::Skins, "skins", "", "\"joints\":[0]", 0}, {C::Textures, "textures", "", "\"source\":0", 0}, {C::Shapes, "shapes", "KHR_implicit_shapes", "\"type\":\"sphere\",\"sphere\":{\"radius\":1}", 1}, {C::PhysicsMaterials, "physicsMaterials", "KHR_physics_rigid_bodies", "\"restitution\":1", 1}, {C::CollisionFilters, "collisionFilters", "KHR_physics_rigid_bodies", "\"collisionSystems\":[\"a\"]", 1}, {C::PhysicsJoints, "physicsJoints", "KHR_physics_rigid_bodies", "\"limits\":[]", 1} };
	unsigned k = vh::choose("kind", 17), n = 1 + vh::choose("elements", 3); bool set = vh::flip("callback"), first = vh::flip("extrasFirst"); bool has[3]; uint64_t val[3]; auto& q = kinds[k];
	J j; j << "{" ASSET ","; if (q.ext) j << "\"extensions\":{\"" << q.pre << "\":{"; j << "\"" << q.key << "\":[";
	for (unsigned i = 0; i < n; ++i) {
		has[i] = vh::flip("extras"); val[i] = vh::u64("value"); if (i) j << ","; j << "{"; 
		if (has[i] && first) { j << "\"extras\":{\"u\":[1,{\"v\":2}],\"v\":"; j.num(val[i]); j << "},"; } j << q.body; if (has[i] && !first) { j << ",\"extras\":{\"u\":[1,{\"v\":2}],\"v\":"; j.num(val[i]); j << "}"; } j << "}"; }
	j << "]"; if (q.ext) j << "}}"; j << "}";
	calls.clear(); fg::Parser p(vh::AllExt); if (set) p.setExtrasParseCallback(onExtras); p.setUserPointer(&user);
	auto e = vh::load(p, j); CHECK(is(e, fg::Error::None), "the document loads"); if (!is(e, fg::Error::None)) return;
	size_t c = 0; if (set) for (unsigned i = 0; i < n; ++i) if (has[i]) { CHECK(c < calls.size(), "the callback is called for each element with extras"); if (c < calls.size()) { CHECK(calls[c].kind == q.kind, "with the kind of the element"); CHECK(calls[c].index == i, "with the index of the element"); CHECK(calls[c].value == val[i], "with the extras of the element"); } ++c; }
	CHECK(calls.size() == c, "the callback is called for nothing else"); if (c) REACH("called"); else REACH("silent");
}

// ---- P31: extras of the exporter's callback ----
namespace { struct W { C kind; size_t index; }; std::vector<W> asked; bool give[3]; uint64_t giveVal[3]; C giveKind; int wuser;
std::optional<std::string> onWrite(std::size_t i, C k, void* p) { CHECK(p == &wuser, "the user pointer is handed over"); asked.push_back({k, i}); if (k != giveKind || i >= 3 || !give[i]) return std::nullopt; J j; j << "{\"v\":"; j.num(giveVal[i]); j << "}"; return j.s; }
struct R { C kind; size_t index; uint64_t v; }; std::vector<R> got;
void onRead(simdjson::dom::object* o, std::size_t i, C k, void*) { uint64_t v = 0; auto err = (*o)["v"].get_uint64().get(v); CHECK(err == simdjson::SUCCESS, "the extras written"); got.push_back({k, i, v}); } }
extern "C" void write_extras() {
	static const C kinds[] = {C::Accessors, C::Animations, C::Buffers, C::BufferViews, C::Cameras, C::Images, C::Materials, C::Meshes, C::Nodes, C::Samplers, C::Scenes, C::Skins, C::Textures, C::Shapes, C::PhysicsMaterials, C::CollisionFilters, C::PhysicsJoints};
	unsigned k = vh::choose("kind", 17); giveKind = kinds[k]; bool full = vh::flip("full"); size_t n = 0;
	for (int i = 0; i < 3; ++i) { give[i] = vh::flip("extras"); giveVal[i] = vh::u64("value"); }
	vh::Doc d; d.small = full; d.exporting = true; d.pol = full ? vh::Pol::All : vh::Pol::None; auto& w = d.want;
	d.doc([&] { switch (k) { case 0: d.accessors(2); n = w.accessors.size(); break; case 1: d.animations(2); n = 3; break; case 2: d.buffers(2); n = 3; break; case 3: d.bufferViews(2); n = 3; break; case 4: d.cameras(true, 2); n = 3; break; case 5: d.images(true, 2); n = 3; break; case 6: d.material(full ? 15 : -1, 2); n = 3; break; case 7: d.meshes(2); n = 3; break;
		case 8: d.nodes(true, true, 2); n = 3; break; case 9: d.samplers(2); n = 3; break; case 10: d.scenes(2); n = 3; break; case 11: d.skins(2); n = 3; break; case 12: d.textures(2); n = 3; break; case 13: d.shapes(1, 2); n = 3; break; default: d.physicsRoot(false, 2); n = 3; } });
	if (k == 7) for (auto& m : w.meshes) for (auto& p : m.primitives) p.mappings.clear();
	asked.clear(); got.clear(); fg::Exporter ex; ex.setUserPointer(&wuser); ex.setExtrasWriteCallback(onWrite);
	auto r = ex.writeGltfJson(w); CHECK(r.error() == fg::Error::None, "the asset is written"); if (r.error() != fg::Error::None) return;
	if (fgse_param("print", 0)) fgse_print(r.get().output.data(), r.get().output.size());
	unsigned mine = 0; for (auto& a : asked) if (a.kind == giveKind) { CHECK(a.index == mine, "the callback is asked once for each element, in order"); ++mine; } CHECK(mine == n, "the callback is asked once for each element, in order");
	J j; j.s = r.get().output; fg::Parser p(vh::AllExt); p.setExtrasParseCallback(onRead); auto e = vh::load(p, j); CHECK(e.error() == fg::Error::None, "what was written loads"); if (e.error() != fg::Error::None) return;
	size_t c = 0; for (unsigned i = 0; i < 3; ++i) if (give[i]) { CHECK(c < got.size(), "the extras are written with their element"); if (c < got.size()) { CHECK(got[c].kind == giveKind && got[c].index == i, "the extras are written with their element"); CHECK(got[c].v == giveVal[i], "the extras are written as given"); } ++c; }
	CHECK(got.size() == c, "no other extras are written");
	vh::Cmp cmp; cmp.numeric = true; cmp.prefix = "written with extras and loaded again: "; for (size_t i = 0; i < w.materials.size(); ++i) e.get().materials[i].alphaCutoff = w.materials[i].alphaCutoff; cmp.v(e.get(), w);
	REACH("same");
}
// ---- P28 ----
namespace {
void word(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += (char)(v >> (8 * i)); }
std::string glb(const char* json, const char* bin, unsigned nbin) { std::string t = json; while (t.size() % 4) t += ' '; std::string b(bin, nbin); while (b.size() % 4) b += '\0'; std::string s = "glTF"; word(s, 2); word(s, (uint32_t)(12 + 8 + t.size() + (nbin ? 8 + b.size() : 0))); word(s, (uint32_t)t.size()); s += "JSON"; s += t; if (nbin) { word(s, (uint32_t)b.size()); s += std::string("BIN\0", 4); s += b; } return s; }
const unsigned NDOC = 9;
struct Loaded { fg::Asset a; unsigned doc; bool ok; };
fg::Expected<fg::Asset> loadDoc(fg::Parser& p, unsigned k) {
	std::string s;
	switch (k) {
	case 0: s = "{" ASSET ",\"scene\":1,\"extensionsUsed\":[\"A\"],\"nodes\":[{\"name\":\"a long name, longer than an inline string\",\"mesh\":3}],\"scenes\":[{\"nodes\":[0]}]}"; break;
	case 1: s = "{" ASSET ",\"buffers\":[{\"byteLength\":4,\"uri\":\"data:application/octet-stream;base64,AQIDBA==\"}]}"; break;
	case 2: s = glb("{" ASSET ",\"buffers\":[{\"byteLength\":4}]}", "wxyz", 4); break;
	case 3: s = glb("{" ASSET ",\"buffers\":[{\"byteLength\":4}]}", "", 0); break;                       // buffer without data
	case 4: s = "{" ASSET ",\"buffers\":[{\"byteLength\":4}]}"; break;                                      // buffer without data
	case 5: s = "{" ASSET ",\"nodes\":[{\"name\":\"first\"},{\"mesh\":-1}]}"; break;                         // fails half way
	case 6: s = "{" ASSET ",\"extensionsRequired\":[\"KHR_lights_punctual\"]}"; break;                        // not enabled
	case 7: s = glb("{" ASSET ",\"buffers\":[{\"byteLength\":4}]}", "abcd", 4); s[12] = (char)0xff; break;   // bad chunk length
	case 8: s = glb("{" ASSET ",\"materials\":[{\"name\":\"m\"}],\"meshes\":[{\"primitives\":[{\"attributes\":{\"POSITION\":2},\"material\":0}]}]}", "abcd", 4); break; // unused binary chunk
	}
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(s.data()), s.size());
	return p.loadGltf(d.get(), ".", fg::Options::None, fg::Category::All);
}
bool succeeds(unsigned k) { return k <= 2 || k == 8; }
void expectDoc(const fg::Asset& a, unsigned k) {
	fg::Asset w; w.assetInfo.emplace(); w.assetInfo->gltfVersion = "2.0";
	auto bytes = [&](const char* p, fg::MimeType m) { fg::Buffer b{}; b.byteLength = 4; fg::StaticVector<std::byte> v(4); std::memcpy(v.data(), p, 4); b.data = fg::sources::Array{std::move(v), m}; w.buffers.emplace_back(std::move(b)); };
	if (k == 0) { w.defaultScene = 1; w.extensionsUsed.emplace_back("A"); fg::Node n; n.name = "a long name, longer than an inline string"; n.meshIndex = 3; n.transform = fg::TRS{}; n.visible = n.selectable = n.hoverable = true; w.nodes.emplace_back(std::move(n)); fg::Scene s; s.nodeIndices.emplace_back(0); w.scenes.emplace_back(std::move(s)); }
	else if (k == 1) bytes("\1\2\3\4", fg::MimeType::OctetStream); else if (k == 2) bytes("wxyz", fg::MimeType::GltfBuffer);
	else { fg::Material m; m.name = "m"; m.emissiveStrength = 1; m.ior = 1.5f; m.dispersion = 0; m.unlit = false; w.materials.emplace_back(std::move(m)); fg::Mesh q; fg::Primitive p; fg::Attribute t; t.name = "POSITION"; t.accessorIndex = 2; p.attributes.emplace_back(std::move(t)); p.materialIndex = 0; p.type = fg::PrimitiveType::Triangles; q.primitives.emplace_back(std::move(p)); w.meshes.emplace_back(std::move(q)); }
	vh::Cmp c; c.v(a, w);
}
}
extern "C" void parser_reuse() {
	unsigned n = 2 + (unsigned)fgse_param("more", 1); Loaded l[4]; bool kill = vh::flip("moveParser");
	{
		auto p = std::make_unique<fg::Parser>(fg::Extensions::None);
		for (unsigned i = 0; i < n; ++i) {
			unsigned k = vh::choose("document", NDOC); auto e = loadDoc(*p, k); l[i].doc = k; l[i].ok = is(e, fg::Error::None);
			CHECK(l[i].ok == succeeds(k), "whether a document loads does not depend on what was loaded before"); if (l[i].ok) l[i].a = std::move(e.get());
			if (kill && i == 0) { auto q = std::make_unique<fg::Parser>(std::move(*p)); p = std::move(q); }
		}
	}
	for (unsigned i = 0; i < n; ++i) if (l[i].ok && succeeds(l[i].doc)) { expectDoc(l[i].a, l[i].doc); REACH("kept"); } else REACH("failed");
}

// Moving a parser hands over its whole configuration, and nothing of the overwritten parser remains.
namespace {
struct Ev { char k; void* user; }; std::vector<Ev> evs; int users[2]; unsigned char mem[8]; bool giveMem;
fg::BufferInfo evMap(std::uint64_t, void* u) { evs.push_back({'m', u}); return fg::BufferInfo{giveMem ? mem : nullptr, 7}; }
void evUnmap(fg::BufferInfo*, void* u) { evs.push_back({'u', u}); }
void evDecode(std::string_view, std::uint8_t* out, std::size_t, std::size_t n, void* u) { evs.push_back({'d', u}); for (std::size_t i = 0; i < n; ++i) out[i] = 9; }
void evExtras(simdjson::dom::object*, std::size_t, C, void* u) { evs.push_back({'e', u}); }
struct Cfg { bool map, unmap, dec, extras, ext; void* user; };
Cfg config(fg::Parser& p, const char* n, unsigned i) { Cfg c{}; unsigned k = vh::choose(n, 6); c.map = k >= 4; c.unmap = k == 5; c.dec = k == 1 || k == 4; c.extras = k == 2 || k >= 4; c.ext = i == 0; if (k != 3) { c.user = &users[i]; p.setUserPointer(c.user); } if (c.map) p.setBufferAllocationCallback(evMap, c.unmap ? evUnmap : nullptr); if (c.dec) p.setBase64DecodeCallback(evDecode); if (c.extras) p.setExtrasParseCallback(evExtras); return c; }
}
extern "C" void parser_moves() {
	using X = fg::Extensions; X xs[2] = {X::KHR_lights_punctual | X::KHR_texture_transform, X::KHR_texture_transform | X::KHR_mesh_quantization}; giveMem = vh::flip("memory");
	unsigned op = vh::choose("operation", 5); fg::Parser a(xs[0]), b(xs[1]); Cfg ca = config(a, "first", 0), cb = config(b, "second", 1); bool used = vh::flip("used");
	if (used) { (void)loadDoc(a, 2); (void)loadDoc(b, 3); }
	std::unique_ptr<fg::Parser> made; fg::Parser* p = nullptr; Cfg c{};
	if (op == 0) { p = &a; c = ca; } else if (op == 1) { made = std::make_unique<fg::Parser>(std::move(a)); p = made.get(); c = ca; } else if (op == 2) { b = std::move(a); p = &b; c = ca; } else if (op == 3) { a = std::move(b); p = &a; c = cb; }
	else { made = std::make_unique<fg::Parser>(std::move(a)); a = std::move(b); b = std::move(*made); bool first = vh::flip("which"); p = first ? &b : &a; c = first ? ca : cb; }
	evs.clear(); unsigned doc = vh::choose("document", 4); std::string s;
	const char* body = doc == 0 ? "{" ASSET ",\"buffers\":[{\"byteLength\":3,\"uri\":\"data:application/octet-stream;base64,AQID\",\"extras\":{}}]}" : doc == 1 ? "{" ASSET ",\"extensionsRequired\":[\"KHR_lights_punctual\"]}" : doc == 2 ? "{" ASSET ",\"extensionsRequired\":[\"KHR_mesh_quantization\",\"KHR_texture_transform\"]}" : "{" ASSET ",\"buffers\":[{\"byteLength\":4,\"extras\":{}}]}";
	if (doc == 3) s = glb(body, "\1\2\3\4", 4); else s = body;
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(s.data()), s.size());
	auto e = p->loadGltf(d.get(), ".", fg::Options::None, fg::Category::All);
	bool ok = doc == 1 ? c.ext : doc == 2 ? !c.ext : true; CHECK((e.error() == fg::Error::None) == ok, "the parser a configuration was moved to supports the same extensions");
	std::string want; if (doc == 0 || doc == 3) { if (c.map) { want += 'm'; if (giveMem) { if (c.dec && doc == 0) want += 'd'; if (c.unmap) want += 'u'; } } if (c.dec && doc == 0 && !(c.map && giveMem)) want += 'd'; if (c.extras) want += 'e'; }
	CHECK(evs.size() == want.size(), "the parser a configuration was moved to calls the same callbacks");
	for (size_t i = 0; i < evs.size() && i < want.size(); ++i) { CHECK(evs[i].k == want[i], "the parser a configuration was moved to calls the same callbacks"); CHECK(evs[i].user == c.user, "with the same user pointer"); }
	if (!ok) { REACH("unsupported"); return; }
	if (e.error() != fg::Error::None) return;
	if (doc == 0 || doc == 3) { CHECK(e.get().buffers.size() == 1, "the buffer is loaded"); if (e.get().buffers.size() != 1) return; auto& src = e.get().buffers[0].data;
		if (c.map && giveMem) { auto* k = std::get_if<fg::sources::CustomBuffer>(&src); CHECK(k != nullptr, "the buffer is the one the callback provided"); if (k) CHECK(k->id == 7, "the buffer is the one the callback provided"); }
		else { auto* k = std::get_if<fg::sources::Array>(&src); CHECK(k != nullptr, "the buffer is an array"); size_t n = doc == 0 ? 3 : 4; if (k) { CHECK(k->bytes.size() == n, "the buffer has the bytes given"); if (k->bytes.size() == n) for (size_t i = 0; i < n; ++i) CHECK(k->bytes[i] == (std::byte)(c.dec && doc == 0 ? 9 : i + 1), "the buffer has the bytes given"); } }
		if (c.map && giveMem) for (size_t i = 0; i < 3; ++i) CHECK(mem[i] == (c.dec && doc == 0 ? 9 : i + 1), "the memory provided has the bytes given"); }
	REACH("loaded");
}

// ---- P06, P37 ----
template <class F> static void total(unsigned fields, bool kinds, bool gen, F&& f) {
	Doc d; d.pol = Pol::All; d.small = true; d.mutate(fields, 17); d.doc([&] { f(d); d.rootExtensions(); });
	CHECK(d.nfld <= fields, "(harness) every field is replaced"); vh::assume(d.mutated);
	auto e = vh::load(d.j, vh::AllExt, fg::Options::AllowDouble | (gen && vh::flip("generate") ? fg::Options::GenerateMeshIndices : fg::Options::None));
	if (kinds) { bool ok = is(e, fg::Error::None); if (d.mustReport()) { CHECK(!ok, "a value of another kind than the specification prescribes is reported"); REACH("reported"); } else REACH("either"); return; }
	if (e.error() == fg::Error::None) { auto err = fg::validate(e.get()); REACH(err == fg::Error::None ? "valid" : "loaded"); } else REACH("rejected");
}
#define TOTAL(n, fields, ...) extern "C" void total_##n() { total(fields, false, std::string_view(#n) == "meshes", [&](Doc& d) { __VA_ARGS__; }); } \
	extern "C" void kinds_##n() { total(fields, true, false, [&](Doc& d) { __VA_ARGS__; }); }
TOTAL(accessors, 96, d.accessors(); d.bufferViews(); d.buffers())
TOTAL(meshes, 128, d.variants(); d.meshes())
TOTAL(nodes, 192, d.transformKind = (int)vh::choose("transform", 2); d.nodes(true, true); d.scenes(); d.skins(); d.cameras(vh::flip("ortho")); d.lights(1))
TOTAL(material, 192, d.material())
TOTAL(material_extensions, 512, d.material(15))
TOTAL(textures, 192, d.textures(); d.images(vh::flip("view")); d.samplers(); d.animations())
TOTAL(physics, 256, unsigned v = vh::choose("variant", 4); d.shapes(v); d.physicsRoot(v & 1); d.bodies(v & 2))
TOTAL(root, 32, d.field("scene", [&] { d.vidx(); }); d.field("scenes", [&] { d.j.s += "[{\"nodes\":[0]}]"; }); d.field("extensionsUsed", [&] { d.j.s += "[\"GODOT_single_root\"]"; }); d.field("extensionsRequired", [&] { d.j.s += "[\"KHR_mesh_quantization\"]"; });
	d.field("asset", [&] { d.j.s += "{\"version\":\"2.0\"}"; }); d.field("extensions", [&] { d.obj([&] { d.field("KHR_lights_punctual", [&] { d.is("ignored"); d.obj([&] { d.field("lights", [&] { d.j.s += "[]"; }); }); }); d.field("KHR_materials_variants", [&] { d.is("ignored"); d.obj([&] { d.field("variants", [&] { d.j.s += "[{\"name\":\"n\"}]"; }); }); }); }); }); d.field("extras", [&] { d.j.s += "{}"; }); d.field("unknown", [&] { d.j.s += "[]"; }))
// where data comes from: a URI that is not a text is neither replaced by another source nor left out
extern "C" void kinds_sources() {
	static const char* const kinds[] = {"null", "true", "[]", "{}", "[\"a\"]"}; J v; unsigned k = vh::choose("kind", 8);
	if (k < 5) v << kinds[k]; else if (k == 5) v.num(vh::u64("unsigned")); else if (k == 6) v.inum((int64_t)(vh::u64("negative") | 1ull << 63)); else v.dnum(vh::finite64("number"));
	unsigned w = vh::choose("where", 5); std::string s;
	if (w < 3) { s = "{" ASSET; if (w == 2) s += ",\"extensionsRequired\":[\"EXT_meshopt_compression\"]"; s += ",\"buffers\":[{\"byteLength\":4,\"uri\":" + v.s + "}]}"; if (w == 1) s = glb(s.c_str(), "abcd", 4); }
	else { s = "{" ASSET ",\"images\":[{"; if (w == 4) s += "\"bufferView\":0,\"mimeType\":\"image/png\","; s += "\"uri\":" + v.s + "}]}"; }
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(s.data()), s.size()); fg::Parser p(vh::AllExt);
	auto e = p.loadGltf(d.get(), ".", fg::Options::None, fg::Category::All);
	CHECK(e.error() != fg::Error::None, "a URI that is not a text is reported"); REACH("reported");
}
