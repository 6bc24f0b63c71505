// P25: an asset written as glTF text and loaded again is the same asset
#include "gate.hpp"
using vh::Doc; using vh::Pol;
static void roundtrip(fg::Asset& want, fg::ExportOptions o = fg::ExportOptions::None) {
	fg::Exporter ex; auto r = ex.writeGltfJson(want, o);
	CHECK(r.error() == fg::Error::None, "the asset is written"); if (r.error() != fg::Error::None) return;
	if (fgse_param("print", 0)) fgse_print(r.get().output.data(), r.get().output.size());
	vh::J j; j.s = std::move(r.get().output);
	auto e = vh::load(j, vh::AllExt, fg::Options::AllowDouble);
	CHECK(e.error() == fg::Error::None, "what was written loads"); if (e.error() != fg::Error::None) return;
	auto& a = e.get();
	// the cutoff has no meaning for materials that are not masked
	if (a.materials.size() == want.materials.size()) for (size_t i = 0; i < want.materials.size(); ++i) if (want.materials[i].alphaMode != fg::AlphaMode::Mask) a.materials[i].alphaCutoff = want.materials[i].alphaCutoff;
	vh::Cmp c; c.numeric = true; c.prefix = "written and loaded again: "; c.v(a, want);
	REACH("same");
}
template <class F> static void entry(unsigned opts, F&& f, Doc& d) {
	d.exporting = true; d.presence(opts); vh::assume(d.pol != Pol::AllReversed);
	d.doc([&] { f(); });
	roundtrip(d.want);
}
extern "C" void write_accessors() { Doc d; entry(Doc::accessorOptions, [&] { d.accessors(); }, d); }
extern "C" void write_accessor_types() { Doc d; d.useComp = (int)vh::choose("component", 8); d.useAcc = (int)vh::choose("type", 7); d.exporting = true; d.pol = Pol::AllBut; d.sel = 100; d.doc([&] { d.accessors(); }); roundtrip(d.want); }
extern "C" void write_views() { Doc d; entry(Doc::bufferViewOptions, [&] { d.bufferViews(); }, d); }
extern "C" void write_buffers() { Doc d; entry(Doc::bufferOptions, [&] { d.buffers(); }, d); }
extern "C" void write_meshes() { Doc d; entry(Doc::meshOptions, [&] { d.variants(); d.meshes(); }, d); }
extern "C" void write_nodes() { Doc d; d.transformKind = (int)vh::choose("transform", 2); entry(Doc::nodeCore, [&] { d.nodes(true, false); }, d); }
extern "C" void write_node_extensions() { Doc d; entry(Doc::nodeExt, [&] { d.nodes(false, true); }, d); }
extern "C" void write_scenes() { Doc d; entry(Doc::sceneOptions + Doc::skinOptions, [&] { d.scenes(); d.skins(); d.field("scene", [&] { d.want.defaultScene = d.vidx(); }); }, d); }
extern "C" void write_cameras() { Doc d; bool o = vh::flip("ortho"); entry(Doc::cameraOptions, [&] { d.cameras(o); }, d); }
extern "C" void write_lights() { Doc d; unsigned k = vh::choose("kind", 3); entry(Doc::lightOptions, [&] { d.lights(k); }, d); }
extern "C" void write_material() { Doc d; entry(Doc::materialCore, [&] { d.material(); }, d); }
extern "C" void write_material_extensions() {
	Doc d; int e = (int)vh::choose("extension", 16); unsigned n = 0; if (e < 15) n = Doc::materialExtOptions(e); else for (int i = 0; i < 15; ++i) n += Doc::materialExtOptions(i);
	entry(n, [&] { d.material(e); }, d);
}
extern "C" void write_textures() { Doc d; entry(Doc::textureOptions, [&] { d.textures(); }, d); }
extern "C" void write_images() { Doc d; bool v = vh::flip("view"); entry(Doc::imageOptions, [&] { d.images(v); }, d); }
extern "C" void write_samplers() { Doc d; entry(Doc::samplerOptions, [&] { d.samplers(); }, d); }
extern "C" void write_animations() { Doc d; entry(Doc::animationOptions, [&] { d.animations(); }, d); }
extern "C" void write_shapes() { Doc d; unsigned k = vh::choose("kind", 4); entry(Doc::shapeOptions(k), [&] { d.shapes(k); }, d); }
extern "C" void write_physics() { Doc d; bool nc = vh::flip("notCollide"); entry(Doc::physicsOptions, [&] { d.physicsRoot(nc); }, d); }
extern "C" void write_bodies() { Doc d; bool nt = vh::flip("nodeTrigger"); entry(Doc::bodyOptions, [&] { d.bodies(nt); }, d); }
// any set of sections of a document together: pairs, all but one, one, all, none
extern "C" void write_root() {
	Doc d; d.exporting = true; d.pol = vh::flip("full") ? Pol::All : Pol::None; d.small = d.pol == Pol::All;
	const unsigned N = 19; bool on[N] = {}; unsigned c = vh::choose("sections", 2 * N + 2 + N * (N - 1) / 2);
	if (c < N) on[c] = true; else if (c < 2 * N) { for (bool& b : on) b = true; on[c - N] = false; } else if (c < 2 * N + 2) { for (bool& b : on) b = c & 1; } else { c -= 2 * N + 2; unsigned a = 0; while (c >= N - 1 - a) c -= N - 1 - a++; on[a] = on[a + 1 + c] = true; }
	bool used = vh::flip("extensionLists"); auto& w = d.want;
	d.doc([&] {
		auto two = [&](bool x, auto&& f) { if (x) f(); };
		two(on[0], [&] { d.accessors(); }); two(on[1], [&] { d.animations(); }); two(on[2], [&] { d.buffers(); }); two(on[3], [&] { d.bufferViews(); }); two(on[4], [&] { d.cameras(false); }); two(on[5], [&] { d.images(true); });
		two(on[6], [&] { d.material(); }); two(on[7], [&] { d.meshes(); }); two(on[8], [&] { d.nodes(); }); two(on[9], [&] { d.samplers(); }); two(on[10], [&] { d.scenes(); }); two(on[11], [&] { d.skins(); }); two(on[12], [&] { d.textures(); });
		two(on[13], [&] { d.lights(1); }); two(on[14], [&] { d.shapes(2); }); d.physicsRoot(false);
	});
	if (!on[15]) w.physicsMaterials.clear(); if (!on[16]) w.collisionFilters.clear(); if (!on[17]) w.physicsJoints.clear(); if (on[18]) w.materialVariants = {"a", "b", "c"};
	else for (auto& m : w.meshes) for (auto& p : m.primitives) p.mappings.clear();
	if (on[10]) w.defaultScene = 1;
	if (used) { w.extensionsUsed = {"KHR_lights_punctual", "X_y"}; w.extensionsRequired = {"KHR_lights_punctual"}; }
	switch (vh::choose("assetInfo", 3)) { case 0: w.assetInfo->copyright = "c d"; break; case 1: w.assetInfo->generator = "g"; w.assetInfo->copyright = "e"; break; default: break; }
	roundtrip(w, vh::flip("pretty") ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None);
}
// material variants of primitives
extern "C" void write_mappings() {
	fg::Asset w; w.assetInfo.emplace(); w.assetInfo->gltfVersion = "2.0"; unsigned nv = 1 + vh::choose("variants", 3);
	for (unsigned i = 0; i < nv; ++i) w.materialVariants.emplace_back(vh::nm("v", i));
	auto& m = w.meshes.emplace_back();
	for (unsigned i = 0; i < 2; ++i) {
		auto& p = m.primitives.emplace_back(); p.attributes.emplace_back(fg::Attribute{"POSITION", 0}); unsigned n = vh::choose("mappings", nv + 1); 
		for (unsigned k = 0; k < n; ++k) { fg::Optional<std::size_t> o; if (k + 1 == n || vh::flip("mapped")) { size_t v = (size_t)vh::choose("material", 2); o = v; } p.mappings.emplace_back(o); }
	}
	fg::Exporter ex; auto r = ex.writeGltfJson(w); CHECK(r.error() == fg::Error::None, "the asset is written"); if (r.error() != fg::Error::None) return;
	vh::J j; j.s = std::move(r.get().output); auto e = vh::load(j, vh::AllExt); CHECK(e.error() == fg::Error::None, "what was written loads"); if (e.error() != fg::Error::None) return;
	for (auto& p : m.primitives) if (!p.mappings.empty()) p.mappings.resize(nv); // one entry per variant once loaded
	vh::Cmp c; c.prefix = "written and loaded again: "; c.v(e.get(), w); REACH("same");
}
// an exporter may be used again, whatever it wrote or refused before
extern "C" void write_again() {
	fg::Exporter ex; fg::Asset bad, good; bad.assetInfo.emplace(); bad.assetInfo->gltfVersion = "2.0";
	switch (vh::choose("before", 4)) {
	case 0: { auto& i = bad.images.emplace_back(); i.data = std::monostate{}; break; }
	case 1: { auto& b = bad.buffers.emplace_back(); b.data = std::monostate{}; b.byteLength = 3; break; }
	case 2: { auto& b = bad.buffers.emplace_back(); std::vector<std::byte> three(3); b.data = fg::sources::Array{fg::StaticVector<std::byte>::fromVector(three), fg::MimeType::None}; b.byteLength = 3; break; }
	default: break; }
	if (vh::flip("binary")) { auto r = ex.writeGltfBinary(bad); if (r.error() == fg::Error::None) REACH("wrote"); else REACH("refused"); } else { auto r = ex.writeGltfJson(bad); if (r.error() == fg::Error::None) REACH("wrote"); else REACH("refused"); }
	fg::Exporter fresh; Doc d; d.small = true; d.pol = Pol::All; d.doc([&] { d.images(false); d.buffers(); }); { auto& b = d.want.buffers.emplace_back(); fg::sources::Vector v; v.bytes.resize(8); b.data = std::move(v); b.byteLength = 8; }
	if (vh::flip("binary2")) {
		auto r = ex.writeGltfBinary(d.want), s = fresh.writeGltfBinary(d.want); CHECK(r.error() == s.error(), "same result as a new exporter"); if (r.error() != fg::Error::None || s.error() != fg::Error::None) return;
		CHECK(r.get().output == s.get().output, "same output as a new exporter"); CHECK(r.get().bufferPaths == s.get().bufferPaths, "same buffer paths"); CHECK(r.get().imagePaths == s.get().imagePaths, "same image paths");
	} else {
		auto r = ex.writeGltfJson(d.want), s = fresh.writeGltfJson(d.want); CHECK(r.error() == s.error(), "same result as a new exporter"); if (r.error() != fg::Error::None || s.error() != fg::Error::None) return;
		CHECK(r.get().output == s.get().output, "same output as a new exporter"); CHECK(r.get().bufferPaths == s.get().bufferPaths, "same buffer paths"); CHECK(r.get().imagePaths == s.get().imagePaths, "same image paths");
	}
	REACH("same");
}
