// Loading a document yields exactly the asset its JSON denotes: P07 (accessors, views, buffers), P08 (meshes), P09 (nodes, scenes, skins, cameras, lights),
// P10 (materials), P11 (textures, images, samplers, animations), P35 (shapes, rigid bodies)
#include "gate.hpp"
using vh::Doc; using vh::Pol;
static void check(Doc& d) {
	auto e = vh::load(d.j, vh::AllExt, fg::Options::AllowDouble);
	if (d.dropped) { CHECK(e.error() != fg::Error::None, "a missing required field is reported"); REACH("missing"); return; }
	CHECK(e.error() == fg::Error::None, "a well-formed document loads");
	if (e.error() != fg::Error::None) return;
	fg::Asset moved(std::move(e.get())), a; a = std::move(moved);
	vh::Cmp c; c.v(a, d.want);
	REACH("loaded");
}
template <class F> static void entry(unsigned opts, unsigned reqs, F&& f, Doc& d) {
	if (reqs && vh::flip("drop")) d.dropRequired(reqs); else d.presence(opts);
	d.doc([&] { f(); d.rootExtensions(); });
	if (d.pol == Pol::None || d.pol == Pol::All) d.done(opts);
	check(d);
}
extern "C" void parse_accessors() { Doc d; entry(Doc::accessorOptions, 9, [&] { d.accessors(); }, d); }
extern "C" void parse_accessor_types() { Doc d; d.useComp = (int)vh::choose("component", 8); d.useAcc = (int)vh::choose("type", 7); d.pol = Pol::AllBut; d.sel = 100 + vh::choose("mix", 3); d.mixedBounds = d.useAcc < 5; d.doc([&] { d.accessors(); }); check(d); }
extern "C" void parse_views() { Doc d; entry(Doc::bufferViewOptions, 7, [&] { d.bufferViews(); }, d); }
extern "C" void parse_buffers() { Doc d; entry(Doc::bufferOptions, 2, [&] { d.buffers(); }, d); }
extern "C" void parse_meshes() { Doc d; entry(Doc::meshOptions, 9, [&] { d.variants(); d.meshes(); }, d); }
extern "C" void parse_nodes() { Doc d; d.transformKind = (int)vh::choose("transform", 2); entry(Doc::nodeCore, 0, [&] { d.nodes(true, false); }, d); }
extern "C" void parse_node_extensions() { Doc d; entry(Doc::nodeExt, 2, [&] { d.nodes(false, true); }, d); }
extern "C" void parse_scenes() { Doc d; entry(Doc::sceneOptions + Doc::skinOptions, 1, [&] { d.scenes(); d.skins(); d.field("scene", [&] { d.want.defaultScene = d.vidx(); }); }, d); }
extern "C" void parse_cameras() { Doc d; bool o = vh::flip("ortho"); entry(Doc::cameraOptions, o ? 6 : 4, [&] { d.cameras(o); }, d); }
extern "C" void parse_lights() { Doc d; unsigned k = vh::choose("kind", 3); entry(Doc::lightOptions, k == 1 ? 2 : 1, [&] { d.lights(k); }, d); }
extern "C" void parse_material() { Doc d; entry(Doc::materialCore, 5, [&] { d.material(); }, d); }
extern "C" void parse_material_extensions() {
	Doc d; int e = (int)vh::choose("extension", 16); unsigned n = 0; if (e < 15) n = Doc::materialExtOptions(e); else for (int i = 0; i < 15; ++i) n += Doc::materialExtOptions(i);
	entry(n, 0, [&] { d.material(e); }, d);
}
extern "C" void parse_textures() { Doc d; entry(Doc::textureOptions, 3, [&] { d.textures(); }, d); }
extern "C" void parse_images() { Doc d; bool v = vh::flip("view"); entry(Doc::imageOptions, v ? 2 : 1, [&] { d.images(v); }, d); }
extern "C" void parse_samplers() { Doc d; entry(Doc::samplerOptions, 0, [&] { d.samplers(); }, d); }
extern "C" void parse_animations() { Doc d; entry(Doc::animationOptions, 12, [&] { d.animations(); }, d); }
extern "C" void parse_shapes() { Doc d; unsigned k = vh::choose("kind", 4); entry(Doc::shapeOptions(k), 1, [&] { d.shapes(k); }, d); }
extern "C" void parse_physics() { Doc d; bool nc = vh::flip("notCollide"); entry(Doc::physicsOptions, 5, [&] { d.physicsRoot(nc); }, d); }
extern "C" void parse_bodies() { Doc d; bool nt = vh::flip("nodeTrigger"); entry(Doc::bodyOptions, 3, [&] { d.bodies(nt); }, d); }
