// What remains of an asset when only some extensions are enabled: everything a disabled extension provides has its default.
#pragma once
#include "doc.hpp"
namespace vh {
inline void gate(fg::Asset& a, fg::Extensions on) {
	using X = fg::Extensions; auto has = [&](X x) { return ((uint64_t)on & (uint64_t)x) != 0; };
	bool tt = has(X::KHR_texture_transform);
	auto tex = [&](auto& t) { if (t.has_value() && !tt) t->transform.reset(); };
	for (auto& m : a.materials) {
		if (!has(X::KHR_materials_anisotropy)) m.anisotropy.reset(); if (!has(X::KHR_materials_clearcoat)) m.clearcoat.reset(); if (!has(X::KHR_materials_dispersion)) m.dispersion = 0;
		if (!has(X::KHR_materials_emissive_strength)) m.emissiveStrength = 1; if (!has(X::KHR_materials_ior)) m.ior = 1.5f; if (!has(X::KHR_materials_iridescence)) m.iridescence.reset();
		if (!has(X::KHR_materials_diffuse_transmission)) m.diffuseTransmission.reset(); if (!has(X::KHR_materials_sheen)) m.sheen.reset(); if (!has(X::KHR_materials_specular)) m.specular.reset();
		if (!has(X::KHR_materials_transmission)) m.transmission.reset(); if (!has(X::KHR_materials_unlit)) m.unlit = false; if (!has(X::KHR_materials_volume)) m.volume.reset();
		if (!has(X::MSFT_packing_normalRoughnessMetallic)) m.packedNormalMetallicRoughnessTexture.reset(); if (!has(X::MSFT_packing_occlusionRoughnessMetallic)) m.packedOcclusionRoughnessMetallicTextures.reset();
		if (!has(X::KHR_materials_pbrSpecularGlossiness)) m.specularGlossiness.reset();
		tex(m.normalTexture); tex(m.occlusionTexture); tex(m.emissiveTexture); tex(m.pbrData.baseColorTexture); tex(m.pbrData.metallicRoughnessTexture); tex(m.packedNormalMetallicRoughnessTexture);
		if (auto& x = m.anisotropy) tex(x->anisotropyTexture); if (auto& x = m.clearcoat) { tex(x->clearcoatTexture); tex(x->clearcoatRoughnessTexture); tex(x->clearcoatNormalTexture); }
		if (auto& x = m.iridescence) { tex(x->iridescenceTexture); tex(x->iridescenceThicknessTexture); } if (auto& x = m.diffuseTransmission) { tex(x->diffuseTransmissionTexture); tex(x->diffuseTransmissionColorTexture); }
		if (auto& x = m.sheen) { tex(x->sheenColorTexture); tex(x->sheenRoughnessTexture); } if (auto& x = m.specular) { tex(x->specularTexture); tex(x->specularColorTexture); } if (auto& x = m.transmission) tex(x->transmissionTexture);
		if (auto& x = m.volume) tex(x->thicknessTexture); if (auto& x = m.specularGlossiness) { tex(x->diffuseTexture); tex(x->specularGlossinessTexture); }
		if (auto& x = m.packedOcclusionRoughnessMetallicTextures) { tex(x->occlusionRoughnessMetallicTexture); tex(x->roughnessMetallicOcclusionTexture); tex(x->normalTexture); }
	}
	for (auto& t : a.textures) { if (!has(X::KHR_texture_basisu)) t.basisuImageIndex.reset(); if (!has(X::MSFT_texture_dds)) t.ddsImageIndex.reset(); if (!has(X::EXT_texture_webp)) t.webpImageIndex.reset(); }
	for (auto& v : a.bufferViews) if (!has(X::EXT_meshopt_compression)) v.meshoptCompression.reset();
	if (!has(X::KHR_lights_punctual)) { a.lights.clear(); for (auto& n : a.nodes) n.lightIndex.reset(); }
	for (auto& n : a.nodes) {
		if (!has(X::EXT_mesh_gpu_instancing)) n.instancingAttributes.clear(); if (!has(X::KHR_node_visibility)) n.visible = true; if (!has(X::KHR_node_selectability)) n.selectable = true; if (!has(X::KHR_node_hoverability)) n.hoverable = true;
		if (!has(X::KHR_physics_rigid_bodies)) n.physicsRigidBody.reset();
	}
	if (!has(X::KHR_physics_rigid_bodies)) { a.physicsMaterials.clear(); a.collisionFilters.clear(); a.physicsJoints.clear(); }
	if (!has(X::KHR_implicit_shapes)) a.shapes.clear();
	for (auto& m : a.meshes) for (auto& p : m.primitives) { if (!has(X::KHR_draco_mesh_compression)) p.dracoCompression.reset(); if (!has(X::KHR_materials_variants)) p.mappings.clear(); }
	if (!has(X::KHR_materials_variants)) a.materialVariants.clear();
}
// every set of one extension, of all but one, of none
inline fg::Extensions extensionSet() {
	unsigned c = choose("extensions", 67); const uint64_t all = (uint64_t)AllExt;
	return (fg::Extensions)(c == 66 ? 0 : c & 1 ? 1ull << (c / 2 + 1) : all & ~(1ull << (c / 2 + 1)));
}
}
// only what the enabled extensions provide is loaded, whatever else the document contains
template <class F> static void gated(F&& f) {
	vh::Doc d; d.pol = vh::Pol::All; d.small = true; auto on = vh::extensionSet();
	d.doc([&] { f(d); d.rootExtensions(); });
	auto e = vh::load(d.j, on, fg::Options::AllowDouble);
	CHECK(e.error() == fg::Error::None, "a well-formed document loads"); if (e.error() != fg::Error::None) return;
	vh::gate(d.want, on); vh::Cmp c; c.v(e.get(), d.want);
	REACH("loaded");
}
extern "C" void gate_views() { gated([](vh::Doc& d) { d.bufferViews(); }); }
extern "C" void gate_meshes() { gated([](vh::Doc& d) { d.variants(); d.meshes(); }); }
extern "C" void gate_nodes() { gated([](vh::Doc& d) { d.nodes(true, true); d.lights(0); }); }
extern "C" void gate_materials() { gated([](vh::Doc& d) { if (vh::flip("core")) d.material(); else d.material(15); }); }
extern "C" void gate_textures() { gated([](vh::Doc& d) { d.textures(); }); }
extern "C" void gate_physics() { gated([](vh::Doc& d) { d.shapes(0); d.physicsRoot(false); d.bodies(false); }); }
