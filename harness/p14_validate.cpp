// validate() accepts an asset exactly if the rules of the specification that it enforces hold: every reference resolves,
// extensions in use are declared, and the per-element rules below. It reads nothing out of range for any asset.
#include "doc.hpp"
#include <fastgltf/tools.hpp>
using vh::Doc; using vh::Pol;
namespace {
// one valid element of every kind, so that references have something to refer to
void base(fg::Asset& a) {
	{ fg::Buffer b{}; b.byteLength = 64; a.buffers.emplace_back(std::move(b)); }
	{ fg::BufferView v{}; v.bufferIndex = 0; v.byteLength = 64; v.byteOffset = 0; a.bufferViews.emplace_back(std::move(v)); }
	{ fg::Accessor c{}; c.count = 1; c.type = fg::AccessorType::Scalar; c.componentType = fg::ComponentType::Float; a.accessors.emplace_back(std::move(c)); }
	a.cameras.emplace_back(); a.cameras[0].camera = fg::Camera::Perspective{fg::Optional<fg::num>{}, 1.f, fg::Optional<fg::num>{}, 1.f};
	{ fg::Image i; fg::sources::URI u; u.fileByteOffset = 0; u.mimeType = fg::MimeType::None; i.data = std::move(u); a.images.emplace_back(std::move(i)); }
	{ fg::Light l{}; l.type = fg::LightType::Point; a.lights.emplace_back(std::move(l)); }
	a.materials.emplace_back(); auto& m = a.materials[0]; m.emissiveStrength = 1; m.ior = 1.5f; m.dispersion = 0; m.unlit = false;
	a.samplers.emplace_back();
	a.textures.emplace_back(); a.textures[0].imageIndex = 0;
	a.nodes.emplace_back(); a.scenes.emplace_back(); a.scenes[0].nodeIndices.emplace_back(0);
	{ fg::Skin s; s.joints.emplace_back(0); a.skins.emplace_back(std::move(s)); }
	{ fg::Mesh q; a.meshes.emplace_back(std::move(q)); }
	a.shapes.emplace_back(); a.physicsMaterials.emplace_back(); a.collisionFilters.emplace_back(); a.physicsJoints.emplace_back();
}
struct Oracle {
	const fg::Asset& a; bool ok = true;
	void in(size_t i, size_t n) { ok = ok & (i < n); }
	void in(const fg::Optional<size_t>& i, size_t n) { if (i.has_value()) in(*i, n); }
	bool used(std::string_view e) { for (auto& x : a.extensionsUsed) if (std::string_view(x) == e) return true; return false; }
	void ext(bool inUse, std::string_view e) { if (!used(e)) ok = ok & !inUse; }
	// f(element) for the referenced element, if there is one
	template <class V, class F> bool at(const V& v, size_t i, F&& f) { bool r = true; for (size_t k = 0; k < v.size(); ++k) r = r & ((i != k) | f(v[k])); return r; }
	template <class O> void tex(const O& t) { if (t.has_value()) in(t->textureIndex, a.textures.size()); }
	static unsigned comps(fg::AccessorType t) { static const unsigned char n[] = {1, 2, 3, 4, 4, 9, 16}; return n[((unsigned)t & 7) - 1]; }
	static unsigned size(fg::ComponentType t) { unsigned g = (unsigned)t & 0x1fff; return g <= 5121 ? 1 : g <= 5123 ? 2 : g == 5130 ? 8 : 4; }
	void accessors() {
		for (auto& c : a.accessors) {
			ok = ok & (c.count >= 1); in(c.bufferViewIndex, a.bufferViews.size());
			size_t m = size(c.componentType) - 1;
			ok = ok & ((c.byteOffset & m) == 0);
			if (c.bufferViewIndex.has_value()) ok = ok & at(a.bufferViews, *c.bufferViewIndex, [&](auto& v) { bool r = ((c.byteOffset + v.byteOffset) & m) == 0; if (v.byteStride.has_value()) r = r & ((*v.byteStride & m) == 0); return r; });
			bool fp = c.componentType == fg::ComponentType::Float || c.componentType == fg::ComponentType::Double;
			for (auto* b : {&c.max, &c.min}) if (b->has_value()) { ok = ok & ((*b)->size() == comps(c.type)); if (fp) ok = ok & (*b)->template isType<double>(); }
			if (c.sparse.has_value()) for (size_t i : {c.sparse->indicesBufferView, c.sparse->valuesBufferView}) { in(i, a.bufferViews.size()); ok = ok & at(a.bufferViews, i, [](auto& v) { return !v.byteStride.has_value() && !v.target.has_value(); }); }
		}
	}
	bool meshopt(size_t acc) { bool r = false; for (size_t k = 0; k < a.accessors.size(); ++k) { auto& i = a.accessors[k].bufferViewIndex; if (!i.has_value()) continue; for (size_t q = 0; q < a.bufferViews.size(); ++q) r = r | ((acc == k) & (*i == q) & (a.bufferViews[q].meshoptCompression != nullptr)); } return r; }
	void animations() {
		for (auto& an : a.animations) {
			ok = ok & !an.channels.empty() & !an.samplers.empty();
			for (auto& s : an.samplers) { in(s.inputAccessor, a.accessors.size()); in(s.outputAccessor, a.accessors.size()); }
			for (size_t i = 0; i < an.channels.size(); ++i) {
				auto& c = an.channels[i]; in(c.nodeIndex, a.nodes.size()); in(c.samplerIndex, an.samplers.size());
				for (size_t k = 0; k < i; ++k) if (c.nodeIndex.has_value() && an.channels[k].nodeIndex.has_value()) ok = ok & !((*c.nodeIndex == *an.channels[k].nodeIndex) & (c.path == an.channels[k].path));
				ok = ok & at(an.samplers, c.samplerIndex, [&](auto& s) {
					bool r = at(a.accessors, s.inputAccessor, [](auto& x) { return (x.type == fg::AccessorType::Scalar) & ((x.componentType == fg::ComponentType::Float) | (x.componentType == fg::ComponentType::Double)); });
					bool skip = meshopt(s.inputAccessor) | meshopt(s.outputAccessor) | (c.path == fg::AnimationPath::Weights);
					size_t ni = 0, no = 0; for (size_t k = 0; k < a.accessors.size(); ++k) { ni = s.inputAccessor == k ? a.accessors[k].count : ni; no = s.outputAccessor == k ? a.accessors[k].count : no; }
					bool cnt = s.interpolation == fg::AnimationInterpolation::CubicSpline ? (ni >= 2) & (ni * 3 == no) : ni == no;
					return r & (skip | cnt);
				});
			}
		}
	}
	void views() {
		for (auto& b : a.buffers) ok = ok & (b.byteLength >= 1);
		for (auto& v : a.bufferViews) {
			ok = ok & (v.byteLength >= 1); in(v.bufferIndex, a.buffers.size());
			if (v.byteStride.has_value()) ok = ok & (*v.byteStride >= 4) & (*v.byteStride <= 252) & ((*v.byteStride & 3) == 0);
			if (!v.meshoptCompression) continue;
			ext(true, "EXT_meshopt_compression"); auto& c = *v.meshoptCompression; in(c.bufferIndex, a.buffers.size());
			if (c.mode == fg::MeshoptCompressionMode::Attributes) ok = ok & ((c.byteStride & 3) == 0) & (c.byteStride <= 256);
			else { ok = ok & ((c.byteStride == 2) | (c.byteStride == 4)); if (c.mode == fg::MeshoptCompressionMode::Triangles) ok = ok & (c.count % 3 == 0); }
		}
	}
	void cameras() {
		for (auto& c : a.cameras) {
			if (auto* o = std::get_if<fg::Camera::Orthographic>(&c.camera)) ok = ok & (o->zfar != 0);
			if (auto* p = std::get_if<fg::Camera::Perspective>(&c.camera)) { ok = ok & (p->yfov != 0) & (p->znear != 0); if (p->aspectRatio.has_value()) ok = ok & (*p->aspectRatio != 0); if (p->zfar.has_value()) ok = ok & (*p->zfar != 0); }
		}
	}
	void lights() {
		for (auto& l : a.lights) {
			if (l.range.has_value()) ok = ok & (l.type != fg::LightType::Directional) & (*l.range > 0);
			bool in = l.innerConeAngle.has_value(), out = l.outerConeAngle.has_value();
			if (l.type != fg::LightType::Spot) ok = ok & !in & !out;
			else { ok = ok & in & out; if (in && out) ok = ok & (*l.innerConeAngle >= 0) & (*l.innerConeAngle <= *l.outerConeAngle) & ((double)*l.outerConeAngle <= 1.57079632679489661923); }
		}
	}
	void materials() {
		for (auto& m : a.materials) {
			tex(m.normalTexture); tex(m.emissiveTexture); tex(m.occlusionTexture); tex(m.pbrData.baseColorTexture); tex(m.pbrData.metallicRoughnessTexture);
			if (m.anisotropy) { ext(true, "KHR_materials_anisotropy"); tex(m.anisotropy->anisotropyTexture); }
			if (m.clearcoat) { ext(true, "KHR_materials_clearcoat"); tex(m.clearcoat->clearcoatTexture); tex(m.clearcoat->clearcoatRoughnessTexture); tex(m.clearcoat->clearcoatNormalTexture); }
			if (m.iridescence) { ext(true, "KHR_materials_iridescence"); tex(m.iridescence->iridescenceTexture); tex(m.iridescence->iridescenceThicknessTexture); }
			if (m.sheen) { ext(true, "KHR_materials_sheen"); tex(m.sheen->sheenColorTexture); tex(m.sheen->sheenRoughnessTexture); }
			if (m.specular) { ext(true, "KHR_materials_specular"); tex(m.specular->specularTexture); tex(m.specular->specularColorTexture); }
			if (m.specularGlossiness) { ext(true, "KHR_materials_pbrSpecularGlossiness"); tex(m.specularGlossiness->diffuseTexture); tex(m.specularGlossiness->specularGlossinessTexture); }
			if (m.transmission) { ext(true, "KHR_materials_transmission"); tex(m.transmission->transmissionTexture); }
			if (m.volume) { ext(true, "KHR_materials_volume"); tex(m.volume->thicknessTexture); }
			if (m.diffuseTransmission) { ext(true, "KHR_materials_diffuse_transmission"); tex(m.diffuseTransmission->diffuseTransmissionTexture); tex(m.diffuseTransmission->diffuseTransmissionColorTexture); }
			if (m.packedNormalMetallicRoughnessTexture.has_value()) { ext(true, "MSFT_packing_normalRoughnessMetallic"); tex(m.packedNormalMetallicRoughnessTexture); }
			if (auto* p = m.packedOcclusionRoughnessMetallicTextures.get()) { ext(true, "MSFT_packing_occlusionRoughnessMetallic"); tex(p->occlusionRoughnessMetallicTexture); tex(p->roughnessMetallicOcclusionTexture); tex(p->normalTexture); }
			ext(m.emissiveStrength != 1, "KHR_materials_emissive_strength"); ext(m.ior != 1.5f, "KHR_materials_ior");
		}
	}
	static bool starts(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }
	void meshes() {
		bool q = used("KHR_mesh_quantization"); using C = fg::ComponentType; using T = fg::AccessorType;
		for (auto& mesh : a.meshes) for (auto& p : mesh.primitives) {
			in(p.materialIndex, a.materials.size()); in(p.indicesAccessor, a.accessors.size());
			if (!p.mappings.empty()) { ext(true, "KHR_materials_variants"); ok = ok & (p.mappings.size() == a.materialVariants.size()); for (auto& m : p.mappings) in(m, a.materials.size()); }
			for (auto& t : p.targets) for (auto& at : t) in(at.accessorIndex, a.accessors.size());
			if (p.dracoCompression) in(p.dracoCompression->bufferView, a.bufferViews.size());
			if (p.indicesAccessor.has_value()) ok = ok & at(a.accessors, *p.indicesAccessor, [&](auto& x) { return !x.bufferViewIndex.has_value() || at(a.bufferViews, *x.bufferViewIndex, [](auto& v) { return !v.byteStride.has_value(); }); });
			for (auto& [name, index] : p.attributes) {
				in(index, a.accessors.size()); std::string_view n(name);
				ok = ok & at(a.accessors, index, [&, &n = n](const fg::Accessor& x) -> bool {
					auto c = x.componentType; auto t = x.type;
					bool sn = (c == C::Float) | (q & ((c == C::Short) | (c == C::Byte))), norm = (c == C::Float) | (c == C::UnsignedByte) | (c == C::UnsignedShort), any = (c != C::Double) & (c != C::UnsignedInt);
					if (n == "POSITION") return x.max.has_value() & x.min.has_value() & (t == T::Vec3) & (q ? any : c == C::Float);
					if (n == "NORMAL") return (t == T::Vec3) & sn;
					if (n == "TANGENT") return (t == T::Vec4) & sn;
					if (starts(n, "TEXCOORD_")) return (t == T::Vec2) & (q ? any : norm);
					if (starts(n, "COLOR_")) return ((t == T::Vec3) | (t == T::Vec4)) & norm;
					if (starts(n, "JOINTS_")) return (t == T::Vec4) & ((c == C::UnsignedByte) | (c == C::UnsignedShort));
					if (starts(n, "WEIGHTS_")) return (t == T::Vec4) & norm;
					if (starts(n, "_")) return c != C::UnsignedInt;
					return false;
				});
			}
		}
	}
	void geometry(const fg::Geometry& g) { in(g.shape, a.shapes.size()); in(g.node, a.nodes.size()); }
	void nodes() {
		for (auto& n : a.nodes) {
			in(n.cameraIndex, a.cameras.size()); in(n.skinIndex, a.skins.size()); in(n.meshIndex, a.meshes.size()); in(n.lightIndex, a.lights.size());
			for (auto& c : n.children) in(c, a.nodes.size());
			for (auto& x : n.instancingAttributes) in(x.accessorIndex, a.accessors.size());
			if (auto* t = std::get_if<fg::TRS>(&n.transform)) for (int i = 0; i < 4; ++i) ok = ok & (t->rotation[i] <= 1) & (t->rotation[i] >= -1);
			if (n.skinIndex.has_value() || !n.weights.empty()) ok = ok & n.meshIndex.has_value();
			if (n.skinIndex.has_value() && n.meshIndex.has_value()) ok = ok & at(a.meshes, *n.meshIndex, [](auto& m) { bool r = true; for (auto& p : m.primitives) { bool j = false, w = false; for (auto& x : p.attributes) { j |= x.name == "JOINTS_0"; w |= x.name == "WEIGHTS_0"; } r = r && j && w; } return r; });
			ext(!n.visible, "KHR_node_visibility"); ext(!n.selectable, "KHR_node_selectability"); ext(!n.hoverable, "KHR_node_hoverability");
			if (auto* b = n.physicsRigidBody.get()) {
				if (b->collider.has_value()) { geometry(b->collider->geometry); in(b->collider->physicsMaterial, a.physicsMaterials.size()); in(b->collider->collisionFilter, a.collisionFilters.size()); }
				if (b->trigger.has_value()) { if (auto* g = std::get_if<fg::GeometryTrigger>(&*b->trigger)) { geometry(g->geometry); in(g->collisionFilter, a.collisionFilters.size()); } else for (auto& k : std::get<fg::NodeTrigger>(*b->trigger).nodes) in(k, a.nodes.size()); }
				if (b->joint.has_value()) { in(b->joint->connectedNode, a.nodes.size()); in(b->joint->joint, a.physicsJoints.size()); }
			}
		}
	}
	void rest() {
		for (auto& r : a.extensionsRequired) ok = ok & used(std::string_view(r));
		ok = ok & (a.extensionsRequired.size() <= a.extensionsUsed.size());
		for (auto& i : a.images) if (auto* v = std::get_if<fg::sources::BufferView>(&i.data)) in(v->bufferViewIndex, a.bufferViews.size());
		for (auto& s : a.samplers) if (s.magFilter.has_value()) ok = ok & ((*s.magFilter == fg::Filter::Nearest) | (*s.magFilter == fg::Filter::Linear));
		in(a.defaultScene, a.scenes.size());
		for (auto& s : a.scenes) for (auto& n : s.nodeIndices) in(n, a.nodes.size());
		for (auto& s : a.skins) { ok = ok & !s.joints.empty(); for (auto& n : s.joints) in(n, a.nodes.size()); in(s.skeleton, a.nodes.size()); in(s.inverseBindMatrices, a.accessors.size()); }
		bool tx = used("KHR_texture_basisu") || used("MSFT_texture_dds") || used("EXT_texture_webp");
		for (auto& t : a.textures) {
			in(t.samplerIndex, a.samplers.size()); in(t.imageIndex, a.images.size()); in(t.basisuImageIndex, a.images.size()); in(t.ddsImageIndex, a.images.size()); in(t.webpImageIndex, a.images.size());
			ok = ok & (t.imageIndex.has_value() || (tx && (t.basisuImageIndex.has_value() || t.ddsImageIndex.has_value() || t.webpImageIndex.has_value())));
		}
		if (used("GODOT_single_root")) {
			ok = ok & (a.scenes.size() == 1) & a.defaultScene.has_value() & !a.nodes.empty();
			if (a.defaultScene.has_value()) ok = ok & (*a.defaultScene == 0);
			if (a.scenes.size() == 1) { ok = ok & (a.scenes[0].nodeIndices.size() == 1); if (a.scenes[0].nodeIndices.size() == 1) ok = ok & (a.scenes[0].nodeIndices[0] == 0); }
			if (!a.nodes.empty()) { auto& t = std::get<fg::TRS>(a.nodes[0].transform); for (int i = 0; i < 3; ++i) ok = ok & (t.translation[i] == 0) & (t.scale[i] == 1) & (t.rotation[i] == 0); ok = ok & (t.rotation[3] == 1); }
		}
	}
	bool operator()() { accessors(); animations(); views(); cameras(); lights(); materials(); meshes(); nodes(); rest(); return ok; }
};
void check(const fg::Asset& a) {
	bool want = Oracle{a}();
	bool got = fg::validate(a) == fg::Error::None;
	if (got) { CHECK(want, "an accepted asset obeys the specification"); REACH("accepted"); }
	else { CHECK(!want, "an asset that obeys the specification is accepted"); REACH("rejected"); }
}
void use(fg::Asset& a, const char* e) { a.extensionsUsed.emplace_back(e); }
void useAll(fg::Asset& a) { for (auto* e : {"EXT_meshopt_compression", "KHR_materials_variants", "KHR_node_visibility", "KHR_node_selectability", "KHR_node_hoverability", "KHR_texture_basisu", "KHR_materials_emissive_strength", "KHR_materials_ior"}) use(a, e); }
}
#define ENTRY(n) extern "C" void n()
ENTRY(val_accessors) { Doc d; base(d.want); d.useComp = (int)vh::choose("component", 6); d.useAcc = d.useComp ? 0 : (int)vh::choose("type", 7); if (d.useComp == 5) d.useComp = 7; if (d.useAcc > 1 || d.useComp > 1) d.pol = Pol::All; else d.presence(Doc::accessorOptions); d.want.bufferViews.emplace_back(); auto& v = d.want.bufferViews[1]; v.byteLength = 8; v.byteOffset = fgse_sym("offset", 16); if (vh::flip("strided")) v.byteStride = fgse_sym("stride", 16); if (vh::flip("targeted")) v.target = fg::BufferTarget::ArrayBuffer; d.doc([&] { d.accessors(); }); check(d.want); }
ENTRY(val_bounds) { fg::Asset a; base(a); auto& c = a.accessors[0]; c.componentType = Doc::compType(vh::choose("component", 8)).t; c.type = Doc::accType(vh::choose("type", 7)).t; auto ty = vh::flip("float") ? fg::AccessorBoundsArray::BoundsType::float64 : fg::AccessorBoundsArray::BoundsType::int64; (vh::flip("which") ? c.max : c.min).emplace(1 + vh::choose("size", 17), ty); check(a); }
ENTRY(val_animations) {
	unsigned shape = vh::choose("shape", 4); bool one = shape == 1; // no channels; one channel and sampler; two of each; no samplers
	fg::Asset a; base(a); auto& c0 = a.accessors[0];
	c0.count = vh::u16("count0"); vh::assume(c0.count > 0);
	if (one) { c0.type = Doc::accType(vh::choose("type", 2)).t; c0.componentType = Doc::compType(vh::flip("int") ? 2 : vh::flip("double") ? 7 : 0).t; }
	a.accessors.emplace_back(); auto& c1 = a.accessors[1]; c1.type = fg::AccessorType::Scalar; c1.componentType = fg::ComponentType::Float; c1.count = vh::u16("count1"); vh::assume(c1.count > 0);
	if (one && vh::flip("view")) { c1.bufferViewIndex = 0; if (vh::flip("meshopt")) { a.bufferViews[0].meshoptCompression = std::make_unique<fg::CompressedBufferView>(); auto& m = *a.bufferViews[0].meshoptCompression; m.mode = fg::MeshoptCompressionMode::Attributes; m.byteStride = 4; m.bufferIndex = 0; useAll(a); } }
	a.nodes.emplace_back(); a.animations.emplace_back(); auto& an = a.animations[0];
	unsigned nc = shape == 0 ? 0 : shape == 2 ? 2 : 1, ns = shape == 3 ? 0 : shape == 2 ? 2 : 1;
	for (unsigned i = 0; i < nc; ++i) { fg::AnimationChannel c{}; c.samplerIndex = fgse_sym("sampler", 8); if (i || !vh::flip("untargeted")) c.nodeIndex = (size_t)fgse_sym("target", 8); c.path = one ? (fg::AnimationPath)(1 + vh::choose("path", 4)) : i ? fg::AnimationPath::Rotation : (fg::AnimationPath)(1 + vh::choose("path", 2)); an.channels.emplace_back(c); }
	for (unsigned i = 0; i < ns; ++i) { fg::AnimationSampler s{}; s.inputAccessor = one ? fgse_sym("input", 8) : 0; s.outputAccessor = i ? 0 : fgse_sym("output", 8); s.interpolation = one ? (fg::AnimationInterpolation)vh::choose("interpolation", 3) : fg::AnimationInterpolation::Linear; an.samplers.emplace_back(s); }
	check(a);
}
ENTRY(val_views) { Doc d; base(d.want); d.presence(Doc::bufferViewOptions); if (vh::flip("declared")) useAll(d.want); d.doc([&] { d.buffers(); d.nopt = 0; d.bufferViews(); }); check(d.want); }
ENTRY(val_cameras) { Doc d; base(d.want); bool o = vh::flip("ortho"); d.presence(Doc::cameraOptions); d.doc([&] { d.cameras(o); }); check(d.want); }
ENTRY(val_lights) { Doc d; base(d.want); unsigned k = vh::choose("kind", 3); d.presence(Doc::lightOptions); d.doc([&] { d.lights(k); }); if (vh::flip("cone")) { auto& l = d.want.lights[1]; l.innerConeAngle = (float)vh::finite("inner"); if (vh::flip("outer")) l.outerConeAngle = (float)vh::finite("outer_angle"); else l.outerConeAngle.reset(); } check(d.want); }
ENTRY(val_materials) { Doc d; base(d.want); d.presence(Doc::materialCore); d.doc([&] { d.material(); }); check(d.want); }
ENTRY(val_material_ext) {
	static const char* const names[] = {"KHR_materials_anisotropy", "KHR_materials_clearcoat", "KHR_materials_dispersion", "KHR_materials_emissive_strength", "KHR_materials_ior", "KHR_materials_iridescence", "KHR_materials_diffuse_transmission", "KHR_materials_sheen", "KHR_materials_specular", "KHR_materials_transmission", "KHR_materials_unlit", "KHR_materials_volume", "MSFT_packing_normalRoughnessMetallic", "MSFT_packing_occlusionRoughnessMetallic", "KHR_materials_pbrSpecularGlossiness"};
	Doc d; base(d.want); int e = (int)vh::choose("extension", 15); d.presence(Doc::materialExtOptions(e)); d.doc([&] { d.material(e); });
	unsigned u = vh::choose("declared", 3); if (u == 1) use(d.want, names[e]); else if (u == 2) use(d.want, names[(e + 1) % 15]);
	check(d.want);
}
ENTRY(val_meshes) { Doc d; base(d.want); d.presence(Doc::meshOptions); unsigned v = vh::choose("variants", 3); if (v == 1) d.variants(); if (v == 2) d.want.materialVariants = {"x"}; if (vh::flip("declared")) useAll(d.want); if (vh::flip("strided")) { d.want.bufferViews[0].byteStride = 4; d.want.accessors[0].bufferViewIndex = 0; } d.doc([&] { d.meshes(); });
	auto& c = d.want.accessors[0]; c.type = fg::AccessorType::Vec3; c.max.emplace(3, fg::AccessorBoundsArray::BoundsType::float64); c.min.emplace(3, fg::AccessorBoundsArray::BoundsType::float64);
	c = std::move(c); for (auto& x : {fg::AccessorType::Vec2, fg::AccessorType::Vec4}) { d.want.accessors.emplace_back(); auto& k = d.want.accessors.back(); k.count = 1; k.type = x; k.componentType = fg::ComponentType::UnsignedByte; }
	check(d.want); }
ENTRY(val_attributes) {
	fg::Asset a; base(a); static const char* const names[] = {"POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "TEXCOORD_1", "COLOR_0", "JOINTS_0", "WEIGHTS_0", "_X", "OTHER", "POSITION_1", "", "TEXCOORD"};
	unsigned n = vh::choose("name", 13); auto& c = a.accessors[0];
	static const fg::AccessorType types[] = {fg::AccessorType::Scalar, fg::AccessorType::Vec2, fg::AccessorType::Vec3, fg::AccessorType::Vec4, fg::AccessorType::Mat2, fg::AccessorType::Mat3, fg::AccessorType::Mat4};
	c.type = types[vh::choose("type", 7)]; static const unsigned ci[] = {0, 1, 2, 3, 4, 5, 7}; c.componentType = Doc::compType(ci[vh::choose("component", 7)]).t;
	if (n == 0) { unsigned nn = c.type == fg::AccessorType::Vec3 ? 3 : Oracle::comps(c.type); if (vh::flip("max")) c.max.emplace(nn, fg::AccessorBoundsArray::BoundsType::float64); if (vh::flip("min")) c.min.emplace(nn, fg::AccessorBoundsArray::BoundsType::float64); }
	if (vh::flip("quantization")) use(a, "KHR_mesh_quantization");
	fg::Primitive p; fg::Attribute at; at.name = names[n]; at.accessorIndex = fgse_sym("accessor", 63); p.attributes.emplace_back(std::move(at)); a.meshes[0].primitives.emplace_back(std::move(p));
	check(a);
}
ENTRY(val_nodes) {
	Doc d; base(d.want); d.constNum = true; d.idxBits = 8; d.transformKind = (int)vh::choose("transform", 2); d.presence(Doc::nodeCore); d.doc([&] { d.nodes(true, false); });
	unsigned k = vh::choose("skinned", 4); fg::Primitive p; for (auto* n : {"_A", k & 1 ? "JOINTS_0" : "_J", k & 2 ? "WEIGHTS_0" : "_W"}) { fg::Attribute at; at.name = n; at.accessorIndex = n[0] == '_' ? 0 : 1; p.attributes.emplace_back(std::move(at)); }
	d.want.accessors.emplace_back(); auto& c = d.want.accessors[1]; c.count = 1; c.type = fg::AccessorType::Vec4; c.componentType = fg::ComponentType::UnsignedByte;
	if (vh::flip("more")) { d.want.meshes.emplace_back(); for (int i = 0; i < 2; ++i) { fg::Skin s; s.joints.emplace_back(0); d.want.skins.emplace_back(std::move(s)); } } // a mesh without primitives, more skins than meshes
	d.want.meshes[0].primitives.emplace_back(std::move(p));
	check(d.want);
}
ENTRY(val_rotation) { fg::Asset a; base(a); fg::TRS t; for (int i = 0; i < 4; ++i) t.rotation[i] = (float)vh::finite("rotation"); a.nodes[0].transform = t; check(a); }
ENTRY(val_node_extensions) { Doc d; base(d.want); d.presence(Doc::nodeExt); if (vh::flip("visibility")) use(d.want, "KHR_node_visibility"); if (vh::flip("selectability")) use(d.want, "KHR_node_selectability"); if (vh::flip("hoverability")) use(d.want, "KHR_node_hoverability"); d.doc([&] { d.nodes(false, true); }); check(d.want); }
ENTRY(val_bodies) { Doc d; base(d.want); bool t = vh::flip("nodeTrigger"); d.presence(Doc::bodyOptions); d.doc([&] { d.bodies(t); }); check(d.want); }
ENTRY(val_scenes) { Doc d; base(d.want); d.presence(Doc::sceneOptions + Doc::skinOptions); d.doc([&] { d.scenes(); d.skins(); if (vh::flip("default")) d.want.defaultScene = (size_t)d.vidx(); }); if (vh::flip("empty")) d.want.skins[0].joints.clear(); check(d.want); }
ENTRY(val_textures) { Doc d; base(d.want); d.presence(Doc::textureOptions); static const char* const n[] = {"KHR_materials_ior", "KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp"}; use(d.want, n[vh::choose("declared", 4)]); if (vh::flip("view")) { fg::sources::BufferView b{}; b.bufferViewIndex = fgse_sym("index", 63); d.want.images[0].data = b; } d.doc([&] { d.textures(); }); d.want.textures.pop_back(); check(d.want); }
ENTRY(val_samplers) { fg::Asset a; base(a); if (vh::flip("mag")) a.samplers[0].magFilter = (fg::Filter)vh::u16("filter"); if (vh::flip("min")) a.samplers[0].minFilter = fg::Filter::LinearMipMapLinear; check(a); }
ENTRY(val_required) { fg::Asset a; base(a); static const char* const n[] = {"A", "AB", "B", ""}; unsigned u = vh::choose("used", 3), r = vh::choose("required", 3); for (unsigned i = 0; i < u; ++i) use(a, n[vh::choose("name", 4)]); for (unsigned i = 0; i < r; ++i) a.extensionsRequired.emplace_back(n[vh::choose("required_name", 4)]); check(a); }
ENTRY(val_single_root) {
	fg::Asset a; base(a); use(a, "GODOT_single_root");
	if (vh::flip("default")) a.defaultScene = (size_t)fgse_sym("scene", 63);
	unsigned s = vh::choose("scenes", 3); if (s == 0) a.scenes.clear(); if (s == 2) { a.scenes.emplace_back(); } 
	if (s == 1) { unsigned k = vh::choose("roots", 3); a.scenes[0].nodeIndices.clear(); for (unsigned i = 0; i < k; ++i) a.scenes[0].nodeIndices.emplace_back(fgse_sym("root", 63)); }
	unsigned n = vh::choose("nodes", 3); if (n == 0) { a.nodes.clear(); a.skins.clear(); if (s) a.scenes[0].nodeIndices.clear(); } if (n == 2) a.nodes.emplace_back();
	if (n) { fg::TRS t; unsigned w = vh::choose("part", 3); for (int i = 0; i < 3; ++i) { if (w == 0) t.translation[i] = (float)vh::finite("translation"); if (w == 1) t.scale[i] = (float)vh::finite("scale"); } if (w == 2) for (int i = 0; i < 4; ++i) t.rotation[i] = (float)vh::finite("rotation"); a.nodes[0].transform = t; }
	check(a);
}
