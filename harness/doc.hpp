// The parts of a glTF document, each emitted as JSON together with the value the specification assigns to it.
#pragma once
#include "gen.hpp"
#include "compare.hpp"
namespace vh {
inline constexpr fg::Extensions AllExt = (fg::Extensions)((1ull << 34) - 1);
struct Doc : Gen {
	fg::Asset want;
	// n elements under the policy, then one with only its required fields: nothing of an element may leak into the next
	template <class F> void list(const char* key, unsigned n, F&& f) {
		field(key, [&] { arr(n + 1, [&](unsigned i) { if (pol == Pol::AllReversed ? i > 0 : i < n) { f(i); return; } bare = true; Pol s = pol; unsigned o = nopt; pol = pol == Pol::Mutate ? Pol::Mutate : Pol::None; if (pol == Pol::Mutate) { unsigned ss = sel; sel = ~0u; unsigned nf = nfld; f(i); nfld = nf; sel = ss; } else f(i); pol = s; nopt = o; bare = false; }); });
	}
	bool bare = false;
	template <class F> void ext(const char* name, unsigned nested, F&& f) { optN("extensions", nested + 1, [&] { obj([&] { optN(name, nested, [&] { obj(f); }); }); }); }
	template <class F> void doc(F&& f) { obj([&] { std::string sv = std::move(j.s); j.s = ASSET; fields->push_back(j.s); j.s = std::move(sv); f(); }); want.assetInfo.emplace(); want.assetInfo->gltfVersion = "2.0"; }

	// ---- textures used by materials ----
	enum { Plain, Normal, Occlusion };
	static constexpr unsigned texOptions(int kind) { return 7 + (kind != Plain); }
	template <class O> void texInfo(O& out, int kind) { // all options explored
		using T = typename O::value_type; obj([&] {
			T t; t.textureIndex = 0; req("index", [&] { t.textureIndex = vidx(); });
			didx("texCoord", t.texCoordIndex, 0);
			if constexpr (std::is_same_v<T, fg::NormalTextureInfo>) num("scale", t.scale, 1);
			if constexpr (std::is_same_v<T, fg::OcclusionTextureInfo>) num("strength", t.strength, 1);
			optN("extensions", 5, [&] { obj([&] { optN("KHR_texture_transform", 4, [&] { obj([&] {
				auto tr = std::make_unique<fg::TextureTransform>();
				vec("offset", tr->uvOffset, 2, {0, 0}); num("rotation", tr->rotation, 0); vec("scale", tr->uvScale, 2, {1, 1}); idx("texCoord", tr->texCoordIndex);
				t.transform = std::move(tr);
			}); }); }); });
			out = std::move(t);
		});
	}
	template <class O> void texShort(O& out) { // everything present, or (ints) just the index
		using T = typename O::value_type; obj([&] {
			T t; t.textureIndex = 0; req("index", [&] { t.textureIndex = vidx(); });
			if (!ints) {
				field("texCoord", [&] { t.texCoordIndex = vidx(); });
				if constexpr (std::is_same_v<T, fg::NormalTextureInfo>) field("scale", [&] { t.scale = vnum(); });
				if constexpr (std::is_same_v<T, fg::OcclusionTextureInfo>) field("strength", [&] { t.strength = vnum(); });
				field("extensions", [&] { obj([&] { field("KHR_texture_transform", [&] { obj([&] {
					auto tr = std::make_unique<fg::TextureTransform>(); tr->rotation = 0;
					field("rotation", [&] { tr->rotation = vnum(); }); field("offset", [&] { vvec(tr->uvOffset, 2); });
					t.transform = std::move(tr);
				}); }); }); });
			}
			out = std::move(t);
		});
	}
	template <class O> void tex(const char* k, O& out) { opt(k, [&] { texShort(out); }); }
	// ---- materials ----
	static constexpr unsigned materialCore = 1 + 9 + 9 + 8 + 20 + 4;
	void material(int ext = -1, unsigned n = 1) {
		list("materials", n, [&](unsigned) { obj([&] {
			fg::Material m;
			if (ext < 0) {
				vec("emissiveFactor", m.emissiveFactor, 3, {0, 0, 0});
				optN("normalTexture", texOptions(Normal), [&] { texInfo(m.normalTexture, Normal); });
				optN("occlusionTexture", texOptions(Occlusion), [&] { texInfo(m.occlusionTexture, Occlusion); });
				optN("emissiveTexture", texOptions(Plain), [&] { texInfo(m.emissiveTexture, Plain); });
				m.pbrData.metallicFactor = m.pbrData.roughnessFactor = 1; for (int i = 0; i < 4; ++i) m.pbrData.baseColorFactor[i] = 1;
				optN("pbrMetallicRoughness", 19, [&] { obj([&] {
					vec("baseColorFactor", m.pbrData.baseColorFactor, 4, {1, 1, 1, 1});
					optN("baseColorTexture", 7, [&] { texInfo(m.pbrData.baseColorTexture, Plain); });
					num("metallicFactor", m.pbrData.metallicFactor, 1); num("roughnessFactor", m.pbrData.roughnessFactor, 1);
					optN("metallicRoughnessTexture", 7, [&] { texInfo(m.pbrData.metallicRoughnessTexture, Plain); });
				}); });
				m.alphaMode = fg::AlphaMode::Opaque; if (exporting && pol == Pol::Only) m.alphaMode = fg::AlphaMode::Mask; opt("alphaMode", [&] { venum(m.alphaMode, {{"MASK", (int)fg::AlphaMode::Mask}, {"OPAQUE", (int)fg::AlphaMode::Opaque}, {"BLEND", (int)fg::AlphaMode::Blend}}); });
				num("alphaCutoff", m.alphaCutoff, 0.5); boolean("doubleSided", m.doubleSided, false); name("name", m.name);
				m.emissiveStrength = 1; m.ior = 1.5f; m.dispersion = 0; m.unlit = false;
			} else if (!bare) field("extensions", [&] { obj([&] { if (ext < 15) materialExt(m, ext); else for (int e = 0; e < 15; ++e) materialExt(m, e); }); });
			want.materials.emplace_back(std::move(m));
		}); });
	}
	static constexpr unsigned materialExtOptions(int e) { constexpr unsigned n[] = {3, 5, 1, 1, 1, 6, 4, 4, 4, 2, 0, 4, 1, 3, 5}; return n[e]; }
	static constexpr fg::Extensions materialExtFlag(int e) {
		using X = fg::Extensions; constexpr X x[] = {X::KHR_materials_anisotropy, X::KHR_materials_clearcoat, X::KHR_materials_dispersion, X::KHR_materials_emissive_strength, X::KHR_materials_ior, X::KHR_materials_iridescence, X::KHR_materials_diffuse_transmission, X::KHR_materials_sheen, X::KHR_materials_specular, X::KHR_materials_transmission, X::KHR_materials_unlit, X::KHR_materials_volume, X::MSFT_packing_normalRoughnessMetallic, X::MSFT_packing_occlusionRoughnessMetallic, X::KHR_materials_pbrSpecularGlossiness};
		return x[e];
	}
	void materialExt(fg::Material& m, int e) {
		switch (e) {
		case 0: field("KHR_materials_anisotropy", [&] { obj([&] { auto x = std::make_unique<fg::MaterialAnisotropy>(); num("anisotropyStrength", x->anisotropyStrength, 0); num("anisotropyRotation", x->anisotropyRotation, 0); tex("anisotropyTexture", x->anisotropyTexture); m.anisotropy = std::move(x); }); }); break;
		case 1: field("KHR_materials_clearcoat", [&] { obj([&] { auto x = std::make_unique<fg::MaterialClearcoat>(); num("clearcoatFactor", x->clearcoatFactor, 0); tex("clearcoatTexture", x->clearcoatTexture); num("clearcoatRoughnessFactor", x->clearcoatRoughnessFactor, 0); tex("clearcoatRoughnessTexture", x->clearcoatRoughnessTexture); tex("clearcoatNormalTexture", x->clearcoatNormalTexture); m.clearcoat = std::move(x); }); }); break;
		case 2: field("KHR_materials_dispersion", [&] { obj([&] { num("dispersion", m.dispersion, 0); }); }); break;
		case 3: field("KHR_materials_emissive_strength", [&] { obj([&] { num("emissiveStrength", m.emissiveStrength, 1); }); }); break;
		case 4: field("KHR_materials_ior", [&] { obj([&] { num("ior", m.ior, 1.5); }); }); break;
		case 5: field("KHR_materials_iridescence", [&] { obj([&] { auto x = std::make_unique<fg::MaterialIridescence>(); num("iridescenceFactor", x->iridescenceFactor, 0); tex("iridescenceTexture", x->iridescenceTexture); num("iridescenceIor", x->iridescenceIor, 1.3); num("iridescenceThicknessMinimum", x->iridescenceThicknessMinimum, 100); num("iridescenceThicknessMaximum", x->iridescenceThicknessMaximum, 400); tex("iridescenceThicknessTexture", x->iridescenceThicknessTexture); m.iridescence = std::move(x); }); }); break;
		case 6: field("KHR_materials_diffuse_transmission", [&] { obj([&] { auto x = std::make_unique<fg::MaterialDiffuseTransmission>(); num("diffuseTransmissionFactor", x->diffuseTransmissionFactor, 0); tex("diffuseTransmissionTexture", x->diffuseTransmissionTexture); vec("diffuseTransmissionColorFactor", x->diffuseTransmissionColorFactor, 3, {1, 1, 1}); tex("diffuseTransmissionColorTexture", x->diffuseTransmissionColorTexture); m.diffuseTransmission = std::move(x); }); }); break;
		case 7: field("KHR_materials_sheen", [&] { obj([&] { auto x = std::make_unique<fg::MaterialSheen>(); vec("sheenColorFactor", x->sheenColorFactor, 3, {0, 0, 0}); tex("sheenColorTexture", x->sheenColorTexture); num("sheenRoughnessFactor", x->sheenRoughnessFactor, 0); tex("sheenRoughnessTexture", x->sheenRoughnessTexture); m.sheen = std::move(x); }); }); break;
		case 8: field("KHR_materials_specular", [&] { obj([&] { auto x = std::make_unique<fg::MaterialSpecular>(); num("specularFactor", x->specularFactor, 1); tex("specularTexture", x->specularTexture); vec("specularColorFactor", x->specularColorFactor, 3, {1, 1, 1}); tex("specularColorTexture", x->specularColorTexture); m.specular = std::move(x); }); }); break;
		case 9: field("KHR_materials_transmission", [&] { obj([&] { auto x = std::make_unique<fg::MaterialTransmission>(); num("transmissionFactor", x->transmissionFactor, 0); tex("transmissionTexture", x->transmissionTexture); m.transmission = std::move(x); }); }); break;
		case 10: field("KHR_materials_unlit", [&] { obj([&] { m.unlit = true; }); }); break;
		case 11: field("KHR_materials_volume", [&] { obj([&] { auto x = std::make_unique<fg::MaterialVolume>(); num("thicknessFactor", x->thicknessFactor, 0); tex("thicknessTexture", x->thicknessTexture); num("attenuationDistance", x->attenuationDistance, std::numeric_limits<double>::infinity()); vec("attenuationColor", x->attenuationColor, 3, {1, 1, 1}); m.volume = std::move(x); }); }); break;
		case 12: field("MSFT_packing_normalRoughnessMetallic", [&] { obj([&] { tex("normalRoughnessMetallicTexture", m.packedNormalMetallicRoughnessTexture); }); }); break;
		case 13: field("MSFT_packing_occlusionRoughnessMetallic", [&] { obj([&] { auto x = std::make_unique<fg::MaterialPackedTextures>(); tex("occlusionRoughnessMetallicTexture", x->occlusionRoughnessMetallicTexture); tex("roughnessMetallicOcclusionTexture", x->roughnessMetallicOcclusionTexture); tex("normalTexture", x->normalTexture); m.packedOcclusionRoughnessMetallicTextures = std::move(x); }); }); break;
		case 14: field("KHR_materials_pbrSpecularGlossiness", [&] { obj([&] { auto x = std::make_unique<fg::MaterialSpecularGlossiness>(); vec("diffuseFactor", x->diffuseFactor, 4, {1, 1, 1, 1}); tex("diffuseTexture", x->diffuseTexture); vec("specularFactor", x->specularFactor, 3, {1, 1, 1}); num("glossinessFactor", x->glossinessFactor, 1); tex("specularGlossinessTexture", x->specularGlossinessTexture); m.specularGlossiness = std::move(x); }); }); break;
		}
	}
	// ---- buffers, buffer views, accessors ----
	static constexpr unsigned bufferOptions = 1;
	void buffers(unsigned n = 1) {
		list("buffers", n, [&](unsigned) { obj([&] {
			fg::Buffer b{}; ridx("byteLength", b.byteLength);
			req("uri", [&] { is("text"); fg::sources::URI u; u.fileByteOffset = 0; u.uri = fg::URI(std::string_view("a/b%20c.bin")); u.mimeType = fg::MimeType::None; b.data = std::move(u); j.s += "\"a/b%20c.bin\""; });
			name("name", b.name); want.buffers.emplace_back(std::move(b));
		}); });
	}
	static constexpr unsigned bufferViewOptions = 4 + 4;
	void bufferViews(unsigned n = 1) {
		list("bufferViews", n, [&](unsigned) { obj([&] {
			fg::BufferView b; b.bufferIndex = b.byteLength = 0; ridx("buffer", b.bufferIndex); didx("byteOffset", b.byteOffset, 0); ridx("byteLength", b.byteLength); idx("byteStride", b.byteStride);
			opt("target", [&] { fg::BufferTarget t; venumInt(t, {34962, 34963}); b.target = t; }); name("name", b.name);
			ext("EXT_meshopt_compression", 2, [&] {
				auto c = std::make_unique<fg::CompressedBufferView>(); ridx("buffer", c->bufferIndex); didx("byteOffset", c->byteOffset, 0); ridx("byteLength", c->byteLength); ridx("byteStride", c->byteStride); ridx("count", c->count);
				req("mode", [&] { venum(c->mode, {{"ATTRIBUTES", 0}, {"TRIANGLES", 1}, {"INDICES", 2}}); });
				c->filter = fg::MeshoptCompressionFilter::None; opt("filter", [&] { venum(c->filter, {{"OCTAHEDRAL", 1}, {"NONE", 0}, {"QUATERNION", 2}, {"EXPONENTIAL", 3}}); });
				b.meshoptCompression = std::move(c);
			});
			want.bufferViews.emplace_back(std::move(b));
		}); });
	}
	struct CT { int gl; fg::ComponentType t; bool fp, norm; };
	static const CT& compType(unsigned i) { using C = fg::ComponentType; static const CT t[] = {{5126, C::Float, true, false}, {5120, C::Byte, false, true}, {5121, C::UnsignedByte, false, true}, {5122, C::Short, false, true}, {5123, C::UnsignedShort, false, true}, {5125, C::UnsignedInt, false, false}, {5124, C::Int, false, true}, {5130, C::Double, true, true}}; return t[i]; }
	struct AT { const char* text; fg::AccessorType t; unsigned n; };
	static const AT& accType(unsigned i) { using A = fg::AccessorType; static const AT t[] = {{"VEC3", A::Vec3, 3}, {"SCALAR", A::Scalar, 1}, {"VEC2", A::Vec2, 2}, {"VEC4", A::Vec4, 4}, {"MAT2", A::Mat2, 4}, {"MAT3", A::Mat3, 9}, {"MAT4", A::Mat4, 16}}; return t[i]; }
	static constexpr unsigned accessorOptions = 6 + 3;
	int useComp = -1, useAcc = -1; bool mixedBounds = false;
	void bounds(const char* k, std::optional<fg::AccessorBoundsArray>& o, const CT& c, const AT& a) {
		opt(k, [&] {
			o.emplace(a.n, c.fp ? fg::AccessorBoundsArray::BoundsType::float64 : fg::AccessorBoundsArray::BoundsType::int64);
			arr(a.n, [&](unsigned i) {
				unsigned kind = mixedBounds ? (i + sel) % 3 : c.fp ? (ints ? 1 : 0) : 1;
				if (small || exporting) kind = c.fp ? 0 : 1;
				if (kind == 0) { double d; if (c.fp) { d = small ? 1.5 : constant() ? 0.5 + ++serial : finite64("bound"); if (small) j.s += "1.5"; else j.dnum(d); } else { d = (double)(int32_t)u32("bound") ; j.dnum(d); } if (c.fp) o->set<double>(i, d); else o->set<std::int64_t>(i, (std::int64_t)d); }
				else if (kind == 1) { int64_t v = small ? -3 : constant() ? -(int64_t)++serial : (int64_t)u64("bound"); if (!small) assume(v < 0); j.inum(v); if (c.fp) o->set<double>(i, (double)v); else o->set<std::int64_t>(i, v); }
				else { uint64_t v = u64("bound"); assume(v <= (uint64_t)INT64_MAX); j.num(v); if (c.fp) o->set<double>(i, (double)v); else o->set<std::int64_t>(i, (std::int64_t)v); }
			});
		});
	}
	void accessors(unsigned n = 1) {
		list("accessors", n, [&](unsigned i) { obj([&] {
			fg::Accessor a{}; const CT& c = compType(bare ? 1 : useComp >= 0 ? (unsigned)useComp : 0); const AT& t = accType(bare ? 1 : useAcc >= 0 ? (unsigned)useAcc : 0);
			a.componentType = c.t; a.type = t.t;
			req("componentType", [&] { j.s += std::to_string(c.gl); }); req("type", [&] { j.s += '"'; j.s += t.text; j.s += '"'; }); ridx("count", a.count);
			idx("bufferView", a.bufferViewIndex); didx("byteOffset", a.byteOffset, 0);
			bounds("max", a.max, c, t); bounds("min", a.min, c, t);
			a.normalized = false; opt("normalized", [&] { bool v = c.norm && vboolv(); a.normalized = v; j.s += v ? "true" : "false"; });
			optN("sparse", 2, [&] { obj([&] {
				fg::SparseAccessor s{}; ridx("count", s.count);
				req("indices", [&] { obj([&] { ridx("bufferView", s.indicesBufferView); didx("byteOffset", s.indicesByteOffset, 0); req("componentType", [&] { static const int gl[] = {5121, 5123, 5125}; static const fg::ComponentType ct[] = {fg::ComponentType::UnsignedByte, fg::ComponentType::UnsignedShort, fg::ComponentType::UnsignedInt}; unsigned k = pick(3); s.indexComponentType = ct[k]; j.s += std::to_string(gl[k]); }); }); });
				req("values", [&] { obj([&] { ridx("bufferView", s.valuesBufferView); didx("byteOffset", s.valuesByteOffset, 0); }); });
				a.sparse = s;
			}); });
			name("name", a.name); want.accessors.emplace_back(std::move(a));
		}); });
	}
	bool vboolv() const { return pol == Pol::All || pol == Pol::AllInts || pol == Pol::Only; }
	// ---- meshes ----
	static constexpr unsigned meshOptions = 4 + 3 + 2;
	void meshes(unsigned n = 1) {
		list("meshes", n, [&](unsigned) { obj([&] {
			fg::Mesh m;
			req("primitives", [&] { arr(bare ? 1 : 2, [&](unsigned pi) { Pol sp = pol; unsigned so = nopt; bool sub = pi == 1; if (sub && pol != Pol::Mutate && pol != Pol::DropRequired) pol = Pol::None; obj([&] {
				fg::Primitive p;
				req("attributes", [&] { if (bare || sub) attributes(p.attributes, {"POSITION"}); else attributes(p.attributes, {"POSITION", "NORMAL", "TEXCOORD_0", "JOINTS_0", "WEIGHTS_0", "_CUSTOM"}); });
				idx("indices", p.indicesAccessor); idx("material", p.materialIndex);
				p.type = fg::PrimitiveType::Triangles; opt("mode", [&] { venumInt(p.type, {0, 1, 2, 3, 4, 5, 6}); });
				opt("targets", [&] { arr(2, [&](unsigned k) { p.targets.emplace_back(); if (k) attributes(p.targets.back(), {"POSITION"}); else attributes(p.targets.back(), {"POSITION", "NORMAL"}); }); });
				optN("extensions", 2, [&] { obj([&] {
					opt("KHR_draco_mesh_compression", [&] { obj([&] { auto d = std::make_unique<fg::DracoCompressedPrimitive>(); ridx("bufferView", d->bufferView); req("attributes", [&] { attributes(d->attributes, {"POSITION", "NORMAL"}); }); p.dracoCompression = std::move(d); }); });
					opt("KHR_materials_variants", [&] { obj([&] { req("mappings", [&] { p.mappings.resize(3); arr(2, [&](unsigned k) { obj([&] { size_t mat = 0; ridx("material", mat); req("variants", [&] { if (k == 0) { j.s += "[2]"; p.mappings[2] = mat; } else { j.s += "[0,1]"; p.mappings[0] = p.mappings[1] = mat; } }); }); }); }); }); });
				}); });
				m.primitives.emplace_back(std::move(p));
			}); pol = sp; if (sub) nopt = so; }); });
			opt("weights", [&] { numList(m.weights, 2); }); name("name", m.name);
			want.meshes.emplace_back(std::move(m));
		}); });
	}
	void variants() { want.materialVariants = {"a", "b", "c"}; rootExt.emplace_back("\"KHR_materials_variants\":{\"variants\":[{\"name\":\"a\"},{\"name\":\"b\"},{\"name\":\"c\"}]}"); }
	std::vector<std::string> rootExt;
	// emits the collected root extensions
	void rootExtensions() { if (rootExt.empty()) return; std::string t = "\"extensions\":{"; for (size_t i = 0; i < rootExt.size(); ++i) { if (i) t += ','; t += rootExt[i]; } fields->push_back(t + "}"); }
	template <class F> void rootExtension(const char* key, F&& f) { std::string sv = std::move(j.s); j.s.clear(); auto* sf = fields; std::vector<std::string> mine; fields = &mine; field(key, [&] { is("ignored"); obj(f); }); fields = sf; j.s = std::move(sv); rootExt.emplace_back(mine[0]); }
	// ---- nodes ----
	static constexpr unsigned nodeCore = 10, nodeExt = 1 + 2 + 2 * 3;
	int transformKind = 0; // 0: TRS, 1: matrix
	void nodes(bool core = true, bool exts = true, unsigned n = 1) {
		list("nodes", n, [&](unsigned) { obj([&] {
			fg::Node nd; fg::TRS trs; nd.visible = nd.selectable = nd.hoverable = true;
			if (core) {
				idx("mesh", nd.meshIndex); idx("skin", nd.skinIndex); idx("camera", nd.cameraIndex);
				opt("children", [&] { idxList(nd.children, 3); }); opt("weights", [&] { numList(nd.weights, 2); });
				if (!bare && transformKind == 1) { nopt += 3; opt("matrix", [&] { fg::math::fmat4x4 m; arr(16, [&](unsigned i) { m.col(i / 4)[i % 4] = vnum(); }); nd.transform = m; hasMatrix = true; }); }
				else {
					trs.rotation = fg::math::fquat(0.f, 0.f, 0.f, 1.f);
					vec("translation", trs.translation, 3, {0, 0, 0}); opt("rotation", [&] { vvec(trs.rotation, 4); }); vec("scale", trs.scale, 3, {1, 1, 1}); ++nopt;
				}
				name("name", nd.name);
			} else { for (int i = 0; i < 3; ++i) trs.scale[i] = 1, trs.translation[i] = 0; trs.rotation = fg::math::fquat(0.f, 0.f, 0.f, 1.f); }
			if (!hasMatrix) nd.transform = trs; hasMatrix = false;
			if (exts) optN("extensions", 2 + 6, [&] { obj([&] {
				opt("KHR_lights_punctual", [&] { obj([&] { req("light", [&] { nd.lightIndex = vidx(); }); }); });
				opt("EXT_mesh_gpu_instancing", [&] { obj([&] { req("attributes", [&] { attributes(nd.instancingAttributes, {"TRANSLATION", "ROTATION", "_ID"}); }); }); });
				optN("KHR_node_visibility", 1, [&] { obj([&] { opt("visible", [&] { j.s += "false"; nd.visible = false; }); }); });
				optN("KHR_node_selectability", 1, [&] { obj([&] { opt("selectable", [&] { j.s += "false"; nd.selectable = false; }); }); });
				optN("KHR_node_hoverability", 1, [&] { obj([&] { opt("hoverable", [&] { j.s += "false"; nd.hoverable = false; }); }); });
			}); });
			want.nodes.emplace_back(std::move(nd));
		}); });
	}
	bool hasMatrix = false;
	static constexpr unsigned sceneOptions = 2, skinOptions = 3;
	void scenes(unsigned n = 1) { list("scenes", n, [&](unsigned) { obj([&] { fg::Scene s; opt("nodes", [&] { idxList(s.nodeIndices, 3); }); name("name", s.name); want.scenes.emplace_back(std::move(s)); }); }); }
	void skins(unsigned n = 1) { list("skins", n, [&](unsigned) { obj([&] { fg::Skin s; req("joints", [&] { idxList(s.joints, 3); }); idx("inverseBindMatrices", s.inverseBindMatrices); idx("skeleton", s.skeleton); name("name", s.name); want.skins.emplace_back(std::move(s)); }); }); }
	static constexpr unsigned cameraOptions = 3;
	void cameras(bool ortho, unsigned n = 1) {
		list("cameras", n, [&](unsigned) { obj([&] {
			fg::Camera c;
			if (ortho && !bare) { fg::Camera::Orthographic o{}; req("type", [&] { j.s += "\"orthographic\""; }); req("orthographic", [&] { obj([&] { rnum("xmag", o.xmag); rnum("ymag", o.ymag); rnum("zfar", o.zfar); rnum("znear", o.znear); }); }); c.camera = o; nopt += 2; }
			else { fg::Camera::Perspective p{}; req("type", [&] { j.s += "\"perspective\""; }); req("perspective", [&] { obj([&] { onum("aspectRatio", p.aspectRatio); rnum("yfov", p.yfov); onum("zfar", p.zfar); rnum("znear", p.znear); }); }); c.camera = p; }
			name("name", c.name); want.cameras.emplace_back(std::move(c));
		}); });
	}
	static constexpr unsigned lightOptions = 6;
	void lights(unsigned kind, unsigned n = 1) {
		rootExtension("KHR_lights_punctual", [&] { list("lights", n, [&](unsigned) { obj([&] {
			fg::Light l{}; l.type = bare ? fg::LightType::Point : (fg::LightType)kind; static const char* t[] = {"\"directional\"", "\"spot\"", "\"point\""}; req("type", [&] { j.s += t[(int)l.type]; });
			vec("color", l.color, 3, {1, 1, 1}); num("intensity", l.intensity, 1); onum("range", l.range); name("name", l.name);
			if (l.type == fg::LightType::Spot) req("spot", [&] { obj([&] { fg::num in, out; num("innerConeAngle", in, 0); num("outerConeAngle", out, 3.14159265358979323846 / 4); l.innerConeAngle = in; l.outerConeAngle = out; }); });
			else nopt += 2;
			want.lights.emplace_back(std::move(l));
		}); }); });
	}
	// ---- textures, images, samplers, animations ----
	static constexpr unsigned textureOptions = 3 + 1 + 3, samplerOptions = 5, imageOptions = 2;
	void textures(unsigned n = 1) {
		list("textures", n, [&](unsigned) { obj([&] {
			fg::Texture t; idx("source", t.imageIndex); idx("sampler", t.samplerIndex); name("name", t.name);
			optN("extensions", 3, [&] { obj([&] {
				opt("KHR_texture_basisu", [&] { obj([&] { req("source", [&] { t.basisuImageIndex = vidx(); }); }); });
				opt("MSFT_texture_dds", [&] { obj([&] { req("source", [&] { t.ddsImageIndex = vidx(); }); }); });
				opt("EXT_texture_webp", [&] { obj([&] { req("source", [&] { t.webpImageIndex = vidx(); }); }); });
			}); });
			want.textures.emplace_back(std::move(t));
		}); });
	}
	void samplers(unsigned n = 1) {
		list("samplers", n, [&](unsigned) { obj([&] {
			fg::Sampler s; opt("magFilter", [&] { fg::Filter f; venumInt(f, {9728, 9729}); s.magFilter = f; }); opt("minFilter", [&] { fg::Filter f; venumInt(f, {9984, 9985, 9986, 9987, 9728, 9729}); s.minFilter = f; });
			s.wrapS = s.wrapT = fg::Wrap::Repeat; opt("wrapS", [&] { venumInt(s.wrapS, {33071, 33648, 10497}); }); opt("wrapT", [&] { venumInt(s.wrapT, {33648, 33071, 10497}); });
			name("name", s.name); want.samplers.emplace_back(std::move(s));
		}); });
	}
	void mimeType(fg::MimeType& m) { using M = fg::MimeType; venum(m, {{"image/png", (int)M::PNG}, {"image/jpeg", (int)M::JPEG}, {"image/ktx2", (int)M::KTX2}, {"image/vnd-ms.dds", (int)M::DDS}, {"image/webp", (int)M::WEBP}}); }
	void images(bool view, unsigned n = 1) {
		list("images", n, [&](unsigned) { obj([&] {
			fg::Image im;
			if (view && !bare) { fg::sources::BufferView b{}; ridx("bufferView", b.bufferViewIndex); req("mimeType", [&] { mimeType(b.mimeType); }); im.data = b; ++nopt; }
			else { fg::sources::URI u; u.fileByteOffset = 0; u.mimeType = fg::MimeType::None; req("uri", [&] { is("text"); u.uri = fg::URI(std::string_view("dir/i%41.png")); j.s += "\"dir/i%41.png\""; }); opt("mimeType", [&] { mimeType(u.mimeType); }); im.data = std::move(u); }
			name("name", im.name); want.images.emplace_back(std::move(im));
		}); });
	}
	static constexpr unsigned animationOptions = 2 + 1 + 0;
	void animations(unsigned n = 1) {
		list("animations", n, [&](unsigned) { obj([&] {
			fg::Animation a;
			req("channels", [&] { arr(2, [&](unsigned k) { obj([&] { fg::AnimationChannel c{}; ridx("sampler", c.samplerIndex); req("target", [&] { obj([&] { if (k) { c.nodeIndex = 0; field("node", [&] { c.nodeIndex = vidx(); }); } else idx("node", c.nodeIndex); req("path", [&] { venum(c.path, {{"translation", 1}, {"rotation", 2}, {"scale", 3}, {"weights", 4}}); }); }); }); a.channels.emplace_back(c); }); }); });
			req("samplers", [&] { arr(2, [&](unsigned k) { obj([&] { fg::AnimationSampler s{}; ridx("input", s.inputAccessor); ridx("output", s.outputAccessor); s.interpolation = fg::AnimationInterpolation::Linear; if (k == 0) opt("interpolation", [&] { venum(s.interpolation, {{"STEP", 1}, {"LINEAR", 0}, {"CUBICSPLINE", 2}}); }); a.samplers.emplace_back(s); }); }); });
			name("name", a.name); want.animations.emplace_back(std::move(a));
		}); });
	}
	// ---- shapes and rigid bodies ----
	static constexpr unsigned shapeOptions(unsigned kind) { return kind == 0 ? 1 : kind == 1 ? 1 : 3; }
	void shapes(unsigned kind, unsigned n = 1) {
		rootExtension("KHR_implicit_shapes", [&] { list("shapes", n, [&](unsigned) { obj([&] {
			fg::Shape s; unsigned k = bare ? (kind + 1) % 4 : kind;
			static const char* t[] = {"sphere", "box", "capsule", "cylinder"};
			req("type", [&] { j.s += '"'; j.s += t[k]; j.s += '"'; });
			field(t[k], [&] { obj([&] {
				if (k == 0) { fg::SphereShape x; num("radius", x.radius, 0.5); s = x; }
				else if (k == 1) { fg::BoxShape x; vec("size", x.size, 3, {1, 1, 1}); s = x; }
				else if (k == 2) { fg::CapsuleShape x; num("height", x.height, 0.5); num("radiusBottom", x.radiusBottom, 0.25); num("radiusTop", x.radiusTop, 0.25); s = x; }
				else { fg::CylinderShape x; num("height", x.height, 0.5); num("radiusBottom", x.radiusBottom, 0.25); num("radiusTop", x.radiusTop, 0.25); s = x; }
			}); });
			want.shapes.emplace_back(s);
		}); }); });
	}
	void combine(const char* k, fg::CombineMode& m) { m = fg::CombineMode::Average; opt(k, [&] { venum(m, {{"minimum", 1}, {"average", 0}, {"maximum", 2}, {"multiply", 3}}); }); }
	template <class C> void strList(const char* k, C& c, unsigned n) { opt(k, [&] { arr(n, [&](unsigned) { c.emplace_back(); vstr(c.back()); }); }); }
	static constexpr unsigned physicsOptions = 5 + 2 + (1 + 4) + 1;
	void physicsRoot(bool notCollide, unsigned n = 1) {
		rootExtension("KHR_physics_rigid_bodies", [&] {
			list("physicsMaterials", n, [&](unsigned) { obj([&] { fg::PhysicsMaterial m{}; num("staticFriction", m.staticFriction, 0.6); num("dynamicFriction", m.dynamicFriction, 0.6); num("restitution", m.restitution, 0); combine("frictionCombine", m.frictionCombine); combine("restitutionCombine", m.restitutionCombine); want.physicsMaterials.emplace_back(m); }); });
			list("collisionFilters", n, [&](unsigned) { obj([&] { fg::CollisionFilter f; strList("collisionSystems", f.collisionSystems, 2); if (notCollide) strList("notCollideWithSystems", f.notCollideWithSystems, 2); else strList("collideWithSystems", f.collideWithSystems, 2); want.collisionFilters.emplace_back(std::move(f)); }); });
			list("physicsJoints", n, [&](unsigned) { obj([&] {
				fg::PhysicsJoint pj;
				optN("limits", 4, [&] { arr(2, [&](unsigned k) { obj([&] {
					auto& l = pj.limits.emplace_back();
					if (k == 0) { req("linearAxes", [&] { j.s += "[0,2]"; l.linearAxes.emplace_back(0); l.linearAxes.emplace_back(2); }); l.damping = 0; onum("min", l.min); onum("max", l.max); onum("stiffness", l.stiffness); num("damping", l.damping, 0); }
					else { req("angularAxes", [&] { j.s += "[2,1,0]"; l.angularAxes.emplace_back(2); l.angularAxes.emplace_back(1); l.angularAxes.emplace_back(0); }); l.damping = 0; }
				}); }); });
				opt("drives", [&] { arr(2, [&](unsigned k) { obj([&] {
					auto& d = pj.drives.emplace_back(); d.stiffness = d.damping = d.positionTarget = d.velocityTarget = 0;
					req("type", [&] { venum(d.type, {{"linear", 0}, {"angular", 1}}); }); req("mode", [&] { venum(d.mode, {{"acceleration", 1}, {"force", 0}}); }); req("axis", [&] { d.axis = (uint8_t)(1 + k); j.lit(1 + k); });
					field("maxForce", [&] { d.maxForce = vnum(); });
					if (k == 0) { field("positionTarget", [&] { d.positionTarget = vnum(); }); field("stiffness", [&] { d.stiffness = vnum(); }); } else { field("velocityTarget", [&] { d.velocityTarget = vnum(); }); field("damping", [&] { d.damping = vnum(); }); }
				}); }); });
				want.physicsJoints.emplace_back(std::move(pj));
			}); });
		});
	}
	void geometry(fg::Geometry& g) { obj([&] { idx("shape", g.shape); idx("node", g.node); boolean("convexHull", g.convexHull, false); }); }
	static constexpr unsigned bodyOptions = (1 + 8) + (1 + 5) + (1 + 4) + (1 + 1);
	void bodies(bool nodeTrigger, unsigned n = 1) {
		list("nodes", n, [&](unsigned) { obj([&] {
			fg::Node nd; nd.transform = fg::TRS{};
			if (!bare) field("extensions", [&] { obj([&] { field("KHR_physics_rigid_bodies", [&] { obj([&] {
				nd.physicsRigidBody = std::make_unique<fg::PhysicsRigidBody>(); auto& b = *nd.physicsRigidBody;
				optN("motion", 8, [&] { obj([&] { auto& m = b.motion.emplace(); boolean("isKinematic", m.isKinematic, false); onum("mass", m.mass); vec("centerOfMass", m.centerOfMass, 3, {0, 0, 0});
					opt("inertiaDiagonal", [&] { fg::math::fvec3 v; vvec(v, 3); m.inertialDiagonal = v; }); opt("inertiaOrientation", [&] { fg::math::fvec4 v; vvec(v, 4); m.inertialOrientation = v; });
					vec("linearVelocity", m.linearVelocity, 3, {0, 0, 0}); vec("angularVelocity", m.angularVelocity, 3, {0, 0, 0}); num("gravityFactor", m.gravityFactor, 1); }); });
				optN("collider", 5, [&] { obj([&] { auto& c = b.collider.emplace(); req("geometry", [&] { geometry(c.geometry); }); idx("physicsMaterial", c.physicsMaterial); idx("collisionFilter", c.collisionFilter); }); });
				optN("trigger", 4, [&] { obj([&] {
					if (nodeTrigger) { fg::NodeTrigger t; field("nodes", [&] { idxList(t.nodes, 3); }); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(t)); nopt += 4; }
					else { fg::GeometryTrigger t{}; field("geometry", [&] { geometry(t.geometry); }); idx("collisionFilter", t.collisionFilter); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(t)); }
				}); });
				optN("joint", 1, [&] { obj([&] { auto& q = b.joint.emplace(); ridx("connectedNode", q.connectedNode); ridx("joint", q.joint); boolean("enableCollision", q.enableCollision, false); }); });
			}); }); }); });
			want.nodes.emplace_back(std::move(nd));
		}); });
	}
};
}
