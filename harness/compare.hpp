// Field by field comparison of two assets.
#pragma once
#include "gltf.hpp"
#include <sstream>
namespace vh {
struct Cmp {
	std::string path; const char* prefix = "loaded as the document says: ";
	void fail(bool ok, const char* w) { if (fgse_is_const(ok) && ok) return; std::string m = prefix + path + w; fgse_assert(ok, m.c_str()); }
	struct Scope { Cmp& c; size_t n; Scope(Cmp& c, const char* w) : c(c), n(c.path.size()) { c.path += w; c.path += '.'; } ~Scope() { c.path.resize(n); } };
	void v(size_t a, size_t b, const char* w) { fail(a == b, w); }
	bool numeric = false; // -0 and 0 are the same value
	void v(float a, float b, const char* w) { fail(numeric ? (same(a, b) | (((bits(a) | bits(b)) << 1) == 0)) : same(a, b), w); }
	void v(double a, double b, const char* w) { fail(numeric ? (same(a, b) | (((bits(a) | bits(b)) << 1) == 0)) : same(a, b), w); }
	void v(bool a, bool b, const char* w) { fail(a == b, w); }
	template <class E, std::enable_if_t<std::is_enum_v<E>, int> = 0> void v(E a, E b, const char* w) { fail(a == b, w); }
	void v(uint8_t a, uint8_t b, const char* w) { fail(a == b, w); }
	void text(std::string_view a, std::string_view b, const char* w) { bool ok = a.size() == b.size(); fail(ok, w); if (ok && a.size()) fail(fgse_eq_bytes(a.data(), b.data(), a.size()), w); }
	void v(const std::pmr::string& a, const std::pmr::string& b, const char* w) { text(a, b, w); }
	void v(const std::string& a, const std::string& b, const char* w) { text(a, b, w); }
	template <typename T, size_t N> void v(const fg::math::vec<T, N>& a, const fg::math::vec<T, N>& b, const char* w) { for (size_t i = 0; i < N; ++i) v(a[i], b[i], w); }
	template <typename T> void v(const fg::math::quat<T>& a, const fg::math::quat<T>& b, const char* w) { for (size_t i = 0; i < 4; ++i) v(a[i], b[i], w); }
	template <typename T> void v(const fg::math::mat<T, 4, 4>& a, const fg::math::mat<T, 4, 4>& b, const char* w) { for (size_t i = 0; i < 4; ++i) v(a.col(i), b.col(i), w); }
	template <class T> void v(const std::optional<T>& a, const std::optional<T>& b, const char* w) { bool ha = a.has_value(), hb = b.has_value(); fail(ha == hb, w); if (hb && ha) v(*a, *b, w); }
	template <class T> void v(const fg::OptionalWithFlagValue<T>& a, const fg::OptionalWithFlagValue<T>& b, const char* w) { bool ha = a.has_value(), hb = b.has_value(); fail(ha == hb, w); if (hb && ha) v(*a, *b, w); }
	template <class T> void v(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b, const char* w) { fail(!a == !b, w); if (a && b) v(*a, *b, w); }
	template <class C> void list(const C& a, const C& b, const char* w) { fail(a.size() == b.size(), w); if (a.size() == b.size()) { auto ia = a.begin(); auto ib = b.begin(); for (; ib != b.end(); ++ia, ++ib) v(*ia, *ib, w); } }
	template <class T> void v(const std::vector<T>& a, const std::vector<T>& b, const char* w) { list(a, b, w); }
	template <class T> void v(const std::pmr::vector<T>& a, const std::pmr::vector<T>& b, const char* w) { list(a, b, w); }
	template <class T, size_t N, class A> void v(const fg::SmallVector<T, N, A>& a, const fg::SmallVector<T, N, A>& b, const char* w) { list(a, b, w); }
#define F(x) v(a.x, b.x, #x)
#define S(T) void v(const fg::T& a, const fg::T& b, const char* w) { Scope s(*this, w);
	S(Attribute) F(name); F(accessorIndex); }
	S(TextureTransform) F(rotation); F(uvOffset); F(uvScale); F(texCoordIndex); }
	S(TextureInfo) F(textureIndex); F(texCoordIndex); F(transform); }
	S(NormalTextureInfo) F(textureIndex); F(texCoordIndex); F(transform); F(scale); }
	S(OcclusionTextureInfo) F(textureIndex); F(texCoordIndex); F(transform); F(strength); }
	S(PBRData) F(baseColorFactor); F(metallicFactor); F(roughnessFactor); F(baseColorTexture); F(metallicRoughnessTexture); }
	S(MaterialAnisotropy) F(anisotropyStrength); F(anisotropyRotation); F(anisotropyTexture); }
	S(MaterialDiffuseTransmission) F(diffuseTransmissionFactor); F(diffuseTransmissionTexture); F(diffuseTransmissionColorFactor); F(diffuseTransmissionColorTexture); }
	S(MaterialSpecular) F(specularFactor); F(specularTexture); F(specularColorFactor); F(specularColorTexture); }
	S(MaterialIridescence) F(iridescenceFactor); F(iridescenceTexture); F(iridescenceIor); F(iridescenceThicknessMinimum); F(iridescenceThicknessMaximum); F(iridescenceThicknessTexture); }
	S(MaterialVolume) F(thicknessFactor); F(thicknessTexture); F(attenuationDistance); F(attenuationColor); }
	S(MaterialTransmission) F(transmissionFactor); F(transmissionTexture); }
	S(MaterialClearcoat) F(clearcoatFactor); F(clearcoatTexture); F(clearcoatRoughnessFactor); F(clearcoatRoughnessTexture); F(clearcoatNormalTexture); }
	S(MaterialSheen) F(sheenColorFactor); F(sheenColorTexture); F(sheenRoughnessFactor); F(sheenRoughnessTexture); }
	S(MaterialSpecularGlossiness) F(diffuseFactor); F(diffuseTexture); F(specularFactor); F(glossinessFactor); F(specularGlossinessTexture); }
	S(MaterialPackedTextures) F(occlusionRoughnessMetallicTexture); F(roughnessMetallicOcclusionTexture); F(normalTexture); }
	S(Material) F(pbrData); F(normalTexture); F(occlusionTexture); F(emissiveTexture); F(emissiveFactor); F(alphaMode); F(doubleSided); F(unlit); F(alphaCutoff); F(emissiveStrength); F(ior); F(dispersion);
		F(anisotropy); F(clearcoat); F(diffuseTransmission); F(iridescence); F(sheen); F(specular); F(specularGlossiness); F(transmission); F(volume); F(packedNormalMetallicRoughnessTexture); F(packedOcclusionRoughnessMetallicTextures); F(name); }
	S(AnimationChannel) F(samplerIndex); F(nodeIndex); F(path); }
	S(AnimationSampler) F(inputAccessor); F(outputAccessor); F(interpolation); }
	S(Animation) F(channels); F(samplers); F(name); }
	S(AssetInfo) F(gltfVersion); F(copyright); F(generator); }
	S(Camera) fail(a.camera.index() == b.camera.index(), "type"); if (a.camera.index() == b.camera.index()) { if (b.camera.index() == 0) v(std::get<0>(a.camera), std::get<0>(b.camera)); else v(std::get<1>(a.camera), std::get<1>(b.camera)); } F(name); }
	void v(const fg::Camera::Perspective& a, const fg::Camera::Perspective& b) { F(aspectRatio); F(yfov); F(zfar); F(znear); }
	void v(const fg::Camera::Orthographic& a, const fg::Camera::Orthographic& b) { F(xmag); F(ymag); F(zfar); F(znear); }
	S(Skin) F(inverseBindMatrices); F(skeleton); F(joints); F(name); }
	S(Sampler) F(magFilter); F(minFilter); F(wrapS); F(wrapT); F(name); }
	S(Scene) F(nodeIndices); F(name); }
	S(TRS) F(translation); F(rotation); F(scale); }
	S(Node) F(meshIndex); F(skinIndex); F(cameraIndex); F(lightIndex); F(children); F(weights); fail(a.transform.index() == b.transform.index(), "transform");
		if (a.transform.index() == b.transform.index()) { if (b.transform.index() == 0) v(std::get<0>(a.transform), std::get<0>(b.transform), "trs"); else v(std::get<1>(a.transform), std::get<1>(b.transform), "matrix"); }
		F(instancingAttributes); F(name); F(physicsRigidBody); F(visible); F(selectable); F(hoverable); }
	S(DracoCompressedPrimitive) F(bufferView); F(attributes); }
	S(Primitive) F(attributes); F(type); F(targets); F(indicesAccessor); F(materialIndex); F(mappings); F(dracoCompression); }
	S(Mesh) F(primitives); F(weights); F(name); }
	S(Texture) F(samplerIndex); F(imageIndex); F(basisuImageIndex); F(ddsImageIndex); F(webpImageIndex); F(name); }
	S(Image) F(data); F(name); }
	S(SparseAccessor) F(count); F(indicesBufferView); F(indicesByteOffset); F(valuesBufferView); F(valuesByteOffset); F(indexComponentType); }
	S(Accessor) F(byteOffset); F(count); F(type); F(componentType); F(normalized); F(max); F(min); F(bufferViewIndex); F(sparse); F(name); }
	void v(const std::optional<fg::AccessorBoundsArray>& a, const std::optional<fg::AccessorBoundsArray>& b, const char* w) {
		fail(a.has_value() == b.has_value(), w); if (!a || !b) return;
		fail(a->type() == b->type() && a->size() == b->size(), w); if (a->type() != b->type() || a->size() != b->size()) return;
		for (size_t i = 0; i < b->size(); ++i) if (b->isType<double>()) fail(same(a->get<double>(i), b->get<double>(i)), w); else fail(a->get<std::int64_t>(i) == b->get<std::int64_t>(i), w);
	}
	S(CompressedBufferView) F(bufferIndex); F(byteOffset); F(byteLength); F(count); F(mode); F(filter); F(byteStride); }
	S(BufferView) F(bufferIndex); F(byteOffset); F(byteLength); F(byteStride); F(target); F(meshoptCompression); F(name); }
	S(Buffer) F(byteLength); F(data); F(name); }
	S(Light) F(type); F(color); F(intensity); F(range); F(innerConeAngle); F(outerConeAngle); F(name); }
	S(SphereShape) F(radius); } S(BoxShape) F(size); } S(CapsuleShape) F(height); F(radiusBottom); F(radiusTop); } S(CylinderShape) F(height); F(radiusBottom); F(radiusTop); }
	void v(const fg::Shape& a, const fg::Shape& b, const char* w) { fail(a.index() == b.index(), w); if (a.index() != b.index()) return;
		switch (b.index()) { case 0: v(std::get<0>(a), std::get<0>(b), w); break; case 1: v(std::get<1>(a), std::get<1>(b), w); break; case 2: v(std::get<2>(a), std::get<2>(b), w); break; case 3: v(std::get<3>(a), std::get<3>(b), w); break; } }
	S(Motion) F(isKinematic); F(mass); F(centerOfMass); F(inertialDiagonal); F(inertialOrientation); F(linearVelocity); F(angularVelocity); F(gravityFactor); }
	S(Geometry) F(shape); F(node); F(convexHull); }
	S(PhysicsMaterial) F(staticFriction); F(dynamicFriction); F(restitution); F(frictionCombine); F(restitutionCombine); }
	S(CollisionFilter) F(collisionSystems); F(notCollideWithSystems); F(collideWithSystems); }
	S(Collider) F(geometry); F(physicsMaterial); F(collisionFilter); }
	S(GeometryTrigger) F(geometry); F(collisionFilter); } S(NodeTrigger) F(nodes); }
	void v(const std::variant<fg::GeometryTrigger, fg::NodeTrigger>& a, const std::variant<fg::GeometryTrigger, fg::NodeTrigger>& b, const char* w) { fail(a.index() == b.index(), w); if (a.index() == b.index()) { if (b.index() == 0) v(std::get<0>(a), std::get<0>(b), w); else v(std::get<1>(a), std::get<1>(b), w); } }
	S(JointLimit) F(linearAxes); F(angularAxes); F(min); F(max); F(stiffness); F(damping); }
	S(JointDrive) F(type); F(mode); F(axis); if (driveForce) F(maxForce); F(positionTarget); F(velocityTarget); F(stiffness); F(damping); }
	bool driveForce = true;
	S(PhysicsJoint) F(limits); F(drives); }
	S(Joint) F(connectedNode); F(joint); F(enableCollision); }
	S(PhysicsRigidBody) F(motion); F(collider); F(trigger); F(joint); }
	void bytes(const std::byte* p, size_t n, const std::byte* q, size_t m, const char* w) { fail(n == m, w); if (n == m && n) fail(fgse_eq_bytes(p, q, n), w); }
	bool mime = true;
	void v(const fg::DataSource& a, const fg::DataSource& b, const char* w) {
		Scope s(*this, w); fail(a.index() == b.index(), "kind of data source"); if (a.index() != b.index()) return;
		if (auto* x = std::get_if<fg::sources::BufferView>(&b)) { auto& y = std::get<fg::sources::BufferView>(a); v(y.bufferViewIndex, x->bufferViewIndex, "bufferView"); v(y.mimeType, x->mimeType, "mimeType"); }
		else if (auto* x = std::get_if<fg::sources::URI>(&b)) { auto& y = std::get<fg::sources::URI>(a); v(y.fileByteOffset, x->fileByteOffset, "fileByteOffset"); text(y.uri.string(), x->uri.string(), "uri"); if (mime) v(y.mimeType, x->mimeType, "mimeType"); }
		else if (auto* x = std::get_if<fg::sources::Array>(&b)) { auto& y = std::get<fg::sources::Array>(a); bytes(y.bytes.data(), y.bytes.size(), x->bytes.data(), x->bytes.size(), "bytes"); v(y.mimeType, x->mimeType, "mimeType"); }
	}
	void v(const fg::Asset& a, const fg::Asset& b) {
		F(assetInfo); F(extensionsUsed); F(extensionsRequired); F(defaultScene); F(accessors); F(animations); F(buffers); F(bufferViews); F(cameras); F(images); F(lights); F(materials); F(meshes); F(nodes); F(samplers); F(scenes); F(skins); F(textures);
		F(materialVariants); F(shapes); F(physicsMaterials); F(physicsJoints); F(collisionFilters);
	}
#undef F
#undef S
};
}
