// What the exporter writes: valid JSON whatever texts an asset contains (P26), binary containers (P27)
#include "gate.hpp"
#include <simdjson.h>
using C = fg::Category; using vh::J;
namespace {
// the text value of a JSON string literal, decoded independently of the library; false if it is none
bool decode(const std::string& t, std::string& out) {
	out.clear(); size_t i = 0, n = t.size(); if (n < 2 || t[0] != '"') return false;
	for (i = 1; i < n; ++i) {
		char c = t[i]; if (c == '"') return i + 1 == n; if ((unsigned char)c < 0x20) return false;
		if (c != '\\') { out += c; continue; }
		if (++i >= n) return false;
		switch (t[i]) {
		case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
		case 'u': { unsigned v = 0; if (i + 4 >= n) return false; for (int k = 0; k < 4; ++k) { char h = t[++i]; unsigned x; if (h >= '0' && h <= '9') x = (unsigned)(h - '0'); else if (h >= 'a' && h <= 'f') x = (unsigned)(h - 'a' + 10); else if (h >= 'A' && h <= 'F') x = (unsigned)(h - 'A' + 10); else return false; v = v * 16 + x; } if (v >= 0x80) return false; out += (char)v; break; }
		default: return false;
		}
	}
	return false;
}
std::string anyText(unsigned max, bool ascii) { unsigned n = vh::choose("length", max + 1); std::string s; for (unsigned i = 0; i < n; ++i) { uint8_t c = vh::u8("char"); if (ascii) { vh::assume(c < 0x80); if (n > 1) vh::assume(c >= 0x20); } s += (char)c; } return s; }
}
// escapeString: the literal it makes denotes the text
extern "C" void escape_any() {
	std::string s = anyText((unsigned)fgse_param("max", 4), false), lit = "\"" + fg::escapeString(s) + "\"", back;
	bool ok = decode(lit, back); CHECK(ok, "the escaped text is the inside of a JSON string"); if (!ok) return;
	CHECK(back.size() == s.size(), "the string denotes the text"); if (back.size() == s.size() && s.size()) CHECK(fgse_eq_bytes(back.data(), s.data(), s.size()), "the string denotes the text");
	REACH("escaped");
}
// each text of an asset in turn holds any characters
extern "C" void write_texts() {
	fg::Asset w; w.assetInfo.emplace(); w.assetInfo->gltfVersion = "2.0"; unsigned k = vh::choose("text", 27); std::string t = "a" + anyText((unsigned)fgse_param("max", 2), true);
	const auto& T = t;
	auto attr = [&](auto&& l) { l.emplace_back(fg::Attribute{"POSITION", 0}); fg::Attribute a; a.name = T; a.accessorIndex = 1; l.emplace_back(std::move(a)); };
	switch (k) {
	case 0: w.assetInfo->copyright = T; break; case 1: w.assetInfo->generator = T; break;
	case 2: { auto& x = w.accessors.emplace_back(); x.type = fg::AccessorType::Scalar; x.componentType = fg::ComponentType::Float; x.count = 1; x.byteOffset = 0; x.normalized = false; x.name = T; break; }
	case 3: w.animations.emplace_back().name = T; { auto& a = w.animations[0]; a.channels.emplace_back(fg::AnimationChannel{0, 1, fg::AnimationPath::Scale}); a.samplers.emplace_back(fg::AnimationSampler{0, 1, fg::AnimationInterpolation::Step}); } break;
	case 4: case 5: { auto& b = w.buffers.emplace_back(); b.byteLength = 1; fg::sources::URI u; u.fileByteOffset = 0; u.mimeType = fg::MimeType::None; u.uri = fg::URI(std::string_view(k == 4 ? "x" : T)); b.data = std::move(u); if (k == 4) b.name = T; break; }
	case 6: { auto& v = w.bufferViews.emplace_back(); v.bufferIndex = 0; v.byteOffset = 0; v.byteLength = 1; v.name = T; break; }
	case 7: { auto& c = w.cameras.emplace_back(); fg::Camera::Perspective p{}; p.yfov = p.znear = 0.5f; c.camera = p; c.name = T; break; }
	case 8: case 9: { auto& b = w.images.emplace_back(); fg::sources::URI u; u.fileByteOffset = 0; u.mimeType = fg::MimeType::None; u.uri = fg::URI(std::string_view(k == 8 ? "x" : T)); b.data = std::move(u); if (k == 8) b.name = T; break; }
	case 10: { auto& l = w.lights.emplace_back(); l.type = fg::LightType::Point; l.color = fg::math::nvec3(1); l.intensity = 1; l.name = T; break; }
	case 11: { auto& m = w.materials.emplace_back(); m.name = T; break; }
	case 12: case 13: case 14: case 15: { auto& m = w.meshes.emplace_back(); auto& p = m.primitives.emplace_back(); if (k == 12) m.name = T; if (k == 13) attr(p.attributes); else p.attributes.emplace_back(fg::Attribute{"POSITION", 0}); if (k == 14) attr(p.targets.emplace_back()); if (k == 15) { p.dracoCompression = std::make_unique<fg::DracoCompressedPrimitive>(); p.dracoCompression->bufferView = 0; attr(p.dracoCompression->attributes); } break; }
	case 16: case 17: { auto& n = w.nodes.emplace_back(); fg::TRS r; r.scale = fg::math::nvec3(1); r.rotation = fg::math::fquat(0.f, 0.f, 0.f, 1.f); n.transform = r; if (k == 16) n.name = T; else attr(n.instancingAttributes); break; }
	case 18: w.samplers.emplace_back().name = T; break; case 19: w.scenes.emplace_back().name = T; break; case 20: { auto& s = w.skins.emplace_back(); s.joints.emplace_back(0); s.name = T; break; }
	case 21: { auto& x = w.textures.emplace_back(); x.imageIndex = 0; x.name = T; break; }
	case 22: w.materialVariants.emplace_back("first"); w.materialVariants.emplace_back(T); break;
	case 23: case 24: case 25: { auto& f = w.collisionFilters.emplace_back(); auto& l = k == 23 ? f.collisionSystems : k == 24 ? f.collideWithSystems : f.notCollideWithSystems; l.emplace_back("s"); l.emplace_back(T); break; }
	default: w.extensionsUsed.emplace_back("E"); w.extensionsUsed.emplace_back(T); break;
	}
	fg::Exporter ex; auto r = ex.writeGltfJson(w, vh::flip("pretty") ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None); CHECK(r.error() == fg::Error::None, "the asset is written"); if (r.error() != fg::Error::None) return;
	if (fgse_param("print", 0)) fgse_print(r.get().output.data(), r.get().output.size());
	J j; j.s = r.get().output; fg::Parser p(vh::AllExt); auto e = vh::load(p, j);
	if (k == 5 || k == 9) { if (e.error() == fg::Error::InvalidURI) return; // not every text is a URI
		CHECK(e.error() == fg::Error::None, "what was written loads"); if (e.error() != fg::Error::None) return;
		auto& d = k == 5 ? e.get().buffers[0].data : e.get().images[0].data; auto& o = k == 5 ? w.buffers[0].data : w.images[0].data; auto* a = std::get_if<fg::sources::URI>(&d); CHECK(a != nullptr, "a URI is loaded again"); if (!a) return;
		auto sa = a->uri.string(), so = std::get<fg::sources::URI>(o).uri.string(); CHECK(sa == so, "the URI is the same"); REACH("uri"); return; }
	CHECK(e.error() == fg::Error::None, "what was written loads"); if (e.error() != fg::Error::None) return;
	vh::Cmp c; c.prefix = "written and loaded again: "; c.v(e.get(), w);
	if (k == 26) { CHECK(e.get().extensionsUsed.size() == 2, "extensionsUsed"); if (e.get().extensionsUsed.size() == 2) CHECK(e.get().extensionsUsed[1] == w.extensionsUsed[1], "extensionsUsed"); }
	REACH("same");
}
// prettyPrintJson adds white space between tokens and changes nothing else
extern "C" void pretty_any() {
	// any sequence of tokens; the brackets need not match
	std::string s; unsigned n = vh::choose("tokens", (unsigned)fgse_param("max", 3)) + 1; int depth = 0;
	for (unsigned i = 0; i < n; ++i) switch (vh::choose("token", 6)) {
		case 0: s += "{"; ++depth; break; case 1: s += "["; ++depth; break; case 2: vh::assume(depth > 0); --depth; s += vh::flip("square") ? "]" : "}"; break; case 3: s += ","; break; case 4: s += ":true"; break;
		default: { s += '"'; unsigned m = vh::choose("characters", 3); for (unsigned k = 0; k < m; ++k) { uint8_t c = vh::u8("char"); vh::assume(c >= 0x20); if (vh::flip("escaped")) { s += '\\'; vh::assume(c == '"' || c == '\\' || c == 'n'); } else vh::assume(c != '"' && c != '\\'); s += (char)c; } s += '"'; }
	}
	std::string t = s; fg::prettyPrintJson(t);
	std::string u; bool in = false;
	for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; if (in) { u += c; if (c == '\\') { if (i + 1 < t.size()) u += t[++i]; } else if (c == '"') in = false; } else if (c == '"') { in = true; u += c; } else if (c != '\n' && c != '\t' && c != ' ' && c != '\r') u += c; }
	CHECK(u.size() == s.size(), "only white space between tokens is added"); if (u.size() == s.size()) CHECK(fgse_eq_bytes(u.data(), s.data(), s.size()), "only white space between tokens is added");
	REACH("printed");
}
// ---- P27 ----
namespace { uint32_t word(const std::vector<std::byte>& b, size_t at) { return (uint32_t)b[at] | (uint32_t)b[at + 1] << 8 | (uint32_t)b[at + 2] << 16 | (uint32_t)b[at + 3] << 24; } }
extern "C" void glb_write() {
	fg::Asset w; w.assetInfo.emplace(); w.assetInfo->gltfVersion = "2.0"; static const char pad[] = "abcdefgh"; unsigned np = vh::choose("padding", 4); w.assetInfo->generator = std::string(pad, np); if (np == 0) w.assetInfo->generator.clear();
	unsigned nb = 1 + vh::choose("bytes", 9), kind = vh::choose("source", 5), extra = vh::choose("surplus", 3), more = vh::choose("more", 3); uint8_t raw[16]; for (unsigned i = 0; i < nb + extra; ++i) raw[i] = vh::u8("byte");
	std::vector<std::byte> data(reinterpret_cast<std::byte*>(raw), reinterpret_cast<std::byte*>(raw) + nb + extra);
	auto add = [&](unsigned kind) { auto& b = w.buffers.emplace_back(); b.byteLength = nb;
		switch (kind) { case 0: b.data = fg::sources::Array{fg::StaticVector<std::byte>::fromVector(data), fg::MimeType::None}; break; case 1: { fg::sources::Vector v; v.bytes = data; b.data = std::move(v); break; } case 2: b.data = fg::sources::ByteView{fg::span<const std::byte>(data.data(), data.size()), fg::MimeType::None}; break;
			case 3: { fg::sources::URI u; u.fileByteOffset = 0; u.mimeType = fg::MimeType::None; u.uri = fg::URI(std::string_view("u.bin")); b.data = std::move(u); break; } default: b.data = fg::sources::Fallback{}; } };
	bool none = vh::flip("noBuffer"); if (!none && kind == 4) w.extensionsRequired.emplace_back("EXT_meshopt_compression");
	if (!none) { add(kind); if (more) add(more == 1 ? 1 : 3); }
	fg::Exporter ex; auto r = ex.writeGltfBinary(w); CHECK(r.error() == fg::Error::None, "the asset is written"); if (r.error() != fg::Error::None) return;
	auto& o = r.get().output; bool bin = !none && kind < 3; size_t padded = (nb + 3) / 4 * 4;
	CHECK(o.size() >= 20, "a header and a JSON chunk"); if (o.size() < 20) return;
	CHECK(word(o, 0) == 0x46546C67u && word(o, 4) == 2, "magic and version 2"); CHECK(word(o, 8) == o.size(), "the length is that of the file"); uint32_t jl = word(o, 12); CHECK(jl % 4 == 0 && word(o, 16) == 0x4E4F534Au, "an aligned JSON chunk first");
	CHECK(o.size() == 20 + jl + (bin ? 8 + padded : 0), "the chunks fill the file"); if (o.size() != 20 + jl + (bin ? 8 + padded : 0)) return;
	if (bin) { CHECK(word(o, 20 + jl) == padded && word(o, 24 + jl) == 0x004E4942u, "a binary chunk with the first buffer"); CHECK(fgse_eq_bytes(o.data() + 28 + jl, raw, nb), "the binary chunk holds the buffer"); for (size_t i = nb; i < padded; ++i) CHECK((uint8_t)o[28 + jl + i] == 0, "zero padding"); }
	CHECK(r.get().bufferPaths.size() == w.buffers.size(), "one path entry per buffer"); if (r.get().bufferPaths.size() != w.buffers.size()) return;
	for (size_t i = 0; i < w.buffers.size(); ++i) { bool file = i == 0 ? false : more == 1; CHECK(r.get().bufferPaths[i].has_value() == file, "exactly the buffers that must be saved as files have a path"); }
	auto d = fg::GltfDataBuffer::FromBytes(o.data(), o.size()); fg::Parser p(vh::AllExt); auto e = p.loadGltfBinary(d.get(), "."); CHECK(e.error() == fg::Error::None, "what was written loads"); if (e.error() != fg::Error::None) return;
	auto& a = e.get(); CHECK(a.buffers.size() == w.buffers.size(), "the same buffers"); if (a.buffers.size() != w.buffers.size()) return;
	CHECK(a.assetInfo->generator == w.assetInfo->generator, "the same generator");
	if (bin) { auto* x = std::get_if<fg::sources::Array>(&a.buffers[0].data); CHECK(x != nullptr, "the buffer is the binary chunk"); CHECK(a.buffers[0].byteLength == nb, "the same length"); if (x) { CHECK(x->bytes.size() >= nb, "all bytes"); if (x->bytes.size() >= nb) CHECK(fgse_eq_bytes(x->bytes.data(), raw, nb), "the same bytes"); } }
	if (!none && more) { auto* u = std::get_if<fg::sources::URI>(&a.buffers[1].data); CHECK(u != nullptr, "the second buffer is a file"); if (u) CHECK(u->uri.string() == (more == 1 ? "buffer1.bin" : "u.bin"), "the second buffer is that file"); }
	if (!none && kind == 3) { auto* u = std::get_if<fg::sources::URI>(&a.buffers[0].data); CHECK(u != nullptr && u->uri.string() == "u.bin", "the first buffer keeps its URI"); }
	if (bin) REACH("embedded"); else REACH("plain");
}
// buffers holding fewer bytes than they claim
extern "C" void glb_short() {
	fg::Asset w; w.assetInfo.emplace(); w.assetInfo->gltfVersion = "2.0"; auto& b = w.buffers.emplace_back(); std::vector<std::byte> data(4); b.byteLength = vh::u64("byteLength"); vh::assume(b.byteLength > 4 && b.byteLength < 0xffffffffu);
	switch (vh::choose("source", 3)) { case 0: b.data = fg::sources::Array{fg::StaticVector<std::byte>::fromVector(data), fg::MimeType::None}; break; case 1: { fg::sources::Vector v; v.bytes = data; b.data = std::move(v); break; } default: b.data = fg::sources::ByteView{fg::span<const std::byte>(data.data(), data.size()), fg::MimeType::None}; }
	fg::Exporter ex; auto r = ex.writeGltfBinary(w); CHECK(r.error() != fg::Error::None, "a buffer with fewer bytes than its length is refused"); REACH("refused");
}
// nothing is written for an asset that validate() rejects if validation is asked for
extern "C" void write_validated() {
	vh::Doc d; d.small = true; d.pol = vh::Pol::None; d.doc([&] { d.scenes(); }); auto& w = d.want; w.scenes[0].nodeIndices.emplace_back((size_t)vh::u64("node")); w.nodes.resize(vh::choose("nodes", 3)); 
	bool valid = fg::validate(w) == fg::Error::None, bin = vh::flip("binary"), ask = vh::flip("ask"); auto o = ask ? fg::ExportOptions::ValidateAsset : fg::ExportOptions::None; fg::Exporter ex; fg::Error e = bin ? ex.writeGltfBinary(w, o).error() : ex.writeGltfJson(w, o).error();
	CHECK((e == fg::Error::None) == (valid || !ask), "an asset is refused exactly if validation is asked for and fails"); if (e == fg::Error::None) REACH("written"); else REACH("refused");
}
// URIs with percent signs, encoded or not, denote the same resource after exporting and loading again
extern "C" void write_uri() {
	static const char cs[] = {'%', '2', '5', 'F', 'g'}; unsigned n = vh::choose("length", (unsigned)fgse_param("max", 5) + 1); std::string s = "d/"; for (unsigned i = 0; i < n; ++i) s += cs[vh::choose("char", 5)];
	bool img = vh::flip("image"); J j; j << "{" ASSET; if (img) j << ",\"images\":[{\"uri\":\"" << s << "\"}]}"; else j << ",\"buffers\":[{\"uri\":\"" << s << "\",\"byteLength\":1}]}";
	auto r = vh::load(j); CHECK(r.error() == fg::Error::None, "the document loads"); if (r.error() != fg::Error::None) return;
	auto get = [&](fg::Asset& a) { auto& d = img ? a.images[0].data : a.buffers[0].data; auto* u = std::get_if<fg::sources::URI>(&d); CHECK(u != nullptr, "the URI is kept"); return u ? std::string(u->uri.path()) : std::string(); };
	fg::Exporter x; auto o = x.writeGltfJson(r.get()); CHECK(o.error() == fg::Error::None, "the asset is exported"); if (o.error() != fg::Error::None) return;
	J k; k << o.get().output; auto q = vh::load(k); CHECK(q.error() == fg::Error::None, "the exported text loads"); if (q.error() != fg::Error::None) return;
	CHECK(get(r.get()) == get(q.get()), "the URI denotes the same resource"); REACH("same");
}
