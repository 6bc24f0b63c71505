// Files: resources loaded from external files (P32), exporting to files (P33), glTF data read from files (P34).
#include "gltf.hpp"
#include <simdjson.h>
using vh::J; using B = std::byte;
static const char* S(const unsigned char* p) { return (const char*)p; }
static void fault(unsigned kind, size_t at) { vh::faults.fopen = kind == 1; vh::faults.read = kind == 2 ? 1 : kind == 3 ? 2 : 0; vh::faults.readAt = at; }
static void noFault() { fault(0, 0); }

// ---- P32 ----
struct Cb { unsigned char mem[64]; uint64_t size; unsigned maps, unmaps; bool give; };
static fg::BufferInfo mapCb(uint64_t size, void* u) { auto* c = (Cb*)u; c->size = size; ++c->maps; return {c->give ? c->mem : nullptr, 42}; }
static void unmapCb(fg::BufferInfo* i, void* u) { auto* c = (Cb*)u; ++c->unmaps; CHECK(i->mappedMemory == c->mem && i->customId == 42, "unmap receives what map returned"); }
struct UriCase { const char* uri; const char* file; bool local; };
static const UriCase uris[] = {
	{"b.bin", "b.bin", true}, {"d/b.bin", "d/b.bin", true}, {"./b.bin", "b.bin", true}, {"d/../b.bin", "b.bin", true}, {"b%20c.bin", "b c.bin", true}, {"b c.bin", "b c.bin", true}, {"%62.bin", "b.bin", true},
	{"d%2Fb.bin", "d/b.bin", true}, {"\xc3\xbc.bin", "\xc3\xbc.bin", true}, {"%C3%bc.bin", "\xc3\xbc.bin", true}, {"a%25b.bin", "a%b.bin", true}, {"a%2562.bin", "a%62.bin", true}, {"a%3Fb.bin", "a?b.bin", true}, {"a%23b.bin", "a#b.bin", true},
	{"c%3Ad.bin", "c:d.bin", true}, {"//h/b.bin", nullptr, true}, {"http://h/b.bin", nullptr, false}, {"ftp:b.bin", nullptr, false}, {"file://h/b.bin", nullptr, false} };
constexpr unsigned NU = sizeof(uris) / sizeof(uris[0]);
struct Ext { unsigned char d[8]; unsigned n, where, flt, at, cb; const UriCase* u; };
// the file below the base directory, or something else at its place
static Ext place(const char* base) {
	Ext e{}; e.u = &uris[vh::choose("uri", NU - (unsigned)fgse_param("fewer", 0))]; e.n = vh::choose("bytes", (unsigned)fgse_param("n", 3) + 1); fgse_bytes("d", e.d, e.n);
	vh::fsInit(); vh::putDir("base"); vh::putDir("base/d"); std::string p = std::string(base) + "/";
	e.where = e.u->file ? vh::choose("there", 3) : 1; // a file, nothing, a directory
	if (e.where == 0) vh::putFile((p + e.u->file).c_str(), e.d, e.n); else if (e.where == 2) vh::putDir((p + e.u->file).c_str());
	e.flt = e.where == 0 ? vh::choose("fault", e.n ? 4 : 2) : 0; e.at = e.flt > 1 ? vh::choose("at", e.n) : 0; e.cb = vh::choose("callback", 4); // none, map declines, maps, maps without unmap
	return e;
}
static void setCb(fg::Parser& p, Cb& c, unsigned k) { c.give = k > 1; if (k) { p.setBufferAllocationCallback(mapCb, k == 3 ? nullptr : unmapCb); p.setUserPointer(&c); } }
template <class V> void loaded(const Ext& e, const Cb& c, const V& data, unsigned k) {
	if (k > 1) {
		auto* s = std::get_if<fg::sources::CustomBuffer>(&data); CHECK(s != nullptr, "data in caller's memory is a custom buffer"); if (!s) return;
		CHECK(s->id == 42, "the custom buffer carries the caller's id"); CHECK(c.maps == 1 && c.size == e.n, "memory is asked for once, with the size of the file"); CHECK(c.unmaps == (k == 2), "the memory is unmapped once");
		CHECK(fgse_eq_bytes(c.mem, e.d, e.n), "the caller's memory holds exactly the bytes of the file"); for (unsigned i = e.n; i < sizeof c.mem; ++i) CHECK(c.mem[i] == 0, "nothing is written past the end of the file");
		REACH("mapped"); return;
	}
	auto* a = std::get_if<fg::sources::Array>(&data); CHECK(a != nullptr, "file contents are held in an array"); if (!a) return;
	CHECK(a->bytes.size() == e.n, "as many bytes are loaded as the file has"); if (a->bytes.size() != e.n) return;
	CHECK(fgse_eq_bytes(a->bytes.data(), e.d, e.n), "exactly the bytes of the file are loaded"); REACH("loaded");
}
extern "C" void ext_buffer() {
	Ext e = place("base"); bool opt = vh::flip("option"), img = vh::flip("imageOption"); uint64_t len = 1 + vh::u32("byteLength");
	if (!opt) { vh::assume(e.flt == 0 && e.where < 2); }
	J j; j << "{" ASSET ",\"buffers\":[{\"uri\":\"" << e.u->uri << "\",\"byteLength\":"; j.num(len); j << "}]}";
	fg::Parser p; Cb c{}; setCb(p, c, e.cb); fault(e.flt, e.at);
	auto d = fg::GltfDataBuffer::FromBytes((const B*)j.s.data(), j.s.size());
	auto r = p.loadGltf(d.get(), "base", (opt ? fg::Options::LoadExternalBuffers : fg::Options::None) | (img ? fg::Options::LoadExternalImages : fg::Options::None)); noFault();
	if (e.cb != 3) CHECK(c.unmaps == (c.give ? c.maps : 0), "memory that was mapped is unmapped");
	if (opt && e.u->local && (e.where != 0 || e.flt != 0)) { CHECK(r.error() != fg::Error::None, "a file that is missing or cannot be read completely is reported"); REACH("missing"); return; }
	CHECK(r.error() == fg::Error::None, "a document with an external buffer loads"); if (r.error() != fg::Error::None) return;
	auto& a = r.get(); CHECK(a.buffers.size() == 1, "one buffer"); CHECK(a.buffers[0].byteLength == len, "the length is the one of the document");
	if (opt && e.u->local) { loaded(e, c, a.buffers[0].data, e.cb); return; }
	auto* u = std::get_if<fg::sources::URI>(&a.buffers[0].data); CHECK(u != nullptr && c.maps == 0, "without the option, or for remote resources, the URI is kept"); if (!u) return;
	CHECK(u->uri.valid() && u->fileByteOffset == 0 && (u->uri.isLocalPath() || !e.u->local || std::string_view(e.u->uri) == "c%3Ad.bin"), "the kept URI is valid"); REACH("kept");
}
extern "C" void ext_image() {
	Ext e = place("base"); bool opt = vh::flip("option"), buf = vh::flip("bufferOption"); unsigned mime = vh::choose("mime", 4); static const char* names[] = {"", "image/png", "image/jpeg", "image/ktx2"}; static const fg::MimeType types[] = {fg::MimeType::None, fg::MimeType::PNG, fg::MimeType::JPEG, fg::MimeType::KTX2};
	if (!opt) { vh::assume(e.flt == 0 && e.where < 2); }
	J j; j << "{" ASSET ",\"images\":[{\"uri\":\"" << e.u->uri << "\""; if (mime) j << ",\"mimeType\":\"" << names[mime] << "\""; j << "}]}";
	fg::Parser p; Cb c{}; setCb(p, c, e.cb); fault(e.flt, e.at);
	auto d = fg::GltfDataBuffer::FromBytes((const B*)j.s.data(), j.s.size());
	auto r = p.loadGltf(d.get(), "base", (opt ? fg::Options::LoadExternalImages : fg::Options::None) | (buf ? fg::Options::LoadExternalBuffers : fg::Options::None)); noFault();
	if (e.cb != 3) CHECK(c.unmaps == (c.give ? c.maps : 0), "memory that was mapped is unmapped");
	if (opt && e.u->local && (e.where != 0 || e.flt != 0)) { CHECK(r.error() != fg::Error::None, "a file that is missing or cannot be read completely is reported"); REACH("missing"); return; }
	CHECK(r.error() == fg::Error::None, "a document with an external image loads"); if (r.error() != fg::Error::None) return;
	auto& a = r.get(); CHECK(a.images.size() == 1, "one image"); auto& data = a.images[0].data;
	fg::MimeType got = fg::MimeType::None; if (auto* x = std::get_if<fg::sources::Array>(&data)) got = x->mimeType; if (auto* x = std::get_if<fg::sources::CustomBuffer>(&data)) got = x->mimeType; if (auto* x = std::get_if<fg::sources::URI>(&data)) got = x->mimeType;
	if (mime) CHECK(got == types[mime], "the MIME type is the one of the document");
	if (opt && e.u->local) { loaded(e, c, data, e.cb); return; }
	auto* u = std::get_if<fg::sources::URI>(&data); CHECK(u != nullptr && c.maps == 0, "without the option, or for remote resources, the URI is kept"); if (!u) return;
	CHECK(u->uri.valid() && u->fileByteOffset == 0, "the kept URI is valid"); REACH("kept");
}
// files too large for narrow sizes: both ends are arbitrary
extern "C" void ext_large() {
	static const unsigned sizes[] = {255, 256, 32768, 65535, 65536, 65540}; unsigned n = sizes[vh::choose("size", 6)]; bool map = vh::flip("map"), image = vh::flip("image"); unsigned char e[8]; fgse_bytes("ends", e, 8);
	static unsigned char d[65540], m[65544]; memset(d, 0x55, n); memcpy(d, e, 4); memcpy(d + n - 4, e + 4, 4); memset(m, 0, sizeof m); vh::fsInit(); vh::putFile("x", d, n);
	J j; j << "{" ASSET; if (image) j << ",\"images\":[{\"uri\":\"x\"}]}"; else { j << ",\"buffers\":[{\"uri\":\"x\",\"byteLength\":"; j.num(n); j << "}]}"; }
	struct L { unsigned char* m; uint64_t size; } l{m, 0}; fg::Parser p; if (map) { p.setBufferAllocationCallback([](uint64_t s, void* u) { auto* l = (L*)u; l->size = s; return fg::BufferInfo{l->m, 3}; }); p.setUserPointer(&l); }
	auto g = fg::GltfDataBuffer::FromBytes((const B*)j.s.data(), j.s.size()); auto r = p.loadGltf(g.get(), ".", fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages); CHECK(r.error() == fg::Error::None, "the document loads"); if (r.error() != fg::Error::None) return;
	auto& x = image ? r.get().images[0].data : r.get().buffers[0].data; const unsigned char* at = m;
	if (map) { CHECK(l.size == n && std::holds_alternative<fg::sources::CustomBuffer>(x), "memory is asked for with the size of the file"); }
	else { auto* s = std::get_if<fg::sources::Array>(&x); CHECK(s != nullptr, "file contents are held in an array"); if (!s) return; CHECK(s->bytes.size() == n, "as many bytes are loaded as the file has"); if (s->bytes.size() != n) return; at = (const unsigned char*)s->bytes.data(); }
	CHECK(fgse_eq_bytes(at, e, 4) && fgse_eq_bytes(at + n - 4, e + 4, 4) && at[4] == 0x55 && at[n / 2] == 0x55 && at[n - 5] == 0x55, "exactly the bytes of the file are loaded"); REACH("loaded");
}
// several resources, each from its own file
extern "C" void ext_many() {
	unsigned char d[4][3]; unsigned n[4], f[4]; vh::fsInit(); const char* names[] = {"p", "q", "r"}; bool swap = vh::flip("imagesFirst"); std::string bs, is;
	for (unsigned i = 0; i < 3; ++i) { n[i] = 1 + vh::choose("size", 2); fgse_bytes(vh::nm("d", i).c_str(), d[i], n[i]); vh::putFile(names[i], d[i], n[i]); }
	for (unsigned i = 0; i < 4; ++i) { f[i] = vh::choose("file", 3); auto& s = i < 2 ? bs : is; if (!s.empty()) s += ","; s += std::string("{\"uri\":\"") + names[f[i]] + "\"" + (i < 2 ? ",\"byteLength\":1}" : "}"); }
	J j; j << "{" ASSET; if (swap) j << ",\"images\":[" << is << "]"; j << ",\"buffers\":[" << bs << "]"; if (!swap) j << ",\"images\":[" << is << "]"; j << "}";
	auto r = vh::load(j, fg::Extensions::None, fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages); CHECK(r.error() == fg::Error::None, "the document loads"); if (r.error() != fg::Error::None) return;
	auto& a = r.get(); CHECK(a.buffers.size() == 2 && a.images.size() == 2, "all resources are there");
	for (unsigned i = 0; i < 4; ++i) { auto& x = i < 2 ? a.buffers[i].data : a.images[i - 2].data; auto* s = std::get_if<fg::sources::Array>(&x); CHECK(s != nullptr, "contents are held in an array"); if (!s) return; CHECK(s->bytes.size() == n[f[i]] && fgse_eq_bytes(s->bytes.data(), d[f[i]], n[f[i]]), "every resource holds the bytes of its own file"); }
	REACH("loaded");
}
extern "C" void ext_directory() {
	unsigned k = vh::choose("directory", 4), o = vh::choose("options", 4); bool glb = vh::flip("glb"); vh::fsInit(); vh::putDir("base"); unsigned char b = vh::u8("byte"); vh::putFile("base/b", &b, 1); vh::putFile("file", &b, 1);
	static const char* dirs[] = {"base", "", "nothing", "file"}; std::string t = "{" ASSET ",\"buffers\":[{\"uri\":\"b\",\"byteLength\":1}],\"images\":[{\"uri\":\"b\"}]}"; while (t.size() % 4) t += ' ';
	std::vector<unsigned char> g; auto w = [&](uint32_t v) { for (int i = 0; i < 4; ++i) g.push_back((unsigned char)(v >> (8 * i))); };
	if (glb) { w(0x46546C67); w(2); w((uint32_t)(20 + t.size())); w((uint32_t)t.size()); w(0x4E4F534A); } for (char x : t) g.push_back((unsigned char)x);
	auto d = fg::GltfDataBuffer::FromBytes((const B*)g.data(), g.size()); fg::Parser p; auto opt = (o & 1 ? fg::Options::LoadExternalBuffers : fg::Options::None) | (o & 2 ? fg::Options::LoadExternalImages : fg::Options::None);
	auto r = glb ? p.loadGltfBinary(d.get(), dirs[k], opt) : p.loadGltfJson(d.get(), dirs[k], opt);
	if (k && (o & 1)) { CHECK(r.error() == fg::Error::InvalidPath, "a base directory that does not exist is reported if files are to be loaded"); REACH("invalid"); return; }
	if (k && o) { CHECK(r.error() != fg::Error::None, "files that do not exist are reported"); REACH("missing"); return; }
	CHECK(r.error() == fg::Error::None, "the document loads"); if (r.error() != fg::Error::None) return; auto& a = r.get();
	for (unsigned i = 0; i < 2; ++i) { auto& x = i ? a.images[0].data : a.buffers[0].data; if (o & (1 << i)) { auto* s = std::get_if<fg::sources::Array>(&x); CHECK(s != nullptr, "the file is loaded"); if (s) CHECK(s->bytes.size() == 1 && (unsigned char)s->bytes[0] == b, "the file is loaded"); } else CHECK(std::holds_alternative<fg::sources::URI>(x), "the URI is kept"); }
	REACH("loaded");
}

// ---- P33 ----
static const char* wnames[] = {"", "a", "b c", "a%41", "q?x", "h#x", "c:d", "\xc3\xbc", "q\"q", "a.bin", "b\\c", "a%", "buffer1", "image0"};
constexpr unsigned NW = sizeof(wnames) / sizeof(wnames[0]);
struct Res { unsigned char d[4]; unsigned n; };
static fg::DataSource source(Res& r, unsigned kind, fg::MimeType m) {
	if (kind == 0) { fg::StaticVector<B> v(r.n); for (unsigned i = 0; i < r.n; ++i) v[i] = (B)r.d[i]; return fg::sources::Array{std::move(v), m}; }
	if (kind == 1) { fg::sources::Vector v; v.bytes.resize(r.n); for (unsigned i = 0; i < r.n; ++i) v.bytes[i] = (B)r.d[i]; v.mimeType = m; return v; }
	fg::sources::ByteView v; v.bytes = fg::span<const B>((const B*)r.d, r.n); v.mimeType = m; return v;
}
static Res res(const char* name) { Res r{}; r.n = 1 + vh::choose("size", (unsigned)fgse_param("n", 2)); fgse_bytes(name, r.d, r.n); return r; }
static void addBuffer(fg::Asset& a, Res& r, unsigned kind, const char* name) { fg::Buffer b{}; b.byteLength = r.n; b.name = name; b.data = source(r, kind, fg::MimeType::GltfBuffer); a.buffers.emplace_back(std::move(b)); }
static void addImage(fg::Asset& a, Res& r, unsigned kind, const char* name, fg::MimeType m) { fg::Image b{}; b.name = name; b.data = source(r, kind, m); a.images.emplace_back(std::move(b)); }
static void holds(const fg::DataSource& x, const Res& r, const char* msg) { auto* s = std::get_if<fg::sources::Array>(&x); CHECK(s != nullptr, "the file is loaded"); if (!s) return; CHECK(s->bytes.size() == r.n, "the file has as many bytes as the resource"); if (s->bytes.size() != r.n) return; CHECK(fgse_eq_bytes(s->bytes.data(), r.d, r.n), msg); }
// what was written is loaded again from the files
static void reload(const char* dir, const char* file, const fg::Asset& want, Res* rb, unsigned nb, Res* ri, unsigned ni, bool glb) {
	auto d = fg::GltfDataBuffer::FromPath(file); CHECK(d.error() == fg::Error::None, "the target file can be read"); if (d.error() != fg::Error::None) return;
	fg::Parser p; auto r = glb ? p.loadGltfBinary(d.get(), dir, fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages) : p.loadGltfJson(d.get(), dir, fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages);
	CHECK(r.error() == fg::Error::None, "the written files load again"); if (r.error() != fg::Error::None) return;
	auto& a = r.get(); CHECK(a.buffers.size() == nb && a.images.size() == ni, "all resources are there");
	for (unsigned i = 0; i < nb; ++i) {
		CHECK(a.buffers[i].byteLength == rb[i].n, "the length of the buffer is kept"); CHECK(std::string_view(a.buffers[i].name) == std::string_view(want.buffers[i].name), "the name of the buffer is kept");
		if (glb && i == 0) { auto* s = std::get_if<fg::sources::Array>(&a.buffers[0].data); CHECK(s != nullptr, "the first buffer is embedded"); if (s) CHECK(s->bytes.size() >= rb[0].n && fgse_eq_bytes(s->bytes.data(), rb[0].d, rb[0].n), "the bytes of the first buffer are embedded"); } else holds(a.buffers[i].data, rb[i], "the bytes of the buffer are written to its own file");
	}
	for (unsigned i = 0; i < ni; ++i) { CHECK(std::string_view(a.images[i].name) == std::string_view(want.images[i].name), "the name of the image is kept"); holds(a.images[i].data, ri[i], "the bytes of the image are written to its own file"); }
	REACH("reloaded");
}
static fg::Error write(fg::FileExporter& x, const fg::Asset& a, const char* target, bool glb, bool pretty = false) { return glb ? x.writeGltfBinary(a, target) : x.writeGltfJson(a, target, pretty ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None); }
// names of two buffers or of a buffer and an image
extern "C" void write_names() {
	vh::fsInit(); bool glb = vh::flip("binary"), img = vh::flip("image"); unsigned i = vh::choose("first", NW), k = vh::choose("second", NW); fg::Asset a; Res rb[3], ri[1];
	unsigned nb = 0; if (glb) { rb[nb] = res("g"); addBuffer(a, rb[nb], 0, "g"); ++nb; }
	rb[nb] = res("x"); addBuffer(a, rb[nb], 0, wnames[i]); ++nb; if (img) { ri[0] = res("y"); addImage(a, ri[0], 0, wnames[k], vh::flip("typed") ? fg::MimeType::PNG : fg::MimeType::None); } else { rb[nb] = res("y"); addBuffer(a, rb[nb], 0, wnames[k]); ++nb; }
	fg::FileExporter x; CHECK(write(x, a, glb ? "o.glb" : "o.gltf", glb) == fg::Error::None, "the asset is written");
	CHECK(vh::countFiles() == nb + img + !glb, "every resource gets a file of its own"); REACH("written");
	reload(".", glb ? "o.glb" : "o.gltf", a, rb, nb, ri, img, glb);
}
// every kind of source, folders, targets in other directories
extern "C" void write_files() {
	vh::fsInit(); bool glb = vh::flip("binary"); unsigned nb = vh::choose("buffers", 3), ni = vh::choose("images", 3), kb = vh::choose("bufferSource", 3), ki = kb == 2 ? vh::choose("imageSource", 2) : kb == 1 ? 0 : 1, dir = vh::choose("target", 4), sub = nb + ni == 0 ? 0 : vh::choose("folders", 4);
	fg::MimeType m = ni ? (fg::MimeType[]){fg::MimeType::None, fg::MimeType::JPEG, fg::MimeType::PNG, fg::MimeType::KTX2, fg::MimeType::DDS}[vh::choose("mime", 5)] : fg::MimeType::None; bool named = nb + ni > 2 && vh::flip("named");
	fg::Asset a; Res rb[2], ri[2]; static const char* bn[] = {"b0", "b1"}; for (unsigned i = 0; i < nb; ++i) { rb[i] = res(vh::nm("b", i).c_str()); addBuffer(a, rb[i], kb, named ? bn[i] : ""); } for (unsigned i = 0; i < ni; ++i) { ri[i] = res(vh::nm("i", i).c_str()); addImage(a, ri[i], ki, named ? bn[i] : "", m); }
	static const char* dirs[] = {".", "d", "e", "d/f"}; std::string t = dir ? std::string(dirs[dir]) + "/" : std::string(); t += glb ? "o.glb" : "o.gltf"; if (dir == 1 || dir == 3) vh::putDir("d");
	fg::FileExporter x; if (sub & 1) x.setBufferPath("bufs"); if (sub & 2) x.setImagePath(sub == 3 ? "bufs" : "imgs/");
	CHECK(write(x, a, t.c_str(), glb, sub == 1) == fg::Error::None, "the asset is written"); CHECK(vh::countFiles() == 1 + ni + nb - (glb && nb), "the target and one file for every resource are written"); REACH("written");
	reload(dirs[dir], t.c_str(), a, rb, nb, ri, ni, glb);
}
// an existing, longer file is replaced; a second export with the same exporter does not see the first
extern "C" void write_twice() {
	vh::fsInit(); bool glb = vh::flip("binary"), glb2 = vh::flip("binaryAfter"); unsigned char junk[4096]; memset(junk, 'j', sizeof junk); vh::putFile("o", junk, sizeof junk); vh::putFile("buffer0.bin", junk, 7); vh::putFile("buffer1.bin", junk, 9); vh::putFile("image0.bin", junk, 8);
	fg::FileExporter x; fg::Asset first; Res f0[2] = {res("f"), res("f1")}; addBuffer(first, f0[0], 0, "old"); addBuffer(first, f0[1], 0, ""); if (vh::flip("another")) { CHECK(write(x, first, "p", glb) == fg::Error::None, "the first asset is written"); }
	fg::Asset a; Res rb[2] = {res("b0"), res("b1")}, ri[1] = {res("i")}; addBuffer(a, rb[0], 0, ""); addBuffer(a, rb[1], 1, ""); addImage(a, ri[0], 0, "", fg::MimeType::None);
	CHECK(write(x, a, "o", glb2) == fg::Error::None, "the asset is written"); REACH("written"); reload(".", "o", a, rb, 2, ri, 1, glb2);
}
// failures are reported
extern "C" void write_fail() {
	vh::fsInit(); bool glb = vh::flip("binary"); unsigned k = vh::choose("case", 10); fg::Asset a; Res rb[2] = {res("b0"), res("b1")}, ri[1] = {res("i")}; const char* t = "o";
	addBuffer(a, rb[0], 0, ""); addBuffer(a, rb[1], vh::choose("source", 3), ""); addImage(a, ri[0], vh::choose("imageSource", 2), "", fg::MimeType::PNG); unsigned char c = 'x';
	if (k == 0) vh::putDir("o"); else if (k == 1) vh::putFull("o"); else if (k == 2) vh::putDir("buffer1.bin"); else if (k == 3) vh::putFull("buffer1.bin"); else if (k == 4) vh::putDir("image0.png"); else if (k == 5) vh::putFull("image0.png");
	else if (k == 6) { vh::putFile("d", &c, 1); t = "d/o"; } else if (k == 7) t = "no/such/o"; else if (k == 8) a.buffers[1].data = fg::sources::CustomBuffer{}; else a.images[0].data = std::monostate{};
	fg::FileExporter x; fg::Error e = write(x, a, t, glb);
	if (k == 7 && e == fg::Error::None) { reload("no/such", t, a, rb, 2, ri, 1, glb); return; }
	CHECK(e != fg::Error::None, "a file that cannot be written is reported"); REACH("reported"); (void)S;
}

// ---- P34 ----
struct F { unsigned char d[8]; unsigned n, where, flt, at; };
static F file(bool faults) {
	F f{}; vh::fsInit(); f.where = vh::choose("there", 4); f.n = f.where == 0 ? vh::choose("bytes", (unsigned)fgse_param("n", 5)) : 0; fgse_bytes("d", f.d, f.n); // file, nothing, directory, directory missing
	if (f.where == 0) vh::putFile("f", f.d, f.n); else if (f.where == 2) vh::putDir("f");
	f.flt = f.where == 0 && faults ? vh::choose("fault", 4) : 0; f.at = f.flt > 1 ? (f.n ? vh::choose("at", f.n) : 0) : 0; if (f.n == 0 && f.flt > 1) { f.flt = 0; } return f;
}
extern "C" void file_buffer() {
	F f = file(true); fault(f.flt, f.at); auto b = fg::GltfDataBuffer::FromPath(f.where == 3 ? "no/f" : "f"); noFault();
	if (f.where || f.flt) { CHECK(b.error() != fg::Error::None, "a file that is missing or cannot be read completely is reported"); REACH("reported"); return; }
	CHECK(b.error() == fg::Error::None, "a readable file is read"); if (b.error() != fg::Error::None) return; auto& g = b.get();
	for (unsigned round = 0; round < 2; ++round) {
		CHECK(g.totalSize() == f.n && g.bytesRead() == 0, "the size is the size of the file"); unsigned k = f.n ? vh::choose("split", f.n + 1) : 0; unsigned char x[8] = {};
		g.read(x, k); CHECK(fgse_eq_bytes(x, f.d, k) && x[k < 7 ? k : 7] == 0, "exactly the bytes of the file are handed out"); CHECK(g.bytesRead() == k, "the position advances by what was read");
		auto s = g.read(f.n - k, simdjson::SIMDJSON_PADDING); CHECK(s.size() >= f.n - k && fgse_eq_bytes(s.data(), f.d + k, f.n - k), "exactly the bytes of the file are handed out"); CHECK(fgse_readable(s.data(), f.n - k + simdjson::SIMDJSON_PADDING), "the padding can be read"); CHECK(g.bytesRead() == f.n, "the position advances by what was read"); g.reset();
	}
	REACH("read");
}
extern "C" void file_stream() {
	F f = file(true); vh::assume(f.flt < 2); fault(f.flt, f.at); fg::GltfFileStream g(f.where == 3 ? "no/f" : "f"); noFault();
	if (f.where == 2) { auto s = g.totalSize(); CHECK(!g.isOpen() || s == 0 || s == (size_t)-1, "a directory has no bytes"); return; }
	if (f.where || f.flt) { CHECK(!g.isOpen(), "a file that cannot be opened is reported"); REACH("reported"); return; }
	CHECK(g.isOpen(), "a readable file is open"); if (!g.isOpen()) return;
	for (unsigned round = 0; round < 2; ++round) {
		CHECK(g.totalSize() == f.n && g.bytesRead() == 0, "the size is the size of the file"); unsigned k = f.n ? vh::choose("split", f.n + 1) : 0; unsigned char x[8] = {};
		g.read(x, k); CHECK(fgse_eq_bytes(x, f.d, k) && x[k < 7 ? k : 7] == 0, "exactly the bytes of the file are handed out"); CHECK(g.bytesRead() == k, "the position advances by what was read");
		auto s = g.read(f.n - k, simdjson::SIMDJSON_PADDING); CHECK(s.size() >= f.n - k && fgse_eq_bytes(s.data(), f.d + k, f.n - k), "exactly the bytes of the file are handed out"); CHECK(fgse_readable(s.data(), f.n - k + simdjson::SIMDJSON_PADDING), "the padding can be read"); CHECK(g.bytesRead() == f.n, "the position advances by what was read"); g.reset();
	}
	REACH("read");
}
// documents from files are the documents from memory
extern "C" void file_load() {
	vh::fsInit(); bool glb = vh::flip("glb"); unsigned how = vh::choose("how", 2), cat = vh::choose("entry", 2); unsigned char b[8]; unsigned n = 4; fgse_bytes("b", b, n); uint64_t off = vh::u32("offset");
	J j; j << "{" ASSET ",\"buffers\":[{\"byteLength\":4" << (glb ? "" : ",\"uri\":\"x\"") << "}],\"bufferViews\":[{\"buffer\":0,\"byteLength\":1,\"byteOffset\":"; j.num(off); j << "}]}"; while (j.s.size() % 4) j << " ";
	std::string t; auto w = [&](uint32_t v) { for (int i = 0; i < 4; ++i) t += (char)(unsigned char)(v >> (8 * i)); };
	if (glb) { w(0x46546C67); w(2); w((uint32_t)(28 + j.s.size() + n)); w((uint32_t)j.s.size()); w(0x4E4F534A); t += j.s; w(n); w(0x004E4942); t.append((const char*)b, n); } else t = j.s;
	vh::putFile("f", t.data(), t.size());
	auto go = [&](fg::GltfDataGetter& g) {
		CHECK(fg::determineGltfFileType(g) == (glb ? fg::GltfType::GLB : fg::GltfType::glTF), "the type of the file is found"); fg::Parser p;
		for (unsigned k = 0; k < 2; ++k) { // the same source can be loaded again
			auto r = cat == 0 ? p.loadGltf(g, ".") : glb ? p.loadGltfBinary(g, ".") : p.loadGltfJson(g, "."); CHECK(r.error() == fg::Error::None, "the file loads"); if (r.error() != fg::Error::None) return;
			auto& a = r.get(); CHECK(a.bufferViews.size() == 1 && a.bufferViews[0].byteOffset == off && a.buffers.size() == 1, "the document of the file is loaded");
			if (glb) { auto* s = std::get_if<fg::sources::Array>(&a.buffers[0].data); CHECK(s != nullptr, "the binary chunk is loaded"); if (s) CHECK(s->bytes.size() == n && fgse_eq_bytes(s->bytes.data(), b, n), "the bytes of the binary chunk are loaded"); }
		}
		REACH("loaded");
	};
	if (how == 0) { auto g = fg::GltfDataBuffer::FromPath("f"); CHECK(g.error() == fg::Error::None, "the file is read"); if (g.error() == fg::Error::None) go(g.get()); }
	else { fg::GltfFileStream g("f"); CHECK(g.isOpen(), "the file is open"); if (g.isOpen()) go(g); }
}
