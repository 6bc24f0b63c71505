// GLB containers: any bytes are either rejected or yield exactly the stored JSON document and binary chunk.
#include "gltf.hpp"
// a data source that refuses to be read past its end
struct Exact : fg::GltfDataGetter {
	uint8_t* p; size_t n, i = 0; std::vector<uint8_t*> pads;
	Exact(const uint8_t* d, size_t n) : p((uint8_t*)malloc(n ? n : 1)), n(n) { memcpy(p, d, n); }
	~Exact() override { free(p); for (auto* q : pads) free(q); }
	void read(void* o, size_t c) override { CHECK(c <= n && i <= n - c, "never asks for more bytes than the data source has"); vh::assume(c <= n && i <= n - c); c = fgse_fix(c); memcpy(o, p + i, c); i += c; }
	fg::span<std::byte> read(size_t c, size_t pad) override {
		c = fgse_fix(c);
		CHECK(c <= n && i <= n - c, "never asks for more bytes than the data source has"); vh::assume(c <= n && i <= n - c);
		auto* q = (uint8_t*)malloc(c + pad); memset(q, 0, c + pad); memcpy(q, p + i, c); i += c; pads.push_back(q); return fg::span<std::byte>((std::byte*)q, c);
	}
	void reset() override { i = 0; }
	size_t bytesRead() override { return i; }
	size_t totalSize() override { return n; }
};
static void put32(uint8_t* p, uint32_t v) { p[0] = (uint8_t)v; p[1] = (uint8_t)(v >> 8); p[2] = (uint8_t)(v >> 16); p[3] = (uint8_t)(v >> 24); }
static uint32_t get32(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static const char doc[] = "{" ASSET ",\"buffers\":[{\"byteLength\":4}]}  ";

struct Cb { uint8_t* mem; uint64_t size; unsigned maps, unmaps; };
static fg::BufferInfo mapCb(uint64_t size, void* u) { auto* c = (Cb*)u; c->size = size; ++c->maps; return {c->mem, 7}; }
static void unmapCb(fg::BufferInfo*, void* u) { ++((Cb*)u)->unmaps; }

static void checkBuffer(fg::Asset& a, const uint8_t* bin, size_t n) {
	CHECK(a.buffers.size() == 1 && a.buffers[0].byteLength == 4, "the JSON chunk's buffer is loaded");
	auto* v = a.buffers.size() == 1 ? std::get_if<fg::sources::Array>(&a.buffers[0].data) : nullptr;
	CHECK(v != nullptr, "the GLB buffer is the first buffer's data");
	if (!v) return;
	CHECK(v->bytes.size() == n && v->mimeType == fg::MimeType::GltfBuffer, "the GLB buffer has the chunk's size");
	if (v->bytes.size() == n) CHECK(fgse_eq_bytes(v->bytes.data(), bin, n), "the GLB buffer holds exactly the chunk's bytes");
}
// header fields arbitrary, body: the document, a second chunk header and arbitrary data
extern "C" void glb_any() {
	const uint32_t jl = sizeof doc - 1; uint8_t f[256]; uint32_t total = 0;
	put32(f, vh::u32("magic")); put32(f + 4, vh::u32("version")); put32(f + 8, vh::u32("length")); put32(f + 12, vh::u32("jsonLength")); put32(f + 16, vh::u32("jsonType"));
	memcpy(f + 20, doc, jl);
	{ // lengths that fit the file: a few representatives; all others: every value
		uint32_t l0 = get32(f + 12); static const uint32_t fit[] = {0, 1, jl - 4, jl - 1, jl, jl + 8};
		unsigned k = vh::choose("fit", 7); if (k < 6) { vh::assume(l0 == fit[k]); put32(f + 12, fit[k]); } else vh::assume(l0 > 60 + jl);
	}
	uint8_t* c2 = f + 20 + jl; put32(c2, vh::u32("binLength")); put32(c2 + 4, vh::u32("binType")); fgse_bytes("bin", c2 + 8, 8);
	static const uint32_t cuts[] = {0, 3, 11, 12, 16, 19, 20, 21, 20 + jl - 1, 20 + jl, 20 + jl + 4, 20 + jl + 7, 20 + jl + 8, 20 + jl + 9, 20 + jl + 12, 20 + jl + 16};
	total = cuts[vh::choose("total", sizeof cuts / sizeof *cuts)];
	Exact e(f, total);
	fg::Parser p;
	bool viaAuto = vh::flip("auto");
	if (viaAuto) vh::assume(total >= 12 && get32(f) == 0x46546C67u); // other types: filetype_any
	auto a = viaAuto ? p.loadGltf(e, ".") : p.loadGltfBinary(e, ".");
	uint32_t len = get32(f + 8), l0 = get32(f + 12), bl = get32(c2), bt = get32(c2 + 4);
	bool hdr = total >= 20 && get32(f) == 0x46546C67u && get32(f + 4) == 2 && len <= total && len >= 20 && get32(f + 16) == 0x4E4F534Au && l0 <= len - 20;
	if (!hdr) { CHECK(a.error() != fg::Error::None, "broken container headers are rejected"); REACH("rejected"); return; }
	if (l0 == jl && len > 28 + jl && bt == 0x004E4942u && bl >= 1 && bl <= len - 28 - jl) {
		CHECK(a.error() == fg::Error::None, "a well-formed container loads");
		if (a.error() == fg::Error::None) checkBuffer(a.get(), c2 + 8, bl);
		REACH("accepted");
	} else if (l0 == jl) { CHECK(a.error() != fg::Error::None, "a missing, mistyped or oversized binary chunk is rejected"); REACH("bad-bin"); }
	else if (l0 < jl - 2) { CHECK(a.error() != fg::Error::None, "a cut JSON chunk is rejected"); REACH("cut"); }
}
extern "C" void glb_callbacks() {
	const uint32_t jl = sizeof doc - 1; uint8_t f[256]; uint32_t bl = 1 + vh::choose("n", 9), trail = vh::choose("trail", 3);
	uint32_t len = 28 + jl + bl;
	put32(f, 0x46546C67u); put32(f + 4, 2); put32(f + 8, len); put32(f + 12, jl); put32(f + 16, 0x4E4F534Au); memcpy(f + 20, doc, jl);
	put32(f + 20 + jl, bl); put32(f + 24 + jl, 0x004E4942u); fgse_bytes("bin", f + 28 + jl, bl); memset(f + len, 0x7b, trail);
	Exact e(f, len + trail);
	bool give = vh::flip("give"), un = vh::flip("unmap");
	Cb cb{give ? (uint8_t*)malloc(bl) : nullptr, 0, 0, 0};
	fg::Parser p; p.setUserPointer(&cb); p.setBufferAllocationCallback(mapCb, un ? unmapCb : nullptr);
	auto a = p.loadGltfBinary(e, ".");
	CHECK(a.error() == fg::Error::None, "a well-formed container loads");
	if (a.error() != fg::Error::None) return;
	CHECK(cb.maps == 1 && cb.size == bl, "the map callback is asked once for exactly the chunk's size");
	if (give) {
		CHECK(fgse_eq_bytes(cb.mem, f + 28 + jl, bl), "mapped memory holds exactly the chunk's bytes");
		CHECK(cb.unmaps == (un ? 1u : 0u), "every map is unmapped");
		auto* c = std::get_if<fg::sources::CustomBuffer>(&a->buffers.at(0).data);
		CHECK(c && c->id == 7, "the buffer refers to the caller's allocation"); REACH("mapped");
	} else { checkBuffer(a.get(), f + 28 + jl, bl); REACH("declined"); }
}
// a GLB without a binary chunk: fine unless a buffer needs it
extern "C" void glb_json_only() {
	static const char d2[] = "{" ASSET "} "; const uint32_t jl = sizeof d2 - 1; uint8_t f[128]; uint32_t extra = vh::choose("extra", 9), trail = vh::choose("trail", 3);
	put32(f, 0x46546C67u); put32(f + 4, 2); put32(f + 8, 20 + jl + extra); put32(f + 12, jl); put32(f + 16, 0x4E4F534Au); memcpy(f + 20, d2, jl); fgse_bytes("x", f + 20 + jl, extra + trail);
	if (extra == 8) put32(f + 20 + jl, 0);
	Exact e(f, 20 + jl + extra + trail);
	fg::Parser p; auto a = p.loadGltf(e, ".");
	CHECK(a.error() == fg::Error::None, "a container with just a JSON chunk loads");
	if (a.error() == fg::Error::None) CHECK(a->buffers.empty(), "no buffer appears out of nowhere");
	REACH("loaded");
}
extern "C" void filetype_any() {
	size_t n = vh::choose("n", 25); uint8_t d[32]; fgse_bytes("d", d, n);
	Exact e(d, n);
	auto t = fg::determineGltfFileType(e);
	bool glb = n >= 12 && get32(d) == 0x46546C67u; bool brace = false;
	for (size_t i = 0; i < n && i < 4; ++i) brace |= d[i] == '{';
	CHECK(e.i == 0, "type detection leaves the source at its start");
	CHECK((t == fg::GltfType::GLB) == glb, "GLB exactly for the magic number");
	CHECK((t == fg::GltfType::glTF) == (!glb && brace), "glTF for text starting with an object");
	CHECK((t == fg::GltfType::Invalid) == (!glb && !brace), "everything else is invalid");
	if (t == fg::GltfType::Invalid) { fg::Parser p; CHECK(p.loadGltf(e, ".").error() != fg::Error::None, "unknown file types are refused"); }
	REACH("typed");
}
// any read history: a data source hands out exactly the bytes it was given, in order
static void history(fg::GltfDataGetter& g, const uint8_t* d, size_t n, size_t pos = 0, unsigned steps = 3) {
	CHECK(g.totalSize() == n, "total size"); CHECK(g.bytesRead() == pos, "starts at the beginning, or where it was when it was moved");
	for (unsigned s = 0; s < steps; ++s) {
		unsigned op = vh::choose("op", 3); size_t c = op == 2 ? 0 : vh::choose("count", (unsigned)(n - pos) + 1);
		if (op == 0) { uint8_t o[16]; memset(o, 0, sizeof o); g.read(o, c); CHECK(fgse_eq_bytes(o, d + pos, c), "bytes are read in order"); for (size_t i = c; i < sizeof o; ++i) CHECK(o[i] == 0, "exactly the requested bytes are written"); pos += c; }
		else if (op == 1) { auto sp = g.read(c, 64); CHECK(sp.size() >= c, "the view has the requested size"); CHECK(fgse_eq_bytes(sp.data(), d + pos, c), "viewed bytes are the next bytes"); CHECK(fgse_readable(sp.data(), c + 64), "a view can be read past its end by the requested padding"); pos += c; }
		else { g.reset(); pos = 0; }
		CHECK(g.bytesRead() == pos, "bytesRead is the current position");
	}
	REACH("read");
}
extern "C" void getter_buffer() {
	size_t n = 1 + vh::choose("n", 6); uint8_t* d = (uint8_t*)malloc(n); fgse_bytes("d", d, n); uint8_t keep[8]; memcpy(keep, d, n);
	auto e = fg::GltfDataBuffer::FromBytes((const std::byte*)d, n);
	CHECK(e.error() == fg::Error::None, "creating a data buffer from bytes succeeds");
	free(d); // the buffer owns a copy
	fg::GltfDataBuffer b = std::move(e.get());
	history(b, keep, n);
}
extern "C" void getter_mapped() {
	static const size_t sizes[] = {1, 5, 4096, 4064}; size_t n = sizes[vh::choose("size", 4)]; uint8_t* d = (uint8_t*)malloc(n); memset(d, 0x20, n); fgse_bytes("d", d, n < 5 ? n : 5); if (n > 5) fgse_bytes("e", d + n - 4, 4);
	const char* path = vh::makeFile(d, n);
	{
		auto e = fg::MappedGltfFile::FromPath(path);
		CHECK(e.error() == fg::Error::None, "mapping a file succeeds");
		if (e.error() != fg::Error::None) return;
		fg::MappedGltfFile m = std::move(e.get()); fg::MappedGltfFile k(std::move(m));
		CHECK(vh::openFds == 0, "no descriptor stays open");
		if (n <= 5) history(k, d, n);
		else {
			auto sp = k.read(n, 64); CHECK(fgse_eq_bytes(sp.data(), d, n), "viewed bytes are the file's bytes"); CHECK(fgse_readable(sp.data(), n + 64), "a view can be read past its end by the requested padding");
			volatile uint8_t sum = 0; for (size_t i = 0; i < 64; ++i) sum = (uint8_t)(sum + ((const uint8_t*)sp.data())[n + i]);
			REACH("read");
		}
	}
	CHECK(vh::liveMaps == 0, "every mapping is released");
	free(d);
}
// data sources that are moved while they are being read
template <class G> static void moves(G&& first, G&& other, const uint8_t* d, size_t n) {
	G a(std::move(first)); uint8_t o[8]; size_t pos = vh::choose("before", (unsigned)n + 1); a.read(o, pos);
	CHECK(fgse_eq_bytes(o, d, pos), "bytes are read in order");
	switch (vh::choose("move", 3)) {
	case 0: { G b(std::move(a)); history(b, d, n, pos, 2); break; }
	case 1: { G b(std::move(other)); uint8_t x; b.read(&x, 1); b = std::move(a); history(b, d, n, pos, 2); break; }
	case 2: { G b(std::move(other)); G c(std::move(b)); b = std::move(a); a = std::move(b); history(a, d, n, pos, 2); break; }
	}
}
extern "C" void getter_moves() {
	size_t n = 4, m = 2; uint8_t d[4], e[2]; fgse_bytes("d", d, n); fgse_bytes("e", e, m);
	if (vh::flip("mapped")) {
		{
			auto a = fg::MappedGltfFile::FromPath(vh::makeFile(d, n)); auto b = fg::MappedGltfFile::FromPath(vh::makeFile(e, m));
			CHECK(a.error() == fg::Error::None && b.error() == fg::Error::None, "mapping a file succeeds");
			if (a.error() != fg::Error::None || b.error() != fg::Error::None) return;
			moves(std::move(a.get()), std::move(b.get()), d, n);
		}
		CHECK(vh::openFds == 0, "no descriptor stays open"); CHECK(vh::liveMaps == 0, "every mapping is released");
	} else {
		auto a = fg::GltfDataBuffer::FromBytes((const std::byte*)d, n); auto b = fg::GltfDataBuffer::FromBytes((const std::byte*)e, m);
		moves(std::move(a.get()), std::move(b.get()), d, n);
	}
}
extern "C" void getter_mapped_faults() {
	uint8_t d[4] = {1, 2, 3, 4}; const char* path = vh::makeFile(d, 4);
	vh::faults = {vh::flip("open"), vh::flip("fstat"), vh::flip("mmap")};
	bool bad = vh::faults.open || vh::faults.fstat || vh::faults.mmap;
	{ auto e = fg::MappedGltfFile::FromPath(path); CHECK((e.error() != fg::Error::None) == bad, "a failing system call is reported"); if (e.error() != fg::Error::None) REACH("failed"); }
	CHECK(vh::openFds == 0, "no descriptor stays open"); CHECK(vh::liveMaps == 0, "every mapping is released");
	vh::faults = {}; REACH("done");
}
