// Resources embedded as data URIs are loaded exactly or rejected; callbacks get an exactly sized job.
#include "gltf.hpp"
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string encode(const uint8_t* d, size_t n) {
	std::string o;
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)d[i] << 16; if (i + 1 < n) v |= (uint32_t)d[i + 1] << 8; if (i + 2 < n) v |= d[i + 2];
		o += alphabet[(v >> 18) & 63]; o += alphabet[(v >> 12) & 63];
		o += i + 1 < n ? alphabet[(v >> 6) & 63] : '='; o += i + 2 < n ? alphabet[v & 63] : '=';
	}
	return o;
}
static const struct { const char* text; fg::MimeType type; } mimes[] = {
	{"application/octet-stream", fg::MimeType::OctetStream}, {"application/gltf-buffer", fg::MimeType::GltfBuffer},
	{"image/png", fg::MimeType::PNG}, {"image/jpeg", fg::MimeType::JPEG}, {"image/ktx2", fg::MimeType::KTX2},
	{"image/vnd-ms.dds", fg::MimeType::DDS}, {"image/webp", fg::MimeType::WEBP}, {"text/plain", fg::MimeType::None}};

struct Cb { uint8_t mem[64]; uint64_t size; unsigned maps, unmaps, decodes; size_t pad, out; bool give; };
static fg::BufferInfo mapCb(uint64_t size, void* u) { auto* c = (Cb*)u; c->size = size; ++c->maps; return {c->give ? c->mem : nullptr, 42}; }
static void unmapCb(fg::BufferInfo* i, void* u) { auto* c = (Cb*)u; ++c->unmaps; CHECK(i->mappedMemory == c->mem && i->customId == 42, "unmap receives what map returned"); }
static void decCb(std::string_view, uint8_t* o, size_t pad, size_t size, void* u) { auto* c = (Cb*)u; ++c->decodes; c->pad = pad; c->out = size; for (size_t i = 0; i < size; ++i) o[i] = (uint8_t)(i * 7 + 1); }

static void buffer(bool image) {
	size_t n = 1 + vh::choose("n", (unsigned)fgse_param("max", 9));
	auto m = mimes[vh::choose("mime", sizeof mimes / sizeof *mimes)];
	uint8_t d[64]; fgse_bytes("d", d, n);
	auto e = encode(d, n); std::string text = std::string("data:") + m.text + ";base64," + e;
	vh::J j; j << "{" ASSET ",";
	if (image) { j << "\"images\":[{\"uri\":"; } else { j << "\"buffers\":[{\"byteLength\":"; j.lit(n) << ",\"uri\":"; }
	j.str(text.data(), text.size()) << "}]}";
	Cb cb{}; unsigned mode = vh::choose("mode", 5); // plain, map, map declines, decode callback, both
	fg::Parser p; p.setUserPointer(&cb);
	if (mode == 1 || mode == 2 || mode == 4) p.setBufferAllocationCallback(mapCb, mode == 4 && vh::flip("nounmap") ? nullptr : unmapCb);
	if (mode >= 3) p.setBase64DecodeCallback(decCb);
	cb.give = mode != 2;
	auto a = vh::load(p, j);
	CHECK(a.error() == fg::Error::None, "a document with a base64 data URI loads");
	if (a.error() != fg::Error::None) return;
	const fg::DataSource& src = image ? a->images.at(0).data : a->buffers.at(0).data;
	if (!image) CHECK(a->buffers[0].byteLength == n, "buffer keeps its byteLength");
	size_t pad = (3 - n % 3) % 3;
	if (mode == 1 || mode == 4) {
		auto* c = std::get_if<fg::sources::CustomBuffer>(&src);
		CHECK(c != nullptr, "allocated buffers are reported as custom buffers");
		if (!c) return;
		CHECK(c->id == 42 && c->mimeType == m.type, "custom buffer id and mime type are kept");
		CHECK(cb.maps == 1 && cb.size == n, "the map callback is asked once for exactly the decoded size");
		if (mode == 1) { CHECK(cb.unmaps == 1, "every map is unmapped"); CHECK(fgse_eq_bytes(cb.mem, d, n), "mapped memory holds exactly the encoded bytes"); for (size_t i = n; i < sizeof cb.mem; ++i) CHECK(cb.mem[i] == 0, "nothing is written past the requested size"); }
		REACH("custom");
	} else {
		auto* v = std::get_if<fg::sources::Array>(&src);
		CHECK(v != nullptr, "embedded data is loaded into memory");
		if (!v) return;
		CHECK(v->bytes.size() == n && v->mimeType == m.type, "embedded data has the decoded size and its mime type");
		if (v->bytes.size() != n) return;
		if (mode == 3) { for (size_t i = 0; i < n; ++i) CHECK((uint8_t)v->bytes[i] == (uint8_t)(i * 7 + 1), "the decode callback's output is what is loaded"); }
		else CHECK(fgse_eq_bytes(v->bytes.data(), d, n), "embedded data is exactly the encoded bytes");
		REACH("array");
	}
	if (mode >= 3) CHECK(cb.decodes == 1 && cb.pad == pad && cb.out == n, "the decode callback runs once with the right padding and output size");
}
extern "C" void datauri_buffer() { buffer(false); }
extern "C" void datauri_image() { buffer(true); }

// any text after "data:": never a crash, and what is accepted has the shape of base64
extern "C" void datauri_any() {
	size_t n = vh::choose("n", (unsigned)fgse_param("max", 17) + 1);
	char t[64] = "data:"; const char* pre = vh::flip("prefixed") ? ";base64," : "";
	size_t k = 5 + strlen(pre); memcpy(t + 5, pre, strlen(pre));
	fgse_bytes("c", t + k, n);
	for (size_t i = 0; i < n; ++i) vh::assume(t[k + i] >= 0x20 && t[k + i] < 0x7f);
	if (!*pre) vh::assume(n <= 10);
	vh::J j; j << "{" ASSET ",\"buffers\":[{\"byteLength\":12,\"uri\":"; j.str(t, k + n) << "}]}";
	auto a = vh::load(j);
	if (*pre && (n < 4 || n % 4)) CHECK(a.error() != fg::Error::None, "a truncated base64 payload is rejected");
	if (a.error() == fg::Error::None) {
		auto* v = std::get_if<fg::sources::Array>(&a->buffers.at(0).data);
		CHECK(v != nullptr, "embedded data is loaded into memory");
		if (v && *pre) { size_t pad = t[k + n - 1] == '=' ? (t[k + n - 2] == '=' ? 2 : 1) : 0; if (!(pad == 2 && t[k + n - 3] == '=')) CHECK(v->bytes.size() == n / 4 * 3 - pad, "size follows from the text"); }
		if (v) for (size_t i = 0; i < v->bytes.size(); ++i) fgse_check_init(v->bytes.data(), v->bytes.size());
		REACH("accepted");
	} else REACH("rejected");
}
