// Base64: decoders are exact on every canonical encoding, agree with each other, and never touch
// memory outside the encoded text and the decoded buffer.
#include "vh.hpp"
#include <fastgltf/base64.hpp>
namespace b64 = fastgltf::base64;
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::vector<char> encode(const uint8_t* d, size_t n) {
	std::vector<char> o;
	for (size_t i = 0; i < n; i += 3) {
		uint32_t v = (uint32_t)d[i] << 16; if (i + 1 < n) v |= (uint32_t)d[i + 1] << 8; if (i + 2 < n) v |= d[i + 2];
		o.push_back(alphabet[(v >> 18) & 63]); o.push_back(alphabet[(v >> 12) & 63]);
		o.push_back(i + 1 < n ? alphabet[(v >> 6) & 63] : '='); o.push_back(i + 2 < n ? alphabet[v & 63] : '=');
	}
	return o;
}
template <class Dec> static void roundtrip(Dec dec, size_t n) {
	std::vector<uint8_t> data(n); fgse_bytes("d", data.data(), n);
	auto text = encode(data.data(), n);
	// exact-size copy: reading past the text is an out-of-bounds access
	auto* exact = (char*)malloc(text.size()); memcpy(exact, text.data(), text.size());
	auto out = dec(std::string_view(exact, text.size()));
	CHECK(out.size() == n, "decoded size equals the encoded data's size");
	CHECK(fgse_eq_bytes(out.data(), data.data(), n), "decoding returns exactly the encoded bytes");
	free(exact);
	REACH("decoded");
}
extern "C" void b64_fallback() { roundtrip(b64::fallback_decode, 1 + vh::choose("n", (unsigned)fgse_param("max", 48))); }
extern "C" void b64_sse4() { roundtrip(b64::sse4_decode, 1 + vh::choose("n", (unsigned)fgse_param("max", 48))); }
extern "C" void b64_avx2() { roundtrip(b64::avx2_decode, 1 + vh::choose("n", (unsigned)fgse_param("max", 48))); }
// decoding into the caller's memory: exactly as many bytes as the encoded data has are written
template <class Dec> static void inplace(Dec dec) {
	size_t n = 1 + vh::choose("n", (unsigned)fgse_param("max", 48)); std::vector<uint8_t> data(n); fgse_bytes("d", data.data(), n); auto text = encode(data.data(), n);
	auto* exact = (char*)malloc(text.size()); memcpy(exact, text.data(), text.size()); std::string_view sv(exact, text.size());
	size_t pad = b64::getPadding(sv); CHECK(pad == (3 - n % 3) % 3, "the number of padding characters"); CHECK(b64::getOutputSize(text.size(), pad) == n, "the size of the decoded data");
	auto* out = (uint8_t*)malloc(n); dec(sv, out, pad); CHECK(fgse_eq_bytes(out, data.data(), n), "decoding into the caller's memory writes exactly the encoded bytes"); free(out); free(exact); REACH("inplace");
}
extern "C" void b64_inplace_fallback() { inplace(b64::fallback_decode_inplace); }
extern "C" void b64_inplace_sse4() { inplace(b64::sse4_decode_inplace); }
extern "C" void b64_inplace_avx2() { inplace(b64::avx2_decode_inplace); }
