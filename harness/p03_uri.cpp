// URI text -> components per RFC 3986 (appendix B), percent decoding, and value semantics of URI objects.
#include "vh.hpp"
#include <fastgltf/types.hpp>
#include <fastgltf/core.hpp>
namespace fg = fastgltf;
struct Parts { bool valid = true; std::string_view scheme, user, host, port, path, query, frag; };
// straightforward scan following the grammar of RFC 3986 appendix B
static Parts oracle(std::string_view s) {
	Parts p; size_t i = 0, n = s.size();
	if (n == 0) { p.valid = false; return p; }
	size_t k = 0; while (k < n && s[k] != ':' && s[k] != '/' && s[k] != '?' && s[k] != '#') ++k;
	if (k < n && s[k] == ':') { if (k == 0) { p.valid = false; return p; } p.scheme = s.substr(0, k); i = k + 1; }
	if (i + 1 < n && s[i] == '/' && s[i + 1] == '/') {
		i += 2; size_t e = i; while (e < n && s[e] != '/' && s[e] != '?' && s[e] != '#') ++e;
		std::string_view a = s.substr(i, e - i);
		for (size_t q = 0; q < a.size(); ++q) if (a[q] == '@') { p.user = a.substr(0, q); a = a.substr(q + 1); break; }
		size_t h = 0;
		if (!a.empty() && a[0] == '[') { while (h < a.size() && a[h] != ']') ++h; if (h == a.size()) { p.valid = false; return p; } p.host = a.substr(1, h - 1); while (h < a.size() && a[h] != ':') ++h; }
		else { while (h < a.size() && a[h] != ':') ++h; p.host = a.substr(0, h); }
		if (h < a.size()) p.port = a.substr(h + 1);
		i = e;
	}
	if (p.scheme == "data") { p.path = s.substr(i); return p; }
	size_t e = i; while (e < n && s[e] != '?' && s[e] != '#') ++e;
	p.path = s.substr(i, e - i);
	if (e < n && s[e] == '?') { size_t f = e; while (f < n && s[f] != '#') ++f; p.query = s.substr(e + 1, f - e - 1); e = f; }
	if (e < n && s[e] == '#') p.frag = s.substr(e + 1);
	return p;
}
// same position and length within their own text
static bool at(std::string_view got, std::string_view gt, std::string_view want, std::string_view wt) {
	if (want.empty()) return got.empty();
	return got.size() == want.size() && got.data() - gt.data() == want.data() - wt.data();
}
template <class U> static bool agrees(const U& u, const Parts& p, std::string_view wt) {
	auto t = u.string();
	return u.valid() == p.valid && at(u.scheme(), t, p.scheme, wt) && at(u.userinfo(), t, p.user, wt) && at(u.host(), t, p.host, wt) && at(u.port(), t, p.port, wt)
		&& at(u.query(), t, p.query, wt) && at(u.fragment(), t, p.frag, wt) && at(u.path(), t, p.path, wt);
}
static char* text(const char* name, size_t n) { char* c = (char*)malloc(n ? n : 1); fgse_bytes(name, c, n); return c; }

static void split(const char* prefix) {
	size_t k = strlen(prefix), n = vh::choose("n", (unsigned)fgse_param("max", 7) + 1);
	char* c = (char*)malloc(n + k ? n + k : 1); memcpy(c, prefix, k); fgse_bytes("c", c + k, n); std::string_view s(c, n + k);
	fg::URIView v(s);
	auto p = oracle(s);
	CHECK(v.valid() == p.valid, "validity of a URI");
	if (!p.valid) { REACH("invalid"); free(c); return; }
	CHECK(at(v.scheme(), s, p.scheme, s), "scheme"); CHECK(at(v.userinfo(), s, p.user, s), "userinfo"); CHECK(at(v.host(), s, p.host, s), "host");
	CHECK(at(v.port(), s, p.port, s), "port"); CHECK(at(v.path(), s, p.path, s), "path"); CHECK(at(v.query(), s, p.query, s), "query"); CHECK(at(v.fragment(), s, p.frag, s), "fragment");
	CHECK(v.isDataUri() == (p.scheme == "data"), "data URIs are recognised by their scheme");
	CHECK(v.isLocalPath() == (p.scheme.empty() || (p.scheme == "file" && p.host.empty())), "local paths have no scheme or are hostless file URIs");
	REACH("valid"); free(c);
}
extern "C" void uri_any() { split(""); }
extern "C" void uri_authority() { split("s://"); }
extern "C" void uri_file() { split("file:"); }
extern "C" void uri_data() { split("data:"); }

static unsigned hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static std::string decode(std::string_view s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1]) < 16 && hex(s[i + 2]) < 16) { o.push_back((char)(hex(s[i + 1]) * 16 + hex(s[i + 2]))); i += 2; }
		else o.push_back(s[i]);
	}
	return o;
}
extern "C" void uri_percent() {
	size_t n = vh::choose("n", (unsigned)fgse_param("max", 6) + 1);
	char* c = text("c", n);
	std::string s(c, n), want = decode(s);
	fg::URI::decodePercents(s);
	CHECK(s.size() == want.size(), "decoded length");
	if (s.size() == want.size()) { CHECK(fgse_eq_bytes(s.data(), want.data(), s.size()), "every %XX is replaced by its byte, everything else is kept"); }
	REACH("decoded"); free(c);
}

// histories of construction, copy, move and assignment: the text and components are always those of the last value
static const char* const texts[] = {"a/b.bin", "https://me@host.example:81/p/q?x=1#f", "data:;base64,AAAA", "", "f%20g/some-longer-name.bin?q", "s://[::1]:8/", ":bad"};
static void expect(const fg::URI& u, const char* t, const char* msg) {
	std::string d = decode(t);
	CHECK(u.string() == d, msg);
	CHECK(agrees(u, oracle(d), d), "components belong to the current value");
}
extern "C" void uri_values() {
	const unsigned N = sizeof texts / sizeof *texts;
	const char* ta = texts[vh::choose("a", N)]; const char* tb = texts[vh::choose("b", N)];
	auto* a = new fg::URI(std::string_view(ta)); fg::URI b{std::string(tb)};
	expect(*a, ta, "constructed from text"); expect(b, tb, "constructed from a string");
	switch (vh::choose("op", 8)) {
		case 0: { b = *a; expect(*a, ta, "copy source unchanged"); delete a; expect(b, ta, "copy assignment"); break; }
		case 1: { b = std::move(*a); (void)a->path().size(); auto moved = *a; CHECK(moved.string().size() == a->string().size(), "moved-from URI stays usable"); delete a; expect(b, ta, "move assignment"); expect(moved, std::string(moved.string()).c_str(), "moved-from value is consistent"); break; }
		case 2: { fg::URI c(*a); delete a; expect(c, ta, "copy construction"); break; }
		case 3: { fg::URI c(std::move(*a)); delete a; expect(c, ta, "move construction"); break; }
		case 4: { std::string back = ta; fg::URIView v{std::string_view(back)}; b = v; back.assign(back.size(), 'z'); expect(b, ta, "assignment from a view"); delete a; break; }
		case 5: { std::string back = ta; fg::URIView v{std::string_view(back)}; fg::URI c(v); back.assign(back.size(), 'z'); expect(c, ta, "construction from a view"); delete a; break; }
		case 6: { fg::URIView v = *a; fg::URIView w{std::string_view("x://y/z?q#f")}; w = v; CHECK(w.string() == v.string() && agrees(w, oracle(decode(ta)), std::string_view(decode(ta))) == agrees(v, oracle(decode(ta)), decode(ta)) && w.valid() == v.valid() && w.path() == v.path() && w.scheme() == v.scheme() && w.fragment() == v.fragment(), "views copy every component"); delete a; break; }
		case 7: { fg::URIView w{std::string_view("x://u@y:1/z?q#f")}; std::string t = ta; w = std::string_view(t); CHECK(agrees(w, oracle(t), t), "a reassigned view has the components of the new text"); delete a; break; }
	}
	// chains: a value that went through another object
	fg::URI c; c = b; fg::URI d(std::move(c)); c = d; CHECK(c.string() == b.string() && c.valid() == b.valid() && c.path() == b.path() && c.query() == b.query() && c.host() == b.host(), "chained assignments keep the value");
	REACH("done");
}
