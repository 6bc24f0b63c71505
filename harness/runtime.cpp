// Environment of the code under test for symbolic execution: the pieces of libstdc++ that live in
// the shared library, a model of simdjson's parse stage, and inert file system entry points.
#include "vh.hpp"
#include <string>
#include <filesystem>
#include <fstream>
#include <memory_resource>
#include <mutex>
#include <cmath>
#include <simdjson.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <cerrno>

template class std::__cxx11::basic_string<char>;

// ---------------------------------------------------------------- number / string tokens
namespace {
struct Tok { uint64_t v; const char* p; size_t n; };
Tok g_tok[4096]; size_t g_ntok = 0;
void addTok(std::string& s, char kind, Tok t) {
	size_t i = g_ntok++; g_tok[i] = t;
	s += '\x01'; s += kind;
	const char* hex = "0123456789abcdef";
	s += hex[(i >> 8) & 15]; s += hex[(i >> 4) & 15]; s += hex[i & 15];
}
}
namespace vh {
J& J::num(uint64_t v) { if (fgse_is_const(v)) s += std::to_string(v); else addTok(s, 'u', {v, nullptr, 0}); return *this; }
J& J::inum(int64_t v) { if (fgse_is_const((uint64_t)v)) s += std::to_string(v); else addTok(s, 'i', {(uint64_t)v, nullptr, 0}); return *this; }
J& J::dnum(double v) { addTok(s, 'd', {bits(v), nullptr, 0}); return *this; }
J& J::str(const char* p, size_t n) { char* c = (char*)malloc(n + 1); if (n) memcpy(c, p, n); addTok(s, 's', {0, c, n}); return *this; }
void resetTokens() { g_ntok = 0; }
}
namespace std { std::string fg_token_string(uint64_t v, int kind) { std::string s; addTok(s, (char)kind, {v, nullptr, 0}); return s; } }

// ---------------------------------------------------------------- simdjson
namespace {
using namespace simdjson;
inline bool isTok(const char* p) { return fgse_is_const((uint64_t)(unsigned char)p[0]) && p[0] == '\x01' && fgse_is_const((uint64_t)(unsigned char)p[1]) && fgse_is_const((uint64_t)(unsigned char)p[4]); }
struct MiniParser {
	const char* p; const char* e; std::vector<uint64_t> tape; std::string strs; error_code err = SUCCESS;
	void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
	bool fail(error_code c) { if (err == SUCCESS) err = c; return false; }
	void word(char t, uint64_t v) { tape.push_back(((uint64_t)(unsigned char)t << 56) | v); }
	void emitStr(const char* s, size_t n) { word('"', strs.size()); uint32_t l = (uint32_t)n; strs.append((const char*)&l, 4); strs.append(s, n); strs.push_back('\0'); }
	bool string() {
		++p;
		if (e - p >= 5 && isTok(p)) { // token (emitted without quotes normally; accept quoted too)
			return fail(STRING_ERROR);
		}
		std::string r;
		for (;;) {
			if (p >= e) return fail(UNCLOSED_STRING);
			char c = *p++;
			if (c == '"') break;
			if ((unsigned char)c < 0x20) return fail(UNESCAPED_CHARS);
			if (c == '\\') {
				if (p >= e) return fail(UNCLOSED_STRING);
				char d = *p++;
				switch (d) {
					case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break;
					case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
					case 'u': {
						if (e - p < 4) return fail(STRING_ERROR);
						unsigned v = 0;
						for (int i = 0; i < 4; ++i) { char h = *p++; unsigned x; if (h >= '0' && h <= '9') x = h - '0'; else if (h >= 'a' && h <= 'f') x = h - 'a' + 10; else if (h >= 'A' && h <= 'F') x = h - 'A' + 10; else return fail(STRING_ERROR); v = v * 16 + x; }
						if (v < 0x80) r += (char)v;
						else if (v < 0x800) { r += (char)(0xC0 | (v >> 6)); r += (char)(0x80 | (v & 63)); }
						else { r += (char)(0xE0 | (v >> 12)); r += (char)(0x80 | ((v >> 6) & 63)); r += (char)(0x80 | (v & 63)); }
						break;
					}
					default: return fail(STRING_ERROR);
				}
				continue;
			}
			r += c;
		}
		emitStr(r.data(), r.size());
		return true;
	}
	bool value(int depth) {
		ws();
		if (depth > 64) return fail(DEPTH_ERROR);
		if (p >= e) return fail(TAPE_ERROR);
		char c = *p;
		if (e - p >= 5 && isTok(p)) {
			char k = p[1]; size_t i = 0;
			for (int q = 2; q < 5; ++q) { char h = p[q]; i = i * 16 + (h <= '9' ? h - '0' : h - 'a' + 10); }
			p += 5; Tok& t = g_tok[i];
			if (k == 's') { emitStr(t.p, t.n); return true; }
			if (k == 'd') { word('d', 0); tape.push_back(t.v); return true; }
			if (k == 'i') { word('l', 0); tape.push_back(t.v); return true; }
			if (t.v > (uint64_t)INT64_MAX) word('u', 0); else word('l', 0);
			tape.push_back(t.v); return true;
		}
		if (c == '{' || c == '[') {
			char close = c == '{' ? '}' : ']'; size_t start = tape.size(); tape.push_back(0); uint64_t count = 0;
			++p; ws();
			if (p < e && *p == close) { ++p; }
			else for (;;) {
				ws();
				if (c == '{') {
					if (p >= e) return fail(TAPE_ERROR);
					if (e - p >= 5 && isTok(p) && p[1] == 's') { if (!value(depth)) return false; }
					else if (*p != '"') return fail(TAPE_ERROR);
					else if (!string()) return false;
					ws(); if (p >= e || *p != ':') return fail(TAPE_ERROR); ++p;
				}
				if (!value(depth + 1)) return false;
				++count; ws();
				if (p >= e) return fail(TAPE_ERROR);
				if (*p == ',') { ++p; continue; }
				if (*p == close) { ++p; break; }
				return fail(TAPE_ERROR);
			}
			word(close, start);
			tape[start] = ((uint64_t)(unsigned char)c << 56) | (count << 32) | tape.size();
			return true;
		}
		if (c == '"') return string();
		auto lit = [&](const char* s, char t) { size_t n = strlen(s); if ((size_t)(e - p) < n || memcmp(p, s, n) != 0) return fail(t == 'n' ? N_ATOM_ERROR : t == 't' ? T_ATOM_ERROR : F_ATOM_ERROR); p += n; word(t, 0); return true; };
		if (c == 't') return lit("true", 't');
		if (c == 'f') return lit("false", 'f');
		if (c == 'n') return lit("null", 'n');
		if (c == '-' || (c >= '0' && c <= '9')) {
			bool neg = c == '-'; if (neg) ++p;
			if (p >= e || *p < '0' || *p > '9') return fail(NUMBER_ERROR);
			if (*p == '0' && p + 1 < e && p[1] >= '0' && p[1] <= '9') return fail(NUMBER_ERROR);
			uint64_t v = 0; bool big = false; double d = 0;
			while (p < e && *p >= '0' && *p <= '9') { unsigned x = *p - '0'; if (v > (UINT64_MAX - x) / 10) big = true; v = v * 10 + x; d = d * 10 + x; ++p; }
			bool fp = false;
			if (p < e && *p == '.') { fp = true; ++p; if (p >= e || *p < '0' || *p > '9') return fail(NUMBER_ERROR); double sc = 1, fr = 0; while (p < e && *p >= '0' && *p <= '9') { fr = fr * 10 + (*p - '0'); sc *= 10; ++p; } d += fr / sc; }
			if (p < e && (*p == 'e' || *p == 'E')) { fp = true; ++p; bool en = false; if (p < e && (*p == '+' || *p == '-')) { en = *p == '-'; ++p; } if (p >= e || *p < '0' || *p > '9') return fail(NUMBER_ERROR); int x = 0; while (p < e && *p >= '0' && *p <= '9') { x = x * 10 + (*p - '0'); if (x > 400) x = 400; ++p; } for (int i = 0; i < x; ++i) d = en ? d / 10 : d * 10; }
			if (p < e && !(*p == ',' || *p == ']' || *p == '}' || *p == ' ' || *p == '\n' || *p == '\r' || *p == '\t' || *p == ':' )) return fail(NUMBER_ERROR);
			if (fp) { if (neg) d = -d; word('d', 0); tape.push_back(vh::bits(d)); return true; }
			if (big) return fail(NUMBER_ERROR);
			if (neg) { if (v > (1ull << 63)) return fail(NUMBER_ERROR); word('l', 0); tape.push_back(0 - v); return true; }
			word(v > (uint64_t)INT64_MAX ? 'u' : 'l', 0); tape.push_back(v); return true;
		}
		return fail(TAPE_ERROR);
	}
};
struct StubParser final : internal::dom_parser_implementation {
	error_code parse(const uint8_t* buf, size_t len, dom::document& doc) noexcept override {
		len = fgse_fix(len); MiniParser m; m.p = (const char*)buf; m.e = m.p + len;
		m.tape.push_back(0);
		m.ws();
		if (m.p >= m.e) return EMPTY;
		if (!m.value(0)) return m.err;
		m.ws();
		if (m.p < m.e) return TAPE_ERROR;
		m.word('r', 0);
		m.tape[0] = ((uint64_t)'r' << 56) | m.tape.size();
		doc.tape.reset(new uint64_t[m.tape.size()]);
		memcpy(doc.tape.get(), m.tape.data(), m.tape.size() * 8);
		doc.string_buf.reset(new uint8_t[m.strs.size() + 1]);
		memcpy(doc.string_buf.get(), m.strs.data(), m.strs.size());
		return SUCCESS;
	}
	error_code stage1(const uint8_t*, size_t, stage1_mode) noexcept override { return UNINITIALIZED; }
	error_code stage2(dom::document&) noexcept override { return UNINITIALIZED; }
	error_code stage2_next(dom::document&) noexcept override { return UNINITIALIZED; }
	uint8_t* parse_string(const uint8_t*, uint8_t*, bool) const noexcept override { return nullptr; }
	uint8_t* parse_wobbly_string(const uint8_t*, uint8_t*) const noexcept override { return nullptr; }
	error_code set_capacity(size_t c) noexcept override { _capacity = c; return SUCCESS; }
	error_code set_max_depth(size_t d) noexcept override { _max_depth = d; return SUCCESS; }
};
struct StubImpl final : implementation {
	StubImpl() : implementation("stub", "stub", 0) {}
	error_code create_dom_parser_implementation(size_t capacity, size_t max_depth, std::unique_ptr<internal::dom_parser_implementation>& dst) const noexcept override {
		dst.reset(new StubParser()); (void)dst->set_capacity(capacity); (void)dst->set_max_depth(max_depth); return SUCCESS;
	}
	error_code minify(const uint8_t* buf, size_t len, uint8_t* dst, size_t& dst_len) const noexcept override {
		// whitespace outside strings is dropped
		bool in = false; size_t o = 0;
		for (size_t i = 0; i < len; ++i) { uint8_t c = buf[i]; if (in) { dst[o++] = c; if (c == '\\' && i + 1 < len) dst[o++] = buf[++i]; else if (c == '"') in = false; } else if (c != ' ' && c != '\n' && c != '\t' && c != '\r') { dst[o++] = c; if (c == '"') in = true; } }
		dst_len = o; return SUCCESS;
	}
	bool validate_utf8(const char*, size_t) const noexcept override { return true; }
};
}
namespace simdjson {
internal::atomic_ptr<const implementation>& get_active_implementation() { static const StubImpl* i = new StubImpl(); static internal::atomic_ptr<const implementation> a(i); return a; }
const internal::available_implementation_list& get_available_implementations() { static internal::available_implementation_list l; return l; }
bool implementation::supported_by_runtime_system() const { return true; }
namespace internal {
const implementation* const* available_implementation_list::begin() const noexcept { return nullptr; }
const implementation* const* available_implementation_list::end() const noexcept { return nullptr; }
char* to_chars(char* first, const char* last, double v) {
	(void)last; std::string s; addTok(s, 'd', {vh::bits(v), nullptr, 0});
	memcpy(first, s.data(), s.size()); return first + s.size();
}
}
}

// ---------------------------------------------------------------- libstdc++ pieces
namespace std {
namespace {
struct NewDelete final : pmr::memory_resource {
	void* do_allocate(size_t n, size_t) override { return ::operator new(n); }
	void do_deallocate(void* p, size_t, size_t) override { ::operator delete(p); }
	bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
}
namespace pmr {
memory_resource::~memory_resource() = default;
memory_resource* get_default_resource() noexcept { static NewDelete* r = new NewDelete(); return r; }
memory_resource* new_delete_resource() noexcept { return get_default_resource(); }
// every request gets its own exactly sized block, so that overruns between pool blocks are visible
struct PoolNode { PoolNode* next; void* p; };
void monotonic_buffer_resource::_M_new_buffer(size_t bytes, size_t) {
	void* p = ::operator new(bytes);
	auto* n = new PoolNode{reinterpret_cast<PoolNode*>(_M_head), p}; _M_head = reinterpret_cast<_Chunk*>(n);
	_M_current_buf = p; _M_avail = bytes;
}
void monotonic_buffer_resource::_M_release_buffers() noexcept {
	auto* n = reinterpret_cast<PoolNode*>(_M_head); _M_head = nullptr;
	while (n) { auto* x = n->next; ::operator delete(n->p); delete n; n = x; }
}
monotonic_buffer_resource::~monotonic_buffer_resource() { release(); }
}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return ""; }
}
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;
extern "C" unsigned long __isoc23_strtoul(const char* s, char** end, int base) {
	const char* p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
	bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
	if (base == 16 && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) p += 2;
	unsigned long v = 0; bool any = false, ov = false;
	for (;;) { char c = *p; unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= (unsigned)base) break; if (v > (~0ul - d) / base) ov = true; v = v * base + d; any = true; ++p; }
	if (end) *end = (char*)(any ? p : s);
	return ov ? ~0ul : neg ? 0 - v : v;
}

// once_flag: single-threaded
namespace std {
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
extern "C" int pthread_once(pthread_once_t* f, void (*fn)()) { if (*f == 0) { *f = 2; fn(); } return 0; }

namespace vh { Faults faults{}; }
// file system: paths are plain strings
namespace std::filesystem {
// every path is one component (type _Filename): the text itself
path::_List::_List() {}
path::_List::_List(const _List& o) : _M_impl(o._M_impl.get()) {}
path::_List& path::_List::operator=(const _List& o) { _M_impl.release(); _M_impl.reset(o._M_impl.get()); return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
path::_List::const_iterator path::_List::begin() const noexcept { return nullptr; }
path::_List::const_iterator path::_List::end() const noexcept { return nullptr; }
path::_List::iterator path::_List::begin() noexcept { return nullptr; }
path::_List::iterator path::_List::end() noexcept { return nullptr; }
void path::_M_split_cmpts() { _M_cmpts._M_impl.release(); if (!_M_pathname.empty()) _M_cmpts._M_impl.reset(reinterpret_cast<_List::_Impl*>(3)); }
int path::compare(const path& o) const noexcept { return _M_pathname.compare(o._M_pathname); }
bool path::has_root_directory() const noexcept { return !_M_pathname.empty() && _M_pathname[0] == '/'; }
path path::lexically_normal() const {
	const std::string& s = _M_pathname; if (s.empty()) return path();
	bool abs = s[0] == '/', dirEnd = false; std::vector<std::string> c; size_t i = 0;
	while (i < s.size()) {
		if (s[i] == '/') { ++i; dirEnd = true; continue; }
		size_t k = i; while (k < s.size() && s[k] != '/') ++k;
		std::string e = s.substr(i, k - i); i = k; dirEnd = false;
		if (e == ".") { dirEnd = true; continue; }
		if (e == "..") { dirEnd = true; if (!c.empty() && c.back() != "..") c.pop_back(); else if (!abs) { c.push_back(e); dirEnd = false; } continue; }
		c.push_back(e);
	}
	std::string r = abs ? "/" : ""; for (size_t k = 0; k < c.size(); ++k) { if (k) r += '/'; r += c[k]; }
	if (!c.empty() && dirEnd && c.back() != "..") r += '/';
	if (r.empty()) r = ".";
	return path(r);
}
path path::parent_path() const { auto k = _M_pathname.rfind('/'); while (k != std::string::npos && k > 0 && _M_pathname[k - 1] == '/') --k; return path(k == std::string::npos ? std::string() : k == 0 ? std::string("/") : _M_pathname.substr(0, k)); }
path& path::operator/=(const path& p) { if (p.has_root_directory()) _M_pathname.clear(); if (!_M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/'; _M_pathname += p._M_pathname; _M_split_cmpts(); return *this; }
}
// The file system: without vh::fsInit() every path is a directory; otherwise the files and directories the harness put there,
// relative to a scratch directory that is the current one.
namespace vh {
struct VNode { std::string path, data; int kind; }; // 1 file, 2 directory, 3 full device
static VNode* g_vfs[32]; static unsigned g_nv = 0; static bool g_fs = false;
static int vfind(const std::string& c) { for (unsigned i = 0; i < g_nv; ++i) if (g_vfs[i]->path == c) return (int)i; return -1; }
// canonical name, false if a directory on the way is missing
static bool vres(const char* p, std::string& out) {
	out.clear(); if (!*p || *p == '/') return false;
	bool dir = false;
	while (*p) {
		if (*p == '/') { ++p; dir = true; continue; }
		const char* e = p; while (*e && *e != '/') ++e;
		std::string c(p, (size_t)(e - p)); p = e; dir = false;
		if (!out.empty()) { int k = vfind(out); if (k < 0 || g_vfs[k]->kind != 2) return false; }
		if (c == ".") continue;
		if (c == "..") { auto k = out.rfind('/'); if (out.empty()) return false; out = k == std::string::npos ? std::string() : out.substr(0, k); continue; }
		if (!out.empty()) out += '/'; out += c;
	}
	if (dir && !out.empty()) { int k = vfind(out); if (k >= 0 && g_vfs[k]->kind != 2) return false; }
	return true;
}
static int vlook(const char* p) { std::string c; if (!vres(p, c)) return -1; if (c.empty()) return -2; return vfind(c); } // -2: the scratch directory
static int vkind(const char* p) { int k = vlook(p); return k == -2 ? 2 : k < 0 ? 0 : g_vfs[k]->kind; }
static int vput(const char* p, int kind) { std::string c; if (!vres(p, c) || c.empty()) return -1; int k = vfind(c); if (k >= 0) return k; auto* n = new VNode{c, std::string(), kind}; g_vfs[g_nv] = n; return (int)g_nv++; }
void fsInit() { g_fs = true; }
void putDir(const char* p) { vput(p, 2); }
void putFile(const char* p, const void* d, size_t n) { int k = vput(p, 1); g_vfs[k]->data.assign((const char*)d, n); }
void putFull(const char* p) { vput(p, 3); }
bool getFile(const char* p, std::string& out) { int k = vlook(p); if (k < 0 || g_vfs[k]->kind != 1) return false; out = g_vfs[k]->data; return true; }
unsigned countFiles() { unsigned n = 0; for (unsigned i = 0; i < g_nv; ++i) n += g_vfs[i]->kind == 1; return n; }
int vfsOpenRead(const char* p) { if (faults.fopen) return -1; int k = vlook(p); return k < 0 || g_vfs[k]->kind == 2 ? (k >= 0 || k == -2 ? 99 : -1) : k; } // directories can be opened but not read
size_t vfsSize(int f) { return f == 99 ? 0 : g_vfs[f]->data.size(); }
size_t vfsRead(int f, size_t pos, char* p, size_t n, bool* err) {
	if (f == 99) { *err = true; return 0; }
	auto& d = g_vfs[f]->data; size_t m = d.size(); bool cut = faults.read && faults.readAt <= m; if (cut) m = faults.readAt;
	size_t k = pos >= m ? 0 : m - pos < n ? m - pos : n; if (k) memcpy(p, d.data() + pos, k);
	if (cut && faults.read == 1 && k < n) *err = true;
	return k;
}
int vfsOpenWrite(const char* p, bool, bool keep) {
	int k = vlook(p); if (k == -2) return -1;
	if (k < 0) { std::string c; if (!vres(p, c)) return -1; auto q = c.rfind('/'); if (q != std::string::npos) { int d = vfind(c.substr(0, q)); if (d < 0 || g_vfs[d]->kind != 2) return -1; } k = vput(p, 1); }
	if (g_vfs[k]->kind == 2) return -1;
	if (!keep) g_vfs[k]->data.clear();
	return k;
}
bool vfsAppend(int f, const char* p, size_t n) { if (g_vfs[f]->kind == 3) return false; g_vfs[f]->data.append(p, n); return true; }
}
namespace std::filesystem {
static void vfail(std::error_code& ec, int v) { ec = std::error_code(v, std::system_category()); }
file_status status(const path& p, std::error_code& ec) noexcept {
	if (!vh::g_fs) return file_status(file_type::directory);
	int k = vh::vkind(p.c_str()); if (!k) { vfail(ec, ENOENT); return file_status(file_type::not_found); }
	ec.clear(); return file_status(k == 1 ? file_type::regular : k == 2 ? file_type::directory : file_type::character);
}
file_status status(const path& p) { std::error_code ec; return status(p, ec); }
uintmax_t file_size(const path& p, std::error_code& ec) noexcept {
	if (!vh::g_fs) return 0;
	int k = vh::vkind(p.c_str()); if (k != 1) { vfail(ec, k == 0 ? ENOENT : k == 2 ? EISDIR : ENOTSUP); return (uintmax_t)-1; }
	ec.clear(); return vh::g_vfs[vh::vlook(p.c_str())]->data.size();
}
uintmax_t file_size(const path& p) { if (!vh::g_fs) return 0; std::error_code ec; auto r = file_size(p, ec); if (ec.value()) throw 1; return r; }
bool create_directory(const path& p, std::error_code& ec) noexcept {
	if (!vh::g_fs) return false;
	int k = vh::vkind(p.c_str()); if (k == 2) { ec.clear(); return false; }
	std::string c; if (k || !vh::vres(p.c_str(), c)) { vfail(ec, k ? EEXIST : ENOENT); return false; }
	auto q = c.rfind('/'); if (q != std::string::npos) { int d = vh::vfind(c.substr(0, q)); if (d < 0 || vh::g_vfs[d]->kind != 2) { vfail(ec, ENOENT); return false; } }
	ec.clear(); vh::vput(p.c_str(), 2); return true;
}
bool create_directories(const path& p, std::error_code& ec) {
	if (!vh::g_fs) return false;
	const std::string s = p.string(); bool made = false; if (s.empty()) { vfail(ec, ENOENT); return false; }
	for (size_t i = 1; i <= s.size(); ++i) if (i == s.size() || s[i] == '/') { made = create_directory(path(s.substr(0, i)), ec); if (ec.value()) return false; }
	return made;
}
}
namespace std { inline namespace _V2 {
alignas(16) static char g_cat[64];
const error_category& system_category() noexcept { return *reinterpret_cast<error_category*>(g_cat); }
const error_category& generic_category() noexcept { return *reinterpret_cast<error_category*>(g_cat); }
} }

// in-memory file table behind open/fstat/mmap/close
namespace vh {
int openFds = 0, liveMaps = 0;
static struct { const char* p; size_t n; char name[8]; } g_files[8]; static unsigned g_nfiles = 0;
const char* makeFile(const void* p, size_t n) { auto& f = g_files[g_nfiles]; f.p = (const char*)p; f.n = n; f.name[0] = '@'; f.name[1] = (char)('0' + g_nfiles); f.name[2] = 0; ++g_nfiles; return f.name; }
}
extern "C" int open(const char* path, int, ...) {
	if (vh::faults.open || path[0] != '@') return -1;
	unsigned i = path[1] - '0'; if (i >= vh::g_nfiles) return -1;
	++vh::openFds; return 100 + (int)i;
}
extern "C" int fstat(int fd, struct stat* st) noexcept { if (vh::faults.fstat) return -1; st->st_size = (off_t)vh::g_files[fd - 100].n; return 0; }
// mappings cover whole pages; the rest of the last page reads as zeros
extern "C" void* mmap(void* at, size_t len, int, int flags, int fd, off_t) noexcept {
	if (len == 0 || (vh::faults.mmap && !(flags & MAP_ANONYMOUS))) return MAP_FAILED;
	size_t pages = (len + 4095) / 4096 * 4096;
	char* m = (flags & MAP_FIXED) ? (char*)at : (char*)malloc(pages);
	memset(m, 0, pages);
	if (!(flags & MAP_ANONYMOUS)) { auto& f = vh::g_files[fd - 100]; memcpy(m, f.p, f.n < pages ? f.n : pages); }
	if (!(flags & MAP_FIXED)) ++vh::liveMaps;
	return m;
}
extern "C" int munmap(void* p, size_t n) noexcept { if (n == 0) return -1; --vh::liveMaps; free(p); return 0; }
extern "C" int madvise(void*, size_t, int) noexcept { return 0; }
extern "C" int close(int) { --vh::openFds; return 0; }
