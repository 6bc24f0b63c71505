// Native side of the harness interface: replays the values of one symbolic path.
#include "vh.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <fstream>
#include <dlfcn.h>
#include <unistd.h>
#include <cmath>
#include <sys/wait.h>
#include <malloc.h>
#include <fcntl.h>
#include <cstdarg>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <filesystem>
static std::map<std::string, unsigned long long> g_in;
static std::map<std::string, unsigned> g_cnt;
static std::map<std::string, unsigned long long> g_par;
static std::string uniq(const std::string& n) { unsigned k = g_cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static unsigned long long val(const std::string& n) { auto it = g_in.find(uniq(n)); return it == g_in.end() ? 0 : it->second; }
namespace vh { static void dropDir(); }
extern "C" {
uint64_t fgse_sym(const char* name, uint32_t bits) { uint64_t v = val(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
float fgse_symf(const char* name) { uint32_t u = (uint32_t)val(name); float f; memcpy(&f, &u, 4); return f; }
double fgse_symd(const char* name) { uint64_t u = val(name); double f; memcpy(&f, &u, 8); return f; }
void fgse_bytes(const char* name, void* p, size_t n) { for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)val(std::string(name) + "[" + std::to_string(i) + "]"); }
void fgse_assume(int c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(nullptr); vh::dropDir(); _exit(76); } }
void fgse_assert(int c, const char* msg) { if (!c) { printf("ASSERT-FAILED: %s\n", msg); fflush(nullptr); vh::dropDir(); _exit(77); } }
void fgse_reach(const char* l) { printf("REACH %s\n", l); }
uint64_t fgse_fix(uint64_t v) { return v; }
int fgse_is_const(uint64_t) { return 1; }
uint64_t fgse_live() { return 0; }
int fgse_symbolic() { return 0; }
uint64_t fgse_param(const char* name, uint64_t d) { auto it = g_par.find(name); return it == g_par.end() ? d : it->second; }
void fgse_print(const void* p, size_t n) { fprintf(stderr, "[print] %.*s\n", (int)n, (const char*)p); }
void fgse_printu(const char* name, uint64_t v) { fprintf(stderr, "[print] %s = %#llx\n", name, (unsigned long long)v); }
void fgse_observe(const char* name, uint64_t v) { printf("OBS %s=0x%llx\n", name, (unsigned long long)v); }
int fgse_readable(const void* p, size_t n) { volatile unsigned s = 0; for (size_t i = 0; i < n; ++i) s = s + ((const volatile unsigned char*)p)[i]; return 1; } // an unreadable byte ends the run
void fgse_end() { printf("DONE\n"); fflush(nullptr); vh::dropDir(); _exit(0); }
void fgse_uninit(void* p, size_t n) { memset(p, 0xA5, n); }
void fgse_check_init(const void* p, size_t n) { volatile unsigned s = 0; for (size_t i = 0; i < n; ++i) if (((const unsigned char*)p)[i] == 0x5a) s = s + 1; }
int fgse_eq_bytes(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
}
namespace vh {
J& J::num(uint64_t v) { s += std::to_string(v); return *this; }
J& J::inum(int64_t v) { s += std::to_string(v); return *this; }
J& J::dnum(double v) {
	char b[64]; snprintf(b, sizeof b, "%.17g", v); std::string t = b;
	if (t.find_first_of(".e") == std::string::npos) t += ".0";
	s += t; return *this;
}
J& J::str(const char* p, size_t n) {
	s += '"';
	for (size_t i = 0; i < n; ++i) { if (p[i] == '"' || p[i] == '\\') s += '\\'; s += p[i]; }
	s += '"'; return *this;
}
void resetTokens() {}
}
namespace vh { Faults faults{}; }
// scratch directory for file system checks: removed at the end of the process
namespace vh {
static std::string g_dir; static pid_t g_dirOwner = 0;
static void dropDir() { if (!g_dir.empty() && g_dirOwner == getpid()) { std::error_code ec; if (chdir("/") == 0) std::filesystem::remove_all(g_dir, ec); g_dir.clear(); } }
void fsInit() { char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort(); std::string t = std::string(cwd) + "/vp-fs-XXXXXX"; if (!mkdtemp(t.data()) || chdir(t.c_str())) abort(); g_dir = t; g_dirOwner = getpid(); atexit(dropDir); }
void putDir(const char* p) { if (mkdir(p, 0755)) abort(); }
void putFile(const char* p, const void* d, size_t n) { std::ofstream o(p, std::ios::binary); o.write((const char*)d, (std::streamsize)n); o.close(); if (!o) abort(); }
void putFull(const char* p) { if (symlink("/dev/full", p)) abort(); }
bool getFile(const char* p, std::string& out) { std::error_code ec; if (!std::filesystem::is_regular_file(p, ec)) return false; std::ifstream i(p, std::ios::binary); out.assign(std::istreambuf_iterator<char>(i), {}); return true; }
unsigned countFiles() { unsigned n = 0; for (auto& e : std::filesystem::recursive_directory_iterator(".")) n += !e.is_symlink() && e.is_regular_file(); return n; }
}
extern "C" FILE* fopen(const char* p, const char* m) {
	static auto real = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
	if (vh::faults.fopen && m[0] == 'r') { errno = EACCES; return nullptr; }
	return real(p, m);
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
	if (vh::faults.read) {
		off_t pos = lseek(fd, 0, SEEK_CUR);
		if (pos >= 0) { size_t left = (size_t)pos < vh::faults.readAt ? vh::faults.readAt - (size_t)pos : 0; if (left == 0 && n) { if (vh::faults.read == 1) { errno = EIO; return -1; } return 0; } if (n > left) n = left; }
	}
	return syscall(SYS_read, fd, p, n);
}
// fault injection and accounting for the memory-mapped file reader
namespace vh {
int openFds = 0, liveMaps = 0;
static std::set<std::string>& names() { static std::set<std::string> s; return s; }
static std::set<int>& fds() { static std::set<int> s; return s; }
static std::set<void*>& maps() { static std::set<void*> s; return s; }
static bool g_track = false;
static void cleanup() { for (auto& n : names()) unlink(n.c_str()); }
const char* makeFile(const void* p, size_t n) {
	char t[] = "/tmp/vp-file-XXXXXX"; int fd = mkstemp(t); if (fd < 0) abort();
	if (write(fd, p, n) != (ssize_t)n) abort();
	syscall(SYS_close, fd);
	if (names().empty()) atexit(cleanup);
	g_track = true; return names().insert(t).first->c_str();
}
}
extern "C" int open(const char* path, int flags, ...) {
	va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
	bool mine = vh::g_track && vh::names().count(path);
	if (mine && vh::faults.open) { errno = EACCES; return -1; }
	int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
	if (mine && fd >= 0) { vh::fds().insert(fd); ++vh::openFds; }
	return fd;
}
extern "C" int fstat(int fd, struct stat* st) noexcept { if (vh::g_track && vh::fds().count(fd) && vh::faults.fstat) { errno = EIO; return -1; } return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
extern "C" int close(int fd) { if (vh::g_track && vh::fds().erase(fd)) --vh::openFds; return (int)syscall(SYS_close, fd); }
// mappings of tracked files are surrounded by inaccessible pages
namespace vh { static std::map<void*, size_t>& regions() { static std::map<void*, size_t> m; return m; } static int anon = 0; }
extern "C" void* mmap(void* at, size_t len, int prot, int flags, int fd, off_t off) noexcept {
	auto raw = [](void* a, size_t l, int p, int f, int d, off_t o) { long r = syscall(SYS_mmap, a, l, p, f, d, o); return r == -1 ? MAP_FAILED : (void*)r; };
	bool mine = vh::g_track && (vh::fds().count(fd) || (fd == -1 && !vh::fds().empty()));
	if (!mine) return raw(at, len, prot, flags, fd, off);
	if (vh::faults.mmap && fd != -1) { errno = ENOMEM; return MAP_FAILED; }
	if (flags & MAP_FIXED) return raw(at, len, prot, flags, fd, off);
	if (len == 0) { errno = EINVAL; return MAP_FAILED; }
	size_t pages = (len + 4095) / 4096 * 4096; char* r = (char*)raw(nullptr, pages + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (r == MAP_FAILED) return r;
	void* m = raw(r + 4096, len, prot, flags | MAP_FIXED, fd, off);
	if (m != MAP_FAILED) { auto t = vh::g_track; vh::g_track = false; vh::regions()[m] = pages; vh::g_track = t; ++vh::liveMaps; }
	return m;
}
extern "C" int munmap(void* p, size_t n) noexcept {
	if (vh::g_track && n) { auto it = vh::regions().find(p); if (it != vh::regions().end()) { --vh::liveMaps; vh::regions().erase(it); } }
	return (int)syscall(SYS_munmap, p, n);
}
// usage: native ENTRY [--param=k=v ...] FILE...   (FILE: lines "name value")
int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (argc < 3) return 2;
	auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if (!fn) { printf("NO-ENTRY\n"); return 2; }
	std::vector<std::string> files;
	for (int i = 2; i < argc; ++i) { std::string a = argv[i]; if (a.rfind("--param=", 0) == 0) { size_t e = a.find('=', 8); g_par[a.substr(8, e - 8)] = strtoull(a.c_str() + e + 1, 0, 0); } else files.push_back(a); }
	for (auto& f : files) {
		auto run = [&]() {
			g_in.clear(); g_cnt.clear();
			std::ifstream in(f); std::string k, v; while (in >> k >> v) g_in[k] = strtoull(v.c_str(), 0, 0);
			alarm(60);
			fn(); printf("DONE\n"); fflush(nullptr);
		};
		if (files.size() == 1) { run(); return 0; }
		printf("FILE %s\n", f.c_str()); fflush(nullptr);
		pid_t p = fork();
		if (p == 0) { run(); exit(0); }
		int st = 0; waitpid(p, &st, 0);
		printf("EXIT %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); fflush(nullptr);
	}
	return 0;
}
