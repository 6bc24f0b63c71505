// Harness interface: the same harness source runs under the symbolic executor (FGSE_SYMBOLIC) and,
// fed with the values of one counterexample or sample path, natively against the real build.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

extern "C" {
uint64_t fgse_sym(const char* name, uint32_t bits);
float fgse_symf(const char* name);
double fgse_symd(const char* name);
void fgse_bytes(const char* name, void* p, size_t n);
void fgse_assume(int c);
void fgse_assert(int c, const char* msg);
void fgse_reach(const char* label);
uint64_t fgse_fix(uint64_t v);
int fgse_is_const(uint64_t v);
uint64_t fgse_live();
int fgse_symbolic();
uint64_t fgse_param(const char* name, uint64_t dflt);
void fgse_print(const void* p, size_t n);
void fgse_printu(const char* name, uint64_t v);
void fgse_observe(const char* name, uint64_t v);
int fgse_readable(const void* p, size_t n);
void fgse_end();
void fgse_uninit(void* p, size_t n);
void fgse_check_init(const void* p, size_t n);
int fgse_eq_bytes(const void* a, const void* b, size_t n);
}
#define CHECK(c, msg) fgse_assert((int)(c), msg)
#define REACH(l) fgse_reach(l)

namespace vh {
inline uint8_t u8(const char* n) { return (uint8_t)fgse_sym(n, 8); }
inline uint16_t u16(const char* n) { return (uint16_t)fgse_sym(n, 16); }
inline uint32_t u32(const char* n) { return (uint32_t)fgse_sym(n, 32); }
inline uint64_t u64(const char* n) { return fgse_sym(n, 64); }
inline bool b(const char* n) { return fgse_sym(n, 1) != 0; }
inline float f32(const char* n) { return fgse_symf(n); }
inline double f64(const char* n) { return fgse_symd(n); }
inline void assume(bool c) { fgse_assume(c); }
// all values below k, one path each
inline uint32_t choose(const char* n, uint32_t k) { uint64_t v = fgse_sym(n, 16); fgse_assume(v < k); return (uint32_t)fgse_fix(v); }
inline bool flip(const char* n) { return fgse_fix(fgse_sym(n, 1)) != 0; }
inline uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
inline uint32_t bits(float d) { uint32_t u; std::memcpy(&u, &d, 4); return u; }
inline double fromBits(uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }
inline float fromBits32(uint32_t u) { float d; std::memcpy(&d, &u, 4); return d; }
// bitwise identity of floating point values (also right for -0.0 and NaN)
inline bool same(float a, float b) { return bits(a) == bits(b); }
inline bool same(double a, double b) { return bits(a) == bits(b); }
// any finite double that is representable as float
inline double finite(const char* n) { uint32_t u = (uint32_t)fgse_sym(n, 32); fgse_assume((u & 0x7f800000u) != 0x7f800000u); return (double)fromBits32(u); }
inline double finite64(const char* n) { uint64_t u = fgse_sym(n, 64); fgse_assume((u & 0x7ff0000000000000ull) != 0x7ff0000000000000ull); return fromBits(u); }
inline std::string nm(const char* p, unsigned i) { return std::string(p) + std::to_string(i); }

// JSON text builder. Symbolic numbers become tokens that the model of simdjson's parse stage
// turns into tape entries; natively they are printed as decimal text.
struct J {
	std::string s;
	J& operator<<(const char* t) { s += t; return *this; }
	J& operator<<(const std::string& t) { s += t; return *this; }
	J& lit(unsigned long long v) { s += std::to_string(v); return *this; }
	J& num(uint64_t v);            // unsigned integer literal
	J& inum(int64_t v);            // signed integer literal
	J& dnum(double v);             // number written with a fraction
	J& str(const char* p, size_t n); // string literal with the given characters (0x20..0x7e)
};
void resetTokens();
// a file with the given content (in the model: an entry of an in-memory file table), and the state of the process' file handles and mappings
const char* makeFile(const void* p, size_t n);
struct Faults { bool open, fstat, mmap; bool fopen; int read; size_t readAt; }; // read: 1 error, 2 end of file, after readAt bytes
extern Faults faults;
extern int openFds, liveMaps;
// files below a scratch directory that becomes the current directory
void fsInit();
void putDir(const char* path);
void putFile(const char* path, const void* p, size_t n);
void putFull(const char* path); // can be opened, but accepts no bytes
bool getFile(const char* path, std::string& out);
unsigned countFiles();
}
