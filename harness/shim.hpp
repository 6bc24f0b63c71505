// Pre-included when /repo's sources are lowered for the symbolic executor: integers that are
// symbolic are exported as number tokens instead of digit strings (see runtime.cpp).
#pragma once
#include <string>
#include <string_view>
#include <filesystem>
#include <fstream>
#include <functional>
#include <variant>
#include <memory>
#include <memory_resource>
#include <simdjson.h>
extern "C" int fgse_is_const(uint64_t v);
extern "C" uint64_t fgse_token(uint64_t v, int kind);
namespace std {
std::string fg_token_string(uint64_t v, int kind);
template <class T> inline std::string fg_to_string(T v) {
	static_assert(std::is_integral_v<T>, "integral");
	if (fgse_is_const((uint64_t)v)) return std::to_string(v);
	return fg_token_string((uint64_t)v, std::is_signed_v<T> ? 'i' : 'u');
}
}
#define to_string fg_to_string
