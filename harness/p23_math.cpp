// P23 vector, quaternion and matrix arithmetic; P24 decomposition of transforms; P30 world transforms of scenes.
// Entries run with --real treat every floating point value as an exact real number: the identity is then decided
// for every real input, with rounding left out. The others are bit precise.
#include "vh.hpp"
#include "gltf.hpp"
#include <fastgltf/math.hpp>
#include <fastgltf/tools.hpp>
#include <cmath>
namespace fg = fastgltf; namespace fm = fastgltf::math;
using std::size_t;

// ---- equality: exact in the encoding, up to rounding in native replays
static bool eq(double a, double b) {
	if (fgse_symbolic()) return a == b;
	return std::abs(a - b) <= 1e-6 * (1 + std::abs(a) + std::abs(b));
}
static bool eqf(double a, double b, double scale = 1) {
	if (fgse_symbolic()) return a == b;
	return std::abs(a - b) <= 1e-3 * (scale + std::abs(a) + std::abs(b));
}
template <typename T> static T real(const char* n) { if constexpr (std::is_same_v<T, float>) return vh::f32(n); else return vh::f64(n); }
template <typename T, size_t N> static fm::vec<T, N> rvec(const char* n) { fm::vec<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = real<T>(vh::nm(n, (unsigned)i).c_str()); return v; }
template <typename T> static fm::quat<T> rquat(const char* n) { fm::quat<T> v; for (size_t i = 0; i < 4; ++i) v[i] = real<T>(vh::nm(n, (unsigned)i).c_str()); return v; }
template <typename T, size_t N, size_t M> static fm::mat<T, N, M> rmat(const char* n) {
	fm::mat<T, N, M> m; for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) m[c][r] = real<T>(vh::nm(n, (unsigned)(c * 4 + r)).c_str()); return m;
}
template <typename T> static T num(const char* n) {
	if constexpr (std::is_floating_point_v<T>) { if constexpr (sizeof(T) == 4) return (T)vh::finite(n); else return (T)vh::finite64(n); }
	else return (T)fgse_sym(n, sizeof(T) * 8);
}
template <typename T> static bool bitsame(T a, T b) { if constexpr (sizeof(T) == 4) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; } else if constexpr (sizeof(T) == 8) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; } else return a == b; }
template <typename T, size_t N> static fm::vec<T, N> nvec(const char* n) { fm::vec<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = num<T>(vh::nm(n, (unsigned)i).c_str()); return v; }

// ---- vectors, bit precise
template <typename T, size_t N> static void vecConstruct() {
	auto a = nvec<T, N>("a");
	{ fm::vec<T, N> z; for (size_t i = 0; i < N; ++i) CHECK(z[i] == T(0), "a default vector is zero"); }
	{ fm::vec<T, N> f(a[0]); for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(f[i]), T(a[0])), "a vector made from one value repeats it"); }
	{ T arr[4]; for (size_t i = 0; i < N; ++i) arr[i] = a[i]; auto p = fm::vec<T, N>::fromPointer(arr); for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(p[i]), T(a[i])), "fromPointer reads the components in order"); }
	fm::vec<T, N> l{};
	if constexpr (N == 2) l = fm::vec<T, N>(T(a[0]), T(a[1])); else if constexpr (N == 3) l = fm::vec<T, N>(T(a[0]), T(a[1]), T(a[2])); else l = fm::vec<T, N>(T(a[0]), T(a[1]), T(a[2]), T(a[3]));
	for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(l[i]), T(a[i])), "components are given in order");
	CHECK(bitsame(T(l.x()), T(a[0])) && bitsame(T(l.y()), T(a[1])), "x and y");
	if constexpr (N >= 3) CHECK(bitsame(T(l.z()), T(a[2])), "z");
	if constexpr (N >= 4) CHECK(bitsame(T(l.w()), T(a[3])), "w");
	{ std::initializer_list<T> il = {a[0], a[1]}; fm::vec<T, N> s(il); CHECK(bitsame(T(s[0]), T(a[0])) && bitsame(T(s[1]), T(a[1])), "components of a list"); for (size_t i = 2; i < N; ++i) CHECK(s[i] == T(0), "components missing in a list are zero"); }
	CHECK(l.size() == N && l.size_bytes() == N * sizeof(T), "size of a vector");
	CHECK(l.data() == &l[0], "data points to the first component");
	REACH("construct");
}
template <typename T, size_t N> static void vecResize() {
	auto a = nvec<T, 4>("a");
	fm::vec<T, N> s(a); for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(s[i]), T(a[i])), "a longer vector is truncated");
	fm::vec<T, N> t; t = a; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(t[i]), T(a[i])), "assigning a longer vector truncates it");
	fm::vec<T, 4> w(s); for (size_t i = 0; i < 4; ++i) CHECK(bitsame(T(w[i]), i < N ? T(a[i]) : T(0)), "a shorter vector is extended with zeros");
	fm::vec<T, 4> u(T(1)); u = s; for (size_t i = 0; i < 4; ++i) CHECK(bitsame(T(u[i]), i < N ? T(a[i]) : T(0)), "assigning a shorter vector extends it with zeros");
	REACH("resize");
}
template <typename T, typename U, size_t N> static void vecConvert() {
	auto a = nvec<U, N>("a");
	if constexpr (std::is_integral_v<T> && std::is_floating_point_v<U>) for (size_t i = 0; i < N; ++i) vh::assume(a[i] >= U(0) && a[i] <= U(100));
	fm::vec<T, N> c(a); for (size_t i = 0; i < N; ++i) CHECK(c[i] == static_cast<T>(a[i]), "components are converted one by one");
	fm::vec<T, N> d; d = a; for (size_t i = 0; i < N; ++i) CHECK(d[i] == static_cast<T>(a[i]), "assigned components are converted one by one");
	REACH("convert");
}
extern "C" void vec_construct() {
	switch (vh::choose("type", 12)) {
		case 0: vecConstruct<float, 2>(); vecResize<float, 2>(); break; case 1: vecConstruct<float, 3>(); vecResize<float, 3>(); break; case 2: vecConstruct<float, 4>(); break;
		case 3: vecConstruct<double, 3>(); vecResize<double, 3>(); break; case 4: vecConstruct<std::uint8_t, 4>(); vecResize<std::uint8_t, 3>(); break; case 5: vecConstruct<std::int16_t, 3>(); break;
		case 6: vecConstruct<std::uint32_t, 2>(); break; case 7: vecConstruct<std::int64_t, 4>(); break;
		case 8: vecConvert<float, double, 3>(); break; case 9: vecConvert<double, float, 4>(); break; case 10: vecConvert<float, std::uint16_t, 4>(); vecConvert<std::uint8_t, std::int32_t, 3>(); break;
		default: vecConvert<std::int32_t, float, 2>(); break;
	}
}
// every operator works component by component; compound forms change the object and return it
template <typename T, size_t N> static void vecArith() {
	using V = fm::vec<T, N>;
	auto a = nvec<T, N>("a"), b = nvec<T, N>("b"); T s = num<T>("s"); uint32_t op = vh::choose("op", 8);
	auto e = [&](const V& r, auto f) { for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(r[i]), (T)f(i)), "operators work component by component"); };
	auto both = [&](const V& r, V& obj, V& ret, auto f) { e(r, f); e(obj, f); CHECK(&obj == &ret, "compound operators return the object"); };
	if constexpr (std::is_integral_v<T>) {
		// values that neither overflow themselves nor when promoted to int
		if constexpr (std::is_signed_v<T>) { for (size_t i = 0; i < N; ++i) { a[i] = (std::int8_t)a[i]; b[i] = (std::int8_t)b[i]; } s = (std::int8_t)s; }
		if constexpr (std::is_same_v<T, std::uint16_t>) { for (size_t i = 0; i < N; ++i) { a[i] &= 0x7fff; b[i] &= 0x7fff; } s &= 0x7fff; }
		if (op == 6) for (size_t i = 0; i < N; ++i) vh::assume(b[i] != 0);
		if (op == 7) vh::assume(s != 0);
		if constexpr (std::is_same_v<T, std::int8_t>) for (size_t i = 0; i < N; ++i) vh::assume(a[i] != -128);
	}
	V c = a;
	switch (op) {
		case 0: both(a + b, c, c += b, [&](size_t i) { return a[i] + b[i]; }); break;
		case 1: both(a + s, c, c += s, [&](size_t i) { return a[i] + s; }); break;
		case 2: both(a - b, c, c -= b, [&](size_t i) { return a[i] - b[i]; }); break;
		case 3: both(a - s, c, c -= s, [&](size_t i) { return a[i] - s; }); break;
		case 4: both(a * b, c, c *= b, [&](size_t i) { return a[i] * b[i]; }); break;
		case 5: both(a * s, c, c *= s, [&](size_t i) { return a[i] * s; }); break;
		case 6: both(a / b, c, c /= b, [&](size_t i) { return a[i] / b[i]; }); break;
		default: both(a / s, c, c /= s, [&](size_t i) { return a[i] / s; }); break;
	}
	REACH("arith");
}
template <typename T, size_t N> static void vecUnary() {
	using V = fm::vec<T, N>;
	auto a = nvec<T, N>("a"), b = nvec<T, N>("b");
	if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) for (size_t i = 0; i < N; ++i) vh::assume(a[i] > -100 && a[i] < 100);
	bool all = true; for (size_t i = 0; i < N; ++i) all = all & (a[i] == b[i]);
	CHECK((a == b) == all, "vectors are equal when all components are"); CHECK((a != b) == !all, "!= is the opposite of ==");
	{ V r = -a; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(r[i]), (T)-a[i]), "negation works component by component"); }
	{ V r = +a; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(r[i]), (T)+a[i]), "unary plus keeps the components"); }
	{ V c = a; V r = c++; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(r[i]), T(a[i])) && bitsame(T(c[i]), (T)(a[i] + T(1))), "postfix increment returns the old value"); }
	{ V c = a; V r = c--; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(r[i]), T(a[i])) && bitsame(T(c[i]), (T)(a[i] - T(1))), "postfix decrement returns the old value"); }
	{ V c = a; ++c; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(c[i]), (T)(a[i] + T(1))), "prefix increment"); }
	{ V c = a; --c; for (size_t i = 0; i < N; ++i) CHECK(bitsame(T(c[i]), (T)(a[i] - T(1))), "prefix decrement"); }
	REACH("unary");
}
extern "C" void vec_arith() {
	bool un = vh::flip("unary");
	switch (vh::choose("type", 10)) {
		case 0: un ? vecUnary<float, 2>() : vecArith<float, 2>(); break; case 1: un ? vecUnary<float, 3>() : vecArith<float, 3>(); break; case 2: un ? vecUnary<float, 4>() : vecArith<float, 4>(); break;
		case 3: un ? vecUnary<double, 3>() : vecArith<double, 3>(); break; case 4: un ? vecUnary<std::uint8_t, 4>() : vecArith<std::uint8_t, 4>(); break; case 5: un ? vecUnary<std::int8_t, 3>() : vecArith<std::int8_t, 3>(); break;
		case 6: un ? vecUnary<std::uint16_t, 3>() : vecArith<std::uint16_t, 3>(); break; case 7: un ? vecUnary<std::uint32_t, 3>() : vecArith<std::uint32_t, 3>(); break; case 8: un ? vecUnary<std::int32_t, 2>() : vecArith<std::int32_t, 2>(); break;
		default: un ? vecUnary<std::uint64_t, 2>() : vecArith<std::uint64_t, 2>(); break;
	}
}
extern "C" void vec_clamp() {
	float x = vh::f32("x"), lo = vh::f32("lo"), hi = vh::f32("hi"); vh::assume(lo <= hi); vh::assume(x == x);
	float c = fm::clamp(x, lo, hi);
	CHECK(c >= lo && c <= hi, "a clamped value lies within the bounds");
	CHECK(x < lo || x > hi || c == x, "a value within the bounds is kept"); CHECK(!(x < lo) || c == lo, "a smaller value becomes the lower bound"); CHECK(!(x > hi) || c == hi, "a larger value becomes the upper bound");
	fm::fvec3 v(x, lo, hi), r = fm::clamp(v, lo, hi);
	CHECK(r[0] == c && r[1] == lo && r[2] == hi, "vectors are clamped component by component");
	std::int32_t ix = (std::int32_t)vh::u32("ix"), il = (std::int32_t)vh::u32("il"), ih = (std::int32_t)vh::u32("ih"); vh::assume(il <= ih);
	std::int32_t ic = fm::clamp(ix, il, ih); CHECK(ic == (ix < il ? il : ix > ih ? ih : ix), "integers are clamped");
	REACH("clamp");
}
// ---- vectors over the reals
template <typename T, size_t N> static void vecReal() {
	auto a = rvec<T, N>("a"), b = rvec<T, N>("b"); T t = real<T>("t");
	T s = 0, d = 0; for (size_t i = 0; i < N; ++i) { s = s + a[i]; d = d + a[i] * b[i]; }
	CHECK(eq(fm::sum(a), s), "sum adds every component"); CHECK(eq(fm::dot(a, b), d), "dot adds the products of the components");
	auto l = fm::lerp(a, b, t); for (size_t i = 0; i < N; ++i) CHECK(eq(l[i], (T(1) - t) * a[i] + t * b[i]), "lerp moves linearly from the first to the second vector");
	T q = 0; for (size_t i = 0; i < N; ++i) q = q + a[i] * a[i];
	T n = fm::length(a); CHECK(n >= 0 & eq(n * n, q), "length is the root of the sum of squares");
	bool nz = false; for (size_t i = 0; i < N; ++i) nz = nz | (a[i] != T(0));
	if (nz && q > T(1e-20)) {
		auto u = fm::normalize(a); T uu = 0; for (size_t i = 0; i < N; ++i) uu = uu + u[i] * u[i];
		CHECK(eq(uu, 1), "a normalized vector has length one"); for (size_t i = 0; i < N; ++i) CHECK(eq(u[i] * n, a[i]), "a normalized vector keeps its direction");
		REACH("normalized");
	}
	REACH("real");
}
extern "C" void vec_real() {
	switch (vh::choose("type", 5)) {
		case 0: vecReal<double, 2>(); break; case 1: vecReal<double, 3>(); break; case 2: vecReal<double, 4>(); break; case 3: vecReal<float, 3>(); break;
		default: {
			auto a = rvec<double, 3>("a"), b = rvec<double, 3>("b"); auto c = fm::cross(a, b);
			CHECK(eq(c[0], a[1] * b[2] - a[2] * b[1]) & eq(c[1], a[2] * b[0] - a[0] * b[2]) & eq(c[2], a[0] * b[1] - a[1] * b[0]), "cross product");
			double x = real<double>("x");
			CHECK(eq(fm::radians(x) * 180.0, x * 3.14159265358979323846), "180 degrees are pi radians"); CHECK(eq(fm::degrees(x) * 3.14159265358979323846, x * 180.0), "pi radians are 180 degrees");
			CHECK(eq(fm::lerp(x, a[0], b[0]), x + (a[0] - x) * b[0]), "lerp of numbers");
			REACH("cross");
		}
	}
}
// ---- matrices, bit precise: shape, storage order, conversions, comparison
template <typename T, size_t N, size_t M, size_t... I> static fm::mat<T, N, M> fromValues(const T* v, std::index_sequence<I...>) { return fm::mat<T, N, M>(v[I]...); }
template <typename T, size_t N, size_t M, size_t... I> static fm::mat<T, N, M> fromColumns(const fm::vec<T, N>* v, std::index_sequence<I...>) { return fm::mat<T, N, M>(v[I]...); }
template <typename T, size_t N, size_t M> static void matShape() {
	T v[16]; for (size_t i = 0; i < N * M; ++i) v[i] = num<T>(vh::nm("v", (unsigned)i).c_str());
	auto m = fromValues<T, N, M>(v, std::make_index_sequence<N * M>());
	CHECK(m.rows() == N && m.columns() == M && m.size() == N * M && m.size_bytes() == N * M * sizeof(T), "size of a matrix");
	for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) { CHECK(bitsame(T(m[c][r]), v[c * N + r]), "values fill a matrix column by column"); CHECK(bitsame(T(m.col(c)[r]), v[c * N + r]), "col returns a column"); CHECK(bitsame(T(m.row(r)[c]), v[c * N + r]), "row returns a row"); CHECK(bitsame(T(m.data()[c * N + r]), v[c * N + r]), "data is in column order"); }
	fm::vec<T, N> cols[M]; for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) cols[c][r] = v[c * N + r];
	auto k = fromColumns<T, N, M>(cols, std::make_index_sequence<M>());
	for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) CHECK(bitsame(T(k[c][r]), v[c * N + r]), "vectors are the columns of a matrix");
	fm::mat<T, N, M> id, sc(v[0]);
	for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) { CHECK(id[c][r] == (c == r ? T(1) : T(0)), "a default matrix is the identity"); CHECK(bitsame(T(sc[c][r]), c == r ? v[0] : T(0)), "a matrix made from one value has it on the diagonal"); }
	auto t = fm::transpose(m); static_assert(std::is_same_v<decltype(t), fm::mat<T, M, N>>);
	for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) CHECK(bitsame(T(t[r][c]), v[c * N + r]), "transpose exchanges rows and columns");
	T s = num<T>("s"); auto p = m * s, q = m / s, n = -m;
	for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) { CHECK(bitsame(T(p[c][r]), T(v[c * N + r] * s)), "a matrix times a number"); CHECK(bitsame(T(q[c][r]), T(v[c * N + r] / s)), "a matrix divided by a number"); CHECK(bitsame(T(n[c][r]), T(-v[c * N + r])), "a negated matrix"); }
	auto o = m; size_t where = vh::choose("where", N * M); T nv = num<T>("nv"); o[where / N][where % N] = nv;
	CHECK((m == o) == (v[where] == nv) && (m != o) == !(v[where] == nv), "matrices are equal when all values are");
	o = m; CHECK(o == m, "a copy is equal");
	REACH("shape");
}
template <size_t N, size_t M, size_t Q, size_t P> static void matResize() {
	fm::mat<float, Q, P> b; for (size_t c = 0; c < P; ++c) for (size_t r = 0; r < Q; ++r) b[c][r] = num<float>(vh::nm("b", (unsigned)(c * 4 + r)).c_str());
	fm::mat<float, N, M> m(b);
	for (size_t c = 0; c < M; ++c) for (size_t r = 0; r < N; ++r) {
		if (c < P && r < Q) CHECK(bitsame(float(m[c][r]), float(b[c][r])), "a resized matrix keeps the values");
		else CHECK(m[c][r] == (c == r ? 1.f : 0.f), "a larger matrix is completed with the identity");
	}
	REACH("resized");
}
extern "C" void mat_shape() {
	switch (vh::choose("shape", 14)) {
		case 0: matShape<float, 2, 2>(); break; case 1: matShape<float, 2, 3>(); break; case 2: matShape<float, 2, 4>(); break; case 3: matShape<float, 3, 2>(); break; case 4: matShape<float, 3, 3>(); break;
		case 5: matShape<float, 3, 4>(); break; case 6: matShape<float, 4, 2>(); break; case 7: matShape<float, 4, 3>(); break; case 8: matShape<float, 4, 4>(); break; case 9: matShape<double, 4, 4>(); break;
		case 10: matResize<3, 3, 4, 4>(); break; case 11: matResize<2, 2, 4, 4>(); matResize<2, 2, 3, 3>(); break; case 12: matResize<4, 4, 3, 3>(); break; default: matResize<4, 4, 2, 2>(); matResize<3, 3, 2, 2>(); break;
	}
}
// ---- matrices over the reals
template <size_t N, size_t M, size_t Q> static void matMul() {
	auto a = rmat<double, N, M>("a"); auto b = rmat<double, M, Q>("b"); auto v = rvec<double, M>("v");
	auto p = a * b; static_assert(std::is_same_v<decltype(p), fm::mat<double, N, Q>>);
	for (size_t c = 0; c < Q; ++c) for (size_t r = 0; r < N; ++r) { double x = 0; for (size_t k = 0; k < M; ++k) x = x + a[k][r] * b[c][k]; CHECK(eq(p[c][r], x), "a product's values are rows times columns"); }
	auto w = a * v; static_assert(std::is_same_v<std::decay_t<decltype(w)>, fm::vec<double, N>>);
	for (size_t r = 0; r < N; ++r) { double x = 0; for (size_t k = 0; k < M; ++k) x = x + a[k][r] * v[k]; CHECK(eq(w[r], x), "a matrix times a vector is its rows times the vector"); }
	REACH("product");
}
extern "C" void mat_mul() {
	switch (vh::choose("shape", 8)) {
		case 0: matMul<2, 2, 2>(); break; case 1: matMul<3, 3, 3>(); break; case 2: matMul<4, 4, 4>(); break; case 3: matMul<2, 3, 4>(); break;
		case 4: matMul<4, 2, 3>(); break; case 5: matMul<3, 4, 2>(); break; case 6: matMul<4, 3, 2>(); break; default: matMul<3, 2, 4>(); break;
	}
}
template <size_t N> static double leibniz(const fm::mat<double, N, N>& m) {
	size_t p[4] = {0, 1, 2, 3}; double d = 0; // sum over all permutations
	auto rec = [&](size_t k, double prod, int sign, auto& self) -> void {
		if (k == N) { d = sign > 0 ? d + prod : d - prod; return; }
		for (size_t i = k; i < N; ++i) { std::swap(p[k], p[i]); self(k + 1, k == 0 ? double(m[k][p[k]]) : prod * m[k][p[k]], i == k ? sign : -sign, self); std::swap(p[k], p[i]); }
	};
	rec(0, 1, 1, rec); return d;
}
template <size_t N> static void matDet() { auto m = rmat<double, N, N>("m"); CHECK(eq(fm::determinant(m), leibniz<N>(m)), "the determinant is the signed sum over all permutations"); REACH("det"); }
extern "C" void mat_det() { switch (vh::choose("n", 3)) { case 0: matDet<2>(); break; case 1: matDet<3>(); break; default: matDet<4>(); break; } }
template <size_t N> static void isIdentity(const fm::mat<double, N, N>& m) { for (size_t c = 0; c < N; ++c) for (size_t r = 0; r < N; ++r) CHECK(eq(m[c][r], c == r ? 1. : 0.), "a matrix times its inverse is the identity"); }
template <size_t N> static void matInv() {
	auto m = rmat<double, N, N>("m"); double d = leibniz<N>(m); vh::assume(d != 0);
	if (!fgse_symbolic()) vh::assume(std::abs(d) > 1e-7); // what rounding leaves of smaller ones says nothing
	auto i = fm::inverse(m); isIdentity<N>(m * i); isIdentity<N>(i * m); REACH("inverse");
}
extern "C" void mat_inv() { switch (vh::choose("n", 3)) { case 0: matInv<2>(); break; case 1: matInv<3>(); break; default: matInv<4>(); break; } }
extern "C" void mat_affine() {
	fm::dmat4x4 m; for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 3; ++r) m[c][r] = vh::f64(vh::nm("m", (unsigned)(c * 4 + r)).c_str());
	vh::assume(leibniz<3>(fm::dmat3x3(m)) != 0); auto i = fm::affineInverse(m); isIdentity<4>(m * i); isIdentity<4>(i * m); REACH("affine");
}
// ---- quaternions
[[maybe_unused]] static fm::dquat unit(const char* n) { auto q = rquat<double>(n); double s = 0; for (size_t i = 0; i < 4; ++i) s = s + q[i] * q[i]; vh::assume(eq(s, 1)); return q; }
extern "C" void quat_arith() {
	auto n4 = [](const char* n) { fm::fquat q; for (size_t i = 0; i < 4; ++i) q[i] = num<float>(vh::nm(n, (unsigned)i).c_str()); return q; };
	auto a = n4("a"), b = n4("b"); float s = num<float>("s");
	auto e = [&](const fm::fquat& r, auto f) { for (size_t i = 0; i < 4; ++i) CHECK(bitsame(float(r[i]), (float)f(i)), "quaternion operators work component by component"); };
	auto both = [&](const fm::fquat& r, fm::fquat& obj, fm::fquat& ret, auto f) { e(r, f); e(obj, f); CHECK(&obj == &ret, "compound operators return the object"); };
	fm::fquat id; CHECK(id.x() == 0 && id.y() == 0 && id.z() == 0 && id.w() == 1, "a default quaternion is the identity");
	fm::fquat k{float(a[0]), float(a[1]), float(a[2]), float(a[3])}; CHECK(bitsame(float(k.x()), float(a[0])) && bitsame(float(k.y()), float(a[1])) && bitsame(float(k.z()), float(a[2])) && bitsame(float(k.w()), float(a[3])), "components are given in the order x, y, z, w");
	float arr[4] = {a[0], a[1], a[2], a[3]}; e(fm::fquat::fromPointer(arr), [&](size_t i) { return a[i]; });
	auto c = a;
	switch (vh::choose("op", 6)) {
		case 0: both(a + b, c, c += b, [&](size_t i) { return a[i] + b[i]; }); break;
		case 1: both(a - b, c, c -= b, [&](size_t i) { return a[i] - b[i]; }); break;
		case 2: both(a * s, c, c *= s, [&](size_t i) { return a[i] * s; }); break;
		case 3: both(a / s, c, c /= s, [&](size_t i) { return a[i] / s; }); break;
		case 4: e(-a, [&](size_t i) { return -a[i]; }); e(+a, [&](size_t i) { return a[i]; }); break;
		default: { bool all = true; for (size_t i = 0; i < 4; ++i) all = all & (a[i] == b[i]); CHECK((a == b) == all && (a != b) == !all, "quaternions are equal when all components are"); }
	}
	REACH("quat");
}
extern "C" void quat_real() {
	if (vh::flip("normalize")) {
		auto a = rquat<double>("a"), b = rquat<double>("b"); double d = 0, q = 0; for (size_t i = 0; i < 4; ++i) { d = d + a[i] * b[i]; q = q + a[i] * a[i]; }
		CHECK(eq(fm::dot(a, b), d), "dot product of quaternions"); vh::assume(q > 1e-20);
		auto n = fm::normalize(a); double nn = 0, na = 0; for (size_t i = 0; i < 4; ++i) { nn = nn + n[i] * n[i]; na = na + n[i] * a[i]; }
		CHECK(eq(nn, 1), "a normalized quaternion has length one"); CHECK(na > 0 & eq(na * na, q), "a normalized quaternion keeps its direction");
		REACH("normalized"); return;
	}
	// R v = q v q*, written out with the Hamilton product
	auto q = unit("q"); auto v = rvec<double, 3>("v"); auto m = fm::asMatrix(q);
	double x = q.x(), y = q.y(), z = q.z(), w = q.w();
	double px = w * v[0] + y * v[2] - z * v[1], py = w * v[1] + z * v[0] - x * v[2], pz = w * v[2] + x * v[1] - y * v[0], pw = -x * v[0] - y * v[1] - z * v[2];
	double rx = -pw * x + px * w - py * z + pz * y, ry = -pw * y + py * w - pz * x + px * z, rz = -pw * z + pz * w - px * y + py * x;
	auto r = m * v; CHECK(eq(r[0], rx) & eq(r[1], ry) & eq(r[2], rz), "the matrix of a quaternion rotates as the quaternion does");
	auto h = rmat<double, 4, 4>("h"); auto hr = fm::rotate(h, q);
	for (size_t c = 0; c < 4; ++c) for (size_t k = 0; k < 4; ++k) { double e; if (c < 3) e = h[0][k] * m[c][0] + h[1][k] * m[c][1] + h[2][k] * m[c][2]; else e = h[3][k]; CHECK(eq(hr[c][k], e), "rotate applies the rotation before the matrix"); }
	REACH("rotation");
}
extern "C" void mat_xform() {
	auto m = rmat<double, 4, 4>("m"); auto v = rvec<double, 3>("v");
	auto t = fm::translate(m, v), s = fm::scale(m, v);
	for (size_t r = 0; r < 4; ++r) {
		for (size_t c = 0; c < 3; ++c) { CHECK(eq(t[c][r], m[c][r]), "translate keeps the axes"); CHECK(eq(s[c][r], m[c][r] * v[c]), "scale scales the axes"); }
		CHECK(eq(t[3][r], m[0][r] * v[0] + m[1][r] * v[1] + m[2][r] * v[2] + m[3][r]), "translate moves along the axes"); CHECK(eq(s[3][r], m[3][r]), "scale keeps the position");
	}
	REACH("xform");
}
// slerp: the trigonometric functions are characterised by their identities (acos inverts cos on [0, pi], sin^2 + cos^2 = 1)
#ifdef __clang__
static struct { double arg, c, s; } trig[16]; static unsigned ntrig;
static double fresh(const char* n) { return vh::f64(vh::nm(n, ntrig).c_str()); }
static unsigned lookup(double x) {
	if (x == 0.0) { trig[ntrig] = {x, 1.0, 0.0}; return ntrig++; }
	for (unsigned i = 0; i < ntrig; ++i) if (x == trig[i].arg) return i;
	double c = fresh("cos"), s = fresh("sin"); vh::assume(c * c + s * s == 1.0); vh::assume(!(x >= 0.0 && x <= 3.140625) || s >= 0.0);
	trig[ntrig] = {x, c, s}; return ntrig++;
}
extern "C" double acos(double d) noexcept { for (unsigned i = 0; i < ntrig; ++i) if (trig[i].c == d && trig[i].s >= 0.0) return trig[i].arg;
	double a = fresh("acos"), s = fresh("asin"); vh::assume(a >= 0.0 && a <= 3.141592653589793); vh::assume(s >= 0.0 && s * s == 1.0 - d * d); vh::assume(!(d < 1.0) || a > 0.0); vh::assume(!(d >= 0.0) || a <= 1.5707963267948966); trig[ntrig] = {a, d, s}; ntrig++; return a; }
extern "C" double cos(double x) noexcept { return trig[lookup(x)].c; }
extern "C" double sin(double x) noexcept { return trig[lookup(x)].s; }
#endif
extern "C" void quat_slerp() {
#ifdef __clang__
	ntrig = 0;
#endif
	// the first rotation is a coordinate axis (either sign), the second lies in the plane of it and another axis
	uint32_t i0 = vh::choose("first", 4), j0 = vh::choose("second", 3); if (j0 >= i0) ++j0;
	fm::dquat a(0., 0., 0., 0.), b(0., 0., 0., 0.); a[i0] = vh::flip("negative") ? -1. : 1.; b[i0] = vh::f64("bi"); b[j0] = vh::f64("bj");
	double t; uint32_t at = vh::choose("at", 3);
	if (at == 0) t = 0; else if (at == 1) t = 1; else { t = vh::f64("t"); vh::assume(t > 0 && t < 1); }
	double d = a[i0] * b[i0];
	vh::assume(d < 1 && d > -1);
	vh::assume(eq(b[i0] * b[i0] + b[j0] * b[j0], 1));
	auto r = fm::slerp(a, b, t);
	auto f = a; if (d < 0) { f = -a; d = -d; }
	double rr = 0; for (size_t i = 0; i < 4; ++i) rr = rr + r[i] * r[i];
	CHECK(eqf(rr, 1), "an interpolated rotation is a unit quaternion");
	if (d > 0.99) {
		// nearly the same rotation: a normalized point on the line between both will do
		double k = 0, l[4]; for (size_t i = 0; i < 4; ++i) { l[i] = (1 - t) * f[i] + t * b[i]; k = k + l[i] * l[i]; }
		vh::assume(k > 1e-6);
		bool lin = true; for (size_t i = 0; i < 4; ++i) lin = lin & eqf(r[i] * r[i] * k, l[i] * l[i]) & (r[i] * l[i] >= 0 || !fgse_symbolic());
		if (lin) { REACH("near"); return; }
	}
	double th0 = std::acos(d), th = t * th0, s = std::sin(th) / std::sin(th0), c = std::cos(th) - d * s;
	for (size_t i = 0; i < 4; ++i) CHECK(eqf(r[i], f[i] * c + b[i] * s), "interpolation turns in proportion from the first to the second rotation");
	if (at == 0) for (size_t i = 0; i < 4; ++i) CHECK(eqf(r[i], f[i]), "interpolation starts at the first rotation");
	if (at == 1) for (size_t i = 0; i < 4; ++i) CHECK(eqf(r[i], b[i]), "interpolation ends at the second rotation");
	REACH("far");
}

// ---- P24 decomposition: recomposing the parts yields the matrix again
// The rotation is one of those given by unit quaternions with rational components (k * (a, b, c, d) with k^2 (a^2 + b^2 + c^2 + d^2) = 1),
// the scale and the translation are any numbers.
static const int rationals[][5] = {{1, 0, 0, 0, 1}, {1, 1, 1, 1, 2}, {3, 4, 0, 0, 5}, {1, 2, 2, 0, 3}, {1, 2, 2, 4, 5}, {1, 1, 3, 5, 6}, {2, 3, 6, 0, 7}, {1, 4, 4, 4, 7}, {2, 4, 5, 6, 9}, {1, 4, 8, 0, 9}};
static void pickQuat(double* q, uint32_t from, uint32_t to) {
	uint32_t r = from + vh::choose("rotation", to - from); auto& t = rationals[r];
	static const unsigned perm[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
	uint32_t p = vh::choose("permutation", 24), sg = vh::choose("signs", 16);
	double k = vh::f64("k"); vh::assume(fgse_symbolic() ? k * t[4] == 1. : std::abs(k * t[4] - 1.) < 1e-9);
	for (unsigned i = 0; i < 4; ++i) {
		int v = t[perm[p][i]]; bool neg = (sg >> i) & 1;
		// every rotation once: equal values are not exchanged, zero has no sign, the first component other than zero is positive
		for (unsigned j = 0; j < i; ++j) if (t[perm[p][j]] == v) vh::assume(perm[p][j] < perm[p][i]);
		if (v == 0) vh::assume(!neg);
		bool first = v != 0; for (unsigned j = 0; j < i; ++j) first &= t[perm[p][j]] == 0; if (first) vh::assume(!neg);
		q[i] = (neg ? -v : v) * k;
	}
}
static void rotOf(const double* q, double R[3][3]) { // R[column][row]
	double x = q[0], y = q[1], z = q[2], w = q[3];
	R[0][0] = 1 - 2 * (y * y + z * z); R[0][1] = 2 * (x * y + w * z); R[0][2] = 2 * (x * z - w * y);
	R[1][0] = 2 * (x * y - w * z); R[1][1] = 1 - 2 * (x * x + z * z); R[1][2] = 2 * (y * z + w * x);
	R[2][0] = 2 * (x * z + w * y); R[2][1] = 2 * (y * z - w * x); R[2][2] = 1 - 2 * (x * x + y * y);
}
static void recompose(const fm::fmat4x4& m, const char* reach) {
	fm::fvec3 s, t; fm::fquat r; fm::decomposeTransformMatrix(m, s, r, t);
	double q[4] = {r.x(), r.y(), r.z(), r.w()}, R[3][3]; rotOf(q, R);
	double n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; CHECK(eqf(n, 1), "the rotation is a unit quaternion");
	for (size_t i = 0; i < 3; ++i) CHECK(eqf(t[i], m[3][i]), "the translation is the last column");
	for (size_t c = 0; c < 3; ++c) for (size_t i = 0; i < 3; ++i) CHECK(eqf(R[c][i] * s[c], m[c][i], std::abs(m[c][0]) + std::abs(m[c][1]) + std::abs(m[c][2])), "scale and rotation recompose the axes");
	REACH(reach);
}
static void decomposeWith(uint32_t from, uint32_t to) {
	double q[4], R[3][3]; pickQuat(q, from, to); rotOf(q, R);
	fm::fmat4x4 m; double s[3];
	for (size_t c = 0; c < 3; ++c) { s[c] = vh::f32(vh::nm("s", (unsigned)c).c_str()); vh::assume(s[c] != 0); if (!fgse_symbolic()) vh::assume(std::abs(s[c]) > 1e-15 && std::abs(s[c]) < 1e15); }
	for (size_t c = 0; c < 3; ++c) for (size_t i = 0; i < 3; ++i) m[c][i] = float(R[c][i] * s[c]);
	for (size_t i = 0; i < 3; ++i) m[3][i] = vh::f32(vh::nm("t", (unsigned)i).c_str());
	recompose(m, "recomposed");
}
extern "C" void decompose() { decomposeWith(0, 4); }
extern "C" void decompose_generic() { decomposeWith(4, (uint32_t)fgse_param("rotations", 5)); }
extern "C" void decompose_generic2() { decomposeWith((uint32_t)fgse_param("from", 5), (uint32_t)fgse_param("rotations", 6)); }
// one, two or three axes scaled by zero
extern "C" void decompose_flat() {
	double q[4], R[3][3]; pickQuat(q, 0, (uint32_t)fgse_param("rotations", 4)); rotOf(q, R);
	fm::fmat4x4 m; double s[3]; uint32_t zero = 1 + vh::choose("zero", 7);
	for (size_t c = 0; c < 3; ++c) { if ((zero >> c) & 1) { s[c] = 0; continue; } s[c] = vh::f32(vh::nm("s", (unsigned)c).c_str()); vh::assume(s[c] != 0); if (!fgse_symbolic()) vh::assume(std::abs(s[c]) > 1e-15 && std::abs(s[c]) < 1e15); }
	for (size_t c = 0; c < 3; ++c) for (size_t i = 0; i < 3; ++i) m[c][i] = float(R[c][i] * s[c]);
	for (size_t i = 0; i < 3; ++i) m[3][i] = vh::f32(vh::nm("t", (unsigned)i).c_str());
	recompose(m, "flat");
}

// Options::DecomposeNodeMatrices: the nodes of a file are decomposed the same way, and only then
extern "C" void node_decompose() {
	static const int rots[6][9] = {{1,0,0, 0,1,0, 0,0,1}, {0,1,0, -1,0,0, 0,0,1}, {-1,0,0, 0,-1,0, 0,0,1}, {0,0,1, 1,0,0, 0,1,0}, {0,1,0, 1,0,0, 0,0,-1}, {-1,0,0, 0,1,0, 0,0,1}};
	auto& R = rots[vh::choose("rotation", 6)]; bool opt = vh::flip("option"), second = vh::flip("second");
	static const double sc[3][3] = {{1, 1, 1}, {2, 0.5, 4}, {0.25, 3, 1}}; auto& S = sc[vh::choose("scale", 3)];
	vh::J j; fm::fmat4x4 m; j << "{" ASSET ",\"nodes\":["; if (second) j << "{\"translation\":[1.5,2,3]},"; j << "{\"matrix\":[";
	for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) {
		double v = c == 3 ? (r == 3 ? 1 : 0) : r == 3 ? 0 : R[c * 3 + r] * S[c];
		if (c == 3 && r < 3) v = vh::finite(vh::nm("t", (unsigned)r).c_str());
		m[c][r] = (float)v; if (c + r) j << ","; j.dnum(v);
	}
	j << "]}]}";
	auto a = vh::load(j, fg::Extensions::None, opt ? fg::Options::DecomposeNodeMatrices : fg::Options::None);
	CHECK(a.error() == fg::Error::None, "a node with a matrix is accepted"); if (a.error() != fg::Error::None) return;
	auto& n = a->nodes[second ? 1 : 0];
	if (second) { auto* t = std::get_if<fg::TRS>(&a->nodes[0].transform); CHECK(t && t->translation[0] == 1.5f, "a node with separate parts is kept"); }
	if (!opt) { auto* g = std::get_if<fm::fmat4x4>(&n.transform); CHECK(g != nullptr, "a matrix is kept without the option"); if (g) for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) CHECK((*g)[c][r] == m[c][r], "a matrix is read column by column"); REACH("kept"); return; }
	auto* t = std::get_if<fg::TRS>(&n.transform); CHECK(t != nullptr, "a matrix is decomposed with the option"); if (!t) return;
	double q[4] = {t->rotation.x(), t->rotation.y(), t->rotation.z(), t->rotation.w()}, Q[3][3]; rotOf(q, Q);
	for (size_t i = 0; i < 3; ++i) CHECK(t->translation[i] == m[3][i], "the translation is the last column");
	for (size_t c = 0; c < 3; ++c) for (size_t i = 0; i < 3; ++i) { double e = Q[c][i] * t->scale[c] - m[c][i]; CHECK(e < 1e-5 && e > -1e-5, "scale and rotation recompose the axes"); }
	REACH("decomposed");
}

// ---- P30 local and world transforms
static void localOf(const fg::Node& n, double L[4][4]) { // L[column][row]
	if (auto* m = std::get_if<fm::fmat4x4>(&n.transform)) { for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) L[c][r] = (*m)[c][r]; return; }
	auto& t = std::get<fg::TRS>(n.transform); double q[4] = {t.rotation.x(), t.rotation.y(), t.rotation.z(), t.rotation.w()}, R[3][3]; rotOf(q, R);
	for (size_t c = 0; c < 3; ++c) { for (size_t r = 0; r < 3; ++r) L[c][r] = R[c][r] * t.scale[c]; L[c][3] = 0; }
	for (size_t r = 0; r < 3; ++r) L[3][r] = t.translation[r]; L[3][3] = 1;
}
static void mul(const double A[4][4], const double B[4][4], double O[4][4]) { for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) { double x = 0; for (size_t k = 0; k < 4; ++k) x = x + A[k][r] * B[c][k]; O[c][r] = x; } }
static fm::fmat4x4 anyMat(const char* n) { fm::fmat4x4 m; for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) m[c][r] = vh::f32(vh::nm(n, (unsigned)(c * 4 + r)).c_str()); return m; }
static fg::TRS anyTrs(const char* n) {
	fg::TRS t; std::string p(n);
	for (size_t i = 0; i < 3; ++i) { t.translation[i] = vh::f32(vh::nm((p + "t").c_str(), (unsigned)i).c_str()); t.scale[i] = vh::f32(vh::nm((p + "s").c_str(), (unsigned)i).c_str()); }
	for (size_t i = 0; i < 4; ++i) t.rotation[i] = vh::f32(vh::nm((p + "r").c_str(), (unsigned)i).c_str()); return t;
}
extern "C" void node_local() {
	fg::Node n; bool trs = vh::flip("trs"); if (trs) n.transform = anyTrs("n"); else n.transform = anyMat("m");
	double L[4][4], W[4][4]; localOf(n, L);
	auto l = fg::getLocalTransformMatrix(n);
	for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) CHECK(eqf(l[c][r], L[c][r]), "the local transform is translation times rotation times scale, or the matrix itself");
	auto b = anyMat("b"); double B[4][4]; for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) B[c][r] = b[c][r];
	mul(B, L, W); auto w = fg::getTransformMatrix(n, b);
	for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) CHECK(eqf(w[c][r], W[c][r]), "a node's transform is the base times its local transform");
	auto u = fg::getTransformMatrix(n);
	for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) CHECK(eqf(u[c][r], L[c][r]), "without a base the transform is the local one");
	REACH("local");
}
// every forest of up to N nodes; scenes list any of the roots in any order
template <typename A> static void iterate(A&& asset, fg::Asset& own, size_t scene, const fm::fmat4x4& initial, const std::vector<size_t>& order, const std::vector<std::vector<size_t>>& path) {
	size_t k = 0; bool extra = false;
	fg::iterateSceneNodes(asset, scene, initial, [&](auto& node, const fm::fmat4x4& m) {
		if (k >= order.size()) { extra = true; return; }
		CHECK((const void*)&node == (const void*)&own.nodes[order[k]], "nodes are visited parent first, children in order");
		double W[4][4], L[4][4], O[4][4]; for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) W[c][r] = initial[c][r];
		for (size_t n : path[k]) { localOf(own.nodes[n], L); mul(W, L, O); std::memcpy(W, O, sizeof W); }
		for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) CHECK(eqf(m[c][r], W[c][r]), "a world transform is the product of the transforms from the root down");
		++k;
	});
	CHECK(!extra && k == order.size(), "every node of the scene is visited once per place in the tree");
}
extern "C" void scene_iterate() {
	size_t n = 1 + vh::choose("nodes", (uint32_t)fgse_param("nodes", 4)); fg::Asset asset; asset.nodes.resize(n);
	std::vector<std::vector<size_t>> kids(n); std::vector<size_t> roots; uint32_t kind = vh::choose("kind", 2);
	for (size_t i = 0; i < n; ++i) {
		// distinct concrete matrices with one symbolic value each keep the polynomials small
		if (((i + kind) & 1) == 0) { fg::TRS t; t.translation[i % 3] = vh::f32(vh::nm("t", (unsigned)i).c_str()); t.scale[(i + 1) % 3] = vh::f32(vh::nm("s", (unsigned)i).c_str()); t.rotation = fm::fquat(0.f, 1.f, 0.f, 0.f); asset.nodes[i].transform = t; }
		else { fm::fmat4x4 m; m[0][1] = vh::f32(vh::nm("m", (unsigned)i).c_str()); m[3][2] = vh::f32(vh::nm("p", (unsigned)i).c_str()); asset.nodes[i].transform = m; }
		uint32_t p = vh::choose(vh::nm("parent", (unsigned)i).c_str(), (uint32_t)i + 1); // i: a root
		if (p == i) roots.push_back(i); else kids[p].push_back(i);
	}
	bool rev = vh::flip("reverse");
	for (size_t i = 0; i < n; ++i) { if (rev) std::reverse(kids[i].begin(), kids[i].end()); for (auto k : kids[i]) asset.nodes[i].children.emplace_back(k); }
	if (rev) std::reverse(roots.begin(), roots.end());
	asset.scenes.resize(2); size_t drop = vh::choose("drop", (uint32_t)roots.size() + 1); // one of the roots is not part of the scene
	std::vector<size_t> order; std::vector<std::vector<size_t>> path;
	for (size_t r = 0; r < roots.size(); ++r) {
		if (r == drop) { asset.scenes[0].nodeIndices.emplace_back(roots[r]); continue; }
		asset.scenes[1].nodeIndices.emplace_back(roots[r]);
		auto rec = [&](size_t x, std::vector<size_t> above, auto& self) -> void { above.push_back(x); order.push_back(x); path.push_back(above); for (auto c : kids[x]) self(c, above, self); };
		rec(roots[r], {}, rec);
	}
	fm::fmat4x4 initial; initial[0][0] = vh::f32("i0"); initial[3][1] = vh::f32("i1"); initial[1][2] = vh::f32("i2");
	iterate(asset, asset, 1, initial, order, path);
	REACH("iterated"); if (order.size() > 2) REACH("deep");
}
