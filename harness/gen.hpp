// Generator of glTF documents: emits JSON text and, side by side, the asset the glTF specification says it denotes.
// One symbolic policy decides which optional fields are present, their order, which required field is missing
// or which value is replaced by a value of another JSON kind.
#pragma once
#include "gltf.hpp"
#include <functional>

namespace vh {
enum class Pol { None, All, AllInts, AllReversed, Only, AllBut, DropRequired, Mutate };
struct Gen {
	J j;
	std::vector<std::string>* fields = nullptr;
	Pol pol = Pol::All; unsigned sel = 0, nopt = 0, nreq = 0, nfld = 0, kind = 0;
	bool constNum = false; unsigned idxBits = 63;
	bool exporting = false; // only the selected field is symbolic: writing an asset branches on every value that may be a default
	bool constant() const { return small || (exporting && pol != Pol::Only); }
	bool dropped = false, mutated = false, ints = false, longNames = false, small = false;
	unsigned serial = 0;
	// policy: presence variants over n optional fields
	void presence(unsigned n) {
		unsigned c = choose("policy", 4 + 2 * n);
		if (c < 4) pol = (Pol)c; else { pol = c < 4 + n ? Pol::Only : Pol::AllBut; sel = c < 4 + n ? c - 4 : c - 4 - n; }
		ints = pol == Pol::AllInts; longNames = pol == Pol::AllReversed;
	}
	void dropRequired(unsigned n) { pol = Pol::DropRequired; sel = choose("missing", n); }
	void mutate(unsigned n, unsigned kinds = 9) { pol = Pol::Mutate; sel = choose("field", n); kind = choose("kind", kinds); if (fgse_param("kind", 99) != 99) assume(kind == fgse_param("kind", 99)); if (fgse_param("field", 999) != 999) assume(sel == fgse_param("field", 999)); }
	bool present(unsigned own, unsigned nested) const {
		switch (pol) {
			case Pol::None: return false;
			case Pol::Only: return sel >= own && sel <= own + nested;
			case Pol::AllBut: return sel != own;
			default: return true;
		}
	}
	// a value, or in its place one of another kind
	template <class F> void mutable_(F&& f) {
		if (pol != Pol::Mutate || nfld++ != sel) { f(); return; }
		static const char* const kinds[] = {"null", "true", "7", "-7", "1.5", "\"VEC3\"", "[]", "{}", "[{}]"};
		// the replaced value still counts the fields inside it
		std::string key2 = j.s; auto* sf = fields; std::vector<std::string> dummy; fields = &dummy; entered = 1; f(); entered = 2; fields = sf; j.s = key2;
		switch (kind) {
		case 9: { char c[3]; unsigned n = choose("length", 4); for (unsigned i = 0; i < n; ++i) { c[i] = (char)u8("char"); assume(c[i] >= 0x20 && c[i] < 0x7f && c[i] != '"' && c[i] != '\\'); } j.str(c, n); break; }
		case 10: j.num(u64("anyUnsigned")); break;
		case 11: j.inum((int64_t)(u64("anyNegative") | 1ull << 63)); break;
		case 12: j.dnum(finite64("anyNumber")); break;
		case 13: j.s += "[null,[],0]"; break;
		case 14: case 15: j.s += '['; for (int i = 0; i < 20; ++i) { if (i) j.s += ','; j.s += kind == 14 ? "0.5" : "1"; } j.s += ']'; break;
		case 16: j.s += "[1]"; break;
		default: j.s += kinds[kind];
		}
		mutated = true;
	}
	// must the replaced value be reported? (what the member is ignored for when it has another kind, is left out here)
	bool mustReport() const {
		if (!was || !mutated) return false;
		std::string_view w = was, k = wasKey; bool text = kind == 5 || kind == 9, whole = kind == 2 || kind == 10, number = whole || kind == 3 || kind == 4 || kind == 11 || kind == 12, array = kind == 6 || kind == 8 || kind >= 13;
		if (w == "index" || w == "enumInt") return !whole;
		if (w == "number") return !number;
		if (w == "bool") return kind != 1;
		if (w == "vector") return true;
		if (w == "array") return !array;
		if (w == "object") return kind != 7;
		if (w == "text") return !k.empty() && k.back() != ':' && !text; // names are optional and ignored
		if (w == "enum") return !text && k != "\"mimeType\":";
		return false;
	}
	template <class F> void field(const char* key, F&& f) {
		std::string save = std::move(j.s); j.s = "\""; j.s += key; j.s += "\":";
		mutable_(f);
		fields->push_back(std::move(j.s)); j.s = std::move(save);
	}
	template <class F> void obj(F&& f) { is("object");
		std::string save = std::move(j.s); j.s.clear(); auto* sf = fields; std::vector<std::string> mine; fields = &mine;
		f();
		fields = sf; j.s = std::move(save); j.s += '{';
		for (size_t i = 0; i < mine.size(); ++i) { if (i) j.s += ','; j.s += pol == Pol::AllReversed ? mine[mine.size() - 1 - i] : mine[i]; }
		j.s += '}';
	}
	template <class F> void arr(unsigned n, F&& f) { is("array"); j.s += '['; for (unsigned i = 0; i < n; ++i) { if (i) j.s += ','; if (i == 0 || i + 1 == n) mutable_([&] { f(i); }); else f(i); } j.s += ']'; }
	template <class F> void req(const char* key, F&& f) { if (pol == Pol::DropRequired && nreq++ == sel) { dropped = true; return; } field(key, f); }
	template <class F> bool opt(const char* key, F&& f) { unsigned own = nopt++; if (!present(own, 0)) return false; field(key, f); return true; }
	// an optional field whose value holds `nested` further optional fields
	template <class F> bool optN(const char* key, unsigned nested, F&& f) {
		unsigned own = nopt++;
		if (!present(own, nested)) { nopt = own + 1 + nested; return false; }
		field(key, f);
		if (pol < Pol::DropRequired) CHECK(nopt == own + 1 + nested, "(harness) number of nested optional fields"); else nopt = own + 1 + nested;
		return true;
	}
	// values
	// which kind of value was replaced, to know whether its replacement is one
	const char* was = nullptr; std::string wasKey; unsigned entered = 0;
	void is(const char* k) { if (entered == 1 && !was) { was = k; wasKey = j.s; } }
	size_t vidx() { is("index"); if (small) { j.lit(0); return 0; } if (constant()) { j.lit(++serial); return serial; } uint64_t v = fgse_sym("index", idxBits); j.num(v); return (size_t)v; }
	fg::num vnum() { is("number");
		if (small || constNum) { j.s += "0.5"; return 0.5f; }
		if (constant()) { double v = 0.0625 * (double)++serial; j.s += "0"; return (fg::num)v; }
		if (ints) { int32_t v = (int32_t)u32("integer"); j.inum(v); return (fg::num)(double)v; }
		double d = finite("number"); j.dnum(d); return (fg::num)d;
	}
	template <class V> void vvec(V& v, unsigned n) { is("vector"); arr(n, [&](unsigned i) { v[i] = vnum(); }); }
	template <class S> void vstr(S& s) { is("text");
		if (small) { j.s += "\"n\""; s = "n"; return; }
		if (constant()) { s = S(("n" + std::to_string(++serial)).c_str()); j.s += "\"n\""; return; }
		char c[24]; unsigned n = longNames ? 20 : 2; for (unsigned i = 0; i < n; ++i) c[i] = (char)('a' + i);
		for (unsigned i = 0; i < 2; ++i) { uint8_t x = u8("char"); assume(x >= 0x20 && x < 0x7f && x != '"' && x != '\\'); c[i] = (char)x; }
		s = S(); for (unsigned i = 0; i < n; ++i) s += c[i];
		j.str(c, n);
	}
	bool vbool() { is("bool"); bool v = pol == Pol::All || pol == Pol::AllInts || pol == Pol::Only; j.s += v ? "true" : "false"; return v; }
	struct E { const char* text; int value; };
	unsigned pick(unsigned n) { ++serial; if (pol == Pol::All && !small) return choose("enum", n); return (serial + sel) % n; }
	template <class T> void venum(T& t, std::initializer_list<E> es) { is("enum"); auto* e = es.begin() + pick((unsigned)es.size()); t = (T)e->value; j.s += '"'; j.s += e->text; j.s += '"'; }
	template <class T> void venumInt(T& t, std::initializer_list<int> es) { is("enumInt"); auto* e = es.begin() + pick((unsigned)es.size()); t = (T)*e; j.s += std::to_string(*e); }
	// fields
	void idx(const char* k, fg::Optional<size_t>& o) { opt(k, [&] { o = vidx(); }); }
	void ridx(const char* k, size_t& o) { req(k, [&] { o = vidx(); }); }
	void didx(const char* k, size_t& o, size_t dflt) { o = dflt; opt(k, [&] { o = vidx(); }); }
	void num(const char* k, fg::num& o, double dflt) { o = (fg::num)dflt; opt(k, [&] { o = vnum(); }); }
	void onum(const char* k, fg::Optional<fg::num>& o) { opt(k, [&] { o = vnum(); }); }
	void rnum(const char* k, fg::num& o) { req(k, [&] { o = vnum(); }); }
	template <class V> void vec(const char* k, V& v, unsigned n, std::initializer_list<float> dflt) { unsigned i = 0; for (float f : dflt) v[i++] = f; opt(k, [&] { vvec(v, n); }); }
	template <class S> void name(const char* k, S& s) { opt(k, [&] { vstr(s); }); }
	void boolean(const char* k, bool& o, bool dflt) { o = dflt; opt(k, [&] { o = vbool(); }); }
	template <class C> void idxList(C& c, unsigned n) { arr(n, [&](unsigned) { c.emplace_back(vidx()); }); }
	template <class C> void numList(C& c, unsigned n) { arr(n, [&](unsigned) { c.emplace_back(vnum()); }); }
	template <class C> void attributes(C& c, std::initializer_list<const char*> names) {
		if (pol == Pol::AllReversed) { std::vector<const char*> v(names); for (size_t i = v.size(); i-- > 0;) attr1(c, v[i]); obj2(c); }
		else { for (auto* n : names) attr1(c, n); obj2(c); }
	}
	template <class C> void attr1(C& c, const char* n) { fg::Attribute a; a.name = n; a.accessorIndex = 0; c.emplace_back(std::move(a)); }
	template <class C> void obj2(C& c) { is("object"); j.s += '{'; bool first = true; for (auto& a : c) { if (!first) j.s += ','; first = false; j.s += '"'; j.s += std::string(a.name); j.s += "\":"; mutable_([&] { a.accessorIndex = vidx(); }); } j.s += '}'; }
	void done(unsigned n) { CHECK(nopt == n, "(harness) number of optional fields"); }
};
}
