// The same text in every storage and encoding gives the same results; compared among themselves, no oracle.
#include "ops.hpp"
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
using namespace vf; using ref::Text;
struct Res { std::string from; Text cps; std::vector<Text> gr; Text nf[4]; int count[4]; std::vector<char> eq; };
template <class S> static Res results(Ctx& c, Rng& r, const char* n, S& s, bool into8) {
  Res x; x.from = std::string(n) + (into8 ? "->utf8" : "->utf32"); x.cps = ops::codepoints(s); x.gr = ops::graphemes(s);
  for (int i = 0; i < 4; i++) { if (into8) { if (!ops::norm8(ops::FORMS[i], s, x.nf[i], &x.count[i])) x.nf[i].push_back(-99); } else ops::norm32(ops::FORMS[i], s, x.nf[i], &x.count[i]); }
  c.count("configurations"); return x;
}
static std::string flat(const std::vector<Text>& g) { std::string o; for (auto& t : g) { o += "[" + show(t) + "]"; if (o.size() > 600) break; } return o; }
static void same(Ctx& c, const Res& a, const Res& b, const Text& t) {
  c.count("comparisons");
  if (a.cps != b.cps) c.fail("codepoints", "%s and %s: codepoints of [%s] are [%s] and [%s]", a.from.c_str(), b.from.c_str(), show(t).c_str(), show(a.cps).c_str(), show(b.cps).c_str());
  if (a.gr != b.gr) c.fail("graphemes", "%s and %s: graphemes of [%s] are %s and %s", a.from.c_str(), b.from.c_str(), show(t).c_str(), flat(a.gr).c_str(), flat(b.gr).c_str());
  for (int i = 0; i < 4; i++) { if (a.nf[i] != b.nf[i]) c.fail("normalization", "%s and %s: %s of [%s] is [%s] and [%s]", a.from.c_str(), b.from.c_str(), ops::form_name(ops::FORMS[i]), show(t).c_str(), show(a.nf[i]).c_str(), show(b.nf[i]).c_str());
    if (a.count[i] != b.count[i]) c.fail("count", "%s and %s: %s of [%s] reports %d and %d", a.from.c_str(), b.from.c_str(), ops::form_name(ops::FORMS[i]), show(t).c_str(), a.count[i], b.count[i]); }
}
static void one(Ctx& c, Rng& r, const Text& t, bool all) {
  std::vector<Res> v; std::string b = ref::encode(t); int dir = r.below(2);
  auto add = [&](const char* n, auto& s) { if (all || (dir ^= 1)) v.push_back(results(c, r, n, s, true)); if (all || !dir) v.push_back(results(c, r, n, s, false)); };
  each8(c, r, b, ST_ALL, add); each32(c, r, t, ST_ALL, add);
  // other surroundings of the same octets: continuations, leads, marks, joiners, jamo just outside
  static const int near[] = {0x301, 0x200D, 0x1161, 0x11A8, 0x1F1E6, 0x1F3FB, 0x3099, 0x600, 0x1100, '\n', 0x903, 0xAC00};
  for (int k = 0; k < 2; k++) {
    Text a{near[r.below(12)], near[r.below(12)]}, z{near[r.below(12)], near[r.below(12)]}; if (!t.empty() && r.chance(1, 3)) { z[0] = t.back(); a[1] = t[0]; }
    std::string w = ref::encode(a), tail = ref::encode(z); if (r.chance(1, 3)) { tail = std::string(8, (char)(0x80 + r.below(64))); w = std::string(8, (char)(0xC0 + r.below(0x3E))); }
    size_t at = w.size(); w += b + tail; u5e::utf8_string_view s8(sview(w.data() + at, b.size())); add("utf8 view among neighbours", s8);
    Text w32 = a; w32.insert(w32.end(), t.begin(), t.end()); w32.insert(w32.end(), z.begin(), z.end()); u5e::utf32ne_string_view s32(iview(w32.data() + a.size(), t.size())); add("utf32 view among neighbours", s32); c.count("neighbourhoods", 2);
  }
  for (size_t i = 1; i < v.size(); i++) same(c, v[0], v[i], t);
  c.evaluations++; bool multi = false; for (int x : t) if (x >= 0x80) multi = true; if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
// values no codepoint has: both encodings hold those of up to 31 bits, native UTF-32 any integer
static void beyond(Ctx& c, Rng& r, bool negative, Text t) {
  int n = r.range(1, 3); while (n--) { int b = r.range(11, 30); int v = r.chance(1, 3) ? 0x110000 + (int)r.below(0x200000) : (int)((1u << b) + r.below(1u << b)); if (r.chance(1, 3)) v = (int)((unsigned)gen::any_cp(r) | 1u << r.range(21, 30)); if (r.chance(1, 6)) v = 0xD800 + r.below(0x800); if (negative && r.chance(1, 2)) v = (int)((unsigned)v | 1u << 31); t.insert(t.begin() + r.below(t.size() + 1), v); }
  std::vector<Res> v; if (!negative) { std::string b = ref::encode(t); each8(c, r, b, ST_ALL, [&](const char* n, auto& s) { v.push_back(results(c, r, n, s, true)); v.push_back(results(c, r, n, s, false)); }); }
  each32(c, r, t, ST_ALL, [&](const char* n, auto& s) { if (!negative) v.push_back(results(c, r, n, s, true)); v.push_back(results(c, r, n, s, false)); });
  for (size_t i = 1; i < v.size(); i++) same(c, v[0], v[i], t);
  Text g; for (auto& x : v[0].gr) g.insert(g.end(), x.begin(), x.end()); c.count("beyond_unicode"); c.evaluations++;
  if (v[0].cps != t || g != t) c.fail("content", "%s: codepoints of [%s] come out as [%s], by grapheme [%s]", v[0].from.c_str(), show(t).c_str(), show(v[0].cps).c_str(), show(g).c_str());
  for (int i = 0; i < 4; i++) { Text a, b; for (int x : t) if (x < 0 || x > 0x10FFFF || (x >= 0xD800 && x < 0xE000)) a.push_back(x); for (int x : v[0].nf[i]) if (x < 0 || x > 0x10FFFF || (x >= 0xD800 && x < 0xE000)) b.push_back(x); if (a != b) c.fail("content", "%s: %s of [%s] is [%s]", v[0].from.c_str(), ops::form_name(ops::FORMS[i]), show(t).c_str(), show(v[0].nf[i]).c_str()); }
}
// the named types of graphemes and their iterators over every built-in text
template <class GI, class G, class S> static std::vector<Text> named(S s) { std::vector<Text> o; size_t cap = s.native_string.size() + 4; for (GI i = s.grapheme_begin(), e = s.grapheme_end(); i != e && o.size() < cap; i++) { G g = *i; o.push_back(ops::cps(g.codepoint_begin(), g.codepoint_end(), cap)); } return o; }
static void named_types(Ctx& c, const Text& t) {
  std::string b = ref::encode(t); istring n = to_i(t);
  auto a = named<u5e::utf8_string_grapheme_iterator, u5e::utf8_string_grapheme>(u5e::utf8_string(b)); auto v = named<u5e::utf8_string_view_grapheme_iterator, u5e::utf8_string_view_grapheme>(u5e::utf8_string_view(sview(b)));
  auto x = named<u5e::utf32ne_string_grapheme_iterator, u5e::utf32ne_string_grapheme>(u5e::utf32ne_string(n)); auto y = named<u5e::utf32ne_string_view_grapheme_iterator, u5e::utf32ne_string_view_grapheme>(u5e::utf32ne_string_view(iview(n))); c.count("named_types");
  if (a != x || a != v || x != y) c.fail("graphemes", "graphemes of [%s]: utf8 string %s, utf8 view %s, utf32 string %s, utf32 view %s", show(t).c_str(), flat(a).c_str(), flat(v).c_str(), flat(x).c_str(), flat(y).c_str());
}
// position comparisons do not depend on the encoding either
static void positions(Ctx& c, Rng& r, const Text& t) {
  u5e::utf8_string a(ref::encode(t)); u5e::utf32ne_string b(to_i(t)); std::vector<int> off = ref::offsets(t);
  typedef u5e::utf8_string_grapheme_iterator G8; typedef u5e::utf32ne_string_grapheme_iterator G32;
  for (int k = 0; k < 12; k++) { size_t x = r.below(t.size() + 1), y = r.chance(1, 2) ? std::min(t.size(), x + r.below(4)) : r.below(t.size() + 1);
    G8 g8(a.codepoint_cbegin(), a.codepoint_cend(), u5e::utf8_string::const_iterator(a.native_cbegin() + off[x])), h8(a.codepoint_cbegin(), a.codepoint_cend(), u5e::utf8_string::const_iterator(a.native_cbegin() + off[y]));
    G32 g32(b.codepoint_cbegin(), b.codepoint_cend(), b.native_cbegin() + x), h32(b.codepoint_cbegin(), b.codepoint_cend(), b.native_cbegin() + y); c.count("position_pairs");
    if ((g8 == h8) != (g32 == h32)) c.fail("positions", "grapheme positions %zu and %zu of [%s]: utf8 %d utf32 %d", x, y, show(t).c_str(), g8 == h8, g32 == h32);
    if (y >= x) { u5e::utf8_string o8; u5e::utf32ne_string o32; o8.append<std::string>(g8, h8); o32.append<istring>(g32, h32); Text q; if (!ref::decode(o8.native_string, q) || q != from_i(o32.native_string)) c.fail("append", "graphemes from position %zu to %zu of [%s] appended: utf8 [%s] utf32 [%s]", x, y, show(t).c_str(), show(q).c_str(), show(from_i(o32.native_string)).c_str()); } }
}
void run(Ctx& c) {
  bool s = c.sanitized(); const uint64_t block = 256, nb = 0x110000 / block; uint64_t step = c.thorough ? 1 : s ? 64 : 8;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) { bool rich = i < 0x34 || (i >= 0xF9 && i < 0x100) || (i >= 0xA0 && i < 0xAD) || (i >= 0x110 && i < 0x120) || (i >= 0x1D0 && i < 0x1EF);
    if (i % step != c.seed % step && !(rich && !s)) return;
    for (uint64_t k = 0; k < block; k++) { int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue; Text t{cp, gen::any_cp(r)}; if (r.chance(1, 2)) std::swap(t[0], t[1]); one(c, r, t, false); c.count("codepoints_swept"); } });
  c.cases("texts", c.amount(s ? 800 : 6000, s ? 15000 : 100000), [&](Rng& r, uint64_t) { Text t = gen::text(r, 500); one(c, r, t, true); positions(c, r, t); named_types(c, t); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), true); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), true); });
  c.cases("long", c.amount(8, 60), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(3000, 20000)), true); });
  c.cases("beyond-unicode", c.amount(s ? 1500 : 12000, s ? 20000 : 200000), [&](Rng& r, uint64_t i) { beyond(c, r, i % 3 == 0, gen::text(r, 12)); });
  c.cases("wide-lengths", gen::wide_shapes(), [&](Rng& r, uint64_t i) { uint64_t m = c.thorough ? 1 : s ? 12 : 2; if (mix(i) % m != c.seed % m) return; beyond(c, r, r.chance(1, 4), gen::wide_shaped(r, i)); });
  c.cases("empty", 4, [&](Rng& r, uint64_t) { one(c, r, Text(), true); });
}
