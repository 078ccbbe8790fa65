// The building blocks: classification and sizes of octets, sizes of integers, the two-codepoint boundary rule.
#include "ops.hpp"
#include <u5e/utf8_util.hpp>
#include <u5e/version.hpp>
using namespace vf; using ref::Text; typedef u5e::utf8_util U;
typedef u5e::basic_grapheme_iterator<u5e::utf32ne_string> GI;
// the rule itself where it can be asked, the segmentation of the two otherwise
template <class G> static auto rule(G& g, int a, int b, int) -> decltype(bool(g.is_grapheme_boundary(u5e::codepoint(a), u5e::codepoint(b)))) { return g.is_grapheme_boundary(u5e::codepoint(a), u5e::codepoint(b)); }
template <class G> static bool rule(G&, int a, int b, long) { u5e::utf32ne_string s(istring{a, b}); auto i = s.grapheme_begin(); auto g = *i; auto q = g.codepoint_begin(); return ++q == g.codepoint_end(); }
static void octet(Ctx& c, int x) {
  char o = (char)x; unsigned char u = (unsigned char)x; c.evaluations++; c.count("octets"); if (u >= 0x80) c.nontrivial(u);
  auto is = [&](const char* w, bool got, bool want) { if (got != want) c.fail("class", "%s(%02x) is %d", w, u, got); };
  is("is_7bit_character", U::is_7bit_character(o), u < 0x80); is("is_codepoint_continuation", U::is_codepoint_continuation(o), u >= 0x80 && u < 0xC0); is("is_codepoint_start", U::is_codepoint_start(o), u >= 0xC0);
  int n = u < 0xC0 ? 1 : u < 0xE0 ? 2 : u < 0xF0 ? 3 : u < 0xF8 ? 4 : u < 0xFC ? 5 : 6; if (U::codepoint_size(o) != n) c.fail("octet-size", "codepoint_size(%02x) is %d", u, U::codepoint_size(o));
}
static inline int want_size(uint32_t v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; }
static void integer(Ctx& c, uint32_t v) {
  int n = want_size(v), g = U::encoded_size((int)v); if (g != n) { c.fail("size", "encoded_size(%lld) is %d", (long long)(int)v, g); return; }
  if (v >= 0x80000000u) return;                          // nothing says what octets a negative one has
  u5e::utf8_string s; int x = (int)v;
  istring one(1, x); s.append_from_utf32ne<istring>(one.cbegin(), one.cend()); const std::string& b = s.native_string; c.count("encoded");
  if ((int)b.size() != n || U::codepoint_size(b[0]) != n) { c.fail("octets", "U+%X takes %zu octets, encoded_size is %d and its first octet announces %d", v, b.size(), n, b.empty() ? 0 : U::codepoint_size(b[0])); return; }
  for (int i = 0; i < n; i++) if (U::is_7bit_character(b[i]) != (n == 1) || U::is_codepoint_start(b[i]) != (n > 1 && !i) || U::is_codepoint_continuation(b[i]) != (i > 0)) { c.fail("octets", "octet %d of U+%X (%02x) is misclassified", i, v, (unsigned char)b[i]); return; }
}
static void pair(Ctx& c, GI& g, int a, int b) { c.count("pairs"); bool want = ref::db().boundary(a, b), got = rule(g, a, b, 0); if (got != want) c.fail("rule", "boundary between U+%X and U+%X: %d", a, b, got); if (!want) c.count("pairs_together"); }
static int anywhere(Rng& r) { switch (r.below(6)) { case 0: return (int)r.next(); case 1: return -gen::any_cp(r); case 2: return gen::any_cp(r) + 0x110000; default: return gen::any_cp(r); } }
void run(Ctx& c) {
  bool s = c.sanitized();
  c.cases("octets", 256, [&](Rng&, uint64_t i) { octet(c, (int)i); });
  c.cases("versions", 16, [&](Rng&, uint64_t) { namespace V = u5e::version; c.evaluations++; c.count("versions"); const int* a[] = {&V::run_time::major, &V::run_time::minor, &V::run_time::patch}; if (*a[0] != V::compile_time::major || *a[1] != V::compile_time::minor || *a[2] != V::compile_time::patch) c.fail("version", "the library says it is %d.%d.%d and its headers %d.%d.%d", *a[0], *a[1], *a[2], V::compile_time::major, V::compile_time::minor, V::compile_time::patch); });
  c.cases("sizes", 1 << 16, [&](Rng& r, uint64_t i) {     // 65,536 blocks of integers
    c.evaluations++; c.count("blocks"); c.nontrivial(i + 0x10000); uint32_t lo = (uint32_t)i << 16;
    if (c.thorough && !s) { for (uint32_t k = 0; k < 0x10000; k++) if (U::encoded_size((int)(lo + k)) != want_size(lo + k)) { c.fail("size", "encoded_size(%lld) is %d", (long long)(int)(lo + k), U::encoded_size((int)(lo + k))); return; } c.count("integers", 65536); }
    for (int k = 0; k < (s ? 8 : 40); k++) { integer(c, lo + (uint32_t)r.below(65536)); c.count("integers"); }
    integer(c, lo); integer(c, lo + 0xFFFF); });
  c.cases("unicode", 0x110000 >> 8, [&](Rng&, uint64_t i) { c.evaluations++; for (uint32_t v = (uint32_t)i << 8; v < ((uint32_t)i + 1) << 8; v++) integer(c, v); });
  c.cases("powers", 32, [&](Rng&, uint64_t i) { c.evaluations++; for (int d = -300; d <= 300; d++) integer(c, (uint32_t)(((uint64_t)1 << i) + d)); });
  // the rule: every codepoint that has a class next to one of each class, and anything next to anything
  u5e::utf32ne_string none; GI g = none.grapheme_begin();
  c.cases("class-neighbours", 0x110000 >> 10, [&](Rng& r, uint64_t i) { c.evaluations++; c.nontrivial(0x1000000 + i); if (s && !c.thorough && mix(i) % 8 != c.seed % 8) return; for (int v = (int)i << 10; v < ((int)i + 1) << 10; v++) { if (ref::db().gcb(v) == ref::OTHER && v % 16) continue; for (int k = 0; k < 40; k++) { int o = gen::by_break(r); pair(c, g, v, o); pair(c, g, o, v); } } });
  c.cases("any-pairs", c.amount(s ? 200 : 2000, 20000), [&](Rng& r, uint64_t) { c.evaluations++; for (int k = 0; k < 500; k++) pair(c, g, anywhere(r), anywhere(r)); });
}
