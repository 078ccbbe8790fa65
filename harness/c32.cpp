// The library as one build configuration makes it, against the oracle and against a second translation unit.
#include "ops.hpp"
#include "jamo.hpp"
#include "c32.hpp"
using namespace vf; using ref::Text;
static bool surrogate(int x) { return x >= 0xD800 && x < 0xE000; }
template <class S> static void text_in(Ctx& c, Rng& r, const char* n, S& s, const Text& t, const std::vector<Text>& nf, bool passes) {
  std::string at = c.config + ", " + n; c.count("texts");
  if (passes) {
    Text got = ops::codepoints(s); if (got != t) c.fail("codepoints", "%s: [%s] is read as [%s]", at.c_str(), show(t).c_str(), show(got).c_str());
    Text back; auto b = s.codepoint_cbegin(), it = s.codepoint_cend(); while (it != b && back.size() <= t.size()) { --it; back.push_back((int)*it); } std::reverse(back.begin(), back.end()); if (back != t) c.fail("backwards", "%s: [%s] is read backwards as [%s]", at.c_str(), show(t).c_str(), show(back).c_str());
    std::vector<int> seg = ref::db().segment(t); auto g = ops::graphemes(s); bool same = g.size() + 1 == seg.size(); for (size_t i = 0; same && i < g.size(); i++) same = g[i] == Text(t.begin() + seg[i], t.begin() + seg[i + 1]);
    if (!same) c.fail("graphemes", "%s: [%s] has %zu graphemes, expected %zu (or they differ)", at.c_str(), show(t).c_str(), g.size(), seg.size() - 1);
    if (!t.empty()) { size_t i = r.below(t.size()); auto p = s.codepoint_cbegin(); for (size_t k = 0; k < i; k++) ++p; u5e::basic_grapheme_iterator<S> q(s.codepoint_cbegin(), s.codepoint_cend(), p); size_t e = 0; while (e + 1 < seg.size() && seg[e + 1] <= (int)i) e++; auto gr = *q; Text w = ops::cps(gr.codepoint_begin(), gr.codepoint_end(), t.size() + 2); if (w != Text(t.begin() + seg[e], t.begin() + seg[e + 1])) c.fail("seek", "%s: seeking codepoint %zu of [%s] finds grapheme [%s]", at.c_str(), i, show(t).c_str(), show(w).c_str()); c.count("seeks"); }
  }
  for (int f = 0; f < 4; f++) { if (!passes && r.chance(1, 2)) continue; Text o; int k = -1; bool ok = r.chance(1, 2) ? ops::norm8(ops::FORMS[f], s, o, &k) : ops::norm32(ops::FORMS[f], s, o, &k); c.count("normalizations"); if (!ok || o != nf[f] || k != (int)nf[f].size()) c.fail("normalization", "%s: %s of [%s] is [%s] (%d), expected [%s]", at.c_str(), ops::form_name(ops::FORMS[f]), show(t).c_str(), show(o).c_str(), k, show(nf[f]).c_str()); }
}
static void one(Ctx& c, Rng& r, const Text& t, int storages) {
  std::string b = ref::encode(t); std::vector<Text> nf; for (int f = 0; f < 4; f++) nf.push_back(ref::db().normalize(t, ops::FORMS[f]));
  if (has_cjamo(t)) nf[3] = per_grapheme(t, 'C');   // the known finding of C13 is not this property's
  bool passes = true;
  each8(c, r, b, storages, [&](const char* n, auto& s) { text_in(c, r, n, s, t, nf, passes); }); each32(c, r, t, storages, [&](const char* n, auto& s) { text_in(c, r, n, s, t, nf, passes); });
  // written
  std::string buf(b.size() + 12, '#'); { u5e::utf8_iterator<char*> w(&buf[4]); for (int x : t) { *w = u5e::codepoint(x); ++w; } } if (buf != "####" + b + "########") c.fail("written", "%s: [%s] written is %s", c.config.c_str(), show(t).c_str(), hex_bytes(buf).c_str());
  u5e::utf32ne_string n32(to_i(t)); u5e::utf8_string a8("~"); a8.append_from_utf32ne<istring>(n32.codepoint_cbegin(), n32.codepoint_cend()); if (a8.native_string != "~" + b) c.fail("appended", "%s: [%s] appended is %s", c.config.c_str(), show(t).c_str(), hex_bytes(a8.native_string).c_str()); c.count("writes");
  std::string m = other::digest(b), w = other::expected(t, nf); c.count("second_unit"); if (m != w) c.fail("second-unit", "%s: the second translation unit gives %s for [%s], expected %s", c.config.c_str(), hex_bytes(m).c_str(), show(t).c_str(), hex_bytes(w).c_str());
  c.evaluations++; bool multi = false; for (int x : t) multi |= x >= 0x80; if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(c.config + ": " + show(t, 10)); }
}
static void bounds(Ctx& c, const std::string& s) {
  if (ops::bounds_open(s)) return; bool w = ops::bounds_ok(s); Exact<char> e(s.data(), s.size()); c.count(w ? "acceptable" : "unacceptable"); c.evaluations++;
  if (u5e::utf8_bounds<const char*>::check(e.p.get(), e.p.get() + e.n) != w) c.fail("bounds", "%s: check(%s) is %d", c.config.c_str(), hex_bytes(s).c_str(), !w);
  bool g = u5e::utf8_bounds<char*>::enforce(e.p.get(), e.p.get() + e.n); std::string after(e.p.get(), e.n); if (g != w || (w && after != s) || !ops::bounds_ok(after)) c.fail("enforce", "%s: enforce(%s) gives %d and %s", c.config.c_str(), hex_bytes(s).c_str(), g, hex_bytes(after).c_str());
  if (!w) return; u5e::utf8_string_view v(sview(e.p.get(), e.n)); Text a = ops::codepoints(v), b; { u5e::utf8_string q(s); auto x = q.codepoint_cend(), z = q.codepoint_cbegin(); while (x != z && b.size() <= s.size()) { --x; b.push_back((int)*x); } } std::reverse(b.begin(), b.end());
  if (a.size() > s.size()) c.fail("no-termination", "%s: %s has more codepoints than octets", c.config.c_str(), hex_bytes(s).c_str()); Text f; if (ref::decode(s, f) && (a != f || b != f)) c.fail("codepoints", "%s: %s read as [%s] and [%s]", c.config.c_str(), hex_bytes(s).c_str(), show(a).c_str(), show(b).c_str());
}
void run(Ctx& c) {
  c.count((std::string("configuration.") + c.config).c_str());
  const uint64_t block = 256, nb = 0x110000 / block; bool fast = c.config == "b-gcc-O3-17" || c.config == "b-clang-O3-20";
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    bool rich = i < 0x34 || (i >= 0xF9 && i < 0x100) || (i >= 0xA0 && i < 0xAD) || (i >= 0x110 && i < 0x120) || (i >= 0x1D0 && i < 0x1F8) || (i >= 0x2F8 && i < 0x2FB); uint64_t step = c.thorough ? 1 : fast ? 16 : 64;
    for (uint64_t k = 0; k < block; k++) { int cp = (int)(i * block + k); const ref::Db& d = ref::db(); c.count("lookups");
      if (ops::ccc(cp) != d.ccc(cp) || ops::gcb(cp) != d.gcb(cp)) c.fail("lookup", "%s: classes of %X are %d and %d", c.config.c_str(), (unsigned)cp, ops::ccc(cp), ops::gcb(cp));
      for (int q = 0; q < 2; q++) { const Text* w = d.mapping(cp, q); Text m = ops::mapping(q ? ops::kmap(cp) : ops::dmap(cp)); if (!ref::Db::is_hangul(cp) && m != (w ? *w : Text())) c.fail("lookup", "%s: decomposition of %X is [%s]", c.config.c_str(), (unsigned)cp, show(m).c_str()); }
      if (surrogate(cp)) continue; if (!(i % step == c.seed % step || (rich && (c.thorough || fast || cp % 4 == (int)(c.seed % 4))))) continue; c.count("codepoints_swept"); Text t{cp, gen::any_cp(r)}; if (r.chance(1, 2)) std::swap(t[0], t[1]); if (surrogate(t[0]) || surrogate(t[1])) continue; one(c, r, t, some_storage(r)); } });
  c.cases("pairs", 64, [&](Rng&, uint64_t i) { auto& p = gen::P().pairs; for (size_t k = i; k < p.size(); k += 64) { int a = p[k].first, b = p[k].second; for (int d = -2; d < 3; d++) { int v = -1; bool g = u5e::props::canonical_composition_mapping::resolve(a, b + d, &v); int w = ref::db().table_compose(a, b + d); c.count("pair_lookups"); if (g != (w >= 0) && !(g && ref::db().compose(a, b + d) == v)) c.fail("lookup", "%s: composing %X %X", c.config.c_str(), (unsigned)a, (unsigned)(b + d)); } } });
  c.cases("texts", c.amount(400, 8000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 200), ST_ALL); });
  c.cases("bounds", c.amount(40, 800), [&](Rng& r, uint64_t) { for (int k = 0; k < 250; k++) bounds(c, ops::octets(r, gen::length(r, 40))); });
  c.cases("odd-integers", c.amount(20, 400), [&](Rng& r, uint64_t) { for (int k = 0; k < 500; k++) { int x = (int)(r.next() >> r.below(33)); if (x >= 0 && x < 0x110000) x = ~x; if (ops::ccc(x) || ops::gcb(x) != ref::OTHER || ops::dmap(x) || ops::kmap(x)) c.fail("lookup", "%s: something is known about %X", c.config.c_str(), (unsigned)x);
      int y = (int)(r.next() >> r.range(33, 60)); std::string b; ref::encode1((uint32_t)y & 0x7FFFFFFF, b); char buf[16]; memset(buf, '#', 16); u5e::utf8_iterator<char*> w(buf); *w = u5e::codepoint(y); if (std::string(buf, 16) != b + std::string(16 - b.size(), '#')) c.fail("written", "%s: %X written is %s", c.config.c_str(), (unsigned)y, hex_bytes(std::string(buf, 16)).c_str()); u5e::utf8_iterator<char*> q(buf); if ((int)*q != y) c.fail("written", "%s: %X reads back as %X", c.config.c_str(), (unsigned)y, (unsigned)(int)*q); c.count("writes"); c.evaluations++; } });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { uint64_t m = c.thorough ? 2 : fast ? 6 : 24; if (mix(i) % m != c.seed % m) return; one(c, r, gen::shaped(r, i), some_storage(r)); });
  c.cases("long", c.amount(1, 8), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(2000, 8000)), some_storage(r)); });
}
