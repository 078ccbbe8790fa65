// Octets looked at, counted by the monitored storage, against a linear bound.
#include "ops.hpp"
using namespace vf; using ref::Text;
static const uint64_t PER = 100, FREE = 400;                 // accesses allowed: PER per octet covered, plus FREE
template <class S> struct Meter { Ctx& c; S& s; const char* n; const Text& t;
  // f may look at PER * covered + FREE elements, and ends by itself
  template <class F> bool operator()(const char* what, uint64_t covered, F f) {
    auto& m = s.native_string.ctl(); uint64_t before = m.reads, lim = PER * covered + FREE; m.budget = before + lim; bool ok = true;
    try { f(); } catch (mon::Budget&) { ok = false; c.fail("superlinear", "%s: %s covering %llu elements looked at more than %llu, text of %zu codepoints [%s]", n, what, (unsigned long long)covered, (unsigned long long)lim, t.size(), show(t, 16).c_str()); }
    m.budget = UINT64_MAX; c.count((std::string("reads.") + what).c_str(), m.reads - before); c.count((std::string("covered.") + what).c_str(), covered); c.evaluations++; return ok;
  } };
template <class S, class D> static void all(Ctx& c, Rng& r, const char* n, S& s, const Text& t, const std::vector<int>& off, const std::vector<int>& own, bool stays) {
  typedef typename S::const_iterator CI; typedef u5e::basic_grapheme_iterator<S> G; Meter<S> m{c, s, n, t}; uint64_t len = s.native_string.size(); size_t P = own.size(); long sink = 0; auto nb = s.native_cbegin();
  m("forward", len, [&] { for (CI it = s.codepoint_cbegin(); it != s.codepoint_cend(); ++it) sink += *it; });
  m("forward-post", len, [&] { CI e = s.codepoint_cend(); for (CI it = s.codepoint_cbegin(); it != e; it++) sink += *it; });
  m("backward", len, [&] { CI it = s.codepoint_cend(), b = s.codepoint_cbegin(); while (it != b) { --it; sink += *it; } });
  m("reverse-iterator", len, [&] { typename S::const_reverse_iterator b(s.codepoint_cend()), e(s.codepoint_cbegin()); for (; b != e; ++b) sink += (int)*b; });
  m("graphemes", len, [&] { for (G it = s.grapheme_begin(); it != s.grapheme_end(); ++it) sink++; });
  m("graphemes-to-codepoint-end", len, [&] { for (G it = s.grapheme_begin(); it != s.codepoint_cend(); it++) sink++; });
  m("graphemes-and-codepoints", len, [&] { for (G it = s.grapheme_begin(); it != s.grapheme_end(); ++it) { auto g = *it; for (CI p = g.codepoint_begin(); p != g.codepoint_end(); ++p) sink += *p; } });
  m("codepoint-filter", len, [&] { int o = 0; sink += u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), o, [](u5e::codepoint, int&) { return 1; }); });
  m("grapheme-filter", len, [&] { int o = 0; sink += u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, [](u5e::basic_grapheme<S>, int&) { return 1; }); });
  char f = r.pick(std::vector<char>(ops::FORMS, ops::FORMS + 4)); if (stays) m("normalization", len, [&] { u5e::utf32ne_string o; sink += ops::normalize(f, s, o); });
  std::vector<int> seg = ref::db().segment(t), gof(t.size() + 1); for (size_t g = 0; g + 1 < seg.size(); g++) for (int i = seg[g]; i < seg[g + 1]; i++) gof[i] = (int)g; gof[t.size()] = (int)seg.size() - 1;
  for (int k = 0; k < 30; k++) {
    size_t x = r.chance(1, 6) ? P - 1 : r.below(P), y = r.chance(1, 3) ? std::min(P - 1, x + r.below(8)) : r.below(P); CI a(nb + (long)x), b(nb + (long)y);
    m("comparison", 1, [&] { sink += a == b; sink += b != a; });
    if (x < P - 1) { m("step", 1, [&] { CI q = a; ++q; sink += *a; }); }
    if (own[x] > 0) m("step-back", 1, [&] { CI q = a; --q; });
    int g = gof[own[x]]; uint64_t cover = g + 1 < (int)seg.size() ? off[seg[g + 1]] - off[seg[g]] : 0;
    m("seek", cover, [&] { G q(s.codepoint_cbegin(), s.codepoint_cend(), a); sink += q == s.grapheme_end(); });
    { G p(s.codepoint_cbegin(), s.codepoint_cend(), a), q(s.codepoint_cbegin(), s.codepoint_cend(), b); int h = gof[own[y]]; uint64_t both = cover + (h + 1 < (int)seg.size() ? off[seg[h + 1]] - off[seg[h]] : 0);
      m("grapheme-comparison", both, [&] { sink += p == q; sink += q != p; }); m("grapheme-and-position", both, [&] { sink += p == b; sink += q != a; }); }
    if (own[x] > own[y]) std::swap(x, y); CI fr(nb + (long)x), to(nb + (long)y);
    m("append", y - x, [&] { D d; d.template append<decltype(s.native_string)>(fr, to); sink += d.native_string.size(); });
  }
  check_mon(c, s.native_string.ctl(), n, show(t, 16)); c.count("texts"); static volatile long keep; keep = sink;
}
static void one(Ctx& c, Rng& r, const Text& t, bool stays = true) {
  if (t.empty()) return; std::string b = ref::encode(t); std::vector<int> idx(t.size() + 1); for (size_t i = 0; i < idx.size(); i++) idx[i] = (int)i;
  { utf8_mon s{mon::str8(b)}; all<utf8_mon, u5e::utf8_string>(c, r, "utf8", s, t, ref::offsets(t), ref::octet_owner(t), stays); }
  { utf32ne_mon s{mon::str32(t)}; all<utf32ne_mon, u5e::utf32ne_string>(c, r, "utf32", s, t, idx, idx, stays); }
  c.count("codepoints", t.size()); c.nontrivial(hash_cps(t)); c.sample(show(t, 6) + " " + std::to_string(t.size()) + " codepoints");
}
static void bounds(Ctx& c, Rng& r, const std::string& b) {
  mon::str8 s(b); auto& m = s.ctl(); m.budget = 64; c.evaluations++; c.count("bounds_checks"); c.count("bounds_octets", b.size());
  try { u5e::utf8_bounds<mon::str8::iterator>::check(s.begin(), s.end()); } catch (mon::Budget&) { c.fail("bounds-unbounded", "the bounds check of %zu octets looked at more than 64: %s", b.size(), hex_bytes(b, 40).c_str()); }
  c.count("bounds_reads", m.reads); if (m.oob) c.fail("stray-access", "bounds check of %s", hex_bytes(b, 40).c_str());
}
void run(Ctx& c) {
  const int N = ref::NGCB;
  c.cases("one-class", N * 4, [&](Rng& r, uint64_t i) { int g = i % N; Text t; size_t n = r.range(3000, c.thorough ? 60000 : 12000); auto rep = [&] { return g == ref::OTHER ? 'a' + (int)r.below(26) : r.pick(gen::P().gcb[g]); }; if (i & 1) t.push_back('x'); int fixed = rep(); while (t.size() < n) t.push_back(i & 2 ? fixed : rep()); one(c, r, t); });
  c.cases("one-size", 16, [&](Rng& r, uint64_t i) { static const int rg[4][2] = {{0x20, 0x7E}, {0x80, 0x2FF}, {0x3400, 0xABFF}, {0x20000, 0x10FFFF}}; Text t; size_t n = r.range(3000, 20000); while (t.size() < n) t.push_back(r.range(rg[i % 4][0], rg[i % 4][1])); one(c, r, t); });
  c.cases("several-huge", 12, [&](Rng& r, uint64_t) { Text t; for (int k = r.range(2, 4); k--;) { t.push_back(r.chance(1, 2) ? 'a' : gen::norm_cp(r)); int m = gen::mark(r), n = r.range(1000, 20000); while (n--) t.push_back(r.chance(1, 40) ? gen::mark(r) : m); } one(c, r, t); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i)); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i)); });
  c.cases("long", c.amount(32, 400), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(5000, c.thorough ? 100000 : 25000))); });
  c.cases("texts", c.amount(1000, 20000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r)); });
  c.cases("bounds", c.amount(4000, 100000), [&](Rng& r, uint64_t i) {
    size_t n = i % 4 ? r.below(40) : r.range(100, 60000); std::string b; switch (r.below(4)) { case 0: b.assign(n, (char)0x80); break; case 1: b = std::string(n ? 1 : 0, 'a') + std::string(n, (char)(0x80 + r.below(64))); break; case 2: b = ops::octets(r, n); break; default: b = ref::encode(gen::text(r, n)); } bounds(c, r, b); });
}
