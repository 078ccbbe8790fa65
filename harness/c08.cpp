#include "ops.hpp"
using namespace vf; using ref::Text;
struct OnStr { Ctx& c; const Text& t; const std::vector<int>& seg;
  template <class S> void operator()(const char* n, S& s) const {
    typedef u5e::basic_grapheme_iterator<S> G; typedef typename S::const_iterator CI;
    G it = s.grapheme_begin(), e = s.grapheme_end(); size_t k = 0, i = 0, ng = seg.size() - 1;
    CI at = s.codepoint_cbegin();
    for (; it != e; k++) {
      if (k >= ng) { c.fail("too-many", "%s: more than the %zu graphemes of [%s]", n, ng, show(t).c_str()); return; }
      auto g = *it; CI b = g.codepoint_begin(), z = g.codepoint_end();
      if (!(b == at)) { c.fail("gap", "%s: grapheme %zu of [%s] does not start where the previous one ended", n, k, show(t).c_str()); return; }
      size_t m = 0; Text got; for (CI p = b; p != z; ++p) { if (i + m >= t.size()) { c.fail("overrun", "%s: grapheme %zu of [%s] runs past the end", n, k, show(t).c_str()); return; } got.push_back((int)*p); m++; }
      Text want(t.begin() + seg[k], t.begin() + seg[k + 1]);
      if (got != want) { c.fail(got.empty() ? "empty-grapheme" : "boundary", "%s: grapheme %zu of [%s] is [%s], expected [%s]", n, k, show(t).c_str(), show(got).c_str(), show(want).c_str()); return; }
      i += m; at = z; c.count("graphemes"); if (m > 1) c.count("clusters");
      if (k & 1) { auto old = it++; auto og = *old; if (!(og.codepoint_begin() == b) || !(og.codepoint_end() == z)) { c.fail("post-increment", "%s: it++ does not return the old grapheme in [%s]", n, show(t).c_str()); return; } } else ++it;
    }
    if (k != ng || i != t.size()) { c.fail("too-few", "%s: %zu of %zu graphemes of [%s] visited", n, k, ng, show(t).c_str()); return; }
    // ending on the codepoint end
    size_t q = 0; for (G j = s.grapheme_begin(); j != s.codepoint_cend(); j++) if (++q > ng) break;
    if (q != ng) c.fail("codepoint-end", "%s: iterating [%s] until the codepoint end visits %zu of %zu graphemes", n, show(t).c_str(), q, ng);
    G own(s.codepoint_cbegin(), s.codepoint_cend()); if (ng && ((*own).codepoint_end() != (*s.grapheme_begin()).codepoint_end())) c.fail("constructor", "%s: first grapheme of [%s]", n, show(t).c_str());
  } };
static void one(Ctx& c, Rng& r, const Text& t, int which) {
  std::vector<int> seg = ref::db().segment(t); if (t.empty()) seg.assign(1, 0);
  OnStr f{c, t, seg}; each8(c, r, ref::encode(t), which, f);
  if (which == ST_ALL) each32(c, r, t, which, f); else each32(c, r, t, some_storage(r), f);
  c.evaluations++; if (seg.size() >= 2 && seg.size() - 1 < t.size()) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
static int rep(Rng& r, int g) { if (g == ref::OTHER) { static const int o[] = {'a', 0x20, 0x4E00, 0x1F600, 0xE000, 0x378, 0x10FFFF, 0, 0xE9}; return o[r.below(9)]; } return r.pick(gen::P().gcb[g]); }
void run(Ctx& c) {
  const int N = ref::NGCB; bool s = c.sanitized();
  c.cases("class-pairs", N * N, [&](Rng& r, uint64_t i) { int n = s ? 12 : 80; for (int k = 0; k < n; k++) { Text t{rep(r, i % N), rep(r, i / N)}; if (k & 1) t.insert(t.begin(), 'x'); one(c, r, t, some_storage(r)); c.count("class_pairs"); } });
  c.cases("class-triples", N * N * N, [&](Rng& r, uint64_t i) { if (s && !c.thorough && i % 4 != c.seed % 4) return; for (int k = 0; k < (s ? 1 : 3); k++) one(c, r, Text{rep(r, i % N), rep(r, i / N % N), rep(r, i / N / N)}, some_storage(r)); });
  const uint64_t block = 256, nb = 0x110000 / block; uint64_t step = s && !c.thorough ? 32 : 1, off = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {     // each codepoint on both sides of discriminating neighbours
    if (i % step != off) return; static const int nbr[] = {0x301, 0x1100, 0x1161, 0x11A8, 0x1F1E6, 0x1F3FB, 0x200D, 0x600, 'a', 0x1F466, 0x2764, '\n', 0x903, 0xAC00, 0xAC01, 0x261D};
    for (uint64_t k = 0; k < block; k++) { int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue; Text t{nbr[r.below(16)], cp, nbr[r.below(16)]};
      if (ref::db().gcb(cp) || i < 0x300) { for (int q = 0; q < 4; q++) { t[0] = nbr[r.below(16)]; t[2] = nbr[r.below(16)]; one(c, r, t, some_storage(r)); } } else one(c, r, t, some_storage(r)); c.count("codepoints_swept"); } });
  // every ordered pair of codepoints that have a break class (of Hangul syllables and of others a sample), and of neighbours in the table
  if (!s) { static std::vector<int> v; for (int x = 0; x < ref::NCP; x++) { int g = ref::db().gcb(x); bool syl = g == ref::LV || g == ref::LVT; if ((x >= 0xD800 && x < 0xE000) || (g == ref::OTHER && mix(x) % 4000) || (syl && mix(x) % 64) || (x >= 0xE0080 && x < 0xE1000 && mix(x) % 64)) continue; v.push_back(x); }
    auto passes = [&](const Text& t, int a) { std::vector<int> seg = ref::db().segment(t); c.count("codepoint_pairs", t.size() - 1); size_t i = 0, k = 0; Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view w(iview(e.p.get(), e.n)); auto it = w.grapheme_begin(), z = w.grapheme_end();
      for (; it != z; ++it, k++) { auto g = *it; for (auto p = g.codepoint_begin(); p != g.codepoint_end(); ++p) i++; if (k + 1 >= seg.size() || (int)i != seg[k + 1]) { size_t q = k + 1 < seg.size() ? std::min<size_t>(seg[k + 1], i) : i; c.fail("pair", "after codepoint %zu of [%s]: the boundaries between %X and its neighbours are not where they belong", q, show(Text(t.begin() + (q > 2 ? q - 2 : 0), t.begin() + std::min(t.size(), q + 3))).c_str(), (unsigned)a); return; } } if (k + 1 != seg.size()) c.fail("pair", "some boundaries next to %X are missing", (unsigned)a); };
    c.cases("all-pairs", v.size(), [&](Rng& r, uint64_t i) { Text t; t.reserve(2 * v.size()); for (size_t k = 0; k < v.size(); k++) { t.push_back(v[i]); t.push_back(v[k]); } passes(t, v[i]); c.evaluations++; c.nontrivial(mix(0xA11ull << 32 | i)); });
    c.cases("neighbouring-pairs", v.size(), [&](Rng& r, uint64_t i) { Text t; for (int k = -160; k <= 160; k++) { int x = v[i] + k; if (x < 0 || x >= ref::NCP) continue; t.push_back(x); t.push_back(v[i]); } passes(t, v[i]); c.evaluations++; }); }
  c.cases("texts", c.amount(s ? 4000 : 20000, s ? 60000 : 400000), [&](Rng& r, uint64_t i) { one(c, r, gen::text(r, 2000, i % 2 ? 1 : -1), ST_ALL); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL); });
  c.cases("long", c.amount(16, 100), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(10000, 60000)), ST_ALL); });
  c.cases("empty", 2, [&](Rng& r, uint64_t) { one(c, r, Text(), ST_ALL); });
}
