// C10..C13: one normalization form (FORM) against the standard's definition applied to the whole text.
#include "ops.hpp"
using namespace vf; using ref::Text;
static const char F = FORM;
#include "jamo.hpp"
static void judge(Ctx& c, const char* n, const char* out, const Text& t, const Text& want, const Text& got) {
  if (got == want) return;
  if (F == 'C' && has_cjamo(t) && got == per_grapheme(t, F)) { c.fail("nfkc-jamo-across-graphemes", "%s -> %s: NFKC of [%s] is [%s], expected [%s]", n, out, show(t).c_str(), show(got).c_str(), show(want).c_str()); c.total_fail--; return; }
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  size_t a = i > 12 ? i - 12 : 0; Text g(got.begin() + std::min(a, got.size()), got.end()), w(want.begin() + std::min(a, want.size()), want.end());
  c.fail("content", "%s -> %s: %s of [%s] differs at codepoint %zu: [%s] instead of [%s]", n, out, ops::form_name(F), show(t).c_str(), i, show(g, 30).c_str(), show(w, 30).c_str());
}
struct OnStr { Ctx& c; Rng& r; const Text& t; const Text& want; int outs;
  template <class S> void operator()(const char* n, S& s) const {
    Text got;
    if (outs & 1) { ops::norm32(F, s, got); judge(c, n, "utf32", t, want, got); c.count("normalizations"); }
    if (outs & 2) { if (!ops::norm8(F, s, got)) c.fail("malformed-output", "%s: %s of [%s] is not well-formed UTF-8", n, ops::form_name(F), show(t).c_str()); else judge(c, n, "utf8", t, want, got); c.count("normalizations"); }
  } };
static void one(Ctx& c, Rng& r, const Text& t, int which) {
  Text want = ref::db().normalize(t, F);
  OnStr f{c, r, t, want, which == ST_ALL ? 3 : 1 + (int)r.below(2)};
  if (which == ST_ALL || r.chance(1, 2)) each8(c, r, ref::encode(t), which, f);
  if (which == ST_ALL || r.chance(1, 2)) each32(c, r, t, which == ST_ALL ? ST_ALL : some_storage(r), f);
  c.evaluations++;
  if (want != t) { c.count("changed"); c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
static int mark_of(Rng& r, int lo, int hi) {           // a mark with lo <= class <= hi, 0 when there is none
  static std::vector<int> cl; if (cl.empty()) for (auto& k : gen::P().by_ccc) cl.push_back(k.first);
  std::vector<int> v; for (int x : cl) if (x >= lo && x <= hi) v.push_back(x);
  return v.empty() ? 0 : r.pick(gen::P().by_ccc.at(r.pick(v)));
}
void run(Ctx& c) {
  const gen::Pools& P = gen::P(); const ref::Db& d = ref::db(); bool s = c.sanitized();
  const uint64_t block = 256, nb = 0x110000 / block; uint64_t step = s && !c.thorough ? 16 : 1, off = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    if (i % step != off && i >= 0x33) return;
    for (uint64_t k = 0; k < block; k++) {
      int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue; bool rich = d.raw.count(cp) || d.ccc(cp) || d.gcb(cp);
      one(c, r, Text{cp}, some_storage(r)); c.count("codepoints_swept");
      if (rich) { one(c, r, Text{'a', cp, 'b'}, some_storage(r)); one(c, r, Text{cp, gen::mark(r)}, some_storage(r)); one(c, r, Text{'e', gen::mark(r), cp, gen::mark(r)}, some_storage(r)); one(c, r, Text{gen::norm_cp(r), cp, gen::norm_cp(r)}, some_storage(r)); }
    } });
  c.cases("hangul", 399, [&](Rng& r, uint64_t i) {
    int lv = 0xAC00 + 28 * (int)i, l = 0x1100 + (int)i / 21, v = 0x1161 + (int)i % 21;
    for (int t = 0; t < 28; t++) {
      if (s && !c.thorough && t % 4 != (int)(i % 4)) continue;
      Text j{l, v}; if (t) j.push_back(0x11A7 + t); int syl = lv + t;
      one(c, r, Text{syl}, some_storage(r)); one(c, r, j, some_storage(r)); c.count("hangul_syllables");
      if (t) one(c, r, Text{lv, 0x11A7 + t}, some_storage(r));
      one(c, r, Text{syl, 0x11A7 + r.range(0, 28)}, some_storage(r));                     // a second trailing consonant, or what is just outside the range
      Text m{syl, gen::mark(r), 0x11A7 + r.range(1, 27)}; one(c, r, m, some_storage(r));
      Text w{l, gen::mark(r), v}; if (t) w.push_back(0x11A7 + t); one(c, r, w, some_storage(r));
      Text x{gen::jamo(r), syl, gen::jamo(r), gen::jamo(r)}; one(c, r, x, some_storage(r));
    } });
  c.cases("jamo-edges", 30, [&](Rng& r, uint64_t i) { for (int k = 0; k < 60; k++) { static const int e[] = {0x10FF, 0x1100, 0x1112, 0x1113, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A6, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A3, 0xD7A4, 0xD7B0, 0xD7CB, 0xA960, 0x115F, 0x1173, 0x110B, 0xD789, 0xAC1D, 0x302E};
    one(c, r, Text{e[i], e[k % 30]}, some_storage(r)); one(c, r, Text{e[r.below(30)], e[i], e[k % 30]}, some_storage(r)); } });
  c.cases("letters-that-become-jamo", 60, [&](Rng& r, uint64_t i) { static std::vector<int> v; if (v.empty()) for (int x = 0; x < ref::NCP; x++) if (x != 0 && has_cjamo(Text{x})) v.push_back(x);
    if (i == 0) one(c, r, Text{0x3131, 0x314F}, ST_ALL); else for (int k = 0; k < 20; k++) { Text t; int n = r.range(1, 5); for (int q = 0; q < n; q++) t.push_back(r.chance(3, 4) ? r.pick(v) : gen::jamo(r)); one(c, r, t, some_storage(r)); } });
  // every composing pair, alone and with something in between
  c.cases("composing-pairs", P.pairs.size(), [&](Rng& r, uint64_t i) {
    int a = P.pairs[i].first, b = P.pairs[i].second, cl = d.ccc(b), m; c.count("pairs_swept");
    std::vector<Text> ts; ts.push_back({a, b}); ts.push_back({a, b, b}); ts.push_back({'a', a, b, 'b'});
    if ((m = mark_of(r, 1, cl - 1))) { ts.push_back({a, m, b}); ts.push_back({a, b, m}); ts.push_back({a, m, m, b}); }   // lower: does not block
    if ((m = mark_of(r, cl ? cl : 1, cl ? cl : 255))) { ts.push_back({a, m, b}); ts.push_back({a, b, m}); ts.push_back({a, m, b, b}); } // equal: blocks
    if ((m = mark_of(r, cl + 1, 255))) { ts.push_back({a, m, b}); ts.push_back({a, m, gen::mark(r), b}); }            // higher: moves behind (or blocks a starter)
    int se = r.pick(P.starters_ext); ts.push_back({a, se, b}); ts.push_back({a, gen::mark(r), se, b}); ts.push_back({a, se, gen::mark(r), b});
    ts.push_back({d.table_compose(a, b), b}); ts.push_back({d.table_compose(a, b), gen::mark(r), gen::mark(r)});
    Text f; d.decompose(d.table_compose(a, b), false, f); ts.push_back(f); Text g = f; for (size_t q = g.size() - 1; q > 1; q--) std::swap(g[q], g[1 + r.below(q)]); ts.push_back(g);
    g = f; g.insert(g.begin() + r.range(1, g.size()), gen::mark(r)); ts.push_back(g); g.push_back(r.pick(P.second)); ts.push_back(g); g.insert(g.begin(), r.pick(P.first)); ts.push_back(g);
    for (auto& t : ts) if (!s || c.thorough || r.chance(1, 3)) one(c, r, t, some_storage(r));
  });
  c.cases("starters-and-marks", c.amount(s ? 3000 : 30000, s ? 30000 : 400000), [&](Rng& r, uint64_t) {   // short runs over few marks: blocking, stability
    Text t; std::vector<int> al; int k = r.range(2, 5); auto p = P.pairs[r.below(P.pairs.size())];
    al.push_back(p.second); for (int q = 0; q < k; q++) al.push_back(r.chance(1, 4) ? r.pick(P.second) : r.chance(1, 6) ? r.pick(P.starters_ext) : gen::mark(r));
    t.push_back(r.chance(1, 8) ? gen::mark(r) : r.chance(1, 3) ? d.table_compose(p.first, p.second) : p.first); int n = r.range(1, 6); for (int q = 0; q < n; q++) t.push_back(r.pick(al));
    if (r.chance(1, 4)) { t.push_back(r.pick(P.first)); t.push_back(r.pick(al)); } one(c, r, t, some_storage(r)); });
  // every ordered pair of marks on a base
  { static std::vector<int> marks; if (marks.empty()) for (auto& k : P.by_ccc) if (k.first) marks.insert(marks.end(), k.second.begin(), k.second.end());
    c.cases("all-mark-pairs", marks.size(), [&](Rng& r, uint64_t i) { if (s && !c.thorough && mix(i) % 16 != c.seed % 16) return; Text t; int base = r.chance(1, 2) ? 'a' : r.pick(P.first); for (int m : marks) { t.push_back(base); t.push_back(marks[i]); t.push_back(m); } one(c, r, t, some_storage(r)); c.count("mark_pairs", marks.size()); }); }
  c.cases("same-class-runs", P.by_ccc.size() * 8, [&](Rng& r, uint64_t i) {   // equal class keeps its order whatever the length
    auto it = P.by_ccc.begin(); std::advance(it, i % P.by_ccc.size()); Text t; if (i & 1) t.push_back(r.pick(P.first)); int n = r.chance(1, 2) ? r.range(2, 12) : r.range(17, 90);
    for (int k = 0; k < n; k++) t.push_back(r.chance(1, 5) ? gen::mark(r) : r.pick(it->second)); one(c, r, t, ST_ALL); });
  c.cases("one-starter", c.amount(s ? 200 : 1500, 20000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 1200, 5), ST_ALL); });
  c.cases("texts", c.amount(s ? 1500 : 12000, s ? 30000 : 300000), [&](Rng& r, uint64_t i) { int k = i % 3 == 0 ? -1 : i % 3 == 1 ? 3 : 9; one(c, r, gen::text(r, 800, k), ST_ALL); });
  c.cases("compatibility", c.amount(s ? 400 : 4000, 40000), [&](Rng& r, uint64_t) { Text t; int n = r.range(1, 8); for (int k = 0; k < n; k++) t.push_back(r.chance(1, 2) ? r.pick(P.compat) : r.chance(1, 2) ? r.pick(P.ocomp) : gen::norm_cp(r)); one(c, r, t, some_storage(r)); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL); });
  c.cases("long", c.amount(8, 80), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(5000, 30000)), ST_ALL); });
  c.cases("empty", 2, [&](Rng& r, uint64_t) { one(c, r, Text(), ST_ALL); });
}
