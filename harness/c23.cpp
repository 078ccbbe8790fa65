// The steps of normalization, called directly.
#include "ops.hpp"
using namespace vf; using ref::Text;
template <class S> static void compose_in(Ctx& c, Rng& r, const char* n, S& s, const Text& t, const Text& want, bool ordered) {
  static const int starts[] = {0, 1, 7, -3, 1000000, -2000000000}; int start = starts[r.below(6)], count = start; size_t size = s.native_string.size();
  typename S::iterator e = u5e::canonical_composition(s, &count);
  c.count("compositions"); long kept = 0; { typename S::iterator b = s.codepoint_begin(); kept = (long)(e - b); }
  if (s.native_string.size() != size) { c.fail("size", "%s: the string holding [%s] changed its size", n, show(t).c_str()); return; }
  if (kept < 0 || kept > (long)size) { c.fail("position", "%s: composing [%s] returned position %ld of %zu", n, show(t).c_str(), kept, size); return; }
  if (count - start != (int)size - kept) c.fail("counter", "%s: composing [%s] removed %ld codepoints but added %d to %d", n, show(t).c_str(), (long)size - kept, count - start, start);
  if (!ordered) return;
  Text all = from_i(s.native_string), got(all.begin(), all.begin() + kept);
  if (got != want) c.fail("composed", "%s: composing [%s] leaves [%s] instead of [%s]", n, show(t).c_str(), show(got).c_str(), show(want).c_str());
  if (kept != (long)size) c.count("compositions_that_removed");
}
static void composing(Ctx& c, Rng& r, Text t, bool ordered = true) {
  const ref::Db& d = ref::db(); if (ordered) d.order(t); Text want = d.composed(t);
  { u5e::utf32ne_string s(to_i(t)); compose_in(c, r, "utf32ne_string", s, t, want, ordered); }
  if (r.chance(1, 2)) { utf32ne_mon s{mon::str32(t)}; auto& k = s.native_string.ctl(); k.hostile = r.chance(1, 2) ? gen::mark(r) : gen::norm_cp(r); k.budget = 10000 + 200ull * t.size();
    try { compose_in(c, r, "utf32ne_monitored", s, t, want, ordered); } catch (mon::Budget&) { c.fail("no-termination", "composing [%s] never ends", show(t).c_str()); } check_mon(c, k, "composition", show(t)); }
  if (r.chance(1, 4)) { // a string whose storage grew and shrank: codepoints lie beyond its end
    u5e::utf32ne_string s(to_i(t)); Text x = gen::text(r, 8); istring y = to_i(x); s.native_string.append(y); s.native_string.resize(t.size()); compose_in(c, r, "utf32ne_string(shrunk)", s, t, want, ordered); }
  c.evaluations++; if (ordered && want != t) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12) + " -> " + show(want, 12)); }
}
static bool less(int a, int b) { return u5e::canonical_combining_order(a, b); }
static int odd(Rng& r) { switch (r.below(6)) { case 0: return (int)r.next(); case 1: return -r.range(1, 300); case 2: return 0x110000 + r.below(4000); case 3: return 0xD800 + r.below(0x800); case 4: return 0x7FFFFFFF - r.below(9); default: return (int)0x80000000 + (int)r.below(9); } }
static int somecp(Rng& r) { switch (r.below(5)) { case 0: return odd(r); case 1: return gen::any_cp(r); case 2: return gen::norm_cp(r); default: return gen::mark(r); } }
static void ordering(Ctx& c, int a, int b) {
  const ref::Db& d = ref::db(); bool x = less(a, b), y = less(b, a); c.count("orderings");
  if (x != (d.ccc(a) < d.ccc(b)) || y != (d.ccc(b) < d.ccc(a))) c.fail("order-classes", "ordering of %X (class %d) and %X (class %d): %d, reversed %d", (unsigned)a, d.ccc(a), (unsigned)b, d.ccc(b), x, y);
  if (x && y) c.fail("order-asymmetry", "%X and %X come before each other", (unsigned)a, (unsigned)b);
  if (less(a, a)) c.fail("order-irreflexive", "%X comes before itself", (unsigned)a);
  if (x) c.count("orderings_strict");
}
template <class O> static Text contents(O& o, bool& ok);
template <> Text contents(u5e::utf32ne_string& o, bool& ok) { ok = true; return from_i(o.native_string); }
template <> Text contents(utf32ne_mon& o, bool& ok) { ok = true; return from_i(o.native_string); }
template <class O> static void into(Ctx& c, const char* n, int cp, bool k, O& o, const Text& prefix) {
  int ret = k ? u5e::compatibility_and_canonical_decomposition<O>(u5e::codepoint(cp), o) : u5e::canonical_decomposition<O>(u5e::codepoint(cp), o);
  Text want = prefix; ref::db().decompose(cp, k, want); bool ok; Text got = contents(o, ok); c.count("decompositions");
  if (!ok || got != want) c.fail("decomposition", "%s: %s decomposition of %X after [%s] gives [%s] instead of [%s]", n, k ? "compatibility" : "canonical", (unsigned)cp, show(prefix).c_str(), ok ? show(got).c_str() : "malformed", show(want).c_str());
  if (ret != (int)(want.size() - prefix.size())) c.fail("decomposition-count", "%s: %s decomposition of %X reports %d, the mapping has %d", n, k ? "compatibility" : "canonical", (unsigned)cp, ret, (int)(want.size() - prefix.size()));
  if (want.size() != prefix.size() + 1 || want.back() != cp) c.count("decompositions_mapped");
}
static void decomposing(Ctx& c, Rng& r, int cp) {
  for (int k = 0; k < 2; k++) {
    Text p = r.chance(1, 2) ? Text() : gen::text(r, 5);
    { u5e::utf32ne_string o(to_i(p)); into(c, "utf32ne_string", cp, k, o, p); }
    if (r.chance(1, 8)) { utf32ne_mon o{mon::str32(p)}; into(c, "utf32ne_monitored", cp, k, o, p); }
  }
  c.evaluations++;
}
void run(Ctx& c) {
  const gen::Pools& P = gen::P(); const ref::Db& d = ref::db(); bool s = c.sanitized(); std::vector<std::pair<int, int>> pv(P.pairs.begin(), P.pairs.end());
  const uint64_t block = 256; uint64_t step = s && !c.thorough ? 16 : 1, off = c.seed % step;
  c.cases("every-codepoint", 0x110000 / block, [&](Rng& r, uint64_t i) { if (i % step != off && i >= 0x33) return;
    for (uint64_t k = 0; k < block; k++) { int cp = (int)(i * block + k); c.count("codepoints_swept"); ordering(c, cp, gen::mark(r)); ordering(c, somecp(r), cp); if (cp >= 0xD800 && cp < 0xE000) continue; decomposing(c, r, cp); composing(c, r, Text{cp}); composing(c, r, Text{gen::norm_cp(r), cp, gen::mark(r)}); } });
  c.cases("odd-integers", c.amount(4000, 40000), [&](Rng& r, uint64_t) { int a = odd(r); ordering(c, a, somecp(r)); ordering(c, somecp(r), a); if (a < 0 || a >= 0x110000) { utf32ne_mon o{mon::str32(Text{1})}; u5e::utf32ne_string q; into(c, "utf32ne_string", a, r.chance(1, 2), q, Text()); Text t{gen::norm_cp(r), a, gen::mark(r)}; composing(c, r, t); } });
  c.cases("classes", P.by_ccc.size() + 1, [&](Rng& r, uint64_t i) { // a representative of every class against one of every other, in triples
    std::vector<int> v(1, 'a'); for (auto& k : P.by_ccc) v.push_back(r.pick(k.second)); int a = v[i % v.size()];
    for (int b : v) for (int x : v) { c.count("triples"); ordering(c, a, b); if (less(a, b) && less(b, x) && !less(a, x)) c.fail("order-transitive", "%X < %X < %X but not the first before the last", (unsigned)a, (unsigned)b, (unsigned)x); if (!less(a, b) && !less(b, a) && !less(b, x) && !less(x, b) && (less(a, x) || less(x, a))) c.fail("order-equivalence", "%X ~ %X ~ %X but the first and last are ordered", (unsigned)a, (unsigned)b, (unsigned)x); }
    c.evaluations++; });
  c.cases("triples", c.amount(20000, 400000), [&](Rng& r, uint64_t) { int q[3]; for (int k = 0; k < 3; k++) q[k] = somecp(r); std::sort(q, q + 3); do { c.count("triples"); ordering(c, q[0], q[1]); if (less(q[0], q[1]) && less(q[1], q[2]) && !less(q[0], q[2])) c.fail("order-transitive", "%X < %X < %X", (unsigned)q[0], (unsigned)q[1], (unsigned)q[2]); } while (std::next_permutation(q, q + 3)); c.evaluations++; });
  c.cases("composing-pairs", pv.size(), [&](Rng& r, uint64_t i) { int a = pv[i].first, b = pv[i].second; c.count("pairs_swept"); std::vector<Text> ts{{a, b}, {b, a, b}, {a, b, a, b}, {gen::mark(r), a, b}, {a, gen::mark(r), b}, {a, r.pick(P.starters_ext), b}, {a, b, b, gen::mark(r), r.pick(P.second)}, {a, gen::mark(r), gen::mark(r), b, gen::mark(r)}, {r.pick(P.first), a, b, r.pick(P.second)}, {r.pick(P.second), b}, {a, a, b, b}};
    Text f; d.decompose(d.table_compose(a, b), false, f); ts.push_back(f); f.push_back(r.pick(P.second)); ts.push_back(f); f.insert(f.begin() + 1, gen::mark(r)); ts.push_back(f); for (auto& t : ts) composing(c, r, t); });
  { std::vector<int> ed; const int rg[][2] = {{0x10FE, 0x1116}, {0x115E, 0x1178}, {0x11A5, 0x11C5}, {0xA95F, 0xA961}, {0xABFE, 0xAC1E}, {0xAC37, 0xAC39}, {0xD786, 0xD7A8}, {0xD7AF, 0xD7B1}, {0xD7C6, 0xD7CC}, {0xD7FB, 0xD7FC}}; for (auto& g : rg) for (int x = g[0]; x <= g[1]; x++) ed.push_back(x);
    c.cases("hangul-edges", ed.size(), [&](Rng& r, uint64_t i) { for (int b : ed) { composing(c, r, {ed[i], b}); c.count("hangul_sequences"); if (r.chance(1, 8)) composing(c, r, {ed[i], b, ed[r.below(ed.size())]}); } }); }
  c.cases("hangul", 399, [&](Rng& r, uint64_t i) { int l = 0x1100 + (int)i / 21, v = 0x1161 + (int)i % 21, lv = 0xAC00 + 28 * (int)i; for (int t = 0; t < 29; t++) { int y = 0x11A7 + t; composing(c, r, {l, v, y}); composing(c, r, {lv, y}); composing(c, r, {l, v, y, 0x11A8 + (int)r.below(27)}); if (t % 7 == (int)i % 7) { composing(c, r, {l, gen::mark(r), v, y}); composing(c, r, {lv, gen::mark(r), y}); composing(c, r, {lv + t % 28, y}); composing(c, r, {l, l, v, v, y, y}); } c.count("hangul_sequences"); } });
  c.cases("first-classes", c.amount(3000, 30000), [&](Rng& r, uint64_t) { Text t; int n = r.range(0, 3); for (int k = 0; k < n; k++) t.push_back(gen::mark(r)); n = r.range(0, 8); for (int k = 0; k < n; k++) { auto p = pv[r.below(pv.size())]; t.push_back(r.chance(1, 2) ? p.first : gen::norm_cp(r)); int m = r.below(5); for (int q = 0; q < m; q++) t.push_back(r.chance(1, 3) ? p.second : gen::mark(r)); } composing(c, r, t); });
  c.cases("texts", c.amount(s ? 4000 : 30000, s ? 40000 : 600000), [&](Rng& r, uint64_t i) { Text t; for (int x : gen::text(r, 60, i % 3 == 0 ? -1 : i % 3 == 1 ? 3 : 9)) d.decompose(x, r.chance(1, 2), t); composing(c, r, t); });
  c.cases("unordered", c.amount(s ? 2000 : 8000, 100000), [&](Rng& r, uint64_t i) { composing(c, r, gen::text(r, 40, i % 2 ? 3 : 9), false); c.count("unordered"); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { Text t; for (int x : gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i)) d.decompose(x, false, t); composing(c, r, t); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; Text t; for (int x : gen::shaped(r, i)) d.decompose(x, false, t); composing(c, r, t); });
  c.cases("long", c.amount(s ? 10 : 60, 1000), [&](Rng& r, uint64_t) { Text t; for (int x : gen::text(r, 20000)) d.decompose(x, false, t); composing(c, r, t); });
}
