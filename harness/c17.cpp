#include "ops.hpp"
#include <limits.h>
using namespace vf; using ref::Text;
static void check_map(Ctx& c, int cp, bool k, int const* m) {
  const Text* want = ref::db().mapping(cp, k); const char* n = k ? "compatibility" : "canonical"; c.count("mapping_lookups");
  if (ref::Db::is_hangul(cp)) return;                        // algorithmic, in the decomposition operations (C10-C13, C23)
  if (!want) { if (m) c.fail(cp < 0 || cp >= ref::NCP ? "default" : "mapping", "%s decomposition of %X: [%s], expected none", n, (unsigned)cp, show(ops::mapping(m)).c_str()); return; }
  if (!m) { c.fail("mapping", "%s decomposition of %X: none, expected [%s]", n, (unsigned)cp, show(*want).c_str()); return; }
  for (size_t i = 0; i < want->size(); i++) if (m[i] != (*want)[i]) { c.fail("mapping", "%s decomposition of %X: [%s], expected [%s]", n, (unsigned)cp, show(ops::mapping(m)).c_str(), show(*want).c_str()); return; }
  if (m[want->size()] != 0) c.fail("termination", "%s decomposition of %X is not ended by zero after [%s]", n, (unsigned)cp, show(*want).c_str());
}
static void point(Ctx& c, int cp) {
  bool out = cp < 0 || cp >= ref::NCP; const char* key = out ? "default" : nullptr; c.evaluations++; c.count(out ? "outside" : "codepoints");
  int k = ops::ccc(cp), g = ops::gcb(cp);
  if (k != ref::db().ccc(cp)) c.fail(key ? key : "class", "combining class of %X is %d, expected %d", (unsigned)cp, k, ref::db().ccc(cp));
  if (g != ref::db().gcb(cp)) c.fail(key ? key : "break", "break class of %X is %s, expected %s", (unsigned)cp, g < 0 ? "?" : ref::gcb_names[g], ref::gcb_names[ref::db().gcb(cp)]);
  check_map(c, cp, false, ops::dmap(cp)); check_map(c, cp, true, ops::kmap(cp));
  if (!out && (ref::db().ccc(cp) || ref::db().gcb(cp) || ref::db().mapping(cp, true))) c.nontrivial(mix((unsigned)cp));
}
static void pair(Ctx& c, int a, int b) {
  int want = ref::db().table_compose(a, b), h = ref::db().compose(a, b), mark = (int)mix((unsigned)a * 31u + (unsigned)b), v = mark; c.count("pair_lookups"); c.evaluations++;
  bool got = u5e::props::canonical_composition_mapping::resolve(a, b, &v);
  if (want < 0) { if (h >= 0 && got && v == h) return; if (got) c.fail("composition", "%X %X composes to %X, expected not at all", (unsigned)a, (unsigned)b, (unsigned)v); return; }
  c.count("pairs_defined"); c.nontrivial(mix(((uint64_t)(unsigned)a << 32) | (unsigned)b));
  if (!got || v != want) c.fail("composition", "%X %X composes to %X (%d), expected %X", (unsigned)a, (unsigned)b, (unsigned)v, got, (unsigned)want);
}
static int odd(Rng& r) {
  static const int e[] = {-1, -2, INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 0x110000, 0x110001, 0x10FFFF, 0x10FFFE, 0, 1, 0x200000, 0x7F000000, (int)0x80000300, (int)0xFFFF0300, 0x01000300, 0x00120000, 0x40000300, -0x300, -0x41, -0x1100};
  switch (r.below(5)) { case 0: return e[r.below(sizeof e / sizeof *e)]; case 1: return (int)r.next(); case 2: return -(int)r.below(0x110000); case 3: return 0x110000 + (int)r.below(0x7FFFFFFF - 0x110000); default: { int base = gen::norm_cp(r); int sh = r.range(16, 31); return (int)((unsigned)base | (1u << sh)); } }
}
void run(Ctx& c) {
  const gen::Pools& P = gen::P(); const ref::Db& d = ref::db(); bool s = c.sanitized();
  const uint64_t block = 4096, nb = 0x110000 / block;
  c.cases("every-codepoint", nb, [&](Rng&, uint64_t i) { for (uint64_t k = 0; k < block; k++) point(c, (int)(i * block + k)); });
  c.cases("every-codepoint-backwards", nb, [&](Rng&, uint64_t i) { if (s && !c.thorough && i % 8 != c.seed % 8) return; for (uint64_t k = block; k-- > 0;) point(c, (int)((nb - 1 - i) * block + k)); });
  c.cases("random-order", c.amount(100, 4000), [&](Rng& r, uint64_t) { for (int k = 0; k < 3000; k++) point(c, r.chance(1, 6) ? odd(r) : gen::any_cp(r)); });
  c.cases("outside", c.amount(200, 4000), [&](Rng& r, uint64_t i) { for (int k = 0; k < 1000; k++) { point(c, odd(r)); pair(c, odd(r), gen::norm_cp(r)); pair(c, gen::norm_cp(r), odd(r)); pair(c, odd(r), odd(r)); }
    int b = (int)((unsigned)i << 20); for (int k = -20; k < 20; k++) point(c, (int)((unsigned)b + (unsigned)k)); });
  c.cases("near-edges", 64, [&](Rng&, uint64_t i) { for (int k = -32; k < 32; k++) { point(c, (int)(0x110000u * (unsigned)i + (unsigned)k)); point(c, (int)((1u << (i % 32)) + (unsigned)k)); point(c, (int)(0u - (1u << (i % 32)) + (unsigned)k)); } });
  // every first with every second that occurs in any canonical pair, defined or not, and with all of the neighbours
  static std::vector<int> fs, ss; { std::set<int> f, q; for (auto& kv : d.raw) if (!d.compat_tag.at(kv.first)) { f.insert(kv.second[0]); if (kv.second.size() > 1) q.insert(kv.second[1]); } for (int g : P.first) { f.insert(g); f.insert(g + 1); f.insert(g - 1); } for (int g : P.second) { q.insert(g); q.insert(g + 1); q.insert(g - 1); }
    for (int x : P.composites) f.insert(x); fs.assign(f.begin(), f.end()); ss.assign(q.begin(), q.end()); }
  c.cases("pairs", fs.size(), [&](Rng&, uint64_t i) { for (int b : ss) pair(c, fs[i], b); });
  c.cases("excluded-pairs", d.raw.size(), [&](Rng&, uint64_t i) { static std::vector<int> all; if (all.empty()) for (auto& kv : d.raw) all.push_back(kv.first); const Text& t = d.raw.at(all[i]); if (t.size() >= 2) { pair(c, t[0], t[1]); pair(c, t[1], t[0]); } else { pair(c, t[0], t[0]); pair(c, t[0], 0); pair(c, 0, t[0]); } c.count("raw_pairs"); });
  c.cases("first-with-everything", c.amount(s ? 8 : 40, 4000), [&](Rng& r, uint64_t) { int a = r.pick(P.first), b = r.pick(P.second); for (int x = r.below(16); x < ref::NCP; x += 17) { pair(c, a, x); pair(c, x, b); } });
  c.cases("random-pairs", c.amount(200, 4000), [&](Rng& r, uint64_t) { for (int k = 0; k < 2000; k++) pair(c, gen::any_cp(r), gen::any_cp(r)); });
  // an argument right after one that resembles it: same low bits, same sum, same under a multiplicative hash, swapped
  { static std::vector<int> known; if (known.empty()) for (int x = 0; x < ref::NCP; x++) if (d.ccc(x) || (d.raw.count(x)) || (d.gcb(x) && !ref::Db::is_hangul(x) && x < 0xE0080)) known.push_back(x);
    c.cases("resembling", (known.size() + 63) / 64, [&](Rng& r, uint64_t i) { if (s && !c.thorough && i % 8 != c.seed % 8) return; for (size_t k = i * 64; k < std::min<size_t>(known.size(), i * 64 + 64); k++) { int x = known[k];
      for (int b = 0; b < 32; b++) { point(c, x); point(c, (int)((unsigned)x ^ 1u << b)); if (b > 7) { point(c, x); point(c, (int)((unsigned)x + (1u << b))); point(c, x); point(c, (int)((unsigned)x - (1u << b))); } } point(c, x); point(c, -x); point(c, x); point(c, ~x); } c.count("resembling_arguments", 64); });
    c.cases("resembling-pairs", P.pairs.size(), [&](Rng& r, uint64_t i) { if (s && !c.thorough && i % 8 != c.seed % 8) return; int a = P.pairs[i].first, b = P.pairs[i].second; auto then = [&](int x, int y) { pair(c, a, b); pair(c, x, y); pair(c, a, b); };
      then(b, a); for (int k = 0; k < 32; k++) { unsigned m = 1u << k; then((int)((unsigned)a ^ m), b); then(a, (int)((unsigned)b ^ m)); then((int)((unsigned)a ^ m), (int)((unsigned)b ^ m)); then((int)((unsigned)a + m), (int)((unsigned)b - m)); then((int)((unsigned)a - m), (int)((unsigned)b + m)); }
      static const unsigned mul[] = {1, 2, 3, 5, 7, 11, 13, 16, 17, 31, 32, 33, 37, 41, 53, 61, 64, 67, 97, 101, 127, 128, 131, 137, 151, 251, 256, 257, 509, 512, 521, 769, 1021, 1024, 1031, 1543, 2048, 3079, 4093, 4096, 6151, 7919, 8191, 8192, 12289, 16384, 16777619, 31337, 32768, 49157, 65521, 65535, 65536, 65537, 65599, 0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x9E3779B1, 0x9E3779B9, 0x85EBCA6B, 0xC2B2AE35, 0xDEADBEEF, 1000003, 1299709, 2654435761u, 0x01000193, 0x5BD1E995};
      for (unsigned m : mul) for (int q : {-2, -1, 1, 2, (int)r.range(3, 4000)}) { unsigned ua = a, ub = b, d2 = (unsigned)q; then((int)(ua + d2), (int)(ub - d2 * m)); then((int)(ua + d2), (int)(((ua * m) ^ ub) ^ ((ua + d2) * m))); then((int)(ua - d2 * m), (int)(ub + d2)); then((int)((ub * m ^ ua) ^ ((ub + d2) * m)), (int)(ub + d2)); }
      c.count("resembling_pairs"); });
    c.cases("pair-after-pair", P.pairs.size(), [&](Rng& r, uint64_t i) { if (s && !c.thorough && i % 16 != c.seed % 16) return; auto p = P.pairs[i]; for (auto& q : P.pairs) { pair(c, p.first, p.second); pair(c, q.first, q.second); pair(c, q.first, p.second); pair(c, p.first, q.second); } }); }
  c.cases("hangul-pairs", 40, [&](Rng& r, uint64_t) { for (int k = 0; k < 1000; k++) pair(c, gen::jamo(r), gen::jamo(r)); });
  // what was returned stays what it was
  c.cases("validity", c.amount(8, 60), [&](Rng& r, uint64_t) {
    std::vector<std::pair<int, std::pair<int const*, int const*>>> held; for (auto& kv : d.raw) held.push_back({kv.first, {ops::dmap(kv.first), ops::kmap(kv.first)}});
    for (int k = 0; k < 20000; k++) { int x = gen::any_cp(r); ops::dmap(x); ops::kmap(x); ops::ccc(x); ops::gcb(x); ops::compose(x, gen::norm_cp(r)); }
    std::vector<std::string> churn; for (int k = 0; k < 200; k++) churn.push_back(std::string(r.range(1, 4000), 'x'));
    for (auto& h : held) { check_map(c, h.first, false, h.second.first); check_map(c, h.first, true, h.second.second); } c.count("held_decompositions", held.size()); });
  c.sample("every integer 0..10FFFF; 212 9 0 -1 110000 7FFFFFFF 80000300");
}
