#include "ops.hpp"
using namespace vf; using ref::Text;
template <class It, class B> static bool pair_(Ctx& c, const char* st, B nb, size_t a, size_t b, const std::vector<int>& own, const Text& t) {
  const It x(nb + (long)a), y(nb + (long)b); bool want = own[a] == own[b];
  bool eq = x == y, ne = x != y;
  c.count(want ? "compared_equal" : "compared_different");
  if (eq != want) { c.fail(want ? "same-differs" : "different-equal", "%s: octets %zu and %zu of [%s] (codepoints %d and %d of %zu) compare %s", st, a, b, show(t).c_str(), own[a], own[b], t.size(), eq ? "equal" : "different"); return false; }
  if (ne == eq) { c.fail("negation", "%s: == and != agree at octets %zu and %zu of [%s]", st, a, b, show(t).c_str()); return false; }
  return true;
}
struct OnStr { Ctx& c; Rng& r; const Text& t; const std::vector<int>& own; size_t samples;
  template <class S> void operator()(const char* n, S& s) const {
    typedef typename S::const_iterator CI; typedef typename S::iterator MI;
    size_t N = own.size();
    auto nb = s.native_cbegin(); auto mb = s.native_begin();
    if (!samples) { for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) if (!pair_<CI>(c, n, nb, a, b, own, t) || !pair_<MI>(c, n, mb, a, b, own, t)) return; }
    else for (size_t k = 0; k < samples; k++) {
      size_t a = r.below(N), b = r.chance(2, 3) ? std::min<size_t>(N - 1, a + r.below(9)) : r.chance(1, 4) ? N - 1 : r.below(N);
      if (r.chance(1, 2)) std::swap(a, b);
      if (!pair_<CI>(c, n, nb, a, b, own, t) || !pair_<MI>(c, n, mb, a, b, own, t)) return;
    }
    if (!(s.codepoint_cend() == s.codepoint_cend()) || (s.codepoint_cbegin() == s.codepoint_cend()) != t.empty() || (s.codepoint_cend() == s.codepoint_cbegin()) != t.empty())
      c.fail("end", "%s: begin/end comparison of [%s]", n, show(t).c_str());
    // iterators that got where they are by stepping
    CI f = s.codepoint_cbegin(); size_t i = 0; std::vector<int> off = ref::offsets(t);
    int lim = t.size() > 200 ? 200 : (int)t.size();
    for (int k = 0; k <= lim; k++) {
      size_t o = r.below(N); const CI g(nb + (long)o);
      if ((f == g) != ((int)i == own[o]) || (g == f) != ((int)i == own[o])) { c.fail("stepped", "%s: iterator advanced %zu times in [%s] vs octet %zu: %d", n, i, show(t).c_str(), o, f == g); return; }
      if (i < t.size()) { if (r.chance(1, 2)) (void)(int)*f; ++f; i++; }
    }
  } };
static void one(Ctx& c, Rng& r, const Text& t, int which, size_t samples = 0) {
  std::string b = ref::encode(t); std::vector<int> own = ref::octet_owner(t);
  OnStr f{c, r, t, own, samples}; each8(c, r, b, which, f);
  if (which == ST_ALL && !samples) {
    Exact<char> e(b.data(), b.size()); const char* p = e.p.get();
    for (size_t x = 0; x < own.size(); x++) for (size_t y = 0; y < own.size(); y++) if (!pair_<u5e::utf8_const_iterator<const char*>>(c, "const char*", p, x, y, own, t)) return;
  }
  c.evaluations++;
  bool multi = false; for (int x : t) if (x >= 0x80) multi = true;
  if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
void run(Ctx& c) {
  const uint64_t block = 256, nb = 0x110000 / block;
  uint64_t step = c.thorough ? 1 : c.sanitized() ? 16 : 4, off = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    if (i % step != off && i > 24 && i < nb - 2) return;
    for (uint64_t k = 0; k < block; k++) {
      int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue;
      Text t; static const int ctx[] = {'x', 0xE9, 0x20AC, 0x1F600}; if (r.chance(3, 4)) t.push_back(ctx[r.below(4)]);
      t.push_back(cp); if (r.chance(1, 2)) t.push_back(r.chance(1, 2) ? cp : gen::scalar(r));
      one(c, r, t, some_storage(r)); c.count("codepoints_swept");
    }
  });
  c.cases("adjacent-sizes", 4 * 4 * 4 * 4, [&](Rng& r, uint64_t i) {
    static const int rep[4][4] = {{0, 'a', 0x7F, '\n'}, {0x80, 0x7FF, 0xE9, 0x300}, {0x800, 0xFFFF, 0x20AC, 0x1000}, {0x10000, 0x10FFFF, 0x1F600, 0x40000}};
    Text t; for (int k = 0; k < 4; k++) t.push_back(rep[(i >> (2 * k)) & 3][r.below(4)]);
    one(c, r, t, ST_ALL); t.resize(r.below(3)); one(c, r, t, ST_ALL);
  });
  c.cases("texts", c.amount(c.sanitized() ? 600 : 3000, c.sanitized() ? 12000 : 60000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 24), ST_ALL); });
  c.cases("sampled", c.amount(c.sanitized() ? 200 : 1500, c.sanitized() ? 4000 : 30000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 2000), ST_ALL, 400); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL, 4000); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL, 4000); });
  c.cases("long", c.amount(16, 160), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(20000, 140000)), ST_ALL, 4000); });
}
