#include "stor.hpp"
using namespace vf; using ref::Text;
// One forward pass; style picks the step and the number of dereferences.
template <class It> static void forward(Ctx& c, Rng& r, const char* st, It b, It e, const Text& t, int style) {
  size_t i = 0; It it = b;
  while (it != e) {
    if (i >= t.size()) { c.fail("too-many", "%s: end not reached after %zu codepoints of [%s]", st, i, show(t).c_str()); return; }
    int got = *it;
    if (style & 1) { int k = r.below(3); while (k--) { int again = *it; if (again != got) { c.fail("deref-moves", "%s: dereferencing twice gave %X then %X in [%s]", st, got, again, show(t).c_str()); return; } } }
    if (got != t[i]) { c.fail("decode", "%s: codepoint %zu of [%s] decoded as %X", st, i, show(t).c_str(), (unsigned)got); return; }
    if (style & 2) {
      It old = it++;
      int o = *old; if (o != t[i]) { c.fail("post-increment", "%s: it++ returned a position holding %X, expected %X", st, (unsigned)o, (unsigned)t[i]); return; }
    } else {
      It& self = ++it;
      if (&self != &it) { c.fail("pre-increment", "%s: ++it does not return the iterator itself", st); return; }
    }
    i++; c.count("steps");
  }
  if (i != t.size()) c.fail("too-few", "%s: end reached after %zu of %zu codepoints of [%s]", st, i, t.size(), show(t).c_str());
}
struct OnStr { Ctx& c; Rng& r; const Text& t; int style;
  template <class S> void operator()(const char* n, S& s) const {
    forward(c, r, n, s.codepoint_cbegin(), s.codepoint_cend(), t, style);
    forward(c, r, n, s.codepoint_begin(), s.codepoint_end(), t, style ^ 3);
  } };
static void pointers(Ctx& c, Rng& r, const std::string& b, const Text& t, int style) {
  Exact<char> e(b.data(), b.size()); char* p = e.p.get(); char* q = p + e.n;
  forward(c, r, "const char*", u5e::utf8_const_iterator<const char*>(p), u5e::utf8_const_iterator<const char*>(q), t, style);
  forward(c, r, "utf8_iterator<const char*>", u5e::utf8_iterator<const char*>(p), u5e::utf8_iterator<const char*>(q), t, style);
  forward(c, r, "utf8_iterator<char*>", u5e::utf8_iterator<char*>(p), u5e::utf8_iterator<char*>(q), t, style ^ 1);
  const unsigned char* up = (const unsigned char*)p;
  forward(c, r, "const unsigned char*", u5e::utf8_const_iterator<const unsigned char*>(up), u5e::utf8_const_iterator<const unsigned char*>(up + e.n), t, style ^ 2);
  std::vector<char> v(b.begin(), b.end());
  forward(c, r, "vector<char>", u5e::utf8_const_iterator<std::vector<char>::const_iterator>(v.cbegin()), u5e::utf8_const_iterator<std::vector<char>::const_iterator>(v.cend()), t, style);
  // plain strings and views promoted by conversion, as the examples do
  std::string ss(b); u5e::utf8_string::const_iterator i1 = ss.cbegin(); u5e::utf8_string::const_iterator e1 = ss.cend();
  forward(c, r, "string::const_iterator", i1, e1, t, style);
}
static void one(Ctx& c, Rng& r, const Text& t, int which) {
  std::string b = ref::encode(t); int style = r.below(4);
  OnStr f{c, r, t, style}; each8(c, r, b, which, f);
  if (which == ST_ALL) {
    pointers(c, r, b, t, style);
    u5e::utf8_string s(b);
    std::vector<int> v(s.codepoint_cbegin(), s.codepoint_cend());
    if (v != t) c.fail("range-copy", "copying the codepoints of [%s] gave [%s]", show(t).c_str(), show(v).c_str());
    Text w; for (auto it = s.codepoint_cbegin(); it != s.codepoint_cend(); it++) w.push_back(*it);
    if (w != t) c.fail("decode", "loop over [%s] gave [%s]", show(t).c_str(), show(w).c_str());
  }
  c.evaluations++;
  bool multi = false; for (int x : t) if (x >= 0x80) multi = true;
  if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
void run(Ctx& c) {
  const uint64_t block = 256, nb = 0x110000 / block;
  uint64_t step = c.sanitized() && !c.thorough ? 16 : 1;    // sanitized quick run takes every 16th block from a seeded offset
  uint64_t off = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    if (i % step != off && i > 24 && i < nb - 2) return;
    for (uint64_t k = 0; k < block; k++) {
      int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue;
      Text t; int ctx = r.below(5);
      if (ctx == 1) t.push_back('x'); else if (ctx == 2) t.push_back(0xE9); else if (ctx == 3) t.push_back(0x20AC); else if (ctx == 4) t.push_back(0x1F600);
      t.push_back(cp); if (r.chance(1, 2)) t.push_back(gen::scalar(r));
      one(c, r, t, some_storage(r)); c.count("codepoints_swept");
    }
  });
  c.cases("adjacent-sizes", 5 * 5 * 5, [&](Rng& r, uint64_t i) {
    static const int rep[5][4] = {{0, 'a', 0x7F, '\n'}, {0x80, 0x7FF, 0xE9, 0x300}, {0x800, 0xFFFF, 0x20AC, 0x1000}, {0x10000, 0x10FFFF, 0x1F600, 0x40000}, {0, 0x7F, 0x80, 0x10FFFF}};
    for (int k = 0; k < 8; k++) one(c, r, Text{rep[i % 5][r.below(4)], rep[i / 5 % 5][r.below(4)], rep[i / 25][r.below(4)]}, ST_ALL);
  });
  c.cases("texts", c.amount(c.sanitized() ? 8000 : 40000, c.sanitized() ? 120000 : 600000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r), ST_ALL); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL); });
  c.cases("long", c.amount(16, 160), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(20000, 140000)), ST_ALL); });
  c.cases("empty", 4, [&](Rng& r, uint64_t) { one(c, r, Text(), ST_ALL); });
}
