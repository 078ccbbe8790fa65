#include "ops.hpp"
using namespace vf; using ref::Text;
// Random walk over the text with an index model; starting anywhere.
template <class It, class B> static void walk(Ctx& c, Rng& r, const char* st, It b, It e, B nb, const Text& t, const std::vector<int>& off, size_t from_octet, size_t from, int steps) {
  It it(nb + (long)from_octet); size_t i = from, n = t.size(); bool exact = (size_t)off[from] == from_octet;
  for (int k = 0; k < steps; k++) {
    bool back = i == n ? true : i == 0 ? false : r.chance(1, 2);
    if (back && i == 0) return;
    bool post = r.chance(1, 2);
    if (!back && i < n) {
      if (post) { It old = it++; if ((int)*old != t[i]) { c.fail("post-increment", "%s: it++ at codepoint %zu of [%s] returned a position holding %X", st, i, show(t).c_str(), (int)*old); return; } }
      else ++it;
      i++;
    } else {
      if (post) { It old = it--; bool ok = i == n ? old == e : (int)*old == t[i]; if (!ok) { c.fail("post-decrement", "%s: it-- at codepoint %zu of [%s] did not return the old position", st, i, show(t).c_str()); return; } }
      else { It& self = --it; if (&self != &it) { c.fail("pre-decrement", "%s: --it does not return the iterator", st); return; } }
      i--; exact = true; c.count("decrements");
    }
    c.count("steps");
    if (exact) {
      long p = native_pos(it, nb, 0);
      if (p >= 0 && p != off[i]) { c.fail("position", "%s: after %s codepoint %zu of [%s] the iterator stands on octet %ld, expected %d", st, back ? "going back to" : "advancing to", i, show(t).c_str(), p, off[i]); return; }
    }
    bool ate = it == e, atb = it == b;
    if (ate != (i == n)) { c.fail("end", "%s: at index %zu of %zu of [%s] the iterator %s the end", st, i, n, show(t).c_str(), ate ? "equals" : "differs from"); return; }
    if (atb != (i == 0)) { c.fail("begin", "%s: at index %zu of %zu of [%s] the iterator %s the begin", st, i, n, show(t).c_str(), atb ? "equals" : "differs from"); return; }
    if (i < n && r.chance(3, 4)) { int v = *it; if (v != t[i]) { c.fail("decode", "%s: index %zu of [%s] holds %X after a walk that started at octet %zu", st, i, show(t).c_str(), v, from_octet); return; } }
  }
}
template <class It> static void backward(Ctx& c, Rng& r, const char* st, It b, It e, const Text& t) {
  int style = r.below(4); size_t i = t.size(); It it = e;
  while (it != b) {
    if (!i) { c.fail("too-many", "%s: backward pass over [%s] does not stop at the beginning", st, show(t).c_str()); return; }
    i--;
    if (style & 1) { It old = it--; if (i + 1 < t.size() && (int)*old != t[i + 1]) { c.fail("post-decrement", "%s: it-- returned the wrong position in [%s]", st, show(t).c_str()); return; } } else --it;
    c.count("decrements");
    if (style & 2) (void)(int)*it;
    int v = *it; if (v != t[i]) { c.fail("decode", "%s: going back, codepoint %zu of [%s] decoded as %X", st, i, show(t).c_str(), v); return; }
  }
  if (i) c.fail("too-few", "%s: backward pass over [%s] stopped %zu codepoints early", st, show(t).c_str(), i);
}
template <class It> static void reversed(Ctx& c, const char* st, It b, It e, const Text& t) {
  std::reverse_iterator<It> rb(e), re(b); size_t i = t.size();
  for (; rb != re; ++rb) {
    if (!i) { c.fail("reverse", "%s: reverse iteration over [%s] does not end", st, show(t).c_str()); return; }
    i--; int v = *rb; if (v != t[i]) { c.fail("reverse", "%s: reverse iteration gives %X for codepoint %zu of [%s]", st, v, i, show(t).c_str()); return; }
    c.count("reverse_steps");
  }
  if (i) { c.fail("reverse", "%s: reverse iteration over [%s] ends early", st, show(t).c_str()); return; }
  if (t.size() < 3000) {
    It p = b; std::advance(p, (int)t.size()); if (p != e) c.fail("advance", "%s: std::advance over [%s]", st, show(t).c_str());
    std::advance(p, -(int)t.size()); if (p != b) c.fail("advance", "%s: std::advance backwards over [%s]", st, show(t).c_str());
    if ((size_t)std::distance(b, e) != t.size()) c.fail("distance", "%s: std::distance over [%s] is %ld", st, show(t).c_str(), (long)std::distance(b, e));
  }
}
struct OnStr { Ctx& c; Rng& r; const Text& t; bool big;
  template <class S> void operator()(const char* n, S& s) const {
    std::vector<int> off = ref::offsets(t), own = ref::octet_owner(t);
    backward(c, r, n, s.codepoint_cbegin(), s.codepoint_cend(), t);
    backward(c, r, n, s.codepoint_begin(), s.codepoint_end(), t);
    reversed(c, n, s.codepoint_cbegin(), s.codepoint_cend(), t);
    reversed(c, n, s.codepoint_begin(), s.codepoint_end(), t);
    size_t total = own.size() - 1;
    int starts = big ? 3 : (int)std::min<size_t>(own.size(), 40);
    for (int k = 0; k < starts; k++) {
      size_t o = own.size() <= 40 && !big ? (size_t)k : (k == 0 ? total : r.below(own.size()));
      size_t i = own[o];
      int steps = big ? 300 : r.range(2, 12);
      walk(c, r, n, s.codepoint_cbegin(), s.codepoint_cend(), s.native_cbegin(), t, off, o, i, steps);
      walk(c, r, n, s.codepoint_begin(), s.codepoint_end(), s.native_begin(), t, off, o, i, steps);
      c.count("walks", 2);
    }
  } };
static void one(Ctx& c, Rng& r, const Text& t, int which, bool big = false) {
  std::string b = ref::encode(t); OnStr f{c, r, t, big}; each8(c, r, b, which, f);
  if (which == ST_ALL) {
    Exact<char> e(b.data(), b.size()); char* p = e.p.get(); char* q = p + e.n;
    backward(c, r, "const char*", u5e::utf8_const_iterator<const char*>(p), u5e::utf8_const_iterator<const char*>(q), t);
    backward(c, r, "char*", u5e::utf8_iterator<char*>(p), u5e::utf8_iterator<char*>(q), t);
    reversed(c, "const char*", u5e::utf8_const_iterator<const char*>(p), u5e::utf8_const_iterator<const char*>(q), t);
    u5e::utf8_string s(b); Text w(t.rbegin(), t.rend());
    typedef u5e::utf8_string::const_reverse_iterator RI;
    Text v; for (RI i(s.codepoint_cend()), z(s.codepoint_cbegin()); i != z; ++i) v.push_back((int)*i);
    if (v != w) c.fail("reverse", "const_reverse_iterator over [%s] gave [%s]", show(t).c_str(), show(v).c_str());
    if (!t.empty()) {
      int needle = t[r.below(t.size())]; long want = 0; for (size_t i = t.size(); i-- > 0 && t[i] != needle;) want++;
      long got = 0; RI i(s.codepoint_cend()), z(s.codepoint_cbegin()); i = std::find_if(i, z, [&](int x) { return x == needle; }); for (RI j(s.codepoint_cend()); j != i; ++j) got++;
      if (got != want) c.fail("reverse", "searching %X from the end of [%s] stops after %ld", needle, show(t).c_str(), got);
    }
    Text m(s.codepoint_cbegin(), s.codepoint_cend()); if (m != t) c.fail("decode", "copy of [%s]", show(t).c_str());
  }
  c.evaluations++;
  bool multi = false; for (int x : t) if (x >= 0x80) multi = true;
  if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
void run(Ctx& c) {
  const uint64_t block = 256, nb = 0x110000 / block;
  uint64_t step = c.sanitized() && !c.thorough ? 16 : c.thorough ? 1 : 2, off = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    if (i % step != off && i > 24 && i < nb - 2) return;
    for (uint64_t k = 0; k < block; k++) {
      int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue;
      Text t; static const int ctx[] = {'x', 0xE9, 0x20AC, 0x1F600}; if (r.chance(3, 4)) t.push_back(ctx[r.below(4)]);
      t.push_back(cp); if (r.chance(1, 2)) t.push_back(gen::scalar(r));
      one(c, r, t, some_storage(r)); c.count("codepoints_swept");
    }
  });
  c.cases("adjacent-sizes", 5 * 5 * 5, [&](Rng& r, uint64_t i) {
    static const int rep[5][4] = {{0, 'a', 0x7F, '\n'}, {0x80, 0x7FF, 0xE9, 0x300}, {0x800, 0xFFFF, 0x20AC, 0x1000}, {0x10000, 0x10FFFF, 0x1F600, 0x40000}, {0, 0x7F, 0x80, 0x10FFFF}};
    for (int k = 0; k < 8; k++) one(c, r, Text{rep[i % 5][r.below(4)], rep[i / 5 % 5][r.below(4)], rep[i / 25][r.below(4)]}, ST_ALL);
  });
  c.cases("texts", c.amount(c.sanitized() ? 2500 : 20000, c.sanitized() ? 60000 : 500000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 400), ST_ALL); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL, true); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL, true); });
  c.cases("long", c.amount(16, 160), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(20000, 140000)), ST_ALL, true); });
}
