#include "ops.hpp"
using namespace vf; using ref::Text;
typedef std::string Str;
template <class D> static D fresh(const Str& s);
template <> u5e::utf8_string fresh<u5e::utf8_string>(const Str& s) { return u5e::utf8_string(s); }
template <> utf8_mon fresh<utf8_mon>(const Str& s) { return utf8_mon(mon::str8(s)); }
struct OnStr { Ctx& c; Rng& r; const Text& t; const Str& b; const std::vector<int>& own; const std::vector<int>& off; bool all;
  template <class E, class N> void operator()(const char* n, u5e::basic_encodedstring<E, N>& s) const {
    size_t total = own.size();
    if (all) { for (size_t x = 0; x < total; x++) for (size_t y = 0; y < total; y++) if (own[x] <= own[y]) if (!pair(n, s, x, y, r.below(4))) return; }
    else for (int k = 0; k < 60; k++) { size_t x = r.chance(1, 4) ? 0 : r.below(total), y = r.chance(1, 5) ? total - 1 : r.chance(1, 2) ? std::min(total - 1, x + r.below(12)) : r.below(total); if (own[x] > own[y]) std::swap(x, y); if (!pair(n, s, x, y, r.below(4))) return; }
  }
  template <class E, class N> bool pair(const char* n, u5e::basic_encodedstring<E, N>& s, size_t x, size_t y, int how) const {
    typedef u5e::basic_encodedstring<E, N> S; typedef typename S::const_iterator CI;
    Str pre; switch (r.below(5)) { case 0: break; case 1: pre = "x"; break; case 2: pre = ref::encode(gen::text(r, 10)); break; case 3: pre = Str(r.range(10, 40), 'p'); break; default: pre = b.substr(0, 200); }
    Str want = pre + b.substr(off[own[x]], off[own[y]] - off[own[x]]), got; bool self = true;
    c.count("ranges"); if ((size_t)off[own[x]] != x || (size_t)off[own[y]] != y) c.count("ranges_inside_codepoints"); if (own[x] == own[y]) c.count("ranges_empty");
    CI f(s.native_cbegin() + (long)x), l(s.native_cbegin() + (long)y);
    if (how & 1) { u5e::utf8_string d(pre); auto& ret = d.template append<N>(f, l); got = d.native_string; self = &ret == &d; }
    else { utf8_mon d{mon::str8(pre)}; auto& ret = d.template append<N>(f, l); got = raw(d.native_string); self = &ret == &d; }
    if (got != want) { c.fail("range", "%s: octets %zu to %zu of %s appended to %s gives %s, expected %s", n, x, y, hex_bytes(b).c_str(), hex_bytes(pre).c_str(), hex_bytes(got).c_str(), hex_bytes(want).c_str()); return false; }
    if (!self) { c.fail("returns", "%s: append does not return the string itself", n); return false; }
    if (raw(s.native_string) != b) { c.fail("source", "%s: appending from %s changed it to %s", n, hex_bytes(b).c_str(), hex_bytes(raw(s.native_string)).c_str()); return false; }
    return true;
  } };
static void same_type(Ctx& c, Rng& r, const Text& t, const Str& b, const std::vector<int>& own, const std::vector<int>& off) {
  size_t n = own.size();
  for (int k = 0; k < 6; k++) {
    size_t x = r.below(n), y = r.below(n); if (own[x] > own[y]) std::swap(x, y);
    Str part = b.substr(off[own[x]], off[own[y]] - off[own[x]]);
    typedef u5e::utf8_string::const_iterator CI;
    { u5e::utf8_string s(b), d; d.append(CI(s.native_cbegin() + x), CI(s.native_cbegin() + y)); d.append(CI(s.native_cbegin() + x), CI(s.native_cbegin() + y));
      if (d.native_string != part + part) c.fail("repeat", "appending octets %zu to %zu of %s twice gives %s", x, y, hex_bytes(b).c_str(), hex_bytes(d.native_string).c_str()); }
    { u5e::utf8_string s(b); if (r.chance(1, 2)) s.native_string.reserve(b.size() * 3 + 16); else s.native_string.shrink_to_fit();
      s.append(CI(s.native_cbegin() + x), CI(s.native_cbegin() + y)); c.count("self_appends");
      if (s.native_string != b + part) c.fail("self", "appending octets %zu to %zu of %s to itself gives %s", x, y, hex_bytes(b).c_str(), hex_bytes(s.native_string).c_str()); }
    { u5e::utf8_string s(b); if (r.chance(1, 2)) s.native_string.reserve(b.size() * 3 + 16); u5e::utf8_string_view v(sview(s.native_string.data(), b.size()));
      typedef u5e::utf8_string_view::const_iterator VI;
      s.append<sview>(VI(v.native_cbegin() + x), VI(v.native_cbegin() + y)); c.count("self_appends");
      if (s.native_string != b + part) c.fail("self", "appending octets %zu to %zu of a view of %s to the string gives %s", x, y, hex_bytes(b).c_str(), hex_bytes(s.native_string).c_str()); }
  }
  // truncation at an octet limit: the longest prefix of whole codepoints
  for (int k = 0; k < 6; k++) {
    size_t lim = r.below(n); u5e::utf8_string s(b), d; d.append(s.codepoint_cbegin(), u5e::utf8_string::const_iterator(s.native_cbegin() + lim)); c.count("truncations");
    Text q; if (d.native_string != b.substr(0, off[own[lim]]) || !ref::decode(d.native_string, q)) c.fail("truncate", "truncating %s at octet %zu gives %s", hex_bytes(b).c_str(), lim, hex_bytes(d.native_string).c_str());
  }
  // a chain of pieces cut anywhere puts the text together again
  { u5e::utf8_string s(b), d; size_t at = 0; Str shown; while (at + 1 < n) { size_t to = std::min(n - 1, at + 1 + r.below(9)); d.append(u5e::utf8_string::const_iterator(s.native_cbegin() + at), u5e::utf8_string::const_iterator(s.native_cbegin() + to)); at = to; }
    c.count("chains"); if (d.native_string != b) c.fail("chain", "%s cut into consecutive ranges and appended gives %s", hex_bytes(b).c_str(), hex_bytes(d.native_string).c_str()); }
}
// grapheme ranges of a string, appended to the string itself
static void graphemes_of_itself(Ctx& c, Rng& r, const Text& t) {
  auto g = ref::db().segment(t); size_t a = r.below(g.size()), z = r.range((int)a, (int)g.size() - 1); if (g.size() > 2000) return;
  Text want = t; want.insert(want.end(), t.begin() + g[a], t.begin() + g[z]); c.count("self_appends", 2);
  { u5e::utf32ne_string s(to_i(t)); s.native_string.shrink_to_fit(); auto x = s.grapheme_begin(), y = s.grapheme_begin(); for (size_t k = 0; k < a; k++) ++x; for (size_t k = 0; k < z; k++) ++y;
    s.append(x, y); if (from_i(s.native_string) != want) c.fail("self-graphemes", "graphemes %zu to %zu of UTF-32 [%s] appended to itself give [%s]", a, z, show(t).c_str(), show(from_i(s.native_string)).c_str()); }
  { u5e::utf8_string s(ref::encode(t)); s.native_string.shrink_to_fit(); auto x = s.grapheme_begin(), y = s.grapheme_begin(); for (size_t k = 0; k < a; k++) ++x; for (size_t k = 0; k < z; k++) ++y;
    s.append(x, y); if (s.native_string != ref::encode(want)) c.fail("self-graphemes", "graphemes %zu to %zu of [%s] appended to itself give [%s]", a, z, show(t).c_str(), hex_bytes(s.native_string).c_str()); }
}
static void utf32(Ctx& c, Rng& r, const Text& t) {
  for (int k = 0; k < 4; k++) {
    size_t x = r.below(t.size() + 1), y = r.range((int)x, (int)t.size()); Text pre = r.chance(1, 2) ? Text() : gen::text(r, 6), want = pre; want.insert(want.end(), t.begin() + x, t.begin() + y);
    Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view v(iview(e.p.get(), e.n)); u5e::utf32ne_string s(to_i(t)), d(to_i(pre)), d2(to_i(pre));
    d.append<iview>(v.codepoint_cbegin() + x, v.codepoint_cbegin() + y); d2.append(s.codepoint_cbegin() + x, s.codepoint_cbegin() + y);
    utf32ne_mon m{mon::str32(pre)}; m.append<istring>(s.codepoint_cbegin() + x, s.codepoint_cbegin() + y); c.count("utf32_ranges", 3);
    if (from_i(d.native_string) != want || from_i(d2.native_string) != want || from_i(m.native_string) != want) c.fail("utf32", "codepoints %zu to %zu of [%s] appended to [%s] give [%s] / [%s]", x, y, show(t).c_str(), show(pre).c_str(), show(from_i(d.native_string)).c_str(), show(from_i(d2.native_string)).c_str());
    u5e::utf32ne_string self(to_i(t)); self.append(self.codepoint_cbegin() + x, self.codepoint_cbegin() + y); Text w2 = t; w2.insert(w2.end(), t.begin() + x, t.begin() + y); c.count("self_appends");
    if (from_i(self.native_string) != w2) c.fail("self", "codepoints %zu to %zu of UTF-32 [%s] appended to itself give [%s]", x, y, show(t).c_str(), show(from_i(self.native_string)).c_str());
    for (int how = 0; how < 3; how++) {
      u5e::utf32ne_string q(to_i(t)); if (r.chance(1, 2)) q.native_string.shrink_to_fit(); c.count("self_appends");
      if (how == 0) q.append_from_utf32ne<u5e::utf32ne_string>(q.codepoint_cbegin() + x, q.codepoint_cbegin() + y);
      else if (how == 1) { u5e::utf32ne_string_view qv(iview(q.native_string.data(), q.native_string.size())); q.append_from_utf32ne<u5e::utf32ne_string_view>(qv.codepoint_cbegin() + x, qv.codepoint_cbegin() + y); }
      else { u5e::utf32ne_string_view qv(iview(q.native_string.data(), q.native_string.size())); q.append<iview>(qv.codepoint_cbegin() + x, qv.codepoint_cbegin() + y); }
      if (from_i(q.native_string) != w2) c.fail("self", "codepoints %zu to %zu of UTF-32 [%s] appended to itself (way %d) give [%s]", x, y, show(t).c_str(), how, show(from_i(q.native_string)).c_str()); }
    graphemes_of_itself(c, r, t);
  }
}
static void one(Ctx& c, Rng& r, const Text& t, int which, bool all) {
  Str b = ref::encode(t); std::vector<int> own = ref::octet_owner(t), off = ref::offsets(t);
  OnStr f{c, r, t, b, own, off, all}; each8(c, r, b, which, f);
  if (which == ST_ALL) { same_type(c, r, t, b, own, off); utf32(c, r, t); }
  c.evaluations++;
  bool multi = false; for (int x : t) if (x >= 0x80) multi = true;
  if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
void run(Ctx& c) {
  const uint64_t block = 256, nb = 0x110000 / block; uint64_t step = c.thorough ? 4 : c.sanitized() ? 64 : 16, o = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    if (i % step != o && i > 16 && i < nb - 2) return;
    for (uint64_t k = 0; k < block; k++) { int cp = (int)(i * block + k); if (cp >= 0xD800 && cp < 0xE000) continue;
      Text t; static const int ctx[] = {'x', 0xE9, 0x20AC, 0x1F600}; if (r.chance(3, 4)) t.push_back(ctx[r.below(4)]); t.push_back(cp); if (r.chance(1, 2)) t.push_back(gen::scalar(r)); one(c, r, t, some_storage(r), true); c.count("codepoints_swept"); } });
  c.cases("adjacent-sizes", 4 * 4 * 4 * 4, [&](Rng& r, uint64_t i) {
    static const int rep[4][4] = {{0, 'a', 0x7F, '\n'}, {0x80, 0x7FF, 0xE9, 0x300}, {0x800, 0xFFFF, 0x20AC, 0x1000}, {0x10000, 0x10FFFF, 0x1F600, 0x40000}};
    Text t; for (int k = 0; k < 4; k++) t.push_back(rep[(i >> (2 * k)) & 3][r.below(4)]); one(c, r, t, ST_ALL, true); t.resize(r.below(3)); one(c, r, t, ST_ALL, true); });
  c.cases("texts", c.amount(c.sanitized() ? 400 : 2500, 40000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 16), ST_ALL, true); });
  c.cases("sampled", c.amount(c.sanitized() ? 800 : 5000, 80000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r), ST_ALL, false); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL, false); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL, false); });
  c.cases("long", c.amount(16, 120), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(10000, 40000)), ST_ALL, false); });
}
