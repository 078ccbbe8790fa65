#include "ops.hpp"
#include <u5e/utf32ne_string.hpp>
using namespace vf; using ref::Text;
enum { SLACK = 24 };
static const unsigned char FILL[] = {0, 'q', 0x80, 0xBF, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFF};
// A buffer with initialised slack on both sides; the writer may use room for the encoding only.
struct Arena {
  std::vector<unsigned char> v, before; size_t need;
  Arena(Rng& r, size_t need_) : v(need_ + 2 * SLACK), need(need_) {
    int st = r.below(4); unsigned char f = FILL[r.below(sizeof FILL)];
    for (auto& x : v) x = st == 0 ? 0 : st == 1 ? f : st == 2 ? FILL[r.below(sizeof FILL)] : (unsigned char)r.below(256);
    v[SLACK - 1] = 'a';                                // a codepoint start right before, as in any text
    before = v;
  }
  template <class P> P at(size_t i) { return (P)(v.data() + SLACK + i); }
  bool intact(long& where) const {
    for (size_t i = 0; i < v.size(); i++) if ((i < SLACK || i >= SLACK + need) && v[i] != before[i]) { where = (long)i - SLACK; return false; }
    return true;
  }
  std::string content() const { return std::string((const char*)v.data() + SLACK, need); }
};
static void verdict(Ctx& c, const char* how, const Arena& a, const std::string& want, const Text& t, long end, long want_end) {
  long w = 0;
  if (a.content() != want) { c.fail("encoding", "%s of [%s] stored %s, expected %s", how, show(t).c_str(), hex_bytes(a.content()).c_str(), hex_bytes(want).c_str()); return; }
  if (!a.intact(w)) { c.fail("overwrite", "%s of [%s] changed octet %ld (encoding takes %zu)", how, show(t).c_str(), w, a.need); return; }
  if (end >= 0 && end != want_end) c.fail("position", "%s of [%s] leaves the iterator on octet %ld, expected %ld", how, show(t).c_str(), end, want_end);
}
template <class P> static void write_ptr(Ctx& c, Rng& r, const char* how, const Text& t) {
  std::string want = ref::encode(t); Arena a(r, want.size());
  u5e::utf8_iterator<P> it(a.at<P>(0)), b(it);
  for (int cp : t) { *it = u5e::codepoint(cp); ++it; c.count("writes"); }
  verdict(c, how, a, want, t, native_pos(it, a.at<P>(0), 0), (long)want.size());
  // reading back what was written
  u5e::utf8_iterator<P> e(a.at<P>(want.size())); u5e::utf8_const_iterator<P> cb(a.at<P>(0)), ce(a.at<P>(want.size()));
  Text back = ops::cps(b, e, t.size()), cback = ops::cps(cb, ce, t.size());
  if (back != t || cback != t) c.fail("read-back", "%s of [%s] reads back as [%s] / [%s]", how, show(t).c_str(), show(back).c_str(), show(cback).c_str());
  Text rev; for (auto i = ce; i != cb && rev.size() <= t.size();) { --i; rev.push_back((int)*i); } std::reverse(rev.begin(), rev.end());
  if (rev != t) c.fail("read-back", "%s of [%s] reads backwards as [%s]", how, show(t).c_str(), show(rev).c_str());
}
static void write_string(Ctx& c, Rng& r, const Text& t) {
  std::string want = ref::encode(t); Arena a(r, want.size());
  std::string s((const char*)a.v.data(), a.v.size()); 
  u5e::utf8_string us(s);
  u5e::utf8_string::iterator it(us.native_begin() + SLACK);
  if (r.chance(1, 2)) for (int cp : t) { auto p = *it; p = u5e::codepoint(cp); if (r.chance(1, 3)) it++; else ++it; }
  else it = std::copy(t.begin(), t.end(), it);
  long end = native_pos(it, us.native_begin() + SLACK, 0);
  std::copy(us.native_string.begin(), us.native_string.end(), (char*)a.v.data());
  verdict(c, "std::string::iterator write", a, want, t, end, (long)want.size());
}
static void write_copy(Ctx& c, Rng& r, const Text& t) {
  std::string want = ref::encode(t);
  { Arena a(r, want.size()); u5e::utf32ne_string src(to_i(t)); u5e::utf8_iterator<char*> o(a.at<char*>(0));
    auto e = std::copy(src.codepoint_cbegin(), src.codepoint_cend(), o);
    verdict(c, "std::copy from UTF-32", a, want, t, native_pos(e, a.at<char*>(0), 0), (long)want.size()); }
  { Arena a(r, want.size()); std::string b = want; u5e::utf8_string src(b); u5e::utf8_iterator<char*> o(a.at<char*>(0));
    auto e = std::copy(src.codepoint_cbegin(), src.codepoint_cend(), o);
    verdict(c, "std::copy from UTF-8", a, want, t, native_pos(e, a.at<char*>(0), 0), (long)want.size()); }
  { Arena a(r, want.size()); u5e::utf8_iterator<char*> o(a.at<char*>(0));
    auto e = std::transform(t.begin(), t.end(), o, [](int x) { return u5e::codepoint(x); });
    verdict(c, "std::transform", a, want, t, native_pos(e, a.at<char*>(0), 0), (long)want.size()); }
}
static void appends(Ctx& c, Rng& r, const Text& t) {
  Text pre = r.chance(1, 2) ? Text() : gen::text(r, 8); std::string p8 = ref::encode(pre);
  size_t i = r.chance(1, 2) ? 0 : r.below(t.size() + 1), j = r.chance(1, 2) ? t.size() : r.range((int)i, (int)t.size());
  Text part(t.begin() + i, t.begin() + j); std::string want = p8 + ref::encode(part);
  auto judge = [&](const char* how, const std::string& got) { c.count("appends"); if (got != want) c.fail("append", "%s: [%s] appended to [%s] gives %s, expected %s", how, show(part).c_str(), show(pre).c_str(), hex_bytes(got).c_str(), hex_bytes(want).c_str()); };
  { u5e::utf8_string d(p8); u5e::utf32ne_string s(to_i(t));
    auto& ret = d.append_from_utf32ne<istring>(s.codepoint_cbegin() + i, s.codepoint_cbegin() + j); judge("utf32ne_string", d.native_string); if (&ret != &d) c.fail("append", "append_from_utf32ne does not return the string"); }
  { u5e::utf8_string d(p8); Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view s(iview(e.p.get(), e.n));
    d.append_from_utf32ne<iview>(s.codepoint_cbegin() + i, s.codepoint_cbegin() + j); judge("utf32ne_string_view", d.native_string); }
  { utf8_mon d{mon::str8(p8)}; u5e::utf32ne_string s(to_i(t));
    d.append_from_utf32ne<istring>(s.codepoint_cbegin() + i, s.codepoint_cbegin() + j); judge("monitored", raw(d.native_string)); }
  { u5e::utf8_string d(p8); std::string w2 = p8; std::swap(w2, want);   // one by one
    for (int cp : part) { u5e::utf32ne_string s(istring(1, cp)); d.append_from_utf32ne<istring>(s.codepoint_cbegin(), s.codepoint_cend()); ref::encode1((uint32_t)cp, want); }
    judge("one by one", d.native_string); }
  { u5e::utf32ne_string d(to_i(pre)); u5e::utf32ne_string s(to_i(t)); d.append_from_utf32ne<istring>(s.codepoint_cbegin() + i, s.codepoint_cbegin() + j);
    Text w = pre; w.insert(w.end(), part.begin(), part.end()); if (from_i(d.native_string) != w) c.fail("append", "UTF-32 destination: [%s] appended to [%s] gives [%s]", show(part).c_str(), show(pre).c_str(), show(from_i(d.native_string)).c_str()); }
}
// Overwriting a codepoint by one of the same size inside an exact buffer.
static void in_place(Ctx& c, Rng& r, const Text& t) {
  if (t.empty()) return;
  std::string b = ref::encode(t); Exact<char> e(b.data(), b.size()); std::vector<int> off = ref::offsets(t); Text w = t;
  for (int k = 0; k < 6; k++) {
    size_t i = r.below(t.size()); int n = ref::enc_size(w[i]), v;
    do v = n > 4 ? (int)(w[i] ^ (int)r.below(64)) : gen::scalar(r); while (ref::enc_size((uint32_t)v) != n);
    u5e::utf8_iterator<char*> it(e.p.get() + off[i]); *it = u5e::codepoint(v); w[i] = v; c.count("writes");
  }
  std::string got(e.p.get(), e.n); if (got != ref::encode(w)) c.fail("in-place", "overwriting codepoints of [%s] gives %s, expected %s", show(t).c_str(), hex_bytes(got).c_str(), hex_bytes(ref::encode(w)).c_str());
}
static void one(Ctx& c, Rng& r, const Text& t, bool all) {
  switch (all ? 0 : r.below(5)) {
    case 0: write_ptr<char*>(c, r, "char* write", t); if (!all) break;
    case 1: write_ptr<unsigned char*>(c, r, "unsigned char* write", t); if (!all) break;
    case 2: write_string(c, r, t); if (!all) break;
    case 3: write_copy(c, r, t); if (!all) break;
    default: appends(c, r, t);
  }
  if (all) in_place(c, r, t);
  c.evaluations++;
  if (!t.empty() && ref::enc_size((uint32_t)t[0]) > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
static int any31(Rng& r) {
  switch (r.below(4)) {
    case 0: return gen::scalar(r);
    case 1: { int k = r.below(31); int64_t v = (int64_t(1) << k) + r.range(-2, 2); return v < 0 ? 0 : v > 0x7FFFFFFF ? 0x7FFFFFFF : (int)v; }
    case 2: { int k = r.range(1, 31); return (int)(r.next() & ((uint64_t(1) << k) - 1)); }
    default: return r.pick(gen::P().edges);
  }
}
void run(Ctx& c) {
  const uint64_t block = 256, nb = 0x110000 / block;
  uint64_t step = c.sanitized() && !c.thorough ? 8 : 1, off = c.seed % step;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) {
    if (i % step != off && i > 24 && i < nb - 2) return;
    for (uint64_t k = 0; k < block; k++) {
      int cp = (int)(i * block + k); Text t{cp}; if (r.chance(1, 2)) t.push_back(any31(r)); if (r.chance(1, 4)) t.insert(t.begin(), any31(r));
      one(c, r, t, false); c.count("codepoints_swept");
      if (c.thorough || !c.sanitized()) { appends(c, r, Text{cp}); write_ptr<char*>(c, r, "char* write", Text{cp}); }
    }
  });
  c.cases("beyond-unicode", c.amount(c.sanitized() ? 20000 : 150000, 4000000), [&](Rng& r, uint64_t) { Text t; int n = r.range(1, 4); for (int k = 0; k < n; k++) t.push_back(any31(r)); one(c, r, t, false); });
  c.cases("powers", 32 * 5, [&](Rng& r, uint64_t i) { int64_t v = (int64_t(1) << (i / 5)) + (int)(i % 5) - 2; if (v < 0 || v > 0x7FFFFFFF) return; one(c, r, Text{(int)v}, true); one(c, r, Text{'a', (int)v, 'b'}, true); });
  c.cases("texts", c.amount(c.sanitized() ? 2500 : 15000, 300000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r), true); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), true); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), true); });
  c.cases("wide-lengths", gen::wide_shapes() * (c.thorough ? 20 : 1), [&](Rng& r, uint64_t i) { one(c, r, gen::wide_shaped(r, i), true); });
  c.cases("long", c.amount(16, 160), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(20000, 100000)), true); });
}
