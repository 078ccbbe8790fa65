#include "ops.hpp"
#include <deque>
using namespace vf;
typedef std::string Str;
struct Want { bool ok; Str repaired; bool exact; };      // exact: the repair is fully determined
static Want expect(const Str& s) {
  Want w; w.ok = ops::bounds_ok(s); w.repaired = s; w.exact = true;
  size_t lead = 0; while (lead < s.size() && ops::cont(s[lead])) w.repaired[lead++] = '?';
  size_t n = s.size(), first_bad = n;
  for (size_t d = 1; d <= 6 && d <= n; d++) {
    size_t p = n - d; if (ops::cont(s[p]) || (unsigned char)s[p] < 0xC0 || ops::lead_size(s[p]) <= (int)d) continue;
    first_bad = p; w.repaired[p] = '?';
    for (size_t q = p + 1; q < n && ops::cont(s[q]); q++) w.repaired[q] = '?';
  }
  ref::Text t;   // interior: what lies between the leading continuations and the incomplete codepoint
  Str tail = first_bad < n ? s.substr(first_bad + 1) : Str(); bool tail_cont = true; for (char x : tail) if (!ops::cont(x)) tail_cont = false;
  w.exact = w.ok || (tail_cont && ref::decode(s.substr(lead, first_bad > lead ? first_bad - lead : 0), t));
  return w;
}
static uint64_t cap_reads(const Str&) { return 64; }
static void judge_enforce(Ctx& c, const char* how, const Str& s, const Want& w, bool ret, const Str& got, bool open) {
  if (!open && ret != w.ok) { c.fail("enforce-verdict", "%s: enforce(%s) returned %d", how, hex_bytes(s).c_str(), ret); return; }
  if (ret && got != s) { c.fail("enforce-touched", "%s: enforce changed the acceptable %s to %s", how, hex_bytes(s).c_str(), hex_bytes(got).c_str()); return; }
  if (!open && w.exact && got != w.repaired) { c.fail("enforce-repair", "%s: enforce made %s of %s, expected %s", how, hex_bytes(got).c_str(), hex_bytes(s).c_str(), hex_bytes(w.repaired).c_str()); return; }
  for (size_t i = 0; i < s.size(); i++) if (got[i] != s[i] && (got[i] != '?' || (!open && w.repaired[i] == s[i]))) { c.fail("enforce-touched", "%s: enforce changed octet %zu of %s to %02x", how, i, hex_bytes(s).c_str(), (unsigned char)got[i]); return; }
  if (!open && !ops::bounds_ok(got)) { c.fail("enforce-unfinished", "%s: %s still has bad bounds after enforce: %s", how, hex_bytes(s).c_str(), hex_bytes(got).c_str()); return; }
}
template <class I> static bool chk(I b, I e) { return u5e::utf8_bounds<I>::check(b, e); }
template <class I> static bool enf(I b, I e) { return u5e::utf8_bounds<I>::enforce(b, e); }
static void one(Ctx& c, Rng& r, const Str& s, int how = -1) {
  Want w = expect(s); const bool open = false; size_t n = s.size();   // 0xFE and 0xFF announce six, as all first octets above 0xFB
  c.evaluations++; if (ops::bounds_open(s)) c.count("high_first_octets_near_the_end"); c.count(w.ok ? "acceptable" : "unacceptable");
  if (n > 1 && (ops::cont(s[0]) || !w.ok || (unsigned char)s[n - 1] >= 0x80)) c.nontrivial(hash_bytes(s.data(), n));
  if (n > 2 && n < 16) c.sample(hex_bytes(s));
  auto v = [&](const char* name, bool got) { if (!open && got != w.ok) c.fail("verdict", "%s: check(%s) returned %d", name, hex_bytes(s).c_str(), got); };
  if (how < 0) how = 63;
  if (how & 1) {                                        // inside hostile neighbours
    int a = r.range(8, 16), z = r.range(8, 16); Str before = gen::junk(r, a), after = gen::junk(r, z), buf = before + s + after;
    const char* p = buf.data() + a; bool g = chk<const char*>(p, p + n); v("inside a buffer", g);
    Str b2 = gen::junk(r, a) + s + gen::junk(r, z); bool g2 = chk<const char*>(b2.data() + a, b2.data() + a + n);
    if (g != g2) c.fail("neighbours", "check(%s) depends on what surrounds it: %s / %s", hex_bytes(s).c_str(), hex_bytes(buf).c_str(), hex_bytes(b2).c_str());
    if (buf != before + s + after) c.fail("check-wrote", "check changed %s", hex_bytes(s).c_str());
    Str m = buf; bool ret = enf<char*>(&m[0] + a, &m[0] + a + n);
    if (m.substr(0, a) != before || m.substr(a + n) != after) c.fail("enforce-outside", "enforce(%s) wrote outside the range: %s became %s", hex_bytes(s).c_str(), hex_bytes(buf).c_str(), hex_bytes(m).c_str());
    judge_enforce(c, "inside a buffer", s, w, ret, m.substr(a, n), open);
    Str again = m; bool ret2 = enf<char*>(&again[0] + a, &again[0] + a + n);
    if (!open && (!ret2 || again != m)) c.fail("enforce-again", "enforcing %s twice: second call %d, %s then %s", hex_bytes(s).c_str(), ret2, hex_bytes(m.substr(a, n)).c_str(), hex_bytes(again.substr(a, n)).c_str());
    bool g3 = chk<char*>(&m[0] + a, &m[0] + a + n); if (!open && !g3) c.fail("enforce-unfinished", "check rejects %s after enforce", hex_bytes(s).c_str());
  }
  if (how & 2) {                                        // nothing readable behind
    Exact<char> e(s.data(), n); v("exact buffer", chk<const char*>(e.p.get(), e.p.get() + n));
    bool ret = enf<char*>(e.p.get(), e.p.get() + n); judge_enforce(c, "exact buffer", s, w, ret, Str(e.p.get(), n), open);
  }
  if (how & 4) {                                        // monitored
    mon::str8 m(s); m.ctl().hostile = gen::junk(r, 1)[0]; m.ctl().budget = 4096 + 8 * n;
    try {
      v("monitored", chk<mon::str8::const_iterator>(m.cbegin(), m.cend()));
      c.count("monitored.element_reads", m.ctl().reads);
      if (m.ctl().reads > cap_reads(s)) c.fail("reads", "check looked at %llu octets of a text of %zu", (unsigned long long)m.ctl().reads, n);
      if (m.ctl().oob) c.fail("stray-access", "check looks at octet %ld of %s (%zu octets)", m.ctl().first_oob, hex_bytes(s).c_str(), n);
      m.ctl().oob = m.ctl().reads = 0;
      bool ret = enf<mon::str8::iterator>(m.begin(), m.end());
      size_t lead = 0; while (lead < n && ops::cont(s[lead])) lead++;
      if (m.ctl().reads > cap_reads(s) + 64 + 8 * lead) c.fail("reads", "enforce accessed %llu octets of a text of %zu", (unsigned long long)m.ctl().reads, n);
      if (m.ctl().oob) c.fail("stray-access", "enforce accesses octet %ld of %s (%zu octets)", m.ctl().first_oob, hex_bytes(s).c_str(), n);
      judge_enforce(c, "monitored", s, w, ret, m.str(), open);
    } catch (mon::Budget&) { c.fail("no-termination", "bounds of %s: access budget exceeded", hex_bytes(s).c_str()); }
  }
  if (how & 8) { Str m = s; v("std::string", chk<Str::const_iterator>(m.cbegin(), m.cend())); bool ret = enf<Str::iterator>(m.begin(), m.end()); judge_enforce(c, "std::string", s, w, ret, m, open); }
  if (how & 32) { std::deque<char> m(s.begin(), s.end()); v("deque", chk<std::deque<char>::const_iterator>(m.cbegin(), m.cend())); c.count("in_pieces"); bool ret = enf<std::deque<char>::iterator>(m.begin(), m.end()); judge_enforce(c, "deque", s, w, ret, Str(m.begin(), m.end()), open); }
  if (how & 16) { std::vector<unsigned char> m(s.begin(), s.end()); v("vector", chk<std::vector<unsigned char>::const_iterator>(m.cbegin(), m.cend()));
    bool ret = enf<std::vector<unsigned char>::iterator>(m.begin(), m.end()); judge_enforce(c, "vector", s, w, ret, Str(m.begin(), m.end()), open); }
}
void run(Ctx& c) {
  static const unsigned char R14[] = {'a', 0x7F, 0x80, 0xBF, 0xC2, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD};
  static const unsigned char R7[] = {'a', 0x80, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC};
  bool s = c.sanitized();
  c.cases("octets-1-2", 256, [&](Rng& r, uint64_t i) { one(c, r, Str(1, (char)i)); for (int k = 0; k < 256; k++) one(c, r, Str{(char)i, (char)k}); if (!i) for (int k = 0; k < 20; k++) one(c, r, Str()); });
  c.cases("short", 14 * 14, [&](Rng& r, uint64_t i) {
    int L = c.thorough || !s ? 5 : 4; uint64_t n = 1; for (int k = 2; k < L; k++) n *= 14;
    for (uint64_t j = 0; j < n; j++) { Str x; x += (char)R14[i % 14]; x += (char)R14[i / 14]; uint64_t q = j; for (int k = 2; k < L; k++) { x += (char)R14[q % 14]; q /= 14; } for (int l = 3; l <= L; l++) if (l == L || x[l] == 'a') one(c, r, x.substr(0, l), s ? 6 : 1 << r.below(6)); }
  });
  c.cases("tails", 7 * 7, [&](Rng& r, uint64_t i) {      // every combination of the last seven octets
    if (s && !c.thorough && i % 4 != c.seed % 4) return;
    for (int j = 0; j < 7 * 7 * 7 * 7 * 7; j++) { Str x; int q = j; for (int k = 0; k < 5; k++) { x += (char)R7[q % 7]; q /= 7; } x += (char)R7[i % 7]; x += (char)R7[i / 7]; if (r.chance(1, 3)) x = "a" + x; one(c, r, x, s ? (r.chance(1, 2) ? 2 : 4) : 1 << r.below(6)); }
  });
  c.cases("truncated", c.amount(s ? 3000 : 20000, 300000), [&](Rng& r, uint64_t) {   // every cut of a well-formed text
    Str b = ref::encode(gen::text(r, 30)); for (int k = 0; k < 12; k++) { size_t i = r.below(b.size() + 1), j = r.range((int)i, (int)b.size()); one(c, r, b.substr(i, j - i)); }
    one(c, r, b); });
  c.cases("arbitrary", c.amount(s ? 20000 : 150000, 3000000), [&](Rng& r, uint64_t) { one(c, r, ops::octets(r, gen::length(r, 60))); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { std::string b = ref::encode(gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i)); one(c, r, b); if (r.chance(1, 2)) b.resize(b.size() - 1); one(c, r, b); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; std::string b = ref::encode(gen::shaped(r, i)); one(c, r, b); if (!b.empty() && r.chance(1, 2)) b.resize(b.size() - 1); one(c, r, b); });
  c.cases("long", c.amount(200, 2000), [&](Rng& r, uint64_t) {
    Str b = r.chance(1, 4) ? Str(r.range(1000, 60000), (char)(0x80 + r.below(64))) : ref::encode(gen::long_text(r, r.range(1000, 40000)));
    if (r.chance(1, 2)) b = Str(r.below(2000), (char)0xBF) + b;
    if (r.chance(2, 3)) b.resize(b.size() - r.below(5)); one(c, r, b); });
}
