#include "ops.hpp"
using namespace vf; using ref::Text;
struct OnStr { Ctx& c; Rng& r; const Text& t; const std::vector<int>& seg; const std::vector<int>& gof; bool utf8; int most;
  template <class E, class N> void operator()(const char* n, u5e::basic_encodedstring<E, N>& s) const {
    typedef u5e::basic_encodedstring<E, N> S; typedef u5e::basic_grapheme_iterator<S> G; typedef typename S::const_iterator CI;
    std::vector<int> own = utf8 ? ref::octet_owner(t) : std::vector<int>(); if (!utf8) for (size_t i = 0; i <= t.size(); i++) own.push_back((int)i);
    size_t P = own.size(), ng = seg.size() - 1; auto nb = s.native_cbegin();
    auto at = [&](size_t p) { return CI(nb + (long)p); };
    auto seek = [&](size_t p) { return G(s.codepoint_cbegin(), s.codepoint_cend(), at(p)); };
    bool all = P <= (size_t)most;
    for (size_t q = 0; q < (all ? P : (size_t)most); q++) {
      size_t p = all ? q : q == 0 ? P - 1 : r.below(P); size_t g = gof[own[p]];
      G it = seek(p); c.count("seeks");
      if ((it == s.grapheme_end()) != (g == ng) || (it == s.codepoint_cend()) != (g == ng) || (it != s.grapheme_end()) != (g != ng)) { c.fail("end", "%s: seeking to position %zu of [%s]: end is %d", n, p, show(t).c_str(), it == s.grapheme_end()); return; }
      size_t k = g; int lim = all && P < 20 ? 100 : 3;
      for (int st = 0; st <= lim && k < ng; st++, k++) {         // what it designates, and what follows
        auto gr = *it; Text got = ops::cps(gr.codepoint_begin(), gr.codepoint_end(), t.size()), want(t.begin() + seg[k], t.begin() + seg[k + 1]);
        if (got != want) { c.fail(st ? "increment" : "seek", "%s: from position %zu of [%s], %d steps on, [%s] instead of [%s]", n, p, show(t).c_str(), st, show(got).c_str(), show(want).c_str()); return; }
        if (st & 1) it++; else ++it;
      }
      if (lim == 100 && !(it == s.grapheme_end())) { c.fail("increment", "%s: from position %zu of [%s] the end is not reached", n, p, show(t).c_str()); return; }
      // the same grapheme sequential iteration visits
      G a = seek(p);
      int cmp = all ? (P < 14 ? (int)P : 8) : 6;
      for (int z = 0; z < cmp; z++) {
        size_t o = all && P < 14 ? (size_t)z : r.chance(1, 2) ? std::min(P - 1, p + r.below(6)) : r.below(P);
        bool same = gof[own[o]] == (int)g; G b = seek(o); CI co = at(o); c.count(same ? "compared_same" : "compared_other");
        if ((a == b) != same || (b == a) != same || (a != b) == same) { c.fail("compare", "%s: grapheme iterators at positions %zu and %zu of [%s]: == %d / %d, != %d", n, p, o, show(t).c_str(), a == b, b == a, a != b); return; }
        if ((a == co) != same || (a != co) == same) { c.fail("compare-codepoint", "%s: grapheme iterator at position %zu of [%s] vs codepoint position %zu: == %d", n, p, show(t).c_str(), o, a == co); return; }
        if (o >= p || gof[own[o]] >= (int)g) append(n, s, a, b, g, (size_t)gof[own[o]]);
      }
    }
    // every grapheme of a sequential pass is found again by seeking
    if (all) { size_t k = 0; for (G it = s.grapheme_begin(); it != s.grapheme_end() && k < ng; ++it, k++) { G again(s.codepoint_cbegin(), s.codepoint_cend(), (*it).codepoint_begin()); if (!(again == it) || !((*again).codepoint_end() == (*it).codepoint_end())) { c.fail("seek", "%s: seeking to the start of grapheme %zu of [%s]", n, k, show(t).c_str()); return; } } }
  }
  template <class E, class N, class G> void append(const char* n, u5e::basic_encodedstring<E, N>& s, G a, G b, size_t ga, size_t gb) const {
    typename std::conditional<std::is_same<E, u5e::utf8>::value, u5e::utf8_string, u5e::utf32ne_string>::type d; Text pre{0x20AC, 'p'};
    if (r.chance(1, 2)) pre.clear();
    u5e::utf32ne_string p32(to_i(pre)); d.template append_from_utf32ne<istring>(p32.codepoint_cbegin(), p32.codepoint_cend());
    auto& ret = d.template append<N>(a, b); if (&ret != &d) c.fail("append", "append does not return the string");
    Text want = pre; want.insert(want.end(), t.begin() + seg[ga], t.begin() + seg[gb]); c.count("grapheme_appends");
    Text got = result(d);
    if (got != want) c.fail("append", "%s: appending graphemes %zu to %zu of [%s] gives [%s], expected [%s]", n, ga, gb, show(t).c_str(), show(got).c_str(), show(want).c_str());
  }
  static Text result(u5e::utf8_string& d) { Text o; if (!ref::decode(d.native_string, o)) o.push_back(-1); return o; }
  static Text result(u5e::utf32ne_string& d) { return from_i(d.native_string); }
};
static void one(Ctx& c, Rng& r, const Text& t, int which, int most = 60) {
  std::vector<int> seg = ref::db().segment(t); if (t.empty()) seg.assign(1, 0);
  std::vector<int> gof(t.size() + 1); for (size_t g = 0; g + 1 < seg.size(); g++) for (int i = seg[g]; i < seg[g + 1]; i++) gof[i] = (int)g; gof[t.size()] = (int)seg.size() - 1;
  std::string b = ref::encode(t);
  { OnStr f{c, r, t, seg, gof, true, most}; each8(c, r, b, which, f); }
  { OnStr f{c, r, t, seg, gof, false, most}; each32(c, r, t, which == ST_ALL ? ST_ALL : some_storage(r), f); }
  if (which == ST_ALL) {                                         // the documented way to truncate on a grapheme
    std::vector<int> own = ref::octet_owner(t), off = ref::offsets(t);
    for (int k = 0; k < 3; k++) {
      size_t lim = r.below(own.size()); u5e::utf8_string s(b), d; typedef u5e::basic_grapheme_iterator<u5e::utf8_string> G;
      G gb(s.codepoint_cbegin(), s.codepoint_cend()), gi(s.codepoint_cbegin(), s.codepoint_cend(), u5e::utf8_string::const_iterator(s.native_cbegin() + lim)); d.append(gb, gi); c.count("truncations");
      std::string want = b.substr(0, off[seg[gof[own[lim]]]]);
      if (d.native_string != want) c.fail("truncate", "truncating %s at octet %zu gives %s, expected %s", hex_bytes(b).c_str(), lim, hex_bytes(d.native_string).c_str(), hex_bytes(want).c_str());
    }
  }
  c.evaluations++; if (seg.size() >= 2 && seg.size() - 1 < t.size()) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
static int rep(Rng& r, int g) { if (g == ref::OTHER) { static const int o[] = {'a', 0x20, 0x4E00, 0x1F600, 0xE000, 0x378, 0x10FFFF, 0, 0xE9}; return o[r.below(9)]; } return r.pick(gen::P().gcb[g]); }
void run(Ctx& c) {
  const int N = ref::NGCB; bool s = c.sanitized(); g_budget_sq = 4000;
  c.cases("class-triples", N * N * N, [&](Rng& r, uint64_t i) { if (!c.thorough && i % (s ? 12 : 2) != c.seed % (s ? 12 : 2)) return; one(c, r, Text{rep(r, i % N), rep(r, i / N % N), rep(r, i / N / N)}, some_storage(r)); });
  c.cases("one-class-runs", N * 6, [&](Rng& r, uint64_t i) { Text t; int g = i % N, n = r.range(2, 9); if (r.chance(1, 2)) t.push_back(rep(r, r.below(N))); for (int k = 0; k < n; k++) t.push_back(rep(r, g)); if (r.chance(1, 2)) t.push_back(rep(r, r.below(N))); one(c, r, t, ST_ALL); });
  c.cases("texts", c.amount(s ? 500 : 4000, s ? 10000 : 80000), [&](Rng& r, uint64_t i) { one(c, r, gen::text(r, 30, i % 2 ? 1 : -1), ST_ALL); });
  c.cases("sampled", c.amount(s ? 300 : 2000, 40000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 500), ST_ALL, 20); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL, 8); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), ST_ALL, 8); });
  c.cases("long", c.amount(16, 80), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 4000, 5), ST_ALL, 8); one(c, r, gen::long_text(r, 3000), ST_ALL, 6); });
  c.cases("empty", 2, [&](Rng& r, uint64_t) { one(c, r, Text(), ST_ALL); });
}
