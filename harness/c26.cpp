// A text processed in pieces gives what the whole gives.
#include "ops.hpp"
using namespace vf; using ref::Text;
template <class S, class G> static int norm(char f, G a, G b, u5e::utf32ne_string& o) {
  typedef u5e::utf32ne_string O;
  switch (f) { case 'd': return u5e::filter(a, b, o, u5e::normalization_form_d<S, O>); case 'c': return u5e::filter(a, b, o, u5e::normalization_form_c<S, O>); case 'D': return u5e::filter(a, b, o, u5e::normalization_form_kd<S, O>); default: return u5e::filter(a, b, o, u5e::normalization_form_kc<S, O>); }
}
template <class S, class G> static int norm(char f, G a, G b, u5e::utf8_string& o) {
  typedef u5e::utf8_string O;
  switch (f) { case 'd': return u5e::filter(a, b, o, u5e::normalization_form_d<S, O>); case 'c': return u5e::filter(a, b, o, u5e::normalization_form_c<S, O>); case 'D': return u5e::filter(a, b, o, u5e::normalization_form_kd<S, O>); default: return u5e::filter(a, b, o, u5e::normalization_form_kc<S, O>); }
}
struct OnStr { Ctx& c; Rng& r; const Text& t; int rounds;
  template <class S> void operator()(const char* n, S& s) const {
    typedef u5e::basic_grapheme_iterator<S> G; typedef typename S::const_iterator I;
    std::vector<int> seg = ref::db().segment(t); int ng = t.empty() ? 0 : (int)seg.size() - 1, nc = (int)t.size(); size_t cap = s.native_string.size() + 4;
    auto cp_at = [&](int i) { I q = s.codepoint_cbegin(); if (i >= nc) return s.codepoint_cend(); for (int k = 0; k < i; k++) ++q; return q; };
    auto g_at = [&](int g, int how) -> G {          // a grapheme iterator at grapheme g, obtained in some way
      if (how == 0) { G q = s.grapheme_begin(); for (int k = 0; k < g; k++) ++q; return q; }
      if (g >= ng) return s.grapheme_end();
      if (how == 1) return G(s.codepoint_cbegin(), s.codepoint_cend(), cp_at(r.range(seg[g], seg[g + 1] - 1)));   // sought from anywhere inside
      if (how == 2) return G(s.codepoint_cbegin(), s.codepoint_cend(), cp_at(seg[g]), cp_at(seg[g + 1]));
      G q = s.grapheme_begin(); for (int k = 0; k < g; k++) q++; return q; };
    for (int round = 0; round < rounds; round++) {
      std::vector<int> cut{0, ng}; int k = r.below(5); while (k-- && ng) cut.push_back(r.range(0, ng)); std::sort(cut.begin(), cut.end());
      for (int q = 0; q < 4; q++) { char f = ops::FORMS[q]; if (rounds > 1 && r.chance(1, 2)) continue;
        u5e::utf32ne_string whole; int total = norm<S>(f, s.grapheme_begin(), s.grapheme_end(), whole);
        u5e::utf32ne_string parts, joined; u5e::utf8_string p8; int sum = 0, sum8 = 0;
        for (size_t i = 0; i + 1 < cut.size(); i++) { G a = g_at(cut[i], r.below(4)), b = g_at(cut[i + 1], r.below(4)); c.count("pieces");
          sum += norm<S>(f, a, b, parts); sum8 += norm<S>(f, a, b, p8); u5e::utf32ne_string one; norm<S>(f, a, b, one); joined.append(one.codepoint_cbegin(), one.codepoint_cend()); }
        Text w = from_i(whole.native_string), d8; bool wf = ref::decode(p8.native_string, d8); c.count("passes");
        if (sum != total || sum8 != total) c.fail("count", "%s: %s of [%s] in %zu pieces reports %d/%d, at once %d", n, ops::form_name(f), show(t).c_str(), cut.size() - 1, sum, sum8, total);
        if (from_i(parts.native_string) != w || from_i(joined.native_string) != w || !wf || d8 != w) c.fail("pieces", "%s: %s of [%s] in %zu pieces gives [%s], at once [%s]", n, ops::form_name(f), show(t).c_str(), cut.size() - 1, show(from_i(parts.native_string)).c_str(), show(w).c_str()); }
      // graphemes and codepoints of the pieces; appended pieces
      S const& cs = s; (void)cs; Text cps; std::vector<Text> gs; u5e::basic_encodedstring<typename Enc<S>::type, typename Enc<S>::native> acc, acc2;
      for (size_t i = 0; i + 1 < cut.size(); i++) { G a = g_at(cut[i], r.below(4)), b = g_at(cut[i + 1], r.below(4)), a2(a); size_t lim = cap; acc.template append<typename Enc<S>::source>(a2, b); while (a != b && lim--) { auto g = *a; gs.push_back(ops::cps(g.codepoint_begin(), g.codepoint_end(), cap)); a++; } }
      std::vector<Text> wg; for (int g = 0; g < ng; g++) wg.push_back(Text(t.begin() + seg[g], t.begin() + seg[g + 1]));
      if (gs != wg) c.fail("graphemes", "%s: the graphemes of the pieces of [%s] are not those of the text", n, show(t).c_str());
      std::vector<int> cc{0, nc}; k = r.below(5); while (k--) cc.push_back(r.range(0, nc)); std::sort(cc.begin(), cc.end()); u5e::utf32ne_string dec, decw; int dn = 0;
      for (size_t i = 0; i + 1 < cc.size(); i++) { I a = cp_at(cc[i]), b = cp_at(cc[i + 1]); dn += u5e::filter(a, b, dec, u5e::canonical_decomposition<u5e::utf32ne_string>); acc2.template append<typename Enc<S>::source>(a, b); for (Text x = ops::cps(a, b, cap); ;) { cps.insert(cps.end(), x.begin(), x.end()); break; } c.count("pieces"); }
      int dw = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), decw, u5e::canonical_decomposition<u5e::utf32ne_string>);
      if (cps != t) c.fail("codepoints", "%s: the codepoints of the pieces of [%s] are [%s]", n, show(t).c_str(), show(cps).c_str());
      if (dn != dw || from_i(dec.native_string) != from_i(decw.native_string)) c.fail("decomposition", "%s: decomposing [%s] in pieces differs from at once", n, show(t).c_str());
      if (ops::codepoints(acc) != t || ops::codepoints(acc2) != t) c.fail("append", "%s: appending the pieces of [%s] does not give the text", n, show(t).c_str());
      // a sub-range is a text of its own
      if (nc) { int i = r.range(0, nc), j = r.range(i, nc); Text sub(t.begin() + i, t.begin() + j); std::vector<int> ss = ref::db().segment(sub); int sn = sub.empty() ? 0 : (int)ss.size() - 1; I b = cp_at(i), e = cp_at(j); c.count("subranges");
        std::vector<Text> g2, w2; for (int g = 0; g < sn; g++) w2.push_back(Text(sub.begin() + ss[g], sub.begin() + ss[g + 1])); G it(b, e), en(b, e, e); size_t lim = cap; while (it != en && lim--) { auto g = *it; g2.push_back(ops::cps(g.codepoint_begin(), g.codepoint_end(), cap)); ++it; }
        if (g2 != w2) c.fail("subrange", "%s: segmenting codepoints %d..%d of [%s] on their own gives %zu graphemes, expected %d", n, i, j, show(t).c_str(), g2.size(), sn);
        if (sn) { int g = r.below(sn); G q(b, e, cp_at(i + r.range(ss[g], ss[g + 1] - 1))); auto x = *q; if (ops::cps(x.codepoint_begin(), x.codepoint_end(), cap) != w2[g]) c.fail("subrange-seek", "%s: seeking inside codepoints %d..%d of [%s] finds the wrong grapheme", n, i, j, show(t).c_str()); }
        // an iterator given both ends designates what lies between them, and goes on from its end
        { G q(s.codepoint_cbegin(), s.codepoint_cend(), b, e), q2(q); auto x = *q; c.count("given_ranges"); Text got = ops::cps(x.codepoint_begin(), x.codepoint_end(), cap); int k2 = 0; if (j > i) { size_t was = 0; for (I z = s.codepoint_cbegin(); z != x.codepoint_begin() && was < cap; ++z) was++; k2 = (int)was - i; }
          if (got != sub || k2) c.fail("given", "%s: a grapheme iterator given codepoints %d..%d of [%s] designates [%s] at %d", n, i, j, show(t).c_str(), show(got).c_str(), i + k2);
          else if (j > i) { char f = ops::FORMS[r.below(4)]; u5e::utf32ne_string o, p, src(to_i(sub)); u5e::basic_grapheme_iterator<u5e::utf32ne_string> g(src.codepoint_cbegin(), src.codepoint_cend(), src.codepoint_cbegin(), src.codepoint_cend()); typedef u5e::utf32ne_string O; int u, v;
            switch (f) { case 'd': u = u5e::normalization_form_d<S, O>(*q, o); v = u5e::normalization_form_d<O, O>(*g, p); break; case 'c': u = u5e::normalization_form_c<S, O>(*q, o); v = u5e::normalization_form_c<O, O>(*g, p); break; case 'D': u = u5e::normalization_form_kd<S, O>(*q, o); v = u5e::normalization_form_kd<O, O>(*g, p); break; default: u = u5e::normalization_form_kc<S, O>(*q, o); v = u5e::normalization_form_kc<O, O>(*g, p); }
            if (u != v || from_i(o.native_string) != from_i(p.native_string) || from_i(o.native_string) != ref::db().normalize(sub, f)) c.fail("given-form", "%s: %s of codepoints %d..%d of [%s] given as one grapheme is [%s]", n, ops::form_name(f), i, j, show(t).c_str(), show(from_i(o.native_string)).c_str());
            ++q2; bool end = q2 == s.grapheme_end(); if (end != (j == nc)) c.fail("given", "%s: a grapheme iterator given codepoints %d..%d of [%s] goes on from elsewhere", n, i, j, show(t).c_str()); else if (!end) { auto y = *q2; Text w(t.begin() + j, t.begin() + *std::upper_bound(seg.begin(), seg.end(), j)); if (ops::cps(y.codepoint_begin(), y.codepoint_end(), cap) != w) c.fail("given", "%s: the grapheme that follows codepoints %d..%d of [%s] given as one is not [%s]", n, i, j, show(t).c_str(), show(w).c_str()); } } }
        char f = ops::FORMS[r.below(4)]; u5e::utf32ne_string o, p, src(to_i(sub)); int x = norm<S>(f, G(b, e), G(b, e, e), o), y = norm<u5e::utf32ne_string>(f, src.grapheme_begin(), src.grapheme_end(), p);
        if (x != y || from_i(o.native_string) != from_i(p.native_string)) c.fail("subrange-form", "%s: %s of codepoints %d..%d of [%s] differs from that of the same text alone", n, ops::form_name(f), i, j, show(t).c_str()); }
    }
  }
  // an owned string in the same encoding, and the native type to name as the source of an append
  template <class X> struct Enc; };
template <class N> struct Own8 { typedef u5e::utf8 type; typedef std::string native; typedef N source; };
template <class N> struct Own32 { typedef u5e::utf32ne type; typedef istring native; typedef N source; };
template <class N> struct OnStr::Enc<u5e::basic_encodedstring<u5e::utf8, N>> : Own8<N> {};
template <class N> struct OnStr::Enc<u5e::basic_encodedstring<u5e::utf32ne, N>> : Own32<N> {};
static void one(Ctx& c, Rng& r, const Text& t, int which, int rounds) {
  OnStr f{c, r, t, rounds}; if (which == ST_ALL || r.chance(1, 2)) each8(c, r, ref::encode(t), which, f); else each32(c, r, t, which, f); if (which == ST_ALL) each32(c, r, t, which, f);
  c.evaluations++; std::vector<int> seg = ref::db().segment(t); if (seg.size() > 2) c.nontrivial(hash_cps(t)); c.sample(show(t, 12));
}
void run(Ctx& c) {
  bool s = c.sanitized(); g_budget_sq = 4000;
  c.cases("texts", c.amount(s ? 1500 : 8000, s ? 20000 : 200000), [&](Rng& r, uint64_t i) { one(c, r, gen::text(r, 60, i % 3 ? -1 : 9), i % 8 ? some_storage(r) : ST_ALL, 3); });
  c.cases("jamo", c.amount(s ? 200 : 1500, 20000), [&](Rng& r, uint64_t) { Text t; int n = r.range(1, 12); for (int k = 0; k < n; k++) t.push_back(r.chance(1, 3) ? r.pick(gen::P().cjamo) : gen::jamo(r)); one(c, r, t, some_storage(r), 3); });
  c.cases("clusters", c.amount(s ? 400 : 3000, 40000), [&](Rng& r, uint64_t) { Text t; int n = r.range(1, 10); for (int k = 0; k < n; k++) t.push_back(gen::by_break(r)); one(c, r, t, some_storage(r), 4); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), some_storage(r), 1); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i), some_storage(r), 1); });
  c.cases("long", c.amount(s ? 8 : 60, 1000), [&](Rng& r, uint64_t) { Text t; while (t.size() < 1500) { Text x = gen::text(r, 300); t.insert(t.end(), x.begin(), x.end()); } one(c, r, t, some_storage(r), 2); });
}
