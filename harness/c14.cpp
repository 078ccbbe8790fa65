#include "ops.hpp"
#include "jamo.hpp"
using namespace vf; using ref::Text;
static bool compat(char f) { return f == 'D' || f == 'C'; }
static bool composed(char f) { return f == 'c' || f == 'C'; }
static char both(char f, char g) { bool k = compat(f) || compat(g); return composed(g) ? (k ? 'C' : 'c') : (k ? 'D' : 'd'); }
// the library's form of t, over some encoding, storage and output
static Text lib(Ctx& c, Rng& r, char f, const Text& t) {
  Text o; c.count("normalizations");
  auto run = [&](auto& s) { if (r.chance(1, 2)) ops::norm32(f, s, o); else if (!ops::norm8(f, s, o)) c.fail("malformed-output", "%s of [%s]", ops::form_name(f), show(t).c_str()); };
  switch (r.below(5)) {
    case 0: { u5e::utf8_string s(ref::encode(t)); run(s); break; }
    case 1: { std::string b = ref::encode(t); Exact<char> e(b.data(), b.size()); u5e::utf8_string_view s(sview(e.p.get(), e.n)); run(s); break; }
    case 2: { Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view s(iview(e.p.get(), e.n)); run(s); break; }
    case 3: if (t.size() < 300) { utf8_mon s{mon::str8(ref::encode(t))}; run(s); check_mon(c, s.native_string.ctl(), "utf8_monitored", show(t)); break; }
    // fall through
    default: { u5e::utf32ne_string s(to_i(t)); run(s); }
  }
  return o;
}
static void differ(Ctx& c, const char* key, const Text& t, const Text& u, const Text& x, const Text& y, bool known, const char* how) {
  if (known) { c.fail("nfkc-jamo-across-graphemes", "%s: [%s] gives [%s] and [%s]", how, show(t).c_str(), show(x).c_str(), show(y).c_str()); c.total_fail--; return; }
  c.fail(key, "%s: [%s] / [%s] give [%s] and [%s]", how, show(t).c_str(), show(u).c_str(), show(x).c_str(), show(y).c_str());
}
static void chains(Ctx& c, Rng& r, const Text& t) {
  Text direct[4]; for (int i = 0; i < 4; i++) direct[i] = lib(c, r, ops::FORMS[i], t);
  auto idx = [](char f) { for (int i = 0; i < 4; i++) if (ops::FORMS[i] == f) return i; return 0; };
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
    char f = ops::FORMS[i], g = ops::FORMS[j], h = both(f, g); Text ch = lib(c, r, g, direct[i]); c.count("chains");
    const Text& want = direct[idx(h)];
    if (ch != want) {
      std::string how = std::string(ops::form_name(g)) + " of " + ops::form_name(f) + " vs " + ops::form_name(h);
      bool known = h == 'C' && has_cjamo(t) && want == per_grapheme(t, h) && ch == per_grapheme(per_grapheme(t, f), g);
      differ(c, f == g ? "idempotence" : "chain", t, direct[i], ch, want, known, how.c_str());
    }
    if (r.chance(1, 8)) {                                  // a longer chain ends where its last forms say
      char q = ops::FORMS[r.below(4)], e = both(h, q); Text ch3 = lib(c, r, q, ch); c.count("chains3");
      if (ch3 != direct[idx(e)]) { bool known = e == 'C' && has_cjamo(t) && direct[idx(e)] == per_grapheme(t, e) && ch3 == per_grapheme(per_grapheme(per_grapheme(t, f), g), q);
        differ(c, "chain3", t, direct[i], ch3, direct[idx(e)], known, "three forms in a row"); }
    }
  }
}
// raw pairs that a codepoint stands for, excluded ones too
static const std::map<std::pair<int,int>, std::vector<int>>& unpairs() { static std::map<std::pair<int,int>, std::vector<int>> m; if (m.empty()) for (auto& kv : ref::db().raw) if (!ref::db().compat_tag.at(kv.first) && kv.second.size() == 2) m[{kv.second[0], kv.second[1]}].push_back(kv.first); return m; }
static const std::map<int, std::vector<int>>& unsingle() { static std::map<int, std::vector<int>> m; if (m.empty()) for (auto& kv : ref::db().raw) if (!ref::db().compat_tag.at(kv.first) && kv.second.size() == 1) m[kv.second[0]].push_back(kv.first); return m; }
static Text rewrite(Rng& r, Text t, int steps, int* done) {
  const ref::Db& d = ref::db();
  for (int k = 0; k < steps && !t.empty(); k++) {
    size_t i = r.below(t.size()); int c = t[i];
    switch (r.below(4)) {
      case 0: {                                            // neighbouring marks of different class
        if (i + 1 < t.size() && d.ccc(c) && d.ccc(t[i + 1]) && d.ccc(c) != d.ccc(t[i + 1])) { std::swap(t[i], t[i + 1]); ++*done; } break; }
      case 1: {                                            // take apart
        Text x; if (ref::Db::is_hangul(c)) { int s = c - 0xAC00; if (s % 28 && r.chance(1, 2)) x = Text{c - s % 28, 0x11A7 + s % 28}; else d.decompose(c, false, x); }
        else { auto it = d.raw.find(c); if (it == d.raw.end() || d.compat_tag.at(c)) break; if (r.chance(1, 2)) x = it->second; else d.decompose(c, false, x); }
        t.erase(t.begin() + i); t.insert(t.begin() + i, x.begin(), x.end()); ++*done; break; }
      case 2: {                                            // put together
        if (i + 1 >= t.size()) break; int h = d.compose(c, t[i + 1]); int n = -1;
        auto it = unpairs().find({c, t[i + 1]}); if (it != unpairs().end()) n = r.pick(it->second); else if (h >= 0) n = h;
        if (n >= 0) { t[i] = n; t.erase(t.begin() + i + 1); ++*done; } break; }
      default: { auto it = unsingle().find(c); if (it != unsingle().end()) { t[i] = r.pick(it->second); ++*done; } }
    }
  }
  return t;
}
static void equivalents(Ctx& c, Rng& r, const Text& t) {
  int done = 0; Text u = rewrite(r, t, 4 + 4 * (int)std::min<size_t>(t.size(), 200), &done); c.count("rewrites", done); if (u == t) return;
  c.count("equivalent_pairs");
  for (char f : ops::FORMS) { Text a = lib(c, r, f, t), b = lib(c, r, f, u);
    if (a != b) differ(c, "equivalence", t, u, a, b, f == 'C' && has_cjamo(t) && a == per_grapheme(t, f) && b == per_grapheme(u, f), ops::form_name(f)); }
}
static void one(Ctx& c, Rng& r, const Text& t) {
  chains(c, r, t); equivalents(c, r, t); c.evaluations++;
  if (ref::db().normalize(t, 'D') != t) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
static int plain_mark(Rng& r, int cl) { auto& v = gen::P().by_ccc.at(cl); for (int k = 0; k < 50; k++) { int m = r.pick(v); if (!ref::db().raw.count(m)) return m; } return 0; }
void run(Ctx& c) {
  const gen::Pools& P = gen::P(); const ref::Db& d = ref::db(); bool s = c.sanitized();
  c.cases("every-mapped", d.raw.size(), [&](Rng& r, uint64_t i) {
    if (s && !c.thorough && i % 4 != c.seed % 4) return;
    static std::vector<int> all; if (all.empty()) { for (auto& kv : d.raw) all.push_back(kv.first); std::sort(all.begin(), all.end()); }
    one(c, r, Text{all[i]}); one(c, r, Text{gen::norm_cp(r), all[i], gen::mark(r)}); one(c, r, Text{all[i], gen::mark(r), gen::mark(r), r.pick(P.second)}); c.count("mapped_swept"); });
  c.cases("hangul", 399, [&](Rng& r, uint64_t i) { for (int k = 0; k < (s ? 3 : 14); k++) one(c, r, Text{gen::jamo(r), 0xAC00 + 28 * (int)i + r.range(0, 27), gen::jamo(r)}); });
  c.cases("composing-pairs", P.pairs.size(), [&](Rng& r, uint64_t i) { auto p = P.pairs[i]; one(c, r, Text{p.first, gen::mark(r), p.second}); one(c, r, Text{p.first, p.second, gen::mark(r)}); one(c, r, Text{p.first, r.pick(P.starters_ext), p.second, gen::mark(r), r.pick(P.second)}); });
  c.cases("equal-class", P.by_ccc.size() * 10, [&](Rng& r, uint64_t i) {
    auto it = P.by_ccc.begin(); std::advance(it, i % P.by_ccc.size()); int n = i < P.by_ccc.size() * 5 ? 0 : r.range(1, 40);
    int a = plain_mark(r, it->first), b = plain_mark(r, it->first); if (!a || !b || a == b) return;
    Text t{r.pick(P.first)}, u; for (int k = 0; k < n; k++) t.push_back(plain_mark(r, it->first) ? plain_mark(r, it->first) : a); u = t;
    t.push_back(a); t.push_back(b); u.push_back(b); u.push_back(a); c.count("order_kept"); c.evaluations++;
    for (char f : ops::FORMS) { Text x = lib(c, r, f, t), y = lib(c, r, f, u); if (x == y) c.fail("order-lost", "%s: [%s] and [%s], which differ in the order of marks of class %d, both give [%s]", ops::form_name(f), show(t).c_str(), show(u).c_str(), it->first, show(x).c_str()); } });
  c.cases("blockers", c.amount(2000, 20000), [&](Rng& r, uint64_t) {        // a starter keeps marks apart
    static std::vector<int> cl, st; if (cl.empty()) { for (auto& k : P.by_ccc) cl.push_back(k.first); for (int x : P.starters_ext) if (!d.raw.count(x) && !std::binary_search(P.second.begin(), P.second.end(), x) && !std::binary_search(P.first.begin(), P.first.end(), x)) st.push_back(x); }
    int hi = plain_mark(r, r.pick(cl)), lo = plain_mark(r, r.pick(cl)); if (!hi || !lo || d.ccc(hi) <= d.ccc(lo)) return; int b = r.pick(st); if (b >= 0x1160 && b < 0x1200) return;
    Text t{(int)('b' + r.below(2)), hi, b, lo}, u{t[0], lo, b, hi}; c.count("blockers_kept"); c.evaluations++;
    for (char f : ops::FORMS) { Text x = lib(c, r, f, t), y = lib(c, r, f, u); if (x == y) c.fail("blocker-lost", "%s: [%s] and [%s] both give [%s]", ops::form_name(f), show(t).c_str(), show(u).c_str(), show(x).c_str());
      Text z = lib(c, r, f, Text{t[0], b, lo, hi}), w = lib(c, r, f, Text{t[0], b, hi, lo}); if (z != w) c.fail("equivalence", "%s: marks after [%s] not ordered: [%s] / [%s]", ops::form_name(f), show(Text{b}).c_str(), show(z).c_str(), show(w).c_str()); } });
  c.cases("letters-that-become-jamo", 30, [&](Rng& r, uint64_t i) { if (i == 0) one(c, r, Text{0x3131, 0x314F}); else for (int k = 0; k < 10; k++) { Text t; int n = r.range(1, 5); for (int q = 0; q < n; q++) t.push_back(r.chance(3, 4) ? r.pick(P.cjamo) : gen::jamo(r)); one(c, r, t); } });
  c.cases("one-starter", c.amount(s ? 100 : 800, 10000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 1200, 5)); });
  c.cases("texts", c.amount(s ? 1000 : 10000, s ? 20000 : 200000), [&](Rng& r, uint64_t i) { int k = i % 4 == 0 ? -1 : i % 4 == 1 ? 3 : i % 4 == 2 ? 9 : 4; one(c, r, gen::text(r, 300, k)); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(c, r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i)); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(c, r, gen::shaped(r, i)); });
  c.cases("long", c.amount(8, 60), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(3000, 12000))); });
}
