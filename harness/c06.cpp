// Memory and undefined behaviour: the sanitizers, valgrind and the monitored
// storage are the oracle; the workload is every operation over hostile input.
#include "ops.hpp"
#include <climits>
using namespace vf; using ref::Text;
static volatile int sink;
static void use(int x) { sink = sink + (x & 1); }
template <class S> static std::vector<size_t> positions(Rng& r, S& s, size_t most) {
  std::vector<size_t> p; size_t n = s.native_string.size();
  if (n < most) for (size_t i = 0; i <= n; i++) p.push_back(i); else { p.push_back(0); p.push_back(n); for (size_t i = 2; i < most; i++) p.push_back(r.below(n + 1)); }
  return p;
}
template <class It> static void steps(Ctx& c, Rng& r, const char* name, It b, It e, size_t n, const std::string& shown) {
  size_t k = 0;
  for (It i = b; i != e; ++i) { use(*i); if (++k > n) { c.fail("no-termination", "%s: forward pass over %s", name, shown.c_str()); return; } }
  k = 0;
  for (It i = e; i != b;) { --i; use(*i); if (++k > n) { c.fail("no-termination", "%s: backward pass over %s", name, shown.c_str()); return; } }
  It w = r.chance(1, 2) ? b : e;
  for (int j = 0; j < 24; j++) {
    bool atb = w == b, ate = w == e; if (atb && ate) break;
    if (atb || (!ate && r.chance(1, 2))) { if (r.chance(1, 2)) ++w; else { It o = w++; use(*o); } } else if (r.chance(1, 2)) --w; else w--;
    if (w != e) use(*w);
  }
  c.count("stepping_passes", 3);
}
struct Op { Ctx& c; Rng& r; std::string shown; bool utf8;
  template <class S> void operator()(const char* name, S& s) const {
    size_t n = s.native_string.size();
    steps(c, r, name, s.codepoint_cbegin(), s.codepoint_cend(), n, shown);
    steps(c, r, name, s.codepoint_begin(), s.codepoint_end(), n, shown);
    std::vector<size_t> pos = positions(r, s, 14);
    typedef typename S::const_iterator CI; auto nb = s.native_cbegin();
    for (size_t a : pos) for (size_t b : pos) { CI x(nb + (long)a), y(nb + (long)b); use(x == y); use(x != y); c.count("comparisons"); }
    for (int k = 0; k < 6; k++) {
      size_t a = r.pick(pos), b = r.pick(pos); if (a > b) std::swap(a, b);
      append_native(s, a, b); c.count("appends");
    }
    // graphemes
    size_t k = 0; auto ge = s.grapheme_end();
    for (auto g = s.grapheme_begin(); g != ge; ++g) {
      auto gr = *g; size_t kk = 0; for (auto i = gr.codepoint_begin(); i != gr.codepoint_end(); i++) { use(*i); if (++kk > n) { c.fail("no-termination", "%s: grapheme of %s", name, shown.c_str()); return; } }
      if (++k > n) { c.fail("no-termination", "%s: grapheme pass over %s", name, shown.c_str()); return; }
    }
    for (size_t p : pos) {
      u5e::basic_grapheme_iterator<S> g(s.codepoint_cbegin(), s.codepoint_cend(), CI(nb + (long)p)); c.count("seeks");
      use(g == s.codepoint_cend()); use(g == ge); use(g == CI(nb + (long)r.pick(pos)));
      if (g != ge) { auto gr = *g; use(*gr.codepoint_begin()); ++g; }
    }
    append_graphemes(s, r.pick(pos), r.pick(pos));
    for (char f : ops::FORMS) {
      u5e::utf8_string o8; use(ops::normalize(f, s, o8)); u5e::utf32ne_string o32; use(ops::normalize(f, s, o32)); c.count("normalizations", 2);
      for (char ch : o8.native_string) use(ch); for (int ch : o32.native_string) use(ch);
    }
    { u5e::utf32ne_string o; use(u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), o, u5e::canonical_decomposition<u5e::utf32ne_string>));
      use(u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), o, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>)); }
  }
  template <class E, class N> void append_native(u5e::basic_encodedstring<E, N>& s, size_t a, size_t b) const {
    typedef typename u5e::basic_encodedstring<E, N>::const_iterator CI;
    typename std::conditional<std::is_same<E, u5e::utf8>::value, u5e::utf8_string, u5e::utf32ne_string>::type d;
    d.template append<N>(CI(s.native_cbegin() + (long)a), CI(s.native_cbegin() + (long)b));
    d.template append<N>(s.codepoint_cbegin(), CI(s.native_cbegin() + (long)b));
    for (auto ch : d.native_string) use(ch);
  }
  template <class E, class N> void append_graphemes(u5e::basic_encodedstring<E, N>& s, size_t a, size_t b) const {
    typedef typename u5e::basic_encodedstring<E, N>::const_iterator CI; if (a > b) std::swap(a, b);
    typename std::conditional<std::is_same<E, u5e::utf8>::value, u5e::utf8_string, u5e::utf32ne_string>::type d;
    u5e::basic_grapheme_iterator<u5e::basic_encodedstring<E, N>> x(s.codepoint_cbegin(), s.codepoint_cend(), CI(s.native_cbegin() + (long)a)), y(s.codepoint_cbegin(), s.codepoint_cend(), CI(s.native_cbegin() + (long)b));
    d.template append<N>(x, y); for (auto ch : d.native_string) use(ch);
  } };
static void octet_case(Ctx& c, Rng& r, const std::string& s0) {
  std::string s = s0;
  // with 0xFE or 0xFF near the end, what the library itself accepts
  auto accepted = [](const std::string& x) { if (!ops::bounds_open(x)) return ops::bounds_ok(x); Exact<char> e(x.data(), x.size()); return u5e::utf8_bounds<const char*>::check(e.p.get(), e.p.get() + e.n); };
  if (!accepted(s)) {      // let the library repair it, then look at its own verdict
    std::vector<char> v(s.begin(), s.end()); char* p = v.data(); u5e::utf8_bounds<char*>::enforce(p, p + v.size());
    s.assign(v.begin(), v.end());
    if (!accepted(s)) return;
    c.count("repaired");
  }
  { Exact<char> e(s.data(), s.size()); use(u5e::utf8_bounds<const char*>::check(e.p.get(), e.p.get() + e.n)); use(u5e::utf8_bounds<char*>::enforce(e.p.get(), e.p.get() + e.n)); }
  Op op{c, r, hex_bytes(s), true}; each8(c, r, s, c.config == "valgrind" ? ST_EXACT : ST_EXACT | ST_MON | (r.chance(1, 4) ? ST_STRING | ST_INSIDE : 0), op);
  ref::Text t; bool wf = ref::decode(s, t); c.count(wf ? "well_formed" : "malformed_inside"); c.evaluations++;
  if (!wf) { c.nontrivial(hash_bytes(s.data(), s.size())); if (s.size() < 24) c.sample(hex_bytes(s)); }
}
static int wild(Rng& r) {
  static const int e[] = {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1, -2, 0x110000, 0x10FFFF, 0xD800, 0xDFFF, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, -0xAC00, 0};
  switch (r.below(5)) { case 0: return e[r.below(16)]; case 1: return (int)r.next(); case 2: return (int)(r.next() & 0x3FFFFF); default: return gen::any_cp(r); }
}
static void int_case(Ctx& c, Rng& r, const Text& t) {
  Op op{c, r, show(t), false}; each32(c, r, t, c.config == "valgrind" ? ST_EXACT : ST_EXACT | ST_MON, op);
  { utf32ne_mon m{mon::str32(t)}; int n = 0; u5e::canonical_composition(m, &n); check_mon(c, m.native_string.ctl(), "canonical_composition", show(t)); c.count("compositions_in_place"); }
  { u5e::utf32ne_string m(to_i(t)); int n = 0; auto e = u5e::canonical_composition(m, &n); for (auto i = m.codepoint_begin(); i != e; ++i) use(*i); }
  { Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view s(iview(e.p.get(), e.n)); u5e::utf8_string d; d.append_from_utf32ne<iview>(s.codepoint_cbegin(), s.codepoint_cend()); for (char x : d.native_string) use(x); c.count("conversions"); }
  c.evaluations++; bool odd = false; for (int x : t) if (x < 0 || x > 0x10FFFF) odd = true;
  if (odd) { c.nontrivial(hash_cps(t)); c.count("out_of_range_texts"); if (t.size() < 6) c.sample("ints " + show(t)); }
}
static void lookups(Ctx& c, int a, int b) {
  use(ops::gcb(a)); use(ops::ccc(a)); int comp = 0; use(u5e::props::canonical_composition_mapping::resolve(a, b, &comp));
  if (int const* m = ops::dmap(a)) while (*m) use(*m++);
  if (int const* m = ops::kmap(a)) while (*m) use(*m++);
  u5e::utf32ne_string o; use(u5e::canonical_decomposition(u5e::codepoint(a), o)); use(u5e::compatibility_and_canonical_decomposition(u5e::codepoint(a), o));
  use(u5e::canonical_combining_order(a, b)); c.count("lookups", 6);
}
// every octet value as first octet of a text that holds it whole, decoded and stepped over
static void heads(Ctx& c, Rng& r, uint64_t i) {
  for (int k = 0; k < 8; k++) {
    std::string s(1, (char)i); int n = ops::lead_size((unsigned char)i) - 1 + r.below(2); if (i >= 0xFE) n = 9;
    for (int j = 0; j < n; j++) s += (char)(k < 4 ? 0x80 + r.below(64) : k == 4 ? 0xBF : k == 5 ? 0x80 : r.below(128));
    if (i >= 0xFE) octet_case(c, r, "a" + s.substr(0, r.range(1, 8))), s += "aaaaaaaaa";
    octet_case(c, r, s); octet_case(c, r, "a" + s + "b");
  }
}
void run(Ctx& c) {
  g_budget_sq = 600;
  bool v = c.config == "valgrind", g = c.config == "asan-strict"; double q = v ? 0.02 : g ? 0.5 : 1;
  c.cases("heads", 256, [&](Rng& r, uint64_t i) { if (v && i % 8 != c.seed % 8) return; heads(c, r, i); });
  c.cases("arbitrary", c.amount(10000 * q, 200000 * q), [&](Rng& r, uint64_t) { octet_case(c, r, ops::octets(r, r.chance(1, 10) ? r.range(20, 160) : r.range(0, 14))); });
  c.cases("short-tails", 7 * 7, [&](Rng& r, uint64_t i) {
    static const unsigned char R[] = {'a', 0x80, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC};
    int n = v ? 4 : c.thorough ? 2000 : 60; for (int k = 0; k < n; k++) { std::string x = "a"; int L = r.range(0, 6); for (int j = 0; j < L; j++) x += (char)R[r.below(7)]; x += (char)R[i % 7]; x += (char)R[i / 7]; octet_case(c, r, x); } });
  c.cases("texts", c.amount(5000 * q, 100000 * q), [&](Rng& r, uint64_t) { octet_case(c, r, ref::encode(gen::text(r, 200))); });
  c.cases("ints", c.amount(5000 * q, 100000 * q), [&](Rng& r, uint64_t) { Text t; size_t n = gen::length(r, 80); for (size_t i = 0; i < n; i++) t.push_back(wild(r)); int_case(c, r, t); });
  c.cases("int-texts", c.amount(2500 * q, 50000 * q), [&](Rng& r, uint64_t) { int_case(c, r, gen::text(r, 200)); });
  c.cases("lookups", c.amount(2000 * q, 40000 * q), [&](Rng& r, uint64_t) { for (int k = 0; k < 100; k++) { int a = wild(r), b = wild(r); lookups(c, a, b); } });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { uint64_t m = c.thorough ? v ? 50 : 1 : v ? 400 : 5; if (mix(i) % m != c.seed % m) return; Text t = gen::shaped(r, i); if (r.chance(1, 2)) int_case(c, r, t); else octet_case(c, r, ref::encode(t)); });
  c.cases("wide-lengths", gen::wide_shapes(), [&](Rng& r, uint64_t i) { uint64_t m = c.thorough ? v ? 40 : 1 : v ? 200 : 3; if (mix(i) % m != c.seed % m) return; Text t = gen::wide_shaped(r, i); if (r.chance(1, 2)) int_case(c, r, t); else octet_case(c, r, ref::encode(t)); });
  c.cases("huge", v ? 1 : c.thorough ? gen::HUGE : 4, [&](Rng& r, uint64_t i) {
    Text t = gen::huge_text(r, i + c.seed * 4); std::string b = ref::encode(t);
    Op op{c, r, show(t), true}; each8(c, r, b, ST_EXACT, op); each32(c, r, t, ST_EXACT, op); c.evaluations++; });
  c.cases("long", v ? 1 : c.amount(16, 100), [&](Rng& r, uint64_t) {
    Text t = gen::long_text(r, r.range(3000, 20000)); std::string b = ref::encode(t);
    Op op{c, r, show(t), true}; each8(c, r, b, ST_EXACT, op); each32(c, r, t, ST_EXACT, op); c.evaluations++; });
}
