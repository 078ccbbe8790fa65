#include "ops.hpp"
#include <list>
#include <deque>
#include <sstream>
using namespace vf; using ref::Text;
struct Out { std::vector<long> log; std::vector<int> rep; size_t at = 0; Out() {} Out(const Out&) = delete; Out& operator=(const Out&) = delete; };
static Out* g_out; static std::vector<int>* g_seen; static const std::vector<int>* g_rep; static bool g_other;
static int op_function(int v, Out& o) { if (&o != g_out) g_other = true; o.log.push_back(v); g_seen->push_back(v); size_t i = g_seen->size() - 1; return i < g_rep->size() ? (*g_rep)[i] : 0; }
struct Functor { Out* o; std::vector<int>* seen; const std::vector<int>* rep;
  int operator()(int v, Out& out) const { if (&out != o) g_other = true; out.log.push_back(v); seen->push_back(v); size_t i = seen->size() - 1; return i < rep->size() ? (*rep)[i] : 0; } };
// an operation that keeps its own count from one element to the next
struct Keeping { Out* o; std::vector<int>* seen; const std::vector<int>* rep; std::vector<size_t>* numbers; size_t n;
  int operator()(int v, Out& out) { if (&out != o) g_other = true; out.log.push_back(v); seen->push_back(v); numbers->push_back(n); size_t i = n++; return i < rep->size() ? (*rep)[i] : 0; } };
// a single-pass input iterator that produces every element once
struct Once { typedef std::input_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef const int* pointer; typedef const int& reference;
  const std::vector<int>* v; size_t* pos; bool end;
  const int& operator*() const { static const int bad = -123456; return *pos < v->size() ? (*v)[*pos] : bad; }
  Once& operator++() { ++*pos; return *this; } Once operator++(int) { Once t(*this); ++*pos; return t; }
  bool at_end() const { return end || *pos >= v->size(); }
  bool operator==(const Once& o) const { return at_end() == o.at_end(); } bool operator!=(const Once& o) const { return !(*this == o); } };
static void verdict(Ctx& c, const char* what, const std::vector<int>& in, const std::vector<int>& rep, const std::vector<int>& seen, const Out& out, int ret) {
  long sum = 0; for (int x : rep) sum += x; c.count("filter_calls", seen.size()); c.count("filters"); if (in.empty()) c.count("empty_ranges");
  if (seen != in) c.fail("calls", "%s: elements [%s] were given to the operation as [%s]", what, show(in).c_str(), show(seen).c_str());
  else if (out.log.size() != in.size()) c.fail("output", "%s: the caller's output object saw %zu of %zu calls", what, out.log.size(), in.size());
  if (g_other) { c.fail("output", "%s: the operation was given another output object", what); g_other = false; }
  if (ret != sum) c.fail("sum", "%s: returned %d for reports adding up to %ld over [%s]", what, ret, sum, show(in).c_str());
}
// an operation whose reports are of another type than int
template <class N> struct Typed { Out* o; std::vector<int>* seen; const std::vector<int>* rep;
  N operator()(int v, Out& out) const { if (&out != o) g_other = true; out.log.push_back(v); seen->push_back(v); size_t i = seen->size() - 1; return i < rep->size() ? (N)(*rep)[i] : N(); } };
template <class N, class It> static int typed(Ctx& c, It b, It e, Out& out, std::vector<int>& seen, std::vector<int>& rep) { for (int& x : rep) x = (int)(N)x; c.count("reports_of_other_types"); return u5e::filter(b, e, out, Typed<N>{&out, &seen, &rep}); }
template <class It> static void drive(Ctx& c, Rng& r, const char* what, It b, It e, const std::vector<int>& in, std::vector<int> rep) {
  Out out; std::vector<int> seen; int ret; g_other = false;
  switch (r.below(5)) {
    case 4: switch (r.below(6)) { case 0: ret = typed<bool>(c, b, e, out, seen, rep); break; case 1: ret = typed<signed char>(c, b, e, out, seen, rep); break; case 2: ret = typed<unsigned char>(c, b, e, out, seen, rep); break; case 3: ret = typed<short>(c, b, e, out, seen, rep); break; case 4: ret = typed<unsigned short>(c, b, e, out, seen, rep); break; default: ret = typed<long>(c, b, e, out, seen, rep); } break;
    case 3: { std::vector<size_t> numbers; ret = u5e::filter(b, e, out, Keeping{&out, &seen, &rep, &numbers, 0}); c.count("keeping_operations"); for (size_t i = 0; i < numbers.size(); i++) if (numbers[i] != i) { c.fail("state", "%s: call %zu found the operation's own count at %zu", what, i, numbers[i]); break; } break; }
    case 0: g_out = &out; g_seen = &seen; g_rep = &rep; ret = u5e::filter(b, e, out, op_function); break;
    case 1: { Functor f{&out, &seen, &rep}; ret = u5e::filter(b, e, out, f); break; }
    default: ret = u5e::filter(b, e, out, [&](int v, Out& o) { if (&o != &out) g_other = true; o.log.push_back(v); seen.push_back(v); size_t i = seen.size() - 1; return i < rep.size() ? rep[i] : 0; });
  }
  verdict(c, what, in, rep, seen, out, ret);
}
static std::vector<int> reports(Rng& r, size_t n) { std::vector<int> v; int style = r.below(5); for (size_t i = 0; i < n; i++) v.push_back(style == 0 ? 1 : style == 1 ? 0 : style == 2 ? (int)r.below(4) : style == 3 ? r.range(0, n > 10000 ? 20000 : 100000) : r.range(-3, 3)); return v; }
struct Counts { Ctx& c; Rng& r; const Text& t;
  template <class S> void operator()(const char* n, S& s) const {
    { std::vector<int> rep = reports(r, t.size()); drive(c, r, n, s.codepoint_cbegin(), s.codepoint_cend(), t, rep); if (r.chance(1, 3)) drive(c, r, n, s.codepoint_begin(), s.codepoint_end(), t, rep); }
    for (char f : ops::FORMS) {
      Text pre = r.chance(1, 2) ? Text() : Text(r.range(1, 5), 0x301); int k; size_t got;
      if (r.chance(1, 2)) { u5e::utf32ne_string o(to_i(pre)); k = ops::normalize(f, s, o); got = o.native_string.size(); }
      else { u5e::utf8_string o(ref::encode(pre)); k = ops::normalize(f, s, o); Text q; if (!ref::decode(o.native_string, q)) { c.fail("malformed-output", "%s: %s of [%s]", n, ops::form_name(f), show(t).c_str()); continue; } got = q.size(); }
      c.count("form_counts"); if (got - pre.size() != t.size()) c.count("counts_differing_from_input");
      if ((size_t)k != got - pre.size()) c.fail("form-count", "%s: %s of [%s] reported %d codepoints and produced %ld", n, ops::form_name(f), show(t).c_str(), k, (long)got - (long)pre.size());
    }
    // grapheme by grapheme
    typedef u5e::basic_grapheme_iterator<S> G; u5e::utf32ne_string o; size_t lim = t.size() + 2;
    for (G it = s.grapheme_begin(); it != s.grapheme_end() && lim--; ++it) {
      size_t before = o.native_string.size(); int k; char f = ops::FORMS[r.below(4)];
      switch (f) { case 'd': k = u5e::normalization_form_d(*it, o); break; case 'c': k = u5e::normalization_form_c(*it, o); break; case 'D': k = u5e::normalization_form_kd(*it, o); break; default: k = u5e::normalization_form_kc(*it, o); }
      c.count("grapheme_counts"); if ((size_t)k != o.native_string.size() - before) { c.fail("grapheme-count", "%s: %s of a grapheme of [%s] reported %d and appended %ld", n, ops::form_name(f), show(t).c_str(), k, (long)(o.native_string.size() - before)); break; }
    }
    // one call of the operation per grapheme
    { std::vector<Text> seen; int fake = 0; auto op = [&](u5e::basic_grapheme<S> g, int& o2) { if (&o2 != &fake) g_other = true; seen.push_back(ops::cps(g.codepoint_begin(), g.codepoint_end(), t.size() + 2)); return (int)seen.back().size(); };
      g_other = false; int k = u5e::filter(s.grapheme_begin(), s.grapheme_end(), fake, op); std::vector<int> seg = ref::db().segment(t); std::vector<Text> want; for (size_t g = 0; g + 1 < seg.size(); g++) want.push_back(Text(t.begin() + seg[g], t.begin() + seg[g + 1]));
      c.count("filters"); if (seen != want) c.fail("calls", "%s: filter over the %zu graphemes of [%s] made %zu calls or gave other graphemes", n, want.size(), show(t).c_str(), seen.size()); else if (k != (int)t.size()) c.fail("sum", "%s: grapheme filter returned %d instead of %zu", n, k, t.size()); if (g_other) { c.fail("output", "grapheme filter passed another output object"); g_other = false; } }
  } };
template <class O> static void single(Ctx& c, O& o, int cp, const char* n) {
  size_t b = o.native_string.size(); int k = u5e::canonical_decomposition<O>(cp, o); size_t m = o.native_string.size(); int k2 = u5e::compatibility_and_canonical_decomposition<O>(cp, o); size_t e = o.native_string.size(); c.count("decomposition_counts", 2);
  if ((size_t)k != m - b) c.fail("decomposition-count", "%s: canonical decomposition of %X reported %d and appended %zu", n, (unsigned)cp, k, m - b);
  if ((size_t)k2 != e - m) c.fail("decomposition-count", "%s: compatibility decomposition of %X reported %d and appended %zu", n, (unsigned)cp, k2, e - m);
}
void run(Ctx& c) {
  bool s = c.sanitized();
  c.cases("ranges", c.amount(s ? 3000 : 20000, 200000), [&](Rng& r, uint64_t) {
    size_t n = r.chance(1, 6) ? 0 : gen::length(r, 3000); std::vector<int> in, rep = reports(r, n); bool few = r.chance(1, 2); for (size_t i = 0; i < n; i++) in.push_back(few ? (int)r.below(2) : (int)r.next());
    drive(c, r, "vector", in.cbegin(), in.cend(), in, rep); drive(c, r, "pointer", in.data(), in.data() + n, in, rep);
    std::list<int> li(in.begin(), in.end()); drive(c, r, "list", li.begin(), li.end(), in, rep);
    std::deque<int> de(in.begin(), in.end()); drive(c, r, "reversed deque", de.rbegin(), de.rend(), std::vector<int>(in.rbegin(), in.rend()), rep);
    size_t pos = 0; drive(c, r, "single-pass", Once{&in, &pos, false}, Once{&in, &pos, true}, in, rep); if (pos != n) c.fail("calls", "single-pass: %zu of %zu elements consumed", pos, n);
    if (n < 40) { std::ostringstream os; for (int x : in) os << x << ' '; std::istringstream is(os.str()); drive(c, r, "istream", std::istream_iterator<int>(is), std::istream_iterator<int>(), in, rep); }
    c.evaluations++; });
  const uint64_t block = 256, nb = 0x110000 / block; uint64_t step = s && !c.thorough ? 16 : 1;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) { if (i % step != c.seed % step && i > 0x33) return;
    u5e::utf32ne_string o; utf32ne_mon m;
    for (uint64_t k = 0; k < block; k++) { int cp = (int)(i * block + k); single(c, o, cp, "utf32ne_string"); if (k % 64 == 0) { single(c, m, cp, "monitored"); o.native_string.clear(); } c.evaluations++; } });
  c.cases("hangul", 399, [&](Rng&, uint64_t i) { u5e::utf32ne_string o; for (int k = -1; k < 29; k++) single(c, o, 0xAC00 + 28 * (int)i + k, "utf32ne_string"); });
  auto one = [&](Rng& r, const Text& t, int which) { Counts f{c, r, t}; each8(c, r, ref::encode(t), which, f); each32(c, r, t, which, f); c.evaluations++; if (ref::db().normalize(t, 'D').size() != t.size()) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); } };
  c.cases("composing", gen::P().pairs.size(), [&](Rng& r, uint64_t i) { if (s && !c.thorough && i % 4 != c.seed % 4) return; auto p = gen::P().pairs[i]; one(r, Text{p.first, gen::mark(r), p.second, r.pick(gen::P().second)}, some_storage(r)); });
  c.cases("texts", c.amount(s ? 1000 : 8000, s ? 20000 : 200000), [&](Rng& r, uint64_t i) { one(r, gen::text(r, 600, i % 2 ? -1 : 3), ST_ALL); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_ALL); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(r, gen::shaped(r, i), ST_ALL); });
  c.cases("long", c.amount(8, 60), [&](Rng& r, uint64_t) { one(r, gen::long_text(r, r.range(3000, 20000)), ST_ALL); });
  c.cases("empty", 2, [&](Rng& r, uint64_t) { one(r, Text(), ST_ALL); });
}
