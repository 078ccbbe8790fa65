// Standard algorithms and adapters over the library's iterators against the same over an array of the codepoints.
#include "ops.hpp"
#include <algorithm>
#include <numeric>
#include <list>
#include <deque>
#include <set>
#include <unordered_set>
#include <iterator>
using namespace vf; using ref::Text; using u5e::codepoint;
struct Arg { uint64_t seed; Text needle; int value; size_t n; };
typedef std::vector<std::pair<const char*, long>> Log;     // what each algorithm answered, in order
template <class V> static long hashed(const V& v) { uint64_t h = 7; for (int x : v) h = mix(h ^ (uint32_t)x); return (long)(h >> 1); }
static bool mark(int x) { return x % 3 == 0; }
static bool less(int a, int b) { return a < b; }
// reads only; every position is reported as its distance from the beginning
template <class It> static void reading(It b, It e, const Arg& a, Log& o) {
  Rng r{a.seed}; auto at = [&](It x) { return (long)std::distance(b, x); }; auto log = [&](const char* n, long v) { o.push_back({n, v}); };
  auto pos = [&] { return (size_t)r.below(a.n + 1); }; typedef std::vector<int> Ints;
  log("distance", std::distance(b, e));
  for (int k = 0; k < 3; k++) { size_t p = pos(), q = pos(); if (p > q) std::swap(p, q); It x = std::next(b, p); log("next", at(x)); It y = x; std::advance(y, q - p); log("advance", at(y)); log("distance between", std::distance(x, y)); std::advance(y, -(long)(q - p)); log("advance back", y == x); log("prev", at(std::prev(e, a.n - p)));
    if (p < a.n) { It z = x; It was = z++; log("x++ gives", at(was)); log("x++ leaves", at(z)); It w = z--; log("x-- gives", at(w)); log("x-- leaves", at(z)); int v = *z++; log("*x++", v); log("*x++ leaves", at(z)); if (z != e) { v = *z--; log("*x--", v); log("*x-- leaves", at(z)); } It q2 = x; It& u = ++q2; log("++x", &u == &q2); It& t = --q2; log("--x", &t == &q2); log("*--x", (long)(int)*q2); }
    log("copy of a part", hashed(Ints(x, std::next(b, q)))); log("copy_n", [&] { Ints z; std::copy_n(x, q - p, std::back_inserter(z)); return hashed(z); }());
    log("equal", std::equal(x, std::next(b, q), a.needle.begin(), a.needle.end())); log("equal to itself", std::equal(x, std::next(b, q), x)); log("lexicographical_compare", std::lexicographical_compare(x, std::next(b, q), a.needle.begin(), a.needle.end())); log("lexicographical_compare of parts", std::lexicographical_compare(x, e, b, x)); }
  log("find", at(std::find(b, e, codepoint(a.value)))); log("find of an int", at(std::find(b, e, a.value))); log("find_if", at(std::find_if(b, e, mark))); log("find_if_not", at(std::find_if_not(b, e, mark)));
  log("count", std::count(b, e, codepoint(a.value))); log("count_if", std::count_if(b, e, mark)); log("all_of", std::all_of(b, e, mark)); log("any_of", std::any_of(b, e, mark)); log("none_of", std::none_of(b, e, mark));
  log("adjacent_find", at(std::adjacent_find(b, e))); log("adjacent_find with order", at(std::adjacent_find(b, e, [](int x, int y) { return x > y; })));
  log("find_first_of", at(std::find_first_of(b, e, a.needle.begin(), a.needle.end()))); log("search", at(std::search(b, e, a.needle.begin(), a.needle.end()))); log("find_end", at(std::find_end(b, e, a.needle.begin(), a.needle.end())));
  if (a.n < 80) { size_t p = pos(), l = std::min<size_t>(a.n - p, 1 + r.below(3)); It x = std::next(b, p), y = std::next(x, l); log("search for a part", at(std::search(b, e, x, y))); log("find_end of a part", at(std::find_end(b, e, x, y))); log("is_permutation", std::is_permutation(b, e, b)); }
  log("search_n", at(std::search_n(b, e, 2, codepoint(a.value))));
  { auto m = std::mismatch(b, e, a.needle.begin(), a.needle.end()); log("mismatch", at(m.first)); log("mismatch, second", m.second - a.needle.begin()); }
  log("accumulate", std::accumulate(b, e, 0L, [](long s, int x) { return (s * 31 + x) & 0xFFFFFFFFFFL; })); log("inner_product", std::inner_product(b, e, b, 0L, [](long s, long x) { return (s + x) & 0xFFFFFFFFFFL; }, [](long x, long y) { return x * 3 + y; }));
  log("max_element", at(std::max_element(b, e, less))); log("min_element", at(std::min_element(b, e, less)));
  log("is_sorted", std::is_sorted(b, e, less)); log("is_sorted_until", at(std::is_sorted_until(b, e, less))); log("is_partitioned", std::is_partitioned(b, e, mark)); log("partition_point", std::is_partitioned(b, e, mark) ? at(std::partition_point(b, e, mark)) : 0);
  if (std::is_sorted(b, e, less)) { log("lower_bound", at(std::lower_bound(b, e, codepoint(a.value), less))); log("upper_bound", at(std::upper_bound(b, e, codepoint(a.value), less))); log("binary_search", std::binary_search(b, e, codepoint(a.value), less)); auto q = std::equal_range(b, e, codepoint(a.value), less); log("equal_range", at(q.first) * 100000 + at(q.second)); }
  { Ints z; std::copy(b, e, std::back_inserter(z)); log("copy", hashed(z)); z.clear(); std::copy_if(b, e, std::back_inserter(z), mark); log("copy_if", hashed(z)); z.clear(); std::remove_copy(b, e, std::back_inserter(z), codepoint(a.value)); log("remove_copy", hashed(z)); z.clear(); std::remove_copy_if(b, e, std::back_inserter(z), mark); log("remove_copy_if", hashed(z));
    z.clear(); std::unique_copy(b, e, std::back_inserter(z)); log("unique_copy", hashed(z)); z.clear(); std::reverse_copy(b, e, std::back_inserter(z)); log("reverse_copy", hashed(z)); z.clear(); std::rotate_copy(b, std::next(b, pos()), e, std::back_inserter(z)); log("rotate_copy", hashed(z));
    z.clear(); std::replace_copy(b, e, std::back_inserter(z), codepoint(a.value), codepoint(7)); log("replace_copy", hashed(z)); z.clear(); std::replace_copy_if(b, e, std::back_inserter(z), mark, codepoint(9)); log("replace_copy_if", hashed(z));
    z.clear(); std::transform(b, e, std::back_inserter(z), [](int x) { return x + 1; }); log("transform", hashed(z)); z.clear(); std::transform(b, e, b, std::back_inserter(z), [](int x, int y) { return x ^ (y << 1); }); log("transform of two", hashed(z));
    z.clear(); { Ints w; std::partition_copy(b, e, std::back_inserter(z), std::back_inserter(w), mark); log("partition_copy", hashed(z) ^ hashed(w)); } z.assign(a.n, -1); std::copy_backward(b, e, z.end()); log("copy_backward", hashed(z));
    z.clear(); std::adjacent_difference(b, e, std::back_inserter(z), [](int x, int y) { return x ^ y; }); log("adjacent_difference", hashed(z)); z.clear(); std::merge(b, e, b, e, std::back_inserter(z), less); log(std::is_sorted(b, e, less) ? "merge" : "merge of unsorted", hashed(z));
    z.assign(5, 0); log("partial_sort_copy", std::partial_sort_copy(b, e, z.begin(), z.end(), less) - z.begin()); log("partial_sort_copy, contents", hashed(z)); long n = 0; std::for_each(b, e, [&](int x) { n = n * 5 % 1000003 + x; }); log("for_each", n); }
  log("vector", hashed(Ints(b, e))); log("list", hashed(std::list<int>(b, e))); log("deque", hashed(std::deque<int>(b, e))); log("set", hashed(std::set<int>(b, e))); log("unordered_set", (long)std::unordered_set<int>(b, e).size()); log("basic_string", hashed(std::basic_string<int>(b, e))); log("vector of codepoints", hashed(std::vector<codepoint>(b, e)));
  { Ints z(2, 5); z.insert(z.begin() + 1, b, e); log("insert", hashed(z)); z.assign(b, e); log("assign", hashed(z)); std::basic_string<int> s; s.append(b, e); log("append to a string", hashed(s)); s.replace(s.begin(), s.begin() + a.n / 2, b, e); log("replace in a string", hashed(s)); }
  { typedef std::reverse_iterator<It> R; R rb(e), re(b); auto back = [&](R x) { return (long)std::distance(rb, x); }; log("reverse, copy", hashed(Ints(rb, re))); log("reverse, find", back(std::find(rb, re, codepoint(a.value)))); log("reverse, find_if", back(std::find_if(rb, re, mark))); log("reverse, search", back(std::search(rb, re, a.needle.begin(), a.needle.end()))); log("reverse, equal", std::equal(rb, re, b)); size_t p = pos(); log("reverse, base", at(std::next(rb, p).base())); log("reverse, accumulate", std::accumulate(rb, re, 0L, [](long s, int x) { return (s * 31 + x) & 0xFFFFFFFFFFL; }));
    log("last of a value", [&] { R x = std::find(rb, re, codepoint(a.value)); return x == re ? -1 : at(x.base()); }()); log("reverse twice", hashed(Ints(std::reverse_iterator<R>(re), std::reverse_iterator<R>(rb)))); }
}
static void differs(Ctx& c, const char* n, const Log& got, const Log& want, const Text& t, const char* how) {
  c.count("algorithms", got.size());
  for (size_t k = 0; k < want.size(); k++) if (k >= got.size() || got[k].second != want[k].second) { c.fail("algorithm", "%s%s: %s gives %ld over [%s] but %ld over an array of the same codepoints", n, how, want[k].first, k < got.size() ? got[k].second : -1L, show(t).c_str(), want[k].second); return; }
}
static Arg arg(Rng& r, const Text& t) { Arg a; a.seed = r.next(); a.n = t.size(); a.value = t.empty() || r.chance(1, 4) ? gen::any_cp(r) : r.pick(t); size_t p = r.below(t.size() + 1), l = std::min<size_t>(t.size() - p, r.range(1, 4)); a.needle.assign(t.begin() + p, t.begin() + p + l); if (r.chance(1, 4)) a.needle.push_back(gen::any_cp(r)); return a; }
struct OnStr { Ctx& c; const Text& t; const Arg& a; const Log& want;
  template <class S> void operator()(const char* n, S& s) const {
    { Log got; reading(s.codepoint_cbegin(), s.codepoint_cend(), a, got); differs(c, n, got, want, t, ""); }
    { Log got; reading(s.codepoint_begin(), s.codepoint_end(), a, got); differs(c, n, got, want, t, " (mutable iterators)"); }
    // part of the text, and a grapheme
    if (t.size()) { Rng r{a.seed}; size_t p = r.below(t.size()), q = r.range(p, t.size()); Text u(t.begin() + p, t.begin() + q); Arg b = a; b.n = u.size(); std::vector<codepoint> v(u.begin(), u.end()); Log w, got; reading(v.cbegin(), v.cend(), b, w); reading(std::next(s.codepoint_cbegin(), p), std::next(s.codepoint_cbegin(), q), b, got); differs(c, n, got, w, u, " (part of a text)"); c.count("parts");
      auto g = s.grapheme_begin(); for (int k = r.below(3); k--;) { auto z = g; ++z; if (z == s.grapheme_end()) break; g = z; } auto gr = *g; Text m = ops::cps(gr.codepoint_begin(), gr.codepoint_end(), t.size() + 4); std::vector<codepoint> x(m.begin(), m.end()); b.n = m.size(); Log wg, gg; reading(x.cbegin(), x.cend(), b, wg); reading(gr.codepoint_begin(), gr.codepoint_end(), b, gg); differs(c, n, gg, wg, m, " (a grapheme)"); c.count("graphemes"); }
  } };
// writes that keep each codepoint's encoded size
static int twin(int x) { switch (ref::enc_size(x)) { case 1: return x ^ 1; case 2: return x ^ 1; case 3: return x ^ 1; default: return (uint32_t)x < 0x10FFFE ? x ^ 1 : 0x1F600; } }
template <class It, class V> static void writing(int k, It b, It e, V& v, const Arg& a) {
  auto vb = v.begin(), ve = v.end(); Rng r{a.seed}; size_t p = r.below(a.n + 1), q = r.range(p, a.n); int w = twin(a.value);
  switch (k) {
    case 0: std::replace(b, e, codepoint(a.value), codepoint(w)); std::replace(vb, ve, codepoint(a.value), codepoint(w)); break;
    case 1: { auto f = [&](int x) { return x == a.value; }; std::replace_if(b, e, f, codepoint(w)); std::replace_if(vb, ve, f, codepoint(w)); break; }
    case 2: std::transform(b, e, b, twin); std::transform(vb, ve, vb, twin); break;
    case 3: std::transform(std::next(b, p), std::next(b, q), std::next(b, p), twin); std::transform(vb + p, vb + q, vb + p, twin); break;
    case 4: { auto x = std::next(b, p), y = std::next(b, q); for (; x != y; ++x) { auto z = x; *z = codepoint(twin(*x)); } for (size_t i = p; i < q; i++) v[i] = twin(v[i]); break; }
    case 5: { std::vector<codepoint> u(v.begin() + p, v.begin() + q); for (auto& z : u) z = twin(z); std::copy(u.begin(), u.end(), std::next(b, p)); std::copy(u.begin(), u.end(), vb + p); break; }
    case 6: { std::vector<codepoint> u(v.begin(), v.end()); size_t i = 0, j = 0; for (auto& z : u) z = twin(z); std::generate(b, e, [&] { return u[i++]; }); std::generate(vb, ve, [&] { return u[j++]; }); break; }
    case 7: { std::vector<codepoint> u(v.begin() + p, v.begin() + q); for (auto& z : u) z = twin(z); size_t i = 0; std::generate_n(std::next(b, p), q - p, [&] { return u[i++]; }); std::copy(u.begin(), u.end(), vb + p); break; }
    default: for (size_t i = p, n = 0; i < q; i = n) { for (n = i; n < q && ref::enc_size(v[n]) == ref::enc_size(a.value); n++) {} if (n == i) n++; else { std::fill(std::next(b, i), std::next(b, n), codepoint(w)); std::fill(vb + i, vb + n, codepoint(w)); if (n - i > 1) { std::fill_n(std::next(b, i), n - i - 1, codepoint(a.value)); std::fill_n(vb + i, n - i - 1, codepoint(a.value)); } } }
  }
}
template <class S> static void writes(Ctx& c, const char* n, S& s, const Text& t, const Arg& a, int k) {
  std::vector<codepoint> v(t.begin(), t.end()); writing(k, s.codepoint_begin(), s.codepoint_end(), v, a); Text want(v.begin(), v.end()), got = ops::codepoints(s); c.count("writing_algorithms");
  if (got != want) c.fail("writing", "%s: algorithm %d left [%s] of [%s] but an array would hold [%s]", n, k, show(got).c_str(), show(t).c_str(), show(want).c_str());
}
// output iterators: whatever is written one after the other, of any sizes, is the encoded text
static void output(Ctx& c, Rng& r, const Text& t) {
  std::string want = ref::encode(t), buf(want.size() + 8, 'x'); const std::string before = buf; typedef u5e::utf8_iterator<std::string::iterator> I; typedef u5e::utf8_iterator<char*> P; size_t k = 0;
  for (int way = 0; way < 4; way++) { buf = before; I o(buf.begin()); P p(&buf[0]); bool pointer = r.chance(1, 2); k = 0; c.count("output_passes");
    auto go = [&](auto x) { switch (way) { case 0: return std::copy(t.begin(), t.end(), x); case 1: return std::transform(t.begin(), t.end(), x, [](int y) { return codepoint(y); }); case 2: return std::generate_n(x, t.size(), [&] { return codepoint(t[k++]); }); default: { u5e::utf32ne_string z(to_i(t)); return std::copy_if(z.codepoint_cbegin(), z.codepoint_cend(), x, [](int) { return true; }); } } };
    size_t at; if (pointer) { P x = go(p); at = x.raw_iterator_ - &buf[0]; } else { I x = go(o); at = x.raw_iterator_ - buf.begin(); }
    if (at != want.size() || buf != want + before.substr(want.size())) { c.fail("output", "writing [%s] with algorithm %d leaves [%s] and ends %zu octets in", show(t).c_str(), way, hex_bytes(buf).c_str(), at); return; } }
}
static void one(Ctx& c, Rng& r, const Text& t, int which) {
  Arg a = arg(r, t); std::vector<codepoint> v(t.begin(), t.end()); Log want; reading(v.cbegin(), v.cend(), a, want);
  OnStr f{c, t, a, want}; each8(c, r, ref::encode(t), which, f); each32(c, r, t, which, f); c.evaluations++;
  bool multi = false; for (int x : t) if (x >= 0x80) multi = true; if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
void run(Ctx& c) {
  bool s = c.sanitized();
  c.cases("texts", c.amount(s ? 600 : 4000, s ? 12000 : 90000), [&](Rng& r, uint64_t i) { one(c, r, gen::text(r, 40), i % 4 ? some_storage(r) : ST_ALL); });
  c.cases("few-codepoints", c.amount(s ? 400 : 3000, s ? 8000 : 60000), [&](Rng& r, uint64_t) { std::vector<int> al; for (int k = r.range(2, 3); k--;) al.push_back(gen::scalar(r)); Text t; for (int k = r.below(30); k--;) t.push_back(r.pick(al)); one(c, r, t, some_storage(r)); });
  c.cases("sorted", c.amount(s ? 200 : 1500, s ? 4000 : 30000), [&](Rng& r, uint64_t) { Text t = gen::text(r, 40); if (r.chance(1, 2)) std::sort(t.begin(), t.end()); else std::stable_partition(t.begin(), t.end(), mark); one(c, r, t, some_storage(r)); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (mix(i) % (s ? 16 : 4) != c.seed % (s ? 16 : 4) && !c.thorough) return; one(c, r, gen::shaped(r, i), some_storage(r)); });
  c.cases("writing", c.amount(s ? 1000 : 10000, s ? 20000 : 200000), [&](Rng& r, uint64_t i) { Text t = gen::text(r, 30); if (i % 3 == 0) { std::vector<int> al; for (int k = 2; k--;) al.push_back(gen::scalar(r)); t.clear(); for (int k = r.below(30); k--;) t.push_back(r.pick(al)); } Arg a = arg(r, t); if (ref::enc_size(a.value) != ref::enc_size(twin(a.value)) || (a.value >= 0xD800 && a.value < 0xE000)) a.value = 'a'; int k = i / 3 % 9; std::string b = ref::encode(t);
    { u5e::utf8_string x(b); writes(c, "utf8_string", x, t, a, k); } { utf8_mon x{mon::str8(b)}; writes(c, "utf8_monitored", x, t, a, k); check_mon(c, x.native_string.ctl(), "writing", hex_bytes(b)); } { u5e::utf32ne_string x(to_i(t)); writes(c, "utf32ne_string", x, t, a, k); } c.evaluations++; });
  c.cases("output", c.amount(s ? 2000 : 20000, 300000), [&](Rng& r, uint64_t) { output(c, r, gen::text(r, 60)); c.evaluations++; });
  c.cases("empty", 8, [&](Rng& r, uint64_t) { one(c, r, Text(), ST_ALL); });
}
