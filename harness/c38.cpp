// Texts beyond 2^31 and 2^32 elements: a few megabytes mapped over and over behind one another.
#include "ops.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include <string.h>
using namespace vf; using ref::Text; typedef int64_t L;
// the text of codepoints i with begin <= i < end of an endless repetition of t
// lengths worth having among those up to max: about every power of two, their sums, any
static L length(Rng& r, L max) { for (;;) { L n = 0; int o = r.below(4); if (o == 0) n = max - (L)r.below(1 << 21); else if (o == 1) n = (L)(r.next() % (uint64_t)max); else { static const L at[] = {(L)1 << 31, (L)1 << 32, (L)3 << 30, (L)1 << 30, ((L)1 << 31) + ((L)1 << 32), (L)1 << 33}; n = at[r.below(6)] + (r.chance(1, 2) ? (L)r.below(9) - 4 : (L)r.below(1 << 20) - (1 << 19)); } if (n > 0 && n <= max) return n; } }
struct Giant {
  Text t; std::vector<L> off; L m, size; char* base = nullptr; size_t mapped = 0;
  Giant(Rng& r, bool wide, size_t chunk, size_t total) {
    { Text x = gen::text(r, 300); t.insert(t.end(), x.begin(), x.end()); t.push_back('a'); t.insert(t.end(), 70000, 0x301); t.push_back('b'); }     // one grapheme longer than the others
    if (wide) { while (t.size() < chunk / 4) { Text x = gen::text(r, 300); t.insert(t.end(), x.begin(), x.end()); } t.resize(chunk / 4); }
    else { size_t n = 0; for (int x : t) n += ref::enc_size(x); while (n < chunk) { Text x = gen::text(r, 300); for (int y : x) { int z = ref::enc_size(y); if (n + z > chunk) break; n += z; t.push_back(y); } if (chunk - n < 8) while (n < chunk) { t.push_back('a'); n++; } } }
    L n = 0; off.push_back(0); for (int x : t) off.push_back(n += wide ? 1 : ref::enc_size(x)); m = t.size(); size = n;
    std::string b8; const char* p; if (wide) p = (const char*)t.data(); else { b8 = ref::encode(t); p = b8.data(); if (b8.size() != chunk) abort(); }
    int fd = memfd_create("text", 0); if (fd < 0 || ftruncate(fd, chunk)) { perror("memfd"); exit(3); }
    void* w = mmap(0, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (w == MAP_FAILED) { perror("mmap"); exit(3); } memcpy(w, p, chunk); munmap(w, chunk);
    mapped = (total + chunk - 1) / chunk * chunk; base = (char*)mmap(0, mapped, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    for (size_t o = 0; o < mapped; o += chunk) if (mmap(base + o, chunk, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { perror("mmap"); exit(3); }
    close(fd);
  }
  ~Giant() { munmap(base, mapped); }
  L at(L i) const { return i / m * size + off[i % m]; }        // where codepoint i begins
  int cp(L i) const { return t[i % m]; }
  L owner(L p) const { L k = p / size, q = p % size; return k * m + (std::upper_bound(off.begin(), off.end(), q) - off.begin() - 1); }
  L count() const { return (L)(mapped / (size * 1)) * m; }
};
template <class S, class V, class C> struct Over {
  Ctx& c; Giant& g; const char* name; const C* base; L all;    // all: codepoints there are
  typedef typename S::const_iterator It; typedef u5e::basic_grapheme_iterator<S> GI;
  It it(L p) { return It(base + p); }
  L start(L i, L lo) { while (i > lo && !ref::db().boundary(g.cp(i - 1), g.cp(i))) i--; return i; }
  L stop(L i, L hi) { i++; while (i < hi && !ref::db().boundary(g.cp(i - 1), g.cp(i))) i++; return i; }
  void around(Rng& r, S& s, L lo, L hi, L p) {                 // p: an element somewhere in [at(lo), at(hi))
    L i = g.owner(p); if (i < lo || i >= hi) return; c.evaluations++; c.nontrivial(mix(p)); c.count("places");
    auto bad = [&](const char* what, L got, L want) { c.fail("giant", "%s: %s at element %lld of a text of %lld gives %lld and not %lld", name, what, (long long)(p - g.at(lo)), (long long)(g.at(hi) - g.at(lo)), (long long)got, (long long)want); };
    It b = s.codepoint_cbegin(), e = s.codepoint_cend();
    { It x = it(p); int v = (int)*x; if (v != g.cp(i)) return bad("reading", v, g.cp(i)); }
    { It x = it(p); for (L k = i; k < std::min(hi, i + 40); k++) { if ((int)*It(x) != g.cp(k)) return bad("stepping forward", (int)*It(x), g.cp(k)); ++x; if (!(x == it(g.at(k + 1))) || (k + 1 < hi && x == e) || x == b) return bad("forward position", -1, k + 1 - lo); } }
    { It x = it(g.at(i)); for (L k = i; k > std::max(lo, i - 40); k--) { --x; if ((int)*It(x) != g.cp(k - 1)) return bad("stepping back", (int)*It(x), g.cp(k - 1)); if (!(x == it(g.at(k - 1))) || (x == b) != (k - 1 == lo)) return bad("backward position", -1, k - 1 - lo); } }
    for (L d : {(L)1 << 31, (L)1 << 32, ((L)1 << 32) + 1, ((L)1 << 31) - 1, (L)1 << 16, (L)1 << 24, (L)3 << 30}) for (int way = -1; way <= 1; way += 2) { L q = p + way * d; if (q < g.at(lo) || q >= g.at(hi)) continue; c.count("far_comparisons"); if (it(p) == it(q) || it(q) == it(p) || !(it(p) != it(q))) return bad("comparison with an element far away", 1, 0); L j = g.owner(q); GI x(b, e, it(g.at(i))), y(b, e, it(g.at(j))); bool same = start(std::max(i, j), lo) <= std::min(i, j); if ((x == y) != same || (x != y) == same || (x == it(g.at(j))) != same) return bad("comparison of graphemes far apart", !same, same); }
    // seeks, and graphemes from there
    GI x(b, e, it(g.at(i))); L from = start(i, lo); c.count("seeks");
    for (int k = 0; k < 12 && from < hi; k++) { L to = stop(from, hi); auto gr = *x; Text got = ops::cps(gr.codepoint_begin(), gr.codepoint_end(), to - from + 4), want; for (L j = from; j < to; j++) want.push_back(g.cp(j)); if (got != want) { c.fail("grapheme", "%s: the grapheme at codepoint %lld is [%s] and not [%s]", name, (long long)(from - lo), show(got).c_str(), show(want).c_str()); return; } if (!(gr.codepoint_begin() == it(g.at(from)))) return bad("start of a grapheme", -1, from - lo);
      if (k < 2) { char f = ops::FORMS[r.below(4)]; GI y(x); ++y; u5e::utf32ne_string o, w32(to_i(want)), o2; S part(V(base + g.at(from), g.at(to) - g.at(from))); GI pb = part.grapheme_begin(); int n = 0, n2 = ops::normalize(f, w32, o2); n += f == 'd' ? u5e::filter(x, y, o, u5e::normalization_form_d<S, u5e::utf32ne_string>) : f == 'c' ? u5e::filter(x, y, o, u5e::normalization_form_c<S, u5e::utf32ne_string>) : f == 'D' ? u5e::filter(x, y, o, u5e::normalization_form_kd<S, u5e::utf32ne_string>) : u5e::filter(x, y, o, u5e::normalization_form_kc<S, u5e::utf32ne_string>); c.count("normalizations"); if (n != n2 || o.native_string != o2.native_string) return bad("normalizing a grapheme", n, n2); }
      ++x; from = to; }
    // ranges appended
    { L a = std::max(lo, i - (L)r.below(20)), z = std::min(hi, i + (L)r.below(20)); std::basic_string<C> o; Out<C> out; out.s.append(it(g.at(a)), it(g.at(z))); std::basic_string<C> want(base + g.at(a), base + g.at(z)); c.count("appends"); if (out.s.native_string != want) return bad("appending a range", out.s.native_string.size(), want.size()); }
  }
  template <class D, class = void> struct Out { u5e::basic_encodedstring<u5e::utf32ne, iview>* none; struct A { istring native_string; void append(const int* a, const int* b) { u5e::utf32ne_string z; z.template append<iview>(a, b); native_string = z.native_string; } } s; };
  template <class X> struct Out<char, X> { struct A { std::string native_string; template <class I> void append(I a, I b) { u5e::utf8_string z; z.template append<sview>(a, b); native_string = z.native_string; } } s; };
  void places(Rng& r, int n) {
    L lo = r.below(g.m), hi = g.owner(g.at(lo) + length(r, g.at(all) - 1 - g.at(lo))); if (hi <= lo) hi = lo + 1; c.count(g.at(hi) - g.at(lo) > (L)1 << 32 ? "texts_beyond_2^32" : g.at(hi) - g.at(lo) > (L)1 << 31 ? "texts_beyond_2^31" : "texts_below_2^31"); S s(V(base + g.at(lo), g.at(hi) - g.at(lo)));
    if (s.native_string.data() != base + g.at(lo) || (L)s.native_string.size() != g.at(hi) - g.at(lo)) { c.fail("giant", "%s: the view is not of what it was given", name); return; }
    L first = g.at(lo), last = g.at(hi), len = last - first;
    for (int k = 0; k < n; k++) { static const L spots[] = {(L)1 << 31, (L)1 << 32, 0, -1, (L)1 << 30, (L)3 << 30}; L p; int o = r.below(8); if (o < 6) { p = spots[o] < 0 ? len - 1 - (L)r.below(50) : spots[o] + (L)r.below(100) - 50; } else p = (L)(r.next() % (uint64_t)len); if (p < 0) p = -p; if (p >= len) p = len - 1; if (sizeof(C) == 4 && r.chance(1, 3)) p = std::min(len - 1, p / 4); around(r, s, lo, hi, first + p); }
    GI e = s.grapheme_end(), b = s.grapheme_begin(); if (e == b || !(e == s.codepoint_cend()) || b == s.codepoint_cend() || !(b != e)) c.fail("giant", "%s: the first grapheme and the end are the same", name);
  }
};
static inline void alive(Ctx& c, L i) { if (!(i & 0xFFFFFF) && c.prog) c.prog->beat++; }
void run(Ctx& c) {
  const size_t CH = 1 << 21; Rng seed{c.seed * 77 + 5};
  auto u8 = [&](auto f) { Giant g(seed, false, CH, ((size_t)4 << 30) + ((size_t)1 << 29)); Over<u5e::utf8_string_view, sview, char> o{c, g, "utf8_string_view", g.base, (L)(g.mapped / CH) * g.m}; f(g, o); };
  auto u32 = [&](auto f) { Giant g(seed, true, CH, ((size_t)16 << 30) + ((size_t)1 << 30)); Over<u5e::utf32ne_string_view, iview, int> o{c, g, "utf32ne_string_view", (const int*)g.base, (L)(g.mapped / CH) * g.m}; f(g, o); };
  u8([&](Giant& g, auto& o) {
    c.cases("places8", c.amount(400, 8000), [&](Rng& r, uint64_t) { o.places(r, 40); });
    c.cases("bounds", c.amount(4000, 40000), [&](Rng& r, uint64_t) {   // cut anywhere
      L lo = r.below(CH), hi = lo + length(r, (L)g.mapped - 1 - lo); if (r.chance(1, 2)) { while (ops::cont(g.base[lo])) lo++; if (r.chance(1, 2)) while (hi < (L)g.mapped && ops::cont(g.base[hi])) hi++; } if (hi <= lo) return; const char* p = g.base; bool starts = !ops::cont(p[lo]); L i = g.owner(hi - 1); bool ends = hi == g.at(i + 1); c.evaluations++; c.count("bounds"); bool got = u5e::utf8_bounds<const char*>::check(p + lo, p + hi); if (got != (starts && ends)) c.fail("bounds", "check(%lld octets) is %d, starts %d ends %d", (long long)(hi - lo), got, starts, ends); });
    c.cases("whole8", c.thorough ? 4 : 1, [&](Rng& r, uint64_t k) {    // every codepoint, forward (or backward)
      L lo = r.below(g.m), hi = o.all - r.below(g.m), i; u5e::utf8_string_view s(sview(g.base + g.at(lo), g.at(hi) - g.at(lo))); auto b = s.codepoint_cbegin(), e = s.codepoint_cend(); c.evaluations++; const int* t = g.t.data(); L q;
      if (k % 2 == 0) { auto x = b; for (i = lo, q = lo % g.m; x != e; ++x, i++) { alive(c, i); if (i >= hi || (int)*x != t[q]) { c.fail("giant", "a pass over %lld octets reads something else at codepoint %lld", (long long)(g.at(hi) - g.at(lo)), (long long)(i - lo)); return; } if (++q == g.m) q = 0; } if (i != hi) c.fail("giant", "a pass over %lld codepoints ends after %lld", (long long)(hi - lo), (long long)(i - lo)); }
      else { auto x = e; for (i = hi, q = hi % g.m; x != b;) { --x; i--; alive(c, i); if (--q < 0) q = g.m - 1; if (i < lo || (int)*x != t[q]) { c.fail("giant", "a backward pass over %lld octets reads something else at codepoint %lld", (long long)(g.at(hi) - g.at(lo)), (long long)(i - lo)); return; } } if (i != lo) c.fail("giant", "a backward pass over %lld codepoints ends after %lld", (long long)(hi - lo), (long long)(hi - i)); }
      c.count("codepoints_passed", hi - lo); });
    c.cases("giant-grapheme", 2, [&](Rng& r, uint64_t k) {             // given as one; what is in it and what is not
      L lo = r.below(g.m), hi = o.all - 1 - r.below(g.m), w = lo + 1 + r.below(50), we = k ? g.owner(((L)1 << 32) + g.at(lo) + r.below(1000)) : hi - 1; typedef typename u5e::utf8_string_view::const_iterator It; It b(g.base + g.at(lo)), e(g.base + g.at(hi)), wb(g.base + g.at(w)), we_(g.base + g.at(we)); u5e::basic_grapheme_iterator<u5e::utf8_string_view> x(b, e, wb, we_); c.evaluations++; c.count("giant_graphemes");
      for (L deep : {900, 1100, 5000, 40000, 70000, (1 << 17) + 3, (1 << 20) + 1, (1 << 24) + 5, 20000000}) if (w + deep < we && !(x == It(g.base + g.at(w + deep)))) c.fail("giant", "a grapheme of %lld octets does not contain its codepoint %lld", (long long)(g.at(we) - g.at(w)), (long long)deep);
      if (!(x == It(g.base + g.at(w + 20))) || !(x == wb)) c.fail("giant", "a grapheme of %lld octets does not say right what is in it", (long long)(g.at(we) - g.at(w)));
      auto gr = *x; if (!(gr.codepoint_begin() == wb) || !(gr.codepoint_end() == we_)) c.fail("giant", "a grapheme of %lld octets has other ends", (long long)(g.at(we) - g.at(w))); });
  });
  u32([&](Giant& g, auto& o) {
    c.cases("places32", c.amount(400, 8000), [&](Rng& r, uint64_t) { o.places(r, 40); });
    c.cases("whole32", c.thorough ? 2 : 0, [&](Rng& r, uint64_t) { L lo = r.below(g.m), hi = o.all - r.below(g.m), i = lo; u5e::utf32ne_string_view s(iview(o.base + lo, hi - lo)); L n = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), i, [&](int x, L& at) { if (x != g.cp(at)) c.fail("giant", "a filter over %lld codepoints is given something else at %lld", (long long)(hi - lo), (long long)(at - lo)); at++; alive(c, at); return 0; }); c.evaluations++; c.count("codepoints_passed", i - lo); if (i != hi || n) c.fail("giant", "a filter over %lld codepoints ends after %lld", (long long)(hi - lo), (long long)(i - lo)); });
  });
}
