// Work, memory and stack of every operation on texts of growing length: edges executed (coverage callbacks), octets
// moved or compared by the C library, and allocations, all counted exactly.
#include "ops.hpp"
#include <pthread.h>
#include <malloc.h>
#include <new>
using namespace vf; using ref::Text;
#define QUIET __attribute__((no_sanitize("coverage"), noinline))
static uint64_t g_edges, g_octets, g_live, g_peak, g_total, g_allocs;
extern "C" {
QUIET void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (uint32_t* p = a; p < b; p++) *p = 1; }
QUIET void __sanitizer_cov_trace_pc_guard(uint32_t*) { g_edges++; }
QUIET void* memcpy(void* d, const void* s, size_t n) { g_octets += n; void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
QUIET void* memmove(void* d, const void* s, size_t n) { g_octets += n; void* r = d; if ((char*)d > (const char*)s && (char*)d < (const char*)s + n) { char* e = (char*)d + n - 1; const char* f = (const char*)s + n - 1; __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory"); } else __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
QUIET void* memset(void* d, int v, size_t n) { g_octets += n; void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
QUIET int memcmp(const void* a, const void* b, size_t n) { const volatile unsigned char *x = (const volatile unsigned char*)a, *y = (const volatile unsigned char*)b; for (size_t i = 0; i < n; i++) { g_octets++; if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; } return 0; }
QUIET void* counted_memchr(const void* a, int v, size_t n) __asm__("memchr");
QUIET void* counted_memchr(const void* a, int v, size_t n) { const volatile unsigned char* x = (const volatile unsigned char*)a; for (size_t i = 0; i < n; i++) { g_octets++; if (x[i] == (unsigned char)v) return (void*)(x + i); } return 0; }
}
static const size_t HEAD = 16;
QUIET void* operator new(size_t n) { char* p = (char*)malloc(n + HEAD); if (!p) throw std::bad_alloc(); *(size_t*)p = n; g_live += n; g_total += n; g_allocs++; if (g_live > g_peak) g_peak = g_live; return p + HEAD; }
QUIET void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return operator new(n); } catch (...) { return 0; } }
QUIET void* operator new[](size_t n) { return operator new(n); }
QUIET void operator delete(void* p) noexcept { if (!p) return; char* q = (char*)p - HEAD; g_live -= *(size_t*)q; free(q); }
QUIET void operator delete(void* p, size_t) noexcept { operator delete(p); }
QUIET void operator delete[](void* p) noexcept { operator delete(p); }
QUIET void operator delete[](void* p, size_t) noexcept { operator delete(p); }
QUIET void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
static size_t bounds_of(std::string::const_iterator b, std::string::const_iterator e); static size_t bounds_of(istring::const_iterator, istring::const_iterator);
struct Cost { double work, peak; uint64_t left, out; };
static const char* op_name[] = {"forward", "backward", "graphemes", "NFD", "NFC", "NFKD", "NFKC", "NFD to UTF-8", "NFC to UTF-8", "NFKD to UTF-8", "NFKC to UTF-8", "canonical decomposition", "compatibility decomposition", "composition", "append", "append from UTF-32", "bounds", "seeks", "grapheme comparison", "append of graphemes"};
enum { NOP = 20 };
// one operation on s; what it produced, in elements
template <class S> static size_t op(int k, S& s, Rng& r) {
  typedef decltype(s.native_string) N; typedef u5e::basic_grapheme_iterator<S> G; typedef u5e::utf32ne_string U; size_t n = 0;
  switch (k) {
    case 0: for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; ++i) n += (unsigned)*i & 1; return 0;
    case 1: for (auto i = s.codepoint_cend(), b = s.codepoint_cbegin(); i != b;) { --i; n += (unsigned)*i & 1; } return 0;
    case 2: { G e = s.grapheme_end(); for (G i = s.grapheme_begin(); i != e; ++i) n++; return 0; }
    case 3: case 4: case 5: case 6: { U o; ops::normalize(ops::FORMS[k - 3], s, o); return o.native_string.size(); }
    case 7: case 8: case 9: case 10: { u5e::utf8_string o; ops::normalize(ops::FORMS[k - 7], s, o); return o.native_string.size(); }
    case 11: { U o; u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), o, u5e::canonical_decomposition<U>); return o.native_string.size(); }
    case 12: { U o; u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), o, u5e::compatibility_and_canonical_decomposition<U>); return o.native_string.size(); }
    case 13: { U o; for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; ++i) o.native_string.push_back((int)*i); int c = 0; u5e::canonical_composition(o, &c); return o.native_string.size(); }
    case 14: { S o; auto b = s.codepoint_cbegin(), e = s.codepoint_cend(); o.template append<N>(b, e); return o.native_string.size(); }
    case 15: { U o; for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e; ++i) o.native_string.push_back((int)*i); u5e::utf8_string d; d.append_from_utf32ne<istring>(o.codepoint_cbegin(), o.codepoint_cend()); return d.native_string.size(); }
    case 16: { auto b = s.native_cbegin(), e = s.native_cend(); return bounds_of(b, e); }
    case 17: { auto p = s.codepoint_cbegin(); for (int q = 0; q < 3; q++) { G g(s.codepoint_cbegin(), s.codepoint_cend(), p); n += g == s.grapheme_end(); if (p != s.codepoint_cend()) ++p; } return 0; }
    case 18: { G a = s.grapheme_begin(), b = a, e = s.grapheme_end(); for (int q = 0; q < 4 && b != e; q++) { n += a == b; n += b == a; a = b; ++b; } return 0; }
    default: { S o; G a = s.grapheme_begin(), e = s.grapheme_end(); o.template append<N>(a, e); return o.native_string.size(); }
  }
}
static size_t bounds_of(std::string::const_iterator b, std::string::const_iterator e) { std::string m(b, e); u5e::utf8_bounds<std::string::iterator>::enforce(m.begin(), m.end()); return u5e::utf8_bounds<std::string::const_iterator>::check(b, e) ? m.size() : 0; }
static size_t bounds_of(istring::const_iterator, istring::const_iterator) { return 0; }
template <class S> static Cost measure(int k, S& s, uint64_t seed) { Rng r(seed); uint64_t e = g_edges, o = g_octets, l = g_live; g_peak = g_live; size_t out = op(k, s, r); return Cost{(double)(g_edges - e) + (double)(g_octets - o) / 8, (double)(g_peak - l), g_live - l, out}; }
static const double RATIO = 3, FLAT = 200;        // growth from the short to the long text; slack per codepoint
static Text repeat(const Text& u, size_t n) { Text t; t.reserve(n + u.size()); while (t.size() < n) t.insert(t.end(), u.begin(), u.end()); t.resize(n); return t; }
static void growth(Ctx& c, Rng& r, const Text& unit, size_t n1, size_t n2, const char* kind) {
  Text a = repeat(unit, n1), b = repeat(unit, n2); u5e::utf8_string a8(ref::encode(a)), b8(ref::encode(b)); u5e::utf32ne_string a32(to_i(a)), b32(to_i(b)); uint64_t seed = r.next(); c.evaluations++; c.nontrivial(hash_cps(unit)); c.sample(std::string(kind) + ": " + show(unit, 10));
  for (int k = 0; k < NOP; k++) for (int w = 0; w < 2; w++) {
    if (w) measure(k, a32, seed); else measure(k, a8, seed);       // whatever happens the first time only
    Cost x = w ? measure(k, a32, seed) : measure(k, a8, seed), y = w ? measure(k, b32, seed) : measure(k, b8, seed); c.count("measurements", 2); c.count((std::string("work.") + op_name[k]).c_str(), (uint64_t)y.work); c.prog->beat++;
    double x1 = x.work / n1, y1 = y.work / n2; const char* in = w ? "UTF-32" : "UTF-8";
    if (y1 > RATIO * x1 + FLAT) c.fail("superlinear-work", "%s (%s): %.0f units of work per codepoint in a text of %zu, %.0f in one of %zu; it repeats [%s]", op_name[k], in, y1, n2, x1, n1, show(unit, 40).c_str());
    double m1 = x.peak / (n1 + x.out), m2 = y.peak / (n2 + y.out); c.count((std::string("memory.") + op_name[k]).c_str(), (uint64_t)y.peak);
    if (m2 > RATIO * m1 + 16 || m2 > 200) c.fail("memory", "%s (%s): %.0f octets per codepoint in a text of %zu, %.0f in one of %zu; it repeats [%s]", op_name[k], in, m2, n2, m1, n1, show(unit, 40).c_str());
    c.counters["highest_work_per_codepoint"] = std::max(c.counters["highest_work_per_codepoint"], (uint64_t)y1); c.counters["highest_growth_percent"] = std::max(c.counters["highest_growth_percent"], (uint64_t)(y1 > 20 ? 100 * y1 / x1 : 0)); c.counters["highest_memory_per_element"] = std::max(c.counters["highest_memory_per_element"], (uint64_t)m2);
  }
}
struct OnStack { std::string b; Text t; uint64_t seed; };
static void* on_stack(void* p) { OnStack& x = *(OnStack*)p; u5e::utf8_string s8(x.b); u5e::utf32ne_string s32(to_i(x.t)); Rng r(x.seed); for (int k = 0; k < NOP; k++) { op(k, s8, r); op(k, s32, r); g_ctx->prog->beat++; } return 0; }
void run(Ctx& c) {
  const bool only_stack = c.config == "work-unoptimized";
  const gen::Pools& P = gen::P(); size_t n1 = 600, n2 = c.thorough ? 60000 : 20000;
  // everything that may happen once only
  { Rng r(1); Text all; for (int k = 0; k < 400; k++) { Text t = gen::text(r, 60); all.insert(all.end(), t.begin(), t.end()); } u5e::utf8_string s8(ref::encode(all)); u5e::utf32ne_string s32(to_i(all)); for (int k = 0; k < NOP; k++) { op(k, s8, r); op(k, s32, r); c.prog->beat++; } }
  if (!only_stack) {
  c.cases("one-codepoint", c.amount(80, 3000), [&](Rng& r, uint64_t i) { Text u{i % 3 ? gen::norm_cp(r) : gen::any_cp(r)}; growth(c, r, u, n1, n2, "one codepoint"); });
  c.cases("one-grapheme", c.amount(60, 1500), [&](Rng& r, uint64_t) { Text u; for (int k = r.range(1, 12); k--;) u.push_back(gen::mark(r)); growth(c, r, u, n1, n2, "one grapheme"); });
  c.cases("composing", c.amount(40, 1500), [&](Rng& r, uint64_t) { Text u; for (int k = r.range(1, 3); k--;) { auto p = r.pick(P.pairs); u.push_back(p.first); for (int q = r.below(3); q--;) u.push_back(gen::mark(r)); u.push_back(p.second); } growth(c, r, u, n1, n2, "composing"); });
  c.cases("composing-grapheme", c.amount(24, 600), [&](Rng& r, uint64_t) { static const int prepend[] = {0x600, 0x110BD}; Text u; for (int k = r.range(1, 3); k--;) { u.push_back(prepend[r.below(2)]); auto p = r.pick(P.pairs); u.push_back(p.first); u.push_back(p.second); } growth(c, r, u, n1, n2, "prepended"); });
  c.cases("jamo", c.amount(24, 600), [&](Rng& r, uint64_t i) { Text u; if (i % 3 == 0) u = {0x1100 + (int)r.below(19), 0x1161 + (int)r.below(21), 0x11A8 + (int)r.below(27)}; else for (int k = r.range(1, 6); k--;) u.push_back(gen::jamo(r)); growth(c, r, u, n1, n2, "jamo"); });
  c.cases("units", c.amount(60, 3000), [&](Rng& r, uint64_t) { Text u = gen::text(r, 60); if (u.empty()) u.push_back('a'); growth(c, r, u, n1, n2, "unit"); });
  c.cases("two-graphemes", c.amount(8, 100), [&](Rng& r, uint64_t) { int m = gen::mark(r), b = gen::norm_cp(r); auto mk = [&](size_t n) { Text t; while (t.size() < n) { t.push_back(b); t.insert(t.end(), n / 5, m); } return t; }; Text a = mk(n1), z = mk(n2); u5e::utf8_string x(ref::encode(a)), y(ref::encode(z)); Cost p = measure(18, x, 1), q = measure(18, y, 1); double x1 = p.work / a.size(), y1 = q.work / z.size(); c.count("measurements", 2); c.evaluations++; if (y1 > RATIO * x1 + FLAT) c.fail("superlinear-work", "comparing graphemes of %zu codepoints: %.0f units of work per codepoint, %.0f for graphemes of %zu", n2 / 5, y1, x1, n1 / 5); });
  // what a very long text took is given back
  c.cases("released", c.amount(6, 24), [&](Rng& r, uint64_t i) {
    Text unit; if (i % 3 == 0) unit.push_back(gen::mark(r)); else if (i % 3 == 1) for (int k = r.range(2, 9); k--;) unit.push_back(gen::mark(r)); else { unit = gen::text(r, 60); if (unit.empty()) unit.push_back('a'); }
    Text t = repeat(unit, 300000); std::string b = ref::encode(t); istring w = to_i(t); c.evaluations++; c.nontrivial(hash_cps(unit));
    for (int k = 0; k < NOP; k++) for (int u = 0; u < 2; u++) { c.prog->beat++; auto held = [] { struct mallinfo2 m = mallinfo2(); return (uint64_t)(m.uordblks + m.hblkhd); }; uint64_t before = g_live, heap = held(); if (u) { u5e::utf32ne_string s(w); op(k, s, r); } else { u5e::utf8_string s(b); op(k, s, r); } uint64_t more = g_live > before ? g_live - before : 0; { uint64_t now = held(); if (now > heap + 500000) more = std::max(more, now - heap); } c.count("released"); c.counters["highest_not_released"] = std::max(c.counters["highest_not_released"], more);
      if (more > 65536) { c.fail("retention", "%s (%s): %llu octets more are allocated after a text of %zu codepoints is gone; it repeats [%s]", op_name[k], u ? "UTF-32" : "UTF-8", (unsigned long long)more, t.size(), show(unit, 40).c_str()); return; } } });
  // nothing accumulates over many different texts
  c.cases("retention", c.amount(8, 32), [&](Rng& r, uint64_t i) {
    // all codepoints there are, in texts that are gone afterwards
    uint64_t before = g_live, cps = 0; Text t; int step = 0x110000 / 8;
    auto pass = [&] { cps += t.size(); { u5e::utf8_string s8(ref::encode(t)); u5e::utf32ne_string s32(to_i(t)); for (int q = 2; q < NOP; q++) { if (r.chance(1, 2)) op(q, s8, r); else op(q, s32, r); } } t = Text(); c.prog->beat++; };
    for (int k = 0; k < step; k++) { int cp = (int)(i % 8) * step + (int)((k * 7919ull) % step); if (cp >= 0xD800 && cp < 0xE000) continue; t.push_back(cp); if (k % 4 == 0) t.push_back(gen::mark(r)); if (t.size() > 3000) pass(); }
    pass(); uint64_t more = g_live > before ? g_live - before : 0; c.counters["highest_retained_octets"] = std::max(c.counters["highest_retained_octets"], more); c.count("codepoints_retention", cps); c.evaluations++; if (more > 400000) c.fail("retention", "%llu octets more are allocated after operations on texts that no longer exist, with %llu codepoints in all", (unsigned long long)more, (unsigned long long)cps); });
  }
  // and no operation needs a stack that grows with the text
  c.cases("stack", gen::HUGE + c.amount(6, 60), [&](Rng& r, uint64_t i) { OnStack x; x.t = i < (uint64_t)gen::HUGE ? gen::huge_text(r, i) : gen::long_text(r, 30000); x.b = ref::encode(x.t); x.seed = r.next(); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 160 * 1024); pthread_t th; if (pthread_create(&th, &at, on_stack, &x)) { perror("thread"); exit(3); } pthread_join(th, 0); pthread_attr_destroy(&at); c.count("small_stacks"); c.evaluations++; });
}
