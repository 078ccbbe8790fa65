// A codepoint object is its integer.
#include "ops.hpp"
#include <limits.h>
#include <unordered_map>
#include <iterator>
using namespace vf; using ref::Text; using u5e::codepoint;
#define OPAQUE __attribute__((noinline, noclone))
#ifdef __clang__
#undef OPAQUE
#define OPAQUE __attribute__((noinline))
#endif
template <class T> static T hide(T x) { asm volatile("" : "+r,m"(x)); return x; }
template <class T> static bool is(T&& x, codepoint& y) { return std::is_same<T&&, codepoint&>::value && (const void*)&x == (const void*)&y; }   // the very left side, by reference
static OPAQUE bool alone(int v) {                 // everything that involves one value
  bool ok = true; const codepoint a(v); codepoint b = v, d; ok &= d.value == 0 && (int)d == 0;
  ok &= a.value == v && (int)a == v && b.value == v;
  codepoint e(a); ok &= (int)e == v; ok &= is(d = a, d) && is(d = std::move(d), d) && (int)d == v && (int)a == v;
  codepoint f; ok &= is(f = v, f) && f.value == v; f = f; ok &= (int)f == v;
  ok &= a == b && a == v && v == a && !(a != b) && !(a < b) && !(b < a);
  long l = a; ok &= l == (long)v; switch ((int)a) { default: ok &= true; } codepoint g(std::move(e)); ok &= (int)g == v; return ok;
}
static OPAQUE bool two(int v, int w) { const codepoint a(v), b(w); codepoint c(v); bool same = v == w, ok = (a == b) == same && (b == a) == same && (a == w) == same && (w == a) == same && (b == v) == same && (v == b) == same && (a != b) == !same && (a < b) == (v < w) && (a > b) == (v > w); c = b; ok &= (int)c == w && (int)a == v && (int)b == w; codepoint d(b); d = a; ok &= (int)d == v && (int)b == w; c = d; d = w; ok &= (int)c == v; return ok; }
static void point(Ctx& c, int v) { c.evaluations++; if (!alone(hide(v))) c.fail("value", "a codepoint made from %X (%d) is not that integer", (unsigned)v, v); }
static void pair(Ctx& c, int v, int w) { c.count("pairs"); if (!two(hide(v), hide(w))) c.fail("pair", "codepoints %X and %X do not compare or assign like their integers", (unsigned)v, (unsigned)w); if (!two(hide(w), hide(v))) c.fail("pair", "codepoints %X and %X do not compare or assign like their integers", (unsigned)w, (unsigned)v); }
static int any(Rng& r) { switch (r.below(5)) { case 0: return (int)r.next(); case 1: return (int)((1u << r.below(32)) + r.below(5) - 2); case 2: return -(int)r.below(0x120000); case 3: return INT_MAX - (int)r.below(3); default: return gen::any_cp(r); } }
void run(Ctx& c) {
  bool s = c.sanitized(); const uint64_t blocks = 1 << 12, per = 1 << 20; uint64_t stride = c.thorough && !s ? 1 : s ? 509 : 31;
  c.cases("integers", blocks, [&](Rng& r, uint64_t i) { uint64_t n = 0; for (uint64_t k = stride > 1 ? r.below(stride) : 0; k < per; k += stride) { point(c, (int)(uint32_t)(i * per + k)); n++; } c.count("integers", n); c.nontrivial(mix(i)); });
  c.cases("unicode", 0x110, [&](Rng& r, uint64_t i) { for (int k = 0; k < 0x1000; k++) { int v = (int)(i * 0x1000) + k; point(c, v); point(c, -v); pair(c, v, v + 1); pair(c, v, (int)(v ^ (1u << r.below(32)))); pair(c, v, -v); pair(c, v, v + 0x110000 * r.range(1, 100)); c.nontrivial(mix(0x9000000000ull + v)); } });
  c.cases("pairs", c.amount(400, 8000), [&](Rng& r, uint64_t) { for (int k = 0; k < 1000; k++) { int v = any(r), w = r.chance(1, 3) ? v : any(r); pair(c, v, w); for (int b = 0; b < 32; b++) pair(c, v, (int)((unsigned)v ^ (1u << b))); } });
  c.cases("containers", c.amount(s ? 200 : 2000, 20000), [&](Rng& r, uint64_t) { // as elements of containers and in algorithms
    Text t; int n = r.range(0, 200); for (int k = 0; k < n; k++) t.push_back(any(r)); std::vector<codepoint> v(t.begin(), t.end()); c.count("containers");
    auto same = [&](const char* w) { Text g; for (auto& x : v) g.push_back(x); if (g != t) c.fail("container", "%s over codepoints differs from integers", w); };
    same("copying"); for (int q = 0; q < 4; q++) { int x = t.empty() ? 3 : r.pick(t); if (std::find(t.begin(), t.end(), x) - t.begin() != std::find(v.begin(), v.end(), codepoint(x)) - v.begin() || std::find(v.begin(), v.end(), x) - v.begin() != std::find(t.begin(), t.end(), x) - t.begin()) c.fail("container", "find of %X differs", (unsigned)x); if (std::count(t.begin(), t.end(), x) != std::count(v.begin(), v.end(), codepoint(x))) c.fail("container", "count of %X differs", (unsigned)x); }
    std::sort(t.begin(), t.end()); std::sort(v.begin(), v.end()); same("sort"); t.erase(std::unique(t.begin(), t.end()), t.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); same("unique"); std::reverse(t.begin(), t.end()); std::reverse(v.begin(), v.end()); same("reverse");
    std::map<int, int> m; for (auto& x : v) m[x]++; if (m.size() != t.size()) c.fail("container", "keys made from codepoints collide"); c.evaluations++; });
  c.sample("0 -1 10FFFF 110000 7FFFFFFF 80000000");
}
