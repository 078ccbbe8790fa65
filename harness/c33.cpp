// Re-entrance: library calls interrupted at every load, store and branch (coverage callbacks), at every instruction (trap
// flag) and from the user's own allocators, storage and operations, by other library calls; both must give what they give alone.
#define VERIF_MON_HOOK
#include "probes.hpp"
#include <new>
#include <ucontext.h>
using namespace vf;
#define QUIET __attribute__((noinline, no_sanitize("coverage")))
#if !defined(__clang__)
#undef QUIET
#define QUIET __attribute__((noinline))
#endif
static volatile bool g_on; static volatile uint64_t g_point, g_hits, g_bad, g_allocs, g_traps; static uint64_t g_target, g_every, g_cov;
static volatile uint64_t g_bad_alloc; static volatile int g_in_reading;
QUIET void* operator new(size_t n) { if (g_in_reading) g_bad_alloc = g_bad_alloc + 1; g_allocs = g_allocs + 1; void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
QUIET void* operator new[](size_t n) { return operator new(n); }
QUIET void operator delete(void* p) noexcept { free(p); }
QUIET void operator delete(void* p, size_t) noexcept { free(p); }
QUIET void operator delete[](void* p) noexcept { free(p); }
QUIET void operator delete[](void* p, size_t) noexcept { free(p); }

enum { L_CCC, L_GCB, L_DMAP, L_KMAP, L_COMPOSE, NLOOK, R_FORWARD = NLOOK, R_BACK, R_GRAPHEMES, R_SEEK, R_COMPARE, R_BOUNDS, R_GRAPHEME_COMPARE, R_CLASSES, NREAD, PROBE = NREAD, NCALL = PROBE + NPROBE };
static const char* call_name(int k) { static const char* n[] = {"combining class", "break class", "canonical mapping", "compatibility mapping", "composition lookup", "codepoints forward", "codepoints backward", "graphemes", "grapheme seek", "comparison", "bounds check", "grapheme comparison", "all lookups"}; return k < NREAD ? n[k] : probe_name[k - PROBE]; }
static inline uint64_t acc(uint64_t h, uint64_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ull + (h >> 29) + 1; }
static uint64_t zeros(uint64_t h, int const* m) { if (!m) return acc(h, 77); for (int i = 0; i < 64 && m[i]; i++) h = acc(h, (unsigned)m[i]); return acc(h, 0); }
static uint64_t look(int k, int a, int b) { switch (k) { case L_CCC: return ops::ccc(a); case L_GCB: return ops::gcb(a); case L_DMAP: return zeros(1, ops::dmap(a)); case L_KMAP: return zeros(1, ops::kmap(a)); default: return (unsigned)ops::compose(a, b); } }
template <class It> static uint64_t bounds(It b, It e, char) { return u5e::utf8_bounds<It>::check(b, e); }
template <class It> static uint64_t bounds(It, It, int) { return 0; }
// a reading call: allocates nothing in this driver
template <class S> static uint64_t reading(int k, S& s, int at) {
  typedef u5e::basic_grapheme_iterator<S> G; uint64_t h = 1; size_t cap = s.native_string.size() + 4, n = 0;
  switch (k) {
    case R_FORWARD: for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e && n < cap; ++i, ++n) h = acc(h, (unsigned)(int)*i); return h;
    case R_BACK: { auto b = s.codepoint_cbegin(), i = s.codepoint_cend(); while (i != b && n++ < cap) { --i; h = acc(h, (unsigned)(int)*i); } return h; }
    case R_GRAPHEMES: { G i = s.grapheme_begin(), e = s.grapheme_end(); while (i != e && n++ < cap) { auto g = *i; for (auto p = g.codepoint_begin(), q = g.codepoint_end(); p != q && n < 4 * cap; ++p, ++n) h = acc(h, (unsigned)(int)*p); h = acc(h, 9999999); ++i; } return h; }
    case R_SEEK: { auto b = s.codepoint_cbegin(), e = s.codepoint_cend(), p = b; while (at-- > 0 && p != e) ++p; G g(b, e, p); if (g == s.grapheme_end()) return 5; auto x = *g; for (auto i = x.codepoint_begin(), q = x.codepoint_end(); i != q && n++ < cap; ++i) h = acc(h, (unsigned)(int)*i); h = acc(h, g == p); ++g; return acc(h, g == s.grapheme_end()); }
    case R_COMPARE: { auto b = s.codepoint_cbegin(), e = s.codepoint_cend(); for (auto i = b; i != e && n < cap; ++i, ++n) h = acc(h, (i == b) + 2 * (i != e) + 4 * (i == e)); return h; }
    case R_BOUNDS: return bounds(s.native_cbegin(), s.native_cend(), typename std::decay<decltype(*s.native_cbegin())>::type());
    case R_GRAPHEME_COMPARE: { G a = s.grapheme_begin(), b = a, e = s.grapheme_end(); while (b != e && n++ < 6) { h = acc(h, (a == b) + 2 * (a != b)); a = b; ++b; } return h; }
    default: { int last = 0; for (auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); i != e && n < cap; ++i, ++n) { int cp = (int)*i; for (int q = 0; q < NLOOK; q++) h = acc(h, look(q, q == L_COMPOSE ? last : cp, cp)); last = cp; } return h; }
  }
}
struct Call { int kind, a, b, storage, variant; Source* s; uint64_t want; };
static uint64_t go_inner(const Call& x) {
  if (x.kind < NLOOK) return look(x.kind, x.a, x.b);
  if (x.kind < NREAD) switch (x.storage) { case 0: return reading(x.kind, x.s->s8, x.a); case 1: return reading(x.kind, x.s->v8, x.a); case 2: return reading(x.kind, x.s->s32, x.a); default: return reading(x.kind, x.s->v32, x.a); }
  uint64_t h = 3; Res r = x.s->go(x.kind - PROBE, x.storage, x.variant); for (int v : r) h = acc(h, (unsigned)v); return h;
}
static std::string describe(const Call& x) { char b[64]; snprintf(b, sizeof b, " U+%04X U+%04X", (unsigned)x.a, (unsigned)x.b); return std::string(call_name(x.kind)) + (x.kind < NLOOK ? b : std::string(x.storage < 2 ? " (UTF-8)" : " (UTF-32)") + " of [" + show(x.s->t, 24) + "]"); }

// what happens at a point
static const Call* g_items; static size_t g_nitems; static uint64_t g_got, g_target2; static const Call* g_item2; static const Call* g_wrong; static int g_depth;
QUIET static uint64_t guarded(const Call& x) { int was = g_in_reading; g_in_reading = x.kind < NREAD; uint64_t h = go_inner(x); g_in_reading = was; return h; }
QUIET static void interrupt() {
  const Call& x = g_items[g_nitems > 1 ? g_hits % g_nitems : 0]; uint64_t at = g_point; bool nest = g_target2 && !g_depth;
  g_hits = g_hits + 1; g_on = false; uint64_t t = g_target, ev = g_every; const Call* it = g_items; size_t ni = g_nitems;
  if (nest) { g_depth = 1; g_target = g_target2; g_every = 0; g_items = g_item2; g_nitems = 1; g_point = 0; g_on = true; }
  uint64_t h = guarded(x);
  g_on = false; if (nest) { g_depth = 0; g_target = t; g_every = ev; g_items = it; g_nitems = ni; g_point = at; }
  if (h != x.want) { if (!g_bad) { g_wrong = &x; g_got = at; } g_bad = g_bad + 1; }
  g_on = true;
}
QUIET static void point() { uint64_t p = g_point + 1; g_point = p; if (p == g_target || (g_every && p % g_every == 0)) interrupt(); }
extern "C" {
QUIET void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (uint32_t* p = a; p < b; p++) *p = 1; g_cov = 1; }
#define POINT(name, T) QUIET void name(T) { if (g_on) point(); }
POINT(__sanitizer_cov_trace_pc_guard, uint32_t*)
POINT(__sanitizer_cov_load1, uint8_t*) POINT(__sanitizer_cov_load2, uint16_t*) POINT(__sanitizer_cov_load4, uint32_t*) POINT(__sanitizer_cov_load8, uint64_t*) POINT(__sanitizer_cov_load16, void*)
POINT(__sanitizer_cov_store1, uint8_t*) POINT(__sanitizer_cov_store2, uint16_t*) POINT(__sanitizer_cov_store4, uint32_t*) POINT(__sanitizer_cov_store8, uint64_t*) POINT(__sanitizer_cov_store16, void*)
}
// single-stepping
static bool g_step;
#if defined(__x86_64__)
static void on_trap(int, siginfo_t*, void* uc) { int e = errno; if (!g_on) { ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; } g_traps = g_traps + 1; point(); errno = e; }
#define TF_ON() do { if (g_step) __asm__ volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" : : : "memory", "cc"); } while (0)
static bool steps_available() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, 0); g_step = true; g_target = 0; g_every = 0; g_point = 0; g_traps = 0; g_on = true; TF_ON(); for (volatile int i = 0; i < 8; i = i + 1) {} g_on = false; for (volatile int i = 0; i < 3; i = i + 1) {} return g_traps > 8; }
#else
#define TF_ON() do {} while (0)
static bool steps_available() { return false; }
#endif
static void deadlocked(int) { static uint64_t last = 0; static int quiet = 0; uint64_t b = g_ctx->prog->beat; if (b != last) { last = b; quiet = 0; return; } if (++quiet >= 9) { static const char m[] = "HANG: no progress for 45 seconds\n"; (void)!write(2, m, sizeof m - 1); _exit(77); } }

QUIET static uint64_t run_points(const Call& x, uint64_t target, uint64_t every, uint64_t* points) {
  g_target = target; g_every = every; g_point = 0; g_hits = 0; g_bad = 0; g_wrong = 0; g_depth = 0; int was = g_in_reading; (void)was;
  g_on = true; TF_ON(); uint64_t h = go_inner(x); g_on = false; if (g_step) { volatile int q = 0; q = q + 1; } *points = g_point; return h;
}
static Call with(const Call& x) { Call y = x; g_bad_alloc = 0; y.want = guarded(y); if (g_bad_alloc) g_ctx->fail("allocates", "%s requests memory %llu times", describe(y).c_str(), (unsigned long long)g_bad_alloc); g_bad_alloc = 0; return y; }
// outer interrupted; every result compared
static uint64_t interrupted(Ctx& c, const Call& outer, const Call* in, size_t n, uint64_t target, uint64_t every, uint64_t target2 = 0, const Call* in2 = 0) {
  uint64_t pts; g_items = in; g_nitems = n; g_target2 = target2; g_item2 = in2; g_bad_alloc = 0; uint64_t h = run_points(outer, target, every, &pts); uint64_t hits = g_hits; c.evaluations++; c.prog->beat++;
  c.count("interruptions", hits); if (target2) c.count("interruptions_interrupted");
  const char* where = g_step ? "instruction" : "access or branch";
  if (g_bad) c.fail("interrupting-call", "%s, called at %s %llu of %s, does not give what it gives otherwise (%llu of %llu calls)", describe(*g_wrong).c_str(), where, (unsigned long long)g_got, describe(outer).c_str(), (unsigned long long)g_bad, (unsigned long long)hits);
  if (g_bad_alloc) c.fail("allocates", "%s requests memory", describe(in[0]).c_str());
  if (h != outer.want) c.fail("interrupted-call", "%s does not give what it gives otherwise when %s is called at %s %llu of it", describe(outer).c_str(), describe(in[0]).c_str(), where, (unsigned long long)target);
  for (size_t q = 0; q <= n && q < 5; q++) { const Call& x = q == (target & 1 ? 0 : n) ? outer : in[(q + n - (target & 1)) % n]; uint64_t g = guarded(x); c.count("calls_afterwards"); if (g != x.want) { c.fail("after-interruption", "%s does not give what it gave before %s was interrupted at %s %llu by %s", describe(x).c_str(), describe(outer).c_str(), where, (unsigned long long)target, describe(in[0]).c_str()); break; } }
  return pts;
}
static void points_of(Ctx& c, Rng& r, const Call& outer, const std::vector<Call>& in, uint64_t all_up_to, uint64_t sampled, uint64_t every) {
  uint64_t pts = interrupted(c, outer, in.data(), in.size(), 0, 0); c.counters["highest_points"] = std::max(c.counters["highest_points"], pts);
  if (every) interrupted(c, outer, in.data(), in.size(), 0, every);
  if (pts <= all_up_to) { for (uint64_t k = 1; k <= pts; k++) interrupted(c, outer, &in[k % in.size()], 1, k, 0); c.count("calls_interrupted_everywhere"); }
  else for (uint64_t q = 0; q < sampled; q++) { const Call& x = in[r.below(in.size())]; interrupted(c, outer, &x, 1, 1 + r.below(pts), 0); }
}
// a codepoint that a small cache would confuse with, or keep next to, cp
static int relative(Rng& r, int cp) {
  const gen::Pools& P = gen::P(); int x;
  switch (r.below(7)) { case 0: return cp; case 1: x = cp ^ (1 << r.below(20)); break; case 2: x = cp + (1 << r.range(3, 16)) * r.range(-6, 6); break; case 3: x = gen::norm_cp(r); break; case 4: x = r.pick(P.pairs).first; break; case 5: x = gen::mark(r); break; default: x = cp + r.range(-3, 3); }
  return x < 0 || x > 0x10FFFF ? gen::norm_cp(r) : x;
}
static Call lookup(Rng& r, int kind, int cp) { const gen::Pools& P = gen::P(); Call x = {kind, cp, 0, 0, 0, 0, 0}; if (kind == L_COMPOSE) { if (r.chance(2, 3)) { auto p = r.pick(P.pairs); x.a = p.first; x.b = p.second; } else x.b = gen::mark(r); } return x; }
static Call any_reading(Rng& r, Source* s) { int k = r.range(0, NREAD - 1); if (k < NLOOK) return with(lookup(r, k, s->t.empty() ? gen::norm_cp(r) : r.chance(2, 3) ? r.pick(s->t) : relative(r, r.pick(s->t)))); Call x = {k, (int)r.below(s->t.size() + 1), 0, (int)r.below(4), 0, s, 0}; return with(x); }
static Call any_probe(Rng& r, Source* s) { Call x = {PROBE + (int)r.below(NPROBE), 0, 0, (int)r.below(4), (int)r.below(8), s, 0}; return with(x); }
static Text some_text(Rng& r, size_t n) { Text t = gen::text(r, n); if (t.size() > n) t.resize(n); return t; }

// a user's allocator, storage and operations that call the library
static const std::vector<Call>* g_user; static uint64_t g_user_calls, g_user_every; static bool g_user_on;
static void from_user_code() { if (!g_user_on) return; static uint64_t n; if (++n % g_user_every) return; g_user_on = false; const Call& x = (*g_user)[g_user_calls++ % g_user->size()]; uint64_t h = go_inner(x); if (h != x.want) { if (!g_bad) g_wrong = &x; g_bad = g_bad + 1; } g_user_on = true; }
template <class T> struct Calling { typedef T value_type; Calling() {} template <class U> Calling(const Calling<U>&) {} T* allocate(size_t n) { from_user_code(); return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { from_user_code(); ::operator delete(p); } template <class U> bool operator==(const Calling<U>&) const { return true; } template <class U> bool operator!=(const Calling<U>&) const { return false; } };
typedef std::basic_string<int, std::char_traits<int>, Calling<int>> istring_c;
template <class N> static Text content(const N& n) { return Text(n.begin(), n.end()); }

void run(Ctx& c) {
  gen::P(); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = deadlocked; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, 0); struct itimerval tv = {{5, 0}, {5, 0}}; setitimer(ITIMER_REAL, &tv, 0);
  bool slow = false;
  if (!g_cov) { if (!steps_available()) { g_step = false; c.count("no_single_steps"); } else slow = true; }
  // whatever is set up once
  { Rng r(1); for (int k = 0; k < 60; k++) { Source s(some_text(r, 30), 0); for (int q = 0; q < NREAD; q++) { Call x = {q, s.t.empty() ? 'a' : s.t[0], 0x301, k % 4, 0, &s, 0}; go_inner(x); } for (int q = 0; q < NPROBE; q++) { Call x = {PROBE + q, 0, 0, k % 4, k % 8, &s, 0}; go_inner(x); } c.prog->beat++; } }
  if (g_cov || g_step) {
    c.cases("lookups", slow ? c.amount(160, 6000) : c.amount(3000, 60000), [&](Rng& r, uint64_t i) {
      int kind = i % NLOOK; Call a = with(lookup(r, kind, r.chance(1, 2) ? gen::norm_cp(r) : gen::any_cp(r))); std::vector<Call> in;
      Call same = a; in.push_back(same);
      for (int q = 0; q < 2; q++) { Call b = a; if (kind == L_COMPOSE && r.chance(1, 3)) b = lookup(r, kind, 0); else { b.a = relative(r, a.a); if (kind == L_COMPOSE && r.chance(1, 2)) b.b = relative(r, a.b); } in.push_back(with(b)); }
      if (r.chance(1, 3)) { Call b = lookup(r, r.below(NLOOK), a.a); in.push_back(with(b)); }
      for (auto& b : in) { std::vector<Call> one(1, b); points_of(c, r, a, one, slow ? 400 : 600, 60, 1); }
      c.count("lookups_interrupted", in.size()); c.nontrivial(mix((uint64_t)kind << 44 ^ (uint64_t)a.a << 22 ^ a.b)); });
    c.cases("readings", slow ? c.amount(96, 2000) : c.amount(1200, 20000), [&](Rng& r, uint64_t i) {
      Source x(some_text(r, 8), i & 1), y(some_text(r, 6), 0); Source* other = r.chance(1, 3) ? &x : &y; Call a = any_reading(r, &x); std::vector<Call> in; for (int q = 0; q < 5; q++) in.push_back(any_reading(r, other)); { Call s = a; in.push_back(s); }
      if (a.kind >= NLOOK) { c.count("readings_interrupted"); c.nontrivial(hash_cps(x.t)); c.sample(describe(a)); }
      points_of(c, r, a, in, slow ? 300 : 500, 60, 1);
      if (!x.intact() || !y.intact()) c.fail("source-changed", "a text that was read changed: [%s]", show(x.t).c_str()); });
    c.cases("operations", slow ? c.amount(48, 1200) : c.amount(600, 12000), [&](Rng& r, uint64_t i) {
      Source x(some_text(r, 10), i & 1), y(some_text(r, 6), 0); Source* other = r.chance(1, 3) ? &x : &y; Call a = any_probe(r, &x); a.kind = PROBE + i % NPROBE; a = with(a); std::vector<Call> in; for (int q = 0; q < 8; q++) in.push_back(any_reading(r, other));
      c.count("operations_interrupted"); c.nontrivial(hash_cps(x.t)); points_of(c, r, a, in, 0, slow ? 12 : 60, slow ? 7 : 1); });
  }
  if (g_cov) {
    c.cases("operations-by-operations", c.amount(600, 12000), [&](Rng& r, uint64_t i) {
      Source x(some_text(r, 10), i & 1), y(some_text(r, 8), 0); Source* other = r.chance(1, 3) ? &x : &y; Call a = any_probe(r, &x); a.kind = PROBE + i % NPROBE; a = with(a); std::vector<Call> in; for (int q = 0; q < 4; q++) in.push_back(any_probe(r, other)); in.push_back(a); for (int q = 0; q < 2; q++) in.push_back(any_reading(r, &x));
      c.count("operations_interrupted_by_operations"); c.nontrivial(hash_cps(x.t)); points_of(c, r, a, in, 0, 40, 23 + r.below(30)); });
    c.cases("two-deep", c.amount(400, 10000), [&](Rng& r, uint64_t i) {
      Source x(some_text(r, 10), i & 1), y(some_text(r, 8), 0); Call a = r.chance(1, 2) ? any_probe(r, &x) : any_reading(r, &x), b = r.chance(1, 2) ? any_probe(r, &y) : any_reading(r, &x), d = r.chance(1, 3) ? a : r.chance(1, 2) ? any_probe(r, &x) : any_reading(r, &y);
      uint64_t pa = interrupted(c, a, &b, 1, 0, 0), pb = interrupted(c, b, &d, 1, 0, 0); c.nontrivial(hash_cps(x.t));
      for (int q = 0; q < 30; q++) { Call in[1] = {b}; interrupted(c, a, in, 1, 1 + r.below(pa), 0, 1 + r.below(pb), &d); uint64_t g = guarded(d); if (g != d.want) c.fail("after-interruption", "%s does not give what it gave before, after it interrupted %s", describe(d).c_str(), describe(b).c_str()); } });
  }
  // the user's code calls the library while the library calls the user's code
  g_step = false;
  c.cases("from-user-code", c.amount(slow || g_cov ? 1500 : 1500, 30000), [&](Rng& r, uint64_t i) {
    Source x(some_text(r, 14), 0), y(some_text(r, 8), 0); std::vector<Call> in; for (int q = 0; q < 4; q++) in.push_back(any_probe(r, r.chance(1, 3) ? &x : &y)); in.push_back(any_reading(r, &x));
    g_user = &in; g_user_calls = 0; g_user_every = r.range(1, 4); g_bad = 0; char f = ops::FORMS[i % 4]; Text want = ops::norm_text(f, x.t), got, got8, cps; std::vector<Text> gr, gw = ops::graphemes(x.s8); int n = 0, m = 0, wn = 0; { Text o; ops::norm32(f, x.s8, o, &wn); }
    typedef u5e::basic_encodedstring<u5e::utf32ne, istring_c> SC; SC out;
#ifndef VERIF_NO_MON
    typedef u5e::basic_encodedstring<u5e::utf8, mon::str8> S8; typedef u5e::basic_encodedstring<u5e::utf32ne, mon::str32> S32;
    S8 in8((mon::str8(x.b))); S32 out32; mon::g_hook = from_user_code;
    g_user_on = true; n = ops::normalize(f, in8, out); m = ops::normalize(f, in8, out32); cps = ops::codepoints(in8); gr = ops::graphemes(in8); g_user_on = false; mon::g_hook = 0;
    { auto v = out32.native_string.str(); got8.assign(v.begin(), v.end()); }
    if (cps != x.t) c.fail("user-storage", "the codepoints of [%s], read from storage that calls the library, are [%s]", show(x.t).c_str(), show(cps).c_str());
    if (gr != gw) c.fail("user-storage", "the graphemes of [%s] differ when read from storage that calls the library", show(x.t).c_str());
    if (got8 != want || m != wn) c.fail("user-storage", "%s of [%s] between storages that call the library gives [%s], otherwise [%s]", ops::form_name(f), show(x.t).c_str(), show(got8).c_str(), show(want).c_str());
#else
    g_user_on = true; n = ops::normalize(f, x.s8, out); g_user_on = false;
#endif
    got = content(out.native_string); if (got != want || n != wn) c.fail("user-allocator", "%s of [%s] with an allocator that calls the library gives [%s], otherwise [%s]", ops::form_name(f), show(x.t).c_str(), show(got).c_str(), show(want).c_str());
    // an operation that calls the library, and adds a grapheme or codepoint only afterwards
    { u5e::utf32ne_string o; typedef u5e::utf8_string S; std::function<void()> call = [&] { g_user_on = true; g_user_every = 1; from_user_code(); g_user_on = false; };
      int k = u5e::filter(x.s8.grapheme_begin(), x.s8.grapheme_end(), o, [&](u5e::basic_grapheme<S> g, u5e::utf32ne_string& to) { call(); return u5e::normalization_form_c<S, u5e::utf32ne_string>(g, to); }); Text w = ops::norm_text('c', x.t); (void)k;
      if (from_i(o.native_string) != w) c.fail("user-operation", "NFC of [%s] by an operation that also calls the library gives [%s], otherwise [%s]", show(x.t).c_str(), show(from_i(o.native_string)).c_str(), show(w).c_str()); }
    if (g_bad) c.fail("from-user-code", "%s, called from user code that the library calls on [%s], does not give what it gives otherwise", describe(*g_wrong).c_str(), show(x.t).c_str());
    for (auto& q : in) if (guarded(q) != q.want) c.fail("after-interruption", "%s does not give what it gave before user code called it", describe(q).c_str());
    c.count("calls_from_user_code", g_user_calls); c.evaluations++; c.nontrivial(hash_cps(x.t)); });
  if (g_traps) c.count("single_steps", g_traps);
  tv.it_interval.tv_sec = tv.it_value.tv_sec = 0; setitimer(ITIMER_REAL, &tv, 0);
}
