// Memory runs out at every allocation in turn, and operations throw at every call in turn.
#include "ops.hpp"
#include <new>
#include <list>
using namespace vf; using ref::Text;
static bool g_track = false;   // allocations made by the code under test carry a mark
struct Track { Track() { g_track = true; } ~Track() { g_track = false; } };
static long g_live = 0, g_count = 0, g_fail_at = -1; static bool g_keep = false; static long g_fired = 0, g_fired_nothrow = 0;
static void* take(size_t n, bool nothrow) {
  if (!g_track) { char* p = (char*)malloc(n + 16); if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); } *(long*)p = 0; return p + 16; }
  ++g_count;
  if (g_fail_at >= 0 && (g_count == g_fail_at || (g_keep && g_count > g_fail_at))) { ++g_fired; if (nothrow) { ++g_fired_nothrow; return nullptr; } throw std::bad_alloc(); }
  char* p = (char*)malloc(n + 16); if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); } *(long*)p = 1; ++g_live; return p + 16;
}
static void give(void* p) noexcept { if (p) { char* q = (char*)p - 16; if (*(long*)q) --g_live; free(q); } }
void* operator new(size_t n) { return take(n, false); }
void* operator new[](size_t n) { return take(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return take(n, true); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return take(n, true); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { give(p); }

struct Boom { int token; };
enum { ENDED, THREW_ALLOC, THREW_BOOM, THREW_OTHER };
static int g_ret;
// A scenario works on a destination holding `pre` and returns how it ended. Result in codepoint terms.
template <class D> struct Codec;
template <> struct Codec<u5e::utf8_string> { static void fill(u5e::utf8_string& d, const Text& t) { d.native_string = ref::encode(t); } static bool read(u5e::utf8_string& d, Text& o) { o.clear(); return ref::decode(d.native_string, o); } };
template <> struct Codec<u5e::utf32ne_string> { static void fill(u5e::utf32ne_string& d, const Text& t) { d.native_string = to_i(t); } static bool read(u5e::utf32ne_string& d, Text& o) { o = from_i(d.native_string); return true; } };
template <class S> static auto image(S& s) -> decltype(raw(s.native_string)) { return raw(s.native_string); }

template <class D, class S, class Op> static void faults(Ctx& c, Rng& r, const char* n, S& src, const Text& t, const Text& pre, int room, Op op) {
  auto before = image(src); typedef Codec<D> K;
  auto make = [&](D& d) { K::fill(d, pre); if (room == 1) d.native_string.reserve(d.native_string.size() + 6 * t.size() * 18 + 64); else if (room == 2) d.native_string.shrink_to_fit(); else if (room == 3) d.native_string.reserve(d.native_string.size() + 9); };
  Text full; int ret = 0; long total;
  { D d; make(d); g_count = 0; g_fail_at = -1; { Track k; op(src, d); } ret = g_ret; total = g_count; if (!K::read(d, full)) { c.fail("malformed-output", "%s on [%s]", n, show(t).c_str()); return; } }
  c.count("allocations_in_complete_runs", total);
  std::vector<long> at; for (long i = 1; i <= total; i++) if (i <= 24 || i > total - 4 || total <= 60) at.push_back(i); for (int k = 0; k < 10 && total > 60; k++) at.push_back(1 + r.below(total));
  for (long i : at) for (int keep = 0; keep < 2; keep++) {
    if (keep && i > 6 && !r.chance(1, 4)) continue;
    long live = g_live; int how = ENDED; bool bad = false, mal = false; Text got; long fired, fired_nt;
    { D d; make(d); g_count = 0; g_fired = g_fired_nothrow = 0; g_keep = keep; g_fail_at = i;
      try { Track k; op(src, d); } catch (std::bad_alloc&) { how = THREW_ALLOC; } catch (...) { how = THREW_OTHER; }
      g_fail_at = -1; fired = g_fired; fired_nt = g_fired_nothrow; c.evaluations++; c.count(keep ? "faults_persistent" : "faults_single", 1); c.count(how == THREW_ALLOC ? "bad_alloc_reached_caller" : how == ENDED ? "completed_without_memory" : "other_exception");
      if (!K::read(d, got)) { mal = true; }
      if (how == THREW_OTHER) { c.fail("other-exception", "%s on [%s], allocation %ld of %ld failing: another exception", n, show(t).c_str(), i, total); bad = true; }
      if (how == ENDED && fired == 0 && i <= total) c.count("allocation_not_reached");
      if (how == ENDED && !mal && (got != full || g_ret != ret)) { c.fail("swallowed", "%s on [%s], allocation %ld of %ld failing: returned %d with [%s] instead of %d with [%s]", n, show(t).c_str(), i, total, g_ret, show(got).c_str(), ret, show(full).c_str()); bad = true; }
      if (mal || got.size() < pre.size() || got.size() > full.size() || !std::equal(got.begin(), got.end(), full.begin())) { c.fail("partial-output", "%s on [%s], allocation %ld of %ld failing: the destination holds [%s]%s, not a prefix of [%s]", n, show(t).c_str(), i, total, show(got).c_str(), mal ? " (malformed)" : "", show(full).c_str()); bad = true; }
      else if (got.size() > pre.size() && got.size() < full.size()) c.count("proper_prefixes");
      if (image(src) != before) { c.fail("source", "%s on [%s], allocation %ld of %ld failing: the source changed", n, show(t).c_str(), i, total); return; }
      // what is left can still be used: the same again, behind it
      if (!bad && !mal && i % 3 == 0) { Text more; g_ret = 0; { Track k; op(src, d); } K::read(d, more); Text want = got; want.insert(want.end(), full.begin() + pre.size(), full.end()); if (more != want) { c.fail("unusable", "%s on [%s] after allocation %ld failed: repeating it into the same destination gives [%s]", n, show(t).c_str(), i, show(more).c_str()); bad = true; } c.count("repeated_into_same"); }
    }
    if (g_live > live) { c.fail("leak", "%s on [%s], allocation %ld of %ld failing%s: %ld allocations not released", n, show(t).c_str(), i, total, keep ? " (and all later)" : "", g_live - live); return; }
    (void)fired_nt; if (bad) return;
    if (i % 4 == 1) { D d; K::fill(d, pre); Text again; op(src, d); K::read(d, again); c.count("repeated_into_fresh"); if (again != full) { c.fail("retry", "%s on [%s]: repeating after a failure gives [%s]", n, show(t).c_str(), show(again).c_str()); return; } }
  }
}
template <class E> struct Own; template <> struct Own<u5e::utf8> { typedef u5e::utf8_string type; }; template <> struct Own<u5e::utf32ne> { typedef u5e::utf32ne_string type; };
struct OnStr { Ctx& c; Rng& r; const Text& t;
  template <class E, class N> void operator()(const char* n, u5e::basic_encodedstring<E, N>& s) const {
    typedef u5e::basic_encodedstring<E, N> S; typedef typename Own<E>::type D; Text pre = r.chance(1, 3) ? Text() : r.chance(1, 2) ? gen::text(r, 5) : Text(r.range(10, 20), 0xE9); int room = r.below(4); char name[80];
    char f = ops::FORMS[r.below(4)];
    snprintf(name, sizeof name, "%s %s into utf8", n, ops::form_name(f)); if (r.chance(1, 2)) faults<u5e::utf8_string>(c, r, name, s, t, pre, room, [f](S& a, u5e::utf8_string& d) { g_ret = ops::normalize(f, a, d); });
    else { snprintf(name, sizeof name, "%s %s into utf32", n, ops::form_name(f)); faults<u5e::utf32ne_string>(c, r, name, s, t, pre, room, [f](S& a, u5e::utf32ne_string& d) { g_ret = ops::normalize(f, a, d); }); }
    size_t x = r.below(3), y = r.below(4);
    switch (r.below(4)) {
      case 0: snprintf(name, sizeof name, "%s append", n); faults<D>(c, r, name, s, t, pre, room, [](S& a, D& d) { d.template append<N>(a.codepoint_cbegin(), a.codepoint_cend()); g_ret = 0; }); break;
      case 1: snprintf(name, sizeof name, "%s append graphemes", n); faults<D>(c, r, name, s, t, pre, room, [x, y](S& a, D& d) { auto b = a.grapheme_begin(), e = a.grapheme_begin(), z = a.grapheme_end(); for (size_t k = 0; k < x && b != z; k++) ++b; e = b; for (size_t k = 0; k < y * 4 && e != z; k++) ++e; d.template append<N>(b, e); g_ret = 0; }); break;
      case 2: snprintf(name, sizeof name, "%s canonical decomposition filter", n); faults<u5e::utf32ne_string>(c, r, name, s, t, pre, room, [](S& a, u5e::utf32ne_string& d) { g_ret = u5e::filter(a.codepoint_cbegin(), a.codepoint_cend(), d, u5e::canonical_decomposition<u5e::utf32ne_string>); }); break;
      default: snprintf(name, sizeof name, "%s compatibility decomposition filter", n); faults<u5e::utf32ne_string>(c, r, name, s, t, pre, room, [](S& a, u5e::utf32ne_string& d) { g_ret = u5e::filter(a.codepoint_cbegin(), a.codepoint_cend(), d, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>); });
    }
    throwing(n, s);
  }
  // an operation that throws at its k-th call, before or after doing its part
  template <class S> void throwing(const char* n, S& s) const {
    auto before = image(s); std::vector<int> seg = ref::db().segment(t); int ng = (int)seg.size() - 1; if (t.empty()) ng = 0;
    for (int q = 0; q < 6; q++) {
      int k = ng ? r.below(ng + 1) : 0; bool after = r.chance(1, 2), codepoints = r.chance(1, 3); if (codepoints) k = r.below(t.size() + 1); int token = (int)r.below(1 << 30), calls = 0, how = ENDED, kind = r.below(3); char f = ops::FORMS[r.below(4)]; int total = codepoints ? (int)t.size() : ng; long live = g_live;
      { u5e::utf32ne_string d; Text pre(r.below(4), 'p'); d.native_string = to_i(pre); size_t kept = 0;
        auto fire = [&] { if (kind == 0) throw Boom{token}; if (kind == 1) throw token; throw std::runtime_error("boom"); };
        auto part = [&](auto&& body) { int me = calls++; if (me == k && !after) fire(); int x = body(); kept = d.native_string.size(); if (me == k && after) fire(); return x; };
        kept = pre.size(); int ret = -1;
        try {
          Track tr; if (codepoints) ret = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), d, [&](u5e::codepoint cp, u5e::utf32ne_string& o) { return part([&] { return u5e::canonical_decomposition<u5e::utf32ne_string>(cp, o); }); });
          else ret = u5e::filter(s.grapheme_begin(), s.grapheme_end(), d, [&](u5e::basic_grapheme<S> g, u5e::utf32ne_string& o) { return part([&] { switch (f) { case 'd': return u5e::normalization_form_d(g, o); case 'c': return u5e::normalization_form_c(g, o); case 'D': return u5e::normalization_form_kd(g, o); default: return u5e::normalization_form_kc(g, o); } }); });
        } catch (Boom& b) { how = kind == 0 && b.token == token ? THREW_BOOM : THREW_OTHER; } catch (int x) { how = kind == 1 && x == token ? THREW_BOOM : THREW_OTHER; } catch (std::runtime_error& e) { how = kind == 2 && !strcmp(e.what(), "boom") ? THREW_BOOM : THREW_OTHER; } catch (...) { how = THREW_OTHER; }
        c.evaluations++; c.count("throwing_operations"); if (k < total) c.count("operation_exceptions");
        if (k < total && how != THREW_BOOM) c.fail("exception-lost", "%s: a filter over [%s] whose operation throws at call %d %s (%d)", n, show(t).c_str(), k, how == ENDED ? "returned" : "threw something else", ret);
        if (k >= total && how != ENDED) c.fail("other-exception", "%s: a filter over [%s] threw", n, show(t).c_str());
        if (calls != std::min(total, k + 1)) c.fail("calls-after-exception", "%s: %d calls for an exception at call %d of %d over [%s]", n, calls, k, total, show(t).c_str());
        if (d.native_string.size() != kept || !std::equal(pre.begin(), pre.end(), d.native_string.begin())) c.fail("partial-output", "%s: after an exception at call %d over [%s] the destination holds %zu codepoints instead of %zu", n, k, show(t).c_str(), d.native_string.size(), kept);
        if (image(s) != before) c.fail("source", "%s: a throwing operation over [%s] changed the source", n, show(t).c_str()); }
      if (g_live > live) { c.fail("leak", "%s: a throwing operation over [%s] left %ld allocations", n, show(t).c_str(), g_live - live); return; }
    }
  } };
// append_from_utf32ne, single decompositions
static void direct(Ctx& c, Rng& r, const Text& t) {
  Text pre = r.chance(1, 2) ? Text() : gen::text(r, 6); int room = r.below(4); u5e::utf32ne_string s(to_i(t)); Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view v(iview(e.p.get(), e.n));
  faults<u5e::utf8_string>(c, r, "append_from_utf32ne into utf8", s, t, pre, room, [](u5e::utf32ne_string& a, u5e::utf8_string& d) { d.append_from_utf32ne<istring>(a.codepoint_cbegin(), a.codepoint_cend()); g_ret = 0; });
  faults<u5e::utf32ne_string>(c, r, "append_from_utf32ne into utf32", v, t, pre, room, [](u5e::utf32ne_string_view& a, u5e::utf32ne_string& d) { d.append_from_utf32ne<iview>(a.codepoint_cbegin(), a.codepoint_cend()); g_ret = 0; });
  if (!t.empty()) { int cp = r.pick(t); faults<u5e::utf32ne_string>(c, r, "single decomposition", s, t, pre, 2, [cp](u5e::utf32ne_string&, u5e::utf32ne_string& d) { g_ret = u5e::canonical_decomposition<u5e::utf32ne_string>(cp, d) + u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>(cp, d); }); }
}
void run(Ctx& c) {
  gen::P(); ref::db(); bool s = c.sanitized();
  auto one = [&](Rng& r, const Text& t, int which) { OnStr f{c, r, t}; each8(c, r, ref::encode(t), which, f); each32(c, r, t, which, f); direct(c, r, t); if (t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); } };
  { Rng w(5); Ctx* q = &c; uint64_t ev = q->evaluations; for (int k = 0; k < 20; k++) { gen::text(w, 60); } q->evaluations = ev; for (char f : ops::FORMS) ops::norm_text(f, Text{0x1E9B, 0x323, 0x301, 'a'}); }   // anything set up once is set up now
  c.cases("short", c.amount(s ? 300 : 4000, s ? 6000 : 60000), [&](Rng& r, uint64_t i) { one(r, gen::text(r, 10, i % 3 ? -1 : 3), some_storage(r)); });
  c.cases("medium", c.amount(s ? 80 : 800, 12000), [&](Rng& r, uint64_t) { one(r, gen::text(r, 60), some_storage(r)); });
  c.cases("many-marks", c.amount(s ? 40 : 300, 6000), [&](Rng& r, uint64_t) { one(r, gen::text(r, 300, 5), some_storage(r)); });
  c.cases("all-storages", c.amount(s ? 20 : 200, 3000), [&](Rng& r, uint64_t) { one(r, gen::text(r, 20), ST_ALL); });
  c.cases("huge", c.sanitized() && !c.thorough ? 4 : gen::HUGE, [&](Rng& r, uint64_t i) { one(r, gen::huge_text(r, c.sanitized() ? i + c.seed * 4 : i), ST_STRING); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (c.sanitized() && !c.thorough && mix(i) % 8 != c.seed % 8) return; one(r, gen::shaped(r, i), ST_STRING); });
  c.cases("long", c.amount(8, 60), [&](Rng& r, uint64_t) { one(r, gen::long_text(r, r.range(500, 3000)), ST_STRING); });
  c.cases("empty", 4, [&](Rng& r, uint64_t) { one(r, Text(), ST_ALL); });
}
