// The storage configurations every workload is run over.
#ifndef VERIF_STOR
#define VERIF_STOR
#include <string>
#include <vector>
#include <memory>
#include <experimental/string_view>
#include <stdlib.h>
#include <stddef.h>
#include <u5e/codepoint.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_iterator.hpp>
#include "common.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include "mon.hpp"

typedef std::experimental::string_view sview;
typedef std::experimental::basic_string_view<int> iview;
typedef std::basic_string<int> istring;
typedef u5e::basic_encodedstring<u5e::utf8, mon::str8> utf8_mon;
typedef u5e::basic_encodedstring<u5e::utf32ne, mon::str32> utf32ne_mon;

// exactly n elements on the heap: nothing readable follows
template <class C> struct Exact {
  std::unique_ptr<C[]> p; size_t n;
  Exact(const C* s, size_t n_) : p(new C[n_]), n(n_) { for (size_t i = 0; i < n; i++) p[i] = s[i]; }
};
inline istring to_i(const ref::Text& t) { return istring(t.begin(), t.end()); }
template <class S> inline ref::Text from_i(const S& s) { return ref::Text(s.data(), s.data() + s.size()); }
inline std::string raw(const std::string& s) { return s; }
inline std::string raw(const mon::str8& s) { return s.str(); }
inline std::string raw(const sview& s) { return std::string(s.data(), s.size()); }
inline ref::Text raw(const istring& s) { return from_i(s); }
inline ref::Text raw(const iview& s) { return from_i(s); }
inline ref::Text raw(const mon::str32& s) { return from_i(s); }

// extra access budget per squared length, for workloads that are quadratic by nature
static uint64_t g_budget_sq = 0;
enum { ST_STRING = 1, ST_EXACT = 2, ST_INSIDE = 4, ST_MON = 8, ST_ALL = 15 };

template <class C> inline void check_mon(vf::Ctx& c, mon::Ctl<C>& m, const char* what, const std::string& shown) {
  c.count("monitored.element_reads", m.reads);
  if (m.oob) c.fail("stray-access", "%s: %llu accesses outside the text, first at element %ld, text %s", what,
                    (unsigned long long)m.oob, m.first_oob, shown.c_str());
  m.oob = 0;
}

// f(name, encoded_string&) over UTF-8 storages
template <class F> void each8(vf::Ctx& c, vf::Rng& r, const std::string& b, int which, F f) {
  if (which & ST_STRING) { u5e::utf8_string s(b); f("utf8_string", s); }
  if (which & ST_EXACT) { Exact<char> e(b.data(), b.size()); u5e::utf8_string_view s(sview(e.p.get(), e.n)); f("utf8_string_view(exact)", s); }
  if (which & ST_INSIDE) {
    int a = r.range(8, 24), z = r.range(8, 24); std::string w = gen::junk(r, a) + b + gen::junk(r, z);
    u5e::utf8_string_view s(sview(w.data() + a, b.size())); f("utf8_string_view(inside)", s);
  }
  if (which & ST_MON) {
    utf8_mon s{mon::str8(b)}; s.native_string.ctl().hostile = gen::junk(r, 1)[0];
    s.native_string.ctl().budget = 100000 + 4000ull * b.size() + g_budget_sq * b.size() * b.size();
    try { f("utf8_monitored", s); }
    catch (mon::Budget&) { c.fail("no-termination", "utf8_monitored: octet access budget exceeded on %s", vf::hex_bytes(b).c_str()); }
    check_mon(c, s.native_string.ctl(), "utf8_monitored", vf::hex_bytes(b));
  }
}
// f(name, encoded_string&) over UTF-32 storages
template <class F> void each32(vf::Ctx& c, vf::Rng& r, const ref::Text& t, int which, F f) {
  if (which & ST_STRING) { u5e::utf32ne_string s(to_i(t)); f("utf32ne_string", s); }
  if (which & ST_EXACT) { Exact<int> e(t.data(), t.size()); u5e::utf32ne_string_view s(iview(e.p.get(), e.n)); f("utf32ne_string_view(exact)", s); }
  if (which & ST_INSIDE) {
    ref::Text w = gen::junk32(r, 6); size_t a = w.size(); w.insert(w.end(), t.begin(), t.end()); ref::Text z = gen::junk32(r, 6); w.insert(w.end(), z.begin(), z.end());
    u5e::utf32ne_string_view s(iview(w.data() + a, t.size())); f("utf32ne_string_view(inside)", s);
  }
  if (which & ST_MON) {
    utf32ne_mon s{mon::str32(t)}; s.native_string.ctl().hostile = gen::junk32(r, 1)[0];
    s.native_string.ctl().budget = 100000 + 4000ull * t.size() + g_budget_sq * t.size() * t.size();
    try { f("utf32ne_monitored", s); }
    catch (mon::Budget&) { c.fail("no-termination", "utf32ne_monitored: access budget exceeded on %s", vf::show(t).c_str()); }
    check_mon(c, s.native_string.ctl(), "utf32ne_monitored", vf::show(t));
  }
}
inline int some_storage(vf::Rng& r) { return 1 << r.below(4); }
// where the iterator stands in native terms, if it says so (-1 otherwise)
template <class I, class B> auto native_pos(I& i, B b, int) -> decltype((long)(i.raw_iterator_ - b)) { return (long)(i.raw_iterator_ - b); }
template <class I, class B> long native_pos(I&, B, long) { return -1; }
#endif
