// Random histories of copies, checked against value semantics after every step.
#include "ops.hpp"
#include <list>
using namespace vf; using ref::Text;
typedef std::string Str;
static Str enc8(const Text& t) { return ref::encode(t); }
template <class S> struct Kit; // how to build and read each string type
template <> struct Kit<u5e::utf8_string> { static u5e::utf8_string make(const Text& t) { return u5e::utf8_string(enc8(t)); } static Str img(u5e::utf8_string& s) { return s.native_string; } static Str want(const Text& t) { return enc8(t); } static const char* name() { return "utf8_string"; } };
template <> struct Kit<utf8_mon> { static utf8_mon make(const Text& t) { return utf8_mon(mon::str8(enc8(t))); } static Str img(utf8_mon& s) { return s.native_string.str(); } static Str want(const Text& t) { return enc8(t); } static const char* name() { return "utf8_monitored"; } };
template <> struct Kit<u5e::utf32ne_string> { static u5e::utf32ne_string make(const Text& t) { return u5e::utf32ne_string(to_i(t)); } static Text img(u5e::utf32ne_string& s) { return from_i(s.native_string); } static Text want(const Text& t) { return t; } static const char* name() { return "utf32ne_string"; } };
template <> struct Kit<utf32ne_mon> { static utf32ne_mon make(const Text& t) { return utf32ne_mon(mon::str32(t)); } static Text img(utf32ne_mon& s) { return from_i(s.native_string); } static Text want(const Text& t) { return t; } static const char* name() { return "utf32ne_monitored"; } };
template <class S> static S by_value(S s) { return s; }
template <class S> static void strings(Ctx& c, Rng& r, int steps) {
  typedef Kit<S> K; std::vector<std::unique_ptr<S>> v; std::vector<Text> m; std::string last = "start"; uint64_t h = 0;
  for (int i = 0; i < 3; i++) { m.push_back(gen::text(r, 30)); v.emplace_back(new S(K::make(m.back()))); }
  for (int k = 0; k < steps; k++) {
    size_t a = r.below(v.size()), b = r.below(v.size()); int op = r.below(13); char buf[80]; snprintf(buf, sizeof buf, "operation %d on %zu, %zu", op, a, b); last = buf; h = mix(h ^ (op * 64 + a * 8 + b)); c.count("string_steps");
    switch (op) {
      case 0: if (v.size() < 7) { v.emplace_back(new S(*v[a])); m.push_back(Text(m[a])); c.count("copies"); } break;
      case 1: { S& x = (*v[a] = *v[b]); m[a] = Text(m[b]); if (&x != v[a].get()) c.fail("assignment-returns", "%s: assignment does not return its left side", K::name()); c.count(a == b ? "self_assignments" : "assignments"); break; }
      case 2: { S& x = *v[a]; S& y = x; x = y; c.count("self_assignments"); break; }
      case 3: if (v.size() < 7) { S t(*v[a]); v.emplace_back(new S(std::move(t))); m.push_back(Text(m[a])); c.count("moves"); } break;
      case 4: { S t(*v[b]); *v[a] = std::move(t); m[a] = Text(m[b]); c.count("moves"); break; }
      case 5: { m[a] = gen::text(r, 25); *v[a] = K::make(m[a]); c.count("assignments"); break; }
      case 6: { S d; d = *v[a]; S e(d); *v[b] = e; m[b] = Text(m[a]); S f = by_value(e); if (K::img(f) != K::want(m[b])) c.fail("copy", "%s: a string passed and returned by value changed", K::name()); c.count("copies", 3); break; }
      case 7: { size_t d = r.below(v.size()); *v[a] = *v[b] = *v[d]; m[b] = Text(m[d]); m[a] = Text(m[b]); c.count("assignments", 2); break; }
      case 8: { std::swap(*v[a], *v[b]); std::swap(m[a], m[b]); c.count("moves", 3); break; }
      case 9: { Text x = gen::text(r, 6); S o = K::make(x); v[a]->append(o.codepoint_cbegin(), o.codepoint_cend()); m[a].insert(m[a].end(), x.begin(), x.end()); if (m[a].size() > 400) { m[a].clear(); *v[a] = K::make(m[a]); } c.count("changes"); break; }
      case 10: if (!m[a].empty()) {                          // write through one of them
        size_t q = r.below(m[a].size()); int z = ref::enc_size(m[a][q]); int n = z == 1 ? 'a' + r.below(26) : z == 2 ? r.range(0x80, 0x7FF) : z == 3 ? r.range(0x800, 0xD7FF) : r.range(0x10000, 0x10FFFF); typename S::iterator it = v[a]->codepoint_begin(); for (size_t i = 0; i < q; i++) ++it; *it = u5e::codepoint(n); m[a][q] = n; c.count("changes"); } break;
      case 11: if (v.size() > 2) { v.erase(v.begin() + a); m.erase(m.begin() + a); } break;
      default: { u5e::utf32ne_string o(to_i(m[b])); v[a]->template append_from_utf32ne<istring>(o.codepoint_cbegin(), o.codepoint_cend()); Text t = m[b]; m[a].insert(m[a].end(), t.begin(), t.end()); if (m[a].size() > 400) { m[a].clear(); *v[a] = K::make(m[a]); } c.count("changes"); }
    }
    for (size_t i = 0; i < v.size(); i++) { c.count("contents_checked"); if (K::img(*v[i]) != K::want(m[i])) { Text got = ops::codepoints(*v[i]); c.fail("string", "%s: after %s, string %zu holds [%s] instead of [%s]", K::name(), last.c_str(), i, show(got).c_str(), show(m[i]).c_str()); return; } }
  }
  c.evaluations++; c.nontrivial(h);
}
static int writable(Rng& r, int old) { switch (ref::enc_size(old)) { case 1: return 'a' + r.below(26); case 2: return r.range(0x80, 0x7FF); case 3: return r.range(0x800, 0xD7FF); default: return r.range(0x10000, 0x10FFFF); } }
// copies of codepoint iterators over one changing text
template <class S, class It> static void iterators(Ctx& c, Rng& r, const char* n, S& s, Text m, It b, It e, bool can_write, int steps, const std::function<void(It&, int)>& write) {
  typedef typename std::decay<decltype(*b)>::type Read; struct Had { Read read; int value; }; std::list<Had> had;       // what was read through the iterators before
  struct One { It it; size_t at; }; std::list<One> v; v.push_back({b, 0}); v.push_back({e, m.size()}); uint64_t h = 0;
  auto pick = [&] { auto i = v.begin(); std::advance(i, r.below(v.size())); return i; };
  auto verify = [&](int op) { for (auto& x : v) { c.count("positions_checked"); It q = b; for (size_t i = 0; i < x.at; i++) ++q; bool eq = x.it == q && q == x.it && !(x.it != q); int val = x.at < m.size() ? (int)*It(x.it) : 0;
      if (!eq || (x.at < m.size() && val != m[x.at]) || (x.at == m.size()) != (x.it == e)) { c.fail("iterator", "%s: after operation %d a copy no longer designates codepoint %zu of [%s]%s", n, op, x.at, show(m).c_str(), eq ? " (value)" : ""); return false; } }
    for (auto& x : had) if ((int)x.read != x.value) { c.fail("read", "%s: after operation %d what was read as %X has become %X", n, op, x.value, (int)x.read); return false; } return true; };
  for (int k = 0; k < steps; k++) {
    auto x = pick(), y = pick(); int op = r.below(10); c.count("iterator_steps"); h = mix(h ^ op);
    switch (op) {
      case 0: if (v.size() < 8) { It q(x->it); v.push_back({q, x->at}); c.count("copies"); } break;
      case 1: x->it = y->it; x->at = y->at; c.count("assignments"); break;
      case 2: { It& q = x->it; x->it = q; c.count("self_assignments"); break; }
      case 3: if (x->at < m.size()) { ++x->it; x->at++; } break;
      case 4: if (x->at < m.size()) { It q = x->it++; One o{q, x->at}; x->at++; if (v.size() < 8) v.push_back(o); else { *y = o; } c.count("copies"); } break;
      case 5: if (x->at > 0) { --x->it; x->at--; } break;
      case 6: if (x->at > 0) { It q = x->it--; One o{q, x->at}; x->at--; if (v.size() < 8) v.push_back(o); c.count("copies"); } break;
      case 7: if (x->at < m.size()) { for (int q = r.range(1, 3); q--;) (void)(int)*x->it; if (had.size() < 6) { had.push_back(Had{*x->it, m[x->at]}); c.count("reads_kept"); } } break;
      case 8: if (can_write && x->at < m.size()) { int w = writable(r, m[x->at]); It f = b; for (size_t i = 0; i < x->at; i++) ++f; x->it = f; /* a write leaves its iterator inside the codepoint, the next one begins at the codepoint */ write(x->it, w); m[x->at] = w; c.count("writes"); } break;
      default: if (v.size() > 2 && r.chance(1, 2)) v.erase(x); else { It q = std::move(x->it); x->it = q; }
    }
    if (!verify(op)) return;
  }
  c.evaluations++; c.nontrivial(h); c.sample(std::string(n) + " over " + show(m, 8));
}
template <class S> static void cps_of(Ctx& c, Rng& r, const char* n, S& s, const Text& t, int steps, bool can_write) {
  typedef typename S::const_iterator CI; typedef typename S::iterator I;
  iterators<S, CI>(c, r, n, s, t, s.codepoint_cbegin(), s.codepoint_cend(), false, steps, [](CI&, int) {}); (void)can_write;
}
template <class S> static void writing(Ctx& c, Rng& r, const char* n, S& s, const Text& t, int steps) {
  typedef typename S::iterator I; iterators<S, I>(c, r, n, s, t, s.codepoint_begin(), s.codepoint_end(), true, steps, [](I& i, int v) { *i = u5e::codepoint(v); });
}
// graphemes and grapheme iterators
struct OnStr { Ctx& c; Rng& r; const Text& t; int steps;
  template <class S> void operator()(const char* n, S& s) const {
    cps_of(c, r, n, s, t, steps, false);
    typedef u5e::basic_grapheme_iterator<S> G; typedef u5e::basic_grapheme<S> Gr; std::vector<int> seg = ref::db().segment(t); int nc = (int)t.size();
    // what each iterator designates: the codepoints from a to b
    std::vector<char> boundary(nc + 1, 0); for (int x : seg) boundary[x] = 1;
    auto end_of = [&](int a) { if (a >= nc) return nc; int b = a + 1; while (b < nc && !boundary[b]) b++; return b; };
    std::vector<typename S::const_iterator> pos; { auto z = s.codepoint_cbegin(); for (int k = 0; k < nc; k++) { pos.push_back(z); ++z; } pos.push_back(s.codepoint_cend()); }
    struct It { G it; int a, b; }; struct Cl { Gr g; int a, b; }; std::list<It> v; std::list<Cl> gs; v.push_back({s.grapheme_begin(), 0, end_of(0)}); v.push_back({s.grapheme_end(), nc, nc}); size_t cap = s.native_string.size() + 4;
    auto pick = [&] { auto i = v.begin(); std::advance(i, r.below(v.size())); return i; };
    auto words = [&](int a, int b) { return Text(t.begin() + a, t.begin() + b); };
    auto put = [&](const G& q, int a, int b) { if (v.size() < 8) v.push_back({q, a, b}); else { auto y = pick(); y->it = q; y->a = a; y->b = b; } };
    for (int k = 0; k < steps; k++) {
      auto x = pick(), y = pick(); int op = r.below(11); c.count("grapheme_steps");
      switch (op) {
        case 0: { G q(x->it); put(q, x->a, x->b); c.count("copies"); } break;
        case 1: x->it = y->it; x->a = y->a; x->b = y->b; c.count("assignments"); break;
        case 2: { G& q = x->it; x->it = q; c.count("self_assignments"); break; }
        case 3: if (x->a < nc) { G q = ++x->it; x->a = x->b; x->b = end_of(x->a); put(q, x->a, x->b); } break;
        case 4: if (x->a < nc) { int a = x->a, b = x->b; G q = x->it++; x->a = x->b; x->b = end_of(x->a); put(q, a, b); c.count("copies"); } break;
        case 5: if (x->a < nc && gs.size() < 6) { gs.push_back({*x->it, x->a, x->b}); } break;
        case 6: if (!gs.empty()) { auto g = gs.begin(); std::advance(g, r.below(gs.size())); if (gs.size() < 6) { Gr q(g->g); gs.push_back({q, g->a, g->b}); } else { auto o = gs.begin(); o->g = g->g; o->a = g->a; o->b = g->b; } auto b = g->g.codepoint_begin(); int lim = 3; while (lim-- && b != g->g.codepoint_end()) { (void)(int)*b; ++b; } c.count("grapheme_copies"); } break;
        case 7: if (v.size() > 2) v.erase(x); else { G q = std::move(x->it); x->it = q; } break;
        case 8: if (nc) { int a = r.below(nc), b = a + 1 + r.below(std::min(nc - a, 6)); put(G(pos[0], pos[nc], pos[a], pos[b]), a, b); c.count("given_ranges"); } break;   // both ends given, wherever they are
        case 9: if (nc) { int w = r.below(nc), a = w; while (a && !boundary[a]) a--; put(G(pos[0], pos[nc], pos[w]), a, end_of(w)); c.count("sought"); } break;
        default: if (gs.size() > 2) gs.pop_front();
      }
      for (auto& q : v) {
        c.count("positions_checked"); G it(q.it); bool end = it == s.grapheme_end(); bool ok = end == (q.a == nc); const char* what = "designates something else";
        if (ok && !end) { auto g = *it, h = *q.it; ok = ops::cps(g.codepoint_begin(), g.codepoint_end(), cap) == words(q.a, q.b) && ops::cps(h.codepoint_begin(), h.codepoint_end(), cap) == words(q.a, q.b); if (ok) { Text a; for (auto z = s.codepoint_cbegin(); z != g.codepoint_begin() && a.size() < cap; ++z) a.push_back(0); ok = (int)a.size() == q.a; what = "is somewhere else"; } }
        if (!ok) { c.fail("grapheme-iterator", "%s: after operation %d an iterator to codepoints %d to %d of [%s], or a copy of it, %s", n, op, q.a, q.b, show(t).c_str(), what); return; }
      }
      for (auto& q : gs) { c.count("graphemes_checked"); Text got = ops::cps(q.g.codepoint_begin(), q.g.codepoint_end(), cap); if (got != words(q.a, q.b)) { c.fail("grapheme", "%s: after operation %d a grapheme of [%s] holds [%s] instead of [%s]", n, op, show(t).c_str(), show(got).c_str(), show(words(q.a, q.b)).c_str()); return; } }
    }
    c.evaluations++;
  } };
// iterators hold positions only: when the text is written over in place, every step and dereference goes by the text as it is then
static Text filler(Rng& r, size_t octets) { static const int pool[] = {'a', 0x0D, 0x0A, 0xE9, 0x301, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x200D, 0x0903, 0x20AC, 0x1F1E6, 0x1F1FF, 0x1D165, 0x1F600}; Text t; while (octets) { int cp = r.chance(1, 4) ? (int)gen::any_cp(r) : pool[r.below(sizeof pool / sizeof *pool)]; size_t z = ref::enc_size(cp); if (z > octets) { cp = 'a' + r.below(26); z = 1; } t.push_back(cp); octets -= z; } return t; }
template <class S> struct Unit { static size_t of(int cp) { return ref::enc_size(cp); } };
template <> struct Unit<u5e::utf32ne_string> { static size_t of(int) { return 1; } };
static void store(u5e::utf8_string& s, size_t at, const Text& t) { Str b = enc8(t); std::copy(b.begin(), b.end(), s.native_string.begin() + at); }
static void store(u5e::utf32ne_string& s, size_t at, const Text& t) { std::copy(t.begin(), t.end(), s.native_string.begin() + at); }
template <class S> static void overwriting(Ctx& c, Rng& r, int steps) {
  typedef Kit<S> K; typedef typename S::const_iterator CI; typedef u5e::basic_grapheme_iterator<S> G; typedef u5e::basic_grapheme<S> Gr;
  Text m = filler(r, r.range(6, 40)); S s = K::make(m); uint64_t h = 0;
  std::vector<size_t> off; std::vector<int> cl;            // where each codepoint starts, and which codepoints start graphemes
  auto index = [&] { off.assign(1, 0); for (int cp : m) off.push_back(off.back() + Unit<S>::of(cp)); cl = ref::db().segment(m); }; index();
  auto which = [&](size_t o) -> long { auto i = std::lower_bound(off.begin(), off.end(), o); return i != off.end() && *i == o ? (long)(i - off.begin()) : -1; };
  auto starts = [&](long k) { return k >= 0 && std::binary_search(cl.begin(), cl.end(), (int)k); };
  struct Cp { CI it; size_t at; }; struct Gi { G it; size_t a, b; }; struct Cl { Gr g; size_t a, b; }; std::vector<Cp> v; std::vector<Gi> gv; std::vector<Cl> gs; size_t cap = off.back() + 4;
  auto words = [&](size_t a, size_t b) { return Text(m.begin() + which(a), m.begin() + which(b)); };
  auto next_start = [&](long k) { return off[*std::upper_bound(cl.begin(), cl.end(), (int)k)]; };
  for (int k = 0; k < steps; k++) {
    int op = r.below(11); h = mix(h ^ op); c.count("overwriting_steps"); long n = m.size();
    auto awake = [&](const Cp& q) { return which(q.at) >= 0; };   // not in the middle of what is there at the moment
    if (v.size() > 8) v.clear();
    if (v.size() < 4 || std::count_if(v.begin(), v.end(), awake) < 2) { size_t q = r.below(n + 1); CI z = s.codepoint_cbegin(); for (size_t i = 0; i < q; i++) ++z; v.push_back({z, off[q]}); }
    if (gv.size() < 3) { G z = s.grapheme_begin(); size_t g = r.below(cl.size() - 1); for (size_t i = 0; i < g; i++) ++z; gv.push_back({z, off[cl[g]], off[cl[g + 1]]}); }
    size_t any = r.below(v.size()), other = r.below(v.size()); size_t xi = any; while (!awake(v[xi])) xi = (xi + 1) % v.size(); auto& x = v[xi]; auto& y = gv[r.below(gv.size())]; long at = which(x.at);
    switch (op) {
      case 0: if (at < n) { ++x.it; x.at = off[at + 1]; } break;
      case 1: if (at < n) { x.it++; x.at = off[at + 1]; } break;
      case 2: if (at > 0) { if (r.chance(1, 2)) --x.it; else x.it--; x.at = off[at - 1]; } break;
      case 3: if (gs.size() < 3 && y.a != off.back()) gs.push_back({*y.it, y.a, y.b}); break;
      case 4: if (r.chance(1, 6)) { v.clear(); gv.clear(); gs.clear(); } break;
      case 5: case 6: if (y.a != off.back()) { long b = which(y.b); if (r.chance(1, 2)) ++y.it; else y.it++; y.a = y.b; if (b < n) y.b = next_start(b); c.count("grapheme_steps_after_writes"); } break;
      // copies and assignments take over the position, wherever it is
      case 7: if (r.chance(1, 2)) { v[any].it = v[other].it; v[any].at = v[other].at; c.count("overwriting_assignments"); if (!awake(v[any])) c.count("assignments_inside"); } else { Cp q{CI(v[other].it), v[other].at}; v.push_back(q); } break;
      case 8: { auto& z = gv[r.below(gv.size())]; if (r.chance(1, 2)) { y.it = z.it; y.a = z.a; y.b = z.b; } else { Gi q{G(z.it), z.a, z.b}; gv[r.below(gv.size())] = q; } } break;
      default: { size_t i = r.below(n), j = std::min<size_t>(n, i + 1 + r.below(4)); Text t = filler(r, sizeof(s.native_string[0]) == 1 ? off[j] - off[i] : 0); if (sizeof(s.native_string[0]) != 1) while (t.size() < j - i) { Text f = filler(r, 4); t.push_back(f[0]); }
        store(s, off[i], t); m.erase(m.begin() + i, m.begin() + j); m.insert(m.begin() + i, t.begin(), t.end()); index(); c.count("overwrites");
        // iterators now inside a codepoint wait until they no longer are; graphemes and what now begins inside a grapheme are given up
        gs.erase(std::remove_if(gs.begin(), gs.end(), [&](const Cl& q) { return which(q.a) < 0 || which(q.b) < 0; }), gs.end());
        gv.erase(std::remove_if(gv.begin(), gv.end(), [&](const Gi& q) { return which(q.a) < 0 || !starts(which(q.b)); }), gv.end()); }
    }
    for (auto& q : v) { if (!awake(q) || r.chance(1, 2)) continue; /* not every iterator is looked at after every write */ c.count("positions_checked"); long w = which(q.at); CI z = s.codepoint_cbegin(); for (long i = 0; i < w; i++) ++z; bool ok = q.it == z && !(q.it != z) && (w == (long)m.size()) == (q.it == s.codepoint_cend()) && (w == (long)m.size() || (int)*q.it == m[w]);
      if (!ok) { c.fail("overwritten", "%s: after operation %d on a text written over in place, an iterator is not at codepoint %ld of [%s]", K::name(), op, w, show(m).c_str()); return; } }
    for (auto& q : gv) { if (r.chance(1, 2)) continue; c.count("positions_checked"); bool end = q.it == s.grapheme_end(), ok = end == (q.a == off.back()); if (ok && !end) { Gr g = *q.it; ok = ops::cps(g.codepoint_begin(), g.codepoint_end(), cap) == words(q.a, q.b); }
      if (!ok) { c.fail("overwritten", "%s: after operation %d on a text written over in place, a grapheme iterator is not at [%s] of [%s]", K::name(), op, q.a == off.back() ? "end" : show(words(q.a, q.b)).c_str(), show(m).c_str()); return; } }
    for (auto& q : gs) { c.count("graphemes_checked"); if (ops::cps(q.g.codepoint_begin(), q.g.codepoint_end(), cap) != words(q.a, q.b)) { c.fail("overwritten", "%s: after operation %d a grapheme of a text written over in place does not hold [%s]", K::name(), op, show(words(q.a, q.b)).c_str()); return; } }
  }
  c.evaluations++; c.nontrivial(h);
}
// views that share octets: same beginning, same end, inside one another
template <class V, class W, class C> static void overlapping(Ctx& c, Rng& r, const std::basic_string<C>& b, const std::vector<int>& off, const Text& t, const char* n) {
  struct M { size_t a, b; }; std::vector<V> v; std::vector<M> m; size_t nc = t.size(); auto some = [&] { size_t x = r.below(nc + 1), y = r.below(nc + 1); if (r.chance(1, 2)) x = r.chance(1, 2) ? 0 : nc / 2; return x < y ? M{x, y} : M{y, x}; };
  auto make = [&](M q) { return V(W(b.data() + off[q.a], off[q.b] - off[q.a])); };
  for (int k = 0; k < 3; k++) { m.push_back(some()); v.push_back(make(m.back())); }
  for (int k = 0; k < 24; k++) { size_t x = r.below(v.size()), y = r.below(v.size()); if (r.chance(1, 4)) { m[y] = some(); v[y] = make(m[y]); }
    switch (r.below(4)) { case 0: v[x] = v[y]; m[x] = m[y]; break; case 1: { V z(v[y]); v[x] = std::move(z); m[x] = m[y]; break; } case 2: std::swap(v[x], v[y]); std::swap(m[x], m[y]); break; default: { M q = some(); if (r.chance(1, 2)) q = M{m[x].a, std::max(m[x].a, q.b)}; v[x] = make(q); m[x] = q; } } c.count("overlapping_steps");
    for (size_t i = 0; i < v.size(); i++) { Text want(t.begin() + m[i].a, t.begin() + m[i].b); if (ops::codepoints(v[i]) != want || v[i].native_string.data() != b.data() + off[m[i].a]) { c.fail("view", "%s: a view assigned from one that shares octets with it designates [%s] instead of codepoints %zu to %zu of [%s]", n, show(ops::codepoints(v[i])).c_str(), m[i].a, m[i].b, show(t).c_str()); return; } } }
  c.evaluations++;
}
void run(Ctx& c) {
  bool s = c.sanitized();
  c.cases("overwriting", c.amount(s ? 1500 : 12000, s ? 15000 : 150000), [&](Rng& r, uint64_t i) { if (i % 4 == 3) overwriting<u5e::utf32ne_string>(c, r, 60); else overwriting<u5e::utf8_string>(c, r, 60); });
  c.cases("strings", c.amount(s ? 600 : 6000, s ? 12000 : 120000), [&](Rng& r, uint64_t i) { switch (i % 4) { case 0: strings<u5e::utf8_string>(c, r, 60); break; case 1: strings<u5e::utf32ne_string>(c, r, 60); break; case 2: strings<utf8_mon>(c, r, 40); break; default: strings<utf32ne_mon>(c, r, 40); } });
  c.cases("iterators", c.amount(s ? 400 : 3000, 40000), [&](Rng& r, uint64_t i) { Text t = gen::text(r, 24); OnStr f{c, r, t, 50}; each8(c, r, enc8(t), i % 4 ? some_storage(r) : ST_ALL, f); each32(c, r, t, some_storage(r), f); });
  c.cases("writing", c.amount(s ? 400 : 4000, 60000), [&](Rng& r, uint64_t) { Text t = gen::text(r, 16); Str b = enc8(t);
    { u5e::utf8_string x(b); writing(c, r, "utf8_string", x, t, 60); } { utf8_mon x{mon::str8(b)}; writing(c, r, "utf8_monitored", x, t, 40); check_mon(c, x.native_string.ctl(), "writing", hex_bytes(b)); } { u5e::utf32ne_string x(to_i(t)); writing(c, r, "utf32ne_string", x, t, 40); } });
  c.cases("overlapping-views", c.amount(s ? 400 : 4000, 40000), [&](Rng& r, uint64_t i) { Text t = gen::text(r, 12); std::vector<int> id(t.size() + 1); for (size_t k = 0; k < id.size(); k++) id[k] = k;
    if (i % 3) overlapping<u5e::utf8_string_view, sview, char>(c, r, enc8(t), ref::offsets(t), t, "utf8_string_view"); else overlapping<u5e::utf32ne_string_view, iview, int>(c, r, to_i(t), id, t, "utf32ne_string_view"); });
  c.cases("views", c.amount(s ? 400 : 3000, 30000), [&](Rng& r, uint64_t) {   // a copied or assigned view designates the same octets
    std::vector<std::unique_ptr<Exact<char>>> hold; std::vector<Text> texts; std::vector<u5e::utf8_string_view> v; std::vector<size_t> m;
    for (int k = 0; k < 4; k++) { texts.push_back(gen::text(r, 20)); Str b = enc8(texts.back()); hold.emplace_back(new Exact<char>(b.data(), b.size())); v.push_back(u5e::utf8_string_view(sview(hold.back()->p.get(), hold.back()->n))); m.push_back(k); }
    for (int k = 0; k < 30; k++) { size_t a = r.below(v.size()), b = r.below(v.size()); switch (r.below(5)) { case 0: v[a] = v[b]; m[a] = m[b]; break; case 1: { u5e::utf8_string_view x(v[a]); v.push_back(x); m.push_back(m[a]); break; } case 2: v[a] = v[a]; break; case 3: { u5e::utf8_string_view x(std::move(v[a])); v[b] = std::move(x); m[b] = m[a]; v[a] = v[b]; break; } default: std::swap(v[a], v[b]); std::swap(m[a], m[b]); } c.count("view_steps");
      for (size_t i = 0; i < v.size(); i++) if (ops::codepoints(v[i]) != texts[m[i]]) { c.fail("view", "a copied view designates [%s] instead of [%s]", show(ops::codepoints(v[i])).c_str(), show(texts[m[i]]).c_str()); return; } }
    c.evaluations++; });
}
