// Results under long random histories against the same call made as the first one of a fresh process.
#include "probes.hpp"
#include "jamo.hpp"
#include <cfenv>
#include <clocale>
#include <cerrno>
using namespace vf; using ref::Text;
// lookups of every codepoint, in ascending order, as the only calls of a process
struct Tables { unsigned char ccc[0x110000]; signed char gcb[0x110000]; unsigned dm[0x110000], km[0x110000]; };
static unsigned hmap(int const* m) { Text t = ops::mapping(m); return m ? (unsigned)hash_bytes(t.data(), t.size() * 4) | 1u : 0u; }
static Tables* g_tab; static std::map<int, Res> g_pool_res;
static std::vector<std::unique_ptr<Source>> g_pool; static int g_pool_id = -1;
static void make_pool(Ctx& c, int id) {
  Rng r(mix(c.seed) ^ mix(9000 + id)); g_pool.clear(); g_pool_id = id; int n = c.thorough ? 260 : c.sanitized() ? 40 : 110;
  for (int i = 0; i < n; i++) g_pool.emplace_back(new Source(i == 0 ? Text() : i % 9 == 0 ? gen::text(r, 600) : gen::text(r, 40), r.chance(1, 2)));
  for (auto& s : g_pool) for (int k = 0; k < NPROBE; k++) { s->have[k] = in_fresh_process([&] { return s->go(k, 0, 1); }, s->base[k]); c.count(s->have[k] ? "fresh_processes" : "fresh_processes_failed"); if (c.prog) c.prog->beat++; }
}
static void compare(Ctx& c, Source& s, int k, int storage, int variant, const Res& got, const char* after) {
  c.count("probes"); if (!s.have[k]) return; if (got == Res{PREFIX_LOST}) { c.fail("prefix", "%s of [%s] changed what the destination held", probe_name[k], show(s.t).c_str()); return; }
  if (got != s.base[k]) c.fail("history", "%s of [%s] (storage %d) after %s is [%s], as the first call of a process it is [%s]", probe_name[k], show(s.t).c_str(), storage, after, show(got).c_str(), show(s.base[k]).c_str());
}
static std::vector<int> g_recent; static std::string recent() { std::string o = "lookups/probes "; char b[32]; for (size_t i = g_recent.size() > 6 ? g_recent.size() - 6 : 0; i < g_recent.size(); i++) { snprintf(b, sizeof b, "%X ", (unsigned)g_recent[i]); o += b; } return o; }
static void lookup(Ctx& c, int cp, int which) {
  if (cp < 0 || cp >= 0x110000) { switch (which) { case 0: ops::ccc(cp); break; case 1: ops::gcb(cp); break; case 2: ops::dmap(cp); break; default: ops::kmap(cp); } return; }
  c.count("lookups"); long a, w;
  switch (which) { case 0: a = ops::ccc(cp); w = g_tab->ccc[cp]; break; case 1: a = ops::gcb(cp); w = g_tab->gcb[cp]; break; case 2: a = hmap(ops::dmap(cp)); w = g_tab->dm[cp]; break; default: a = hmap(ops::kmap(cp)); w = g_tab->km[cp]; }
  if (a != w) c.fail("lookup-history", "lookup %d of %X after %s differs from an ascending pass (%lX, %lX)", which, (unsigned)cp, recent().c_str(), a, w);
  g_recent.push_back(cp); if (g_recent.size() > 64) g_recent.erase(g_recent.begin(), g_recent.begin() + 32);
}
struct Live { virtual ~Live() {} virtual bool step(Ctx&) = 0; };  // a pass in progress
template <class S> struct LiveCps : Live { Source& s; S& str; typename S::const_iterator it; size_t i = 0;
  LiveCps(Source& a, S& b) : s(a), str(b), it(b.codepoint_cbegin()) {}
  bool step(Ctx& c) { c.count("interleaved_steps"); if (!s.have[P_CPS]) return false; const Res& w = s.base[P_CPS]; bool end = !(it != str.codepoint_cend()); if (end != (i >= w.size())) { c.fail("interleaving", "interleaved pass over [%s]: end at codepoint %zu", show(s.t).c_str(), i); return false; } if (end) return false; int v = *it; if (v != w[i]) { c.fail("interleaving", "interleaved pass over [%s]: codepoint %zu is %X", show(s.t).c_str(), i, (unsigned)v); return false; } ++it; i++; return true; } };
template <class S> struct LiveGr : Live { Source& s; S& str; u5e::basic_grapheme_iterator<S> it; Res out; size_t g = 0;
  LiveGr(Source& a, S& b) : s(a), str(b), it(b.grapheme_begin()) {}
  bool step(Ctx& c) { c.count("interleaved_steps"); if (!s.have[P_GRAPHEMES] || g > s.t.size() + 1) return false; if (it != str.grapheme_end()) { auto gr = *it; Text t = ops::cps(gr.codepoint_begin(), gr.codepoint_end(), s.t.size() * 6 + 4); out.push_back((int)t.size()); out.insert(out.end(), t.begin(), t.end()); ++it; g++; return true; }
    if (out != s.base[P_GRAPHEMES]) c.fail("interleaving", "interleaved grapheme pass over [%s] gives [%s]", show(s.t).c_str(), show(out).c_str()); return false; } };
struct Stop {};
static void disturb(Ctx& c, Rng& r, int depth);
static void history_step(Ctx& c, Rng& r, std::vector<std::unique_ptr<Live>>& live) {
  Source& s = *g_pool[r.below(g_pool.size())];
  switch (r.below(10)) {
    case 0: case 1: case 2: case 3: { int k = r.below(NPROBE), st = per_octet(k) ? r.below(2) : r.below(4), v = r.below(8); std::string a = recent(); compare(c, s, k, st, v, s.go(k, st, v), a.c_str()); g_recent.push_back(0x1000000 + k); break; }
    case 4: for (int q = r.below(30); q--;) lookup(c, gen::any_cp(r), r.below(4)); break;
    case 5: if (live.size() < 8) { switch (r.below(4)) { case 0: live.emplace_back(new LiveCps<u5e::utf8_string_view>(s, s.v8)); break; case 1: live.emplace_back(new LiveCps<u5e::utf8_string>(s, s.s8)); break; case 2: live.emplace_back(new LiveGr<u5e::utf8_string_view>(s, s.v8)); break; default: live.emplace_back(new LiveGr<u5e::utf32ne_string_view>(s, s.v32)); } break; }
    // fall through
    case 6: case 7: for (int q = r.range(1, 12); q-- && !live.empty();) { size_t i = r.below(live.size()); if (!live[i]->step(c)) live.erase(live.begin() + i); } break;
    default: disturb(c, r, 2);
  }
  if (!s.intact()) c.fail("source", "the text [%s] was changed", show(s.t).c_str());
}
// nested and abandoned work: a filter whose operation itself uses the library, and one that is left by an exception
static void disturb(Ctx& c, Rng& r, int depth) {
  Source& a = *g_pool[r.below(g_pool.size())]; Source& b = *g_pool[r.below(g_pool.size())];
  if (r.chance(1, 3)) { u5e::utf32ne_string o; int left = r.below(4), seen = 0; try { u5e::filter(a.v8.grapheme_begin(), a.v8.grapheme_end(), o, [&](u5e::basic_grapheme<u5e::utf8_string_view> g, u5e::utf32ne_string& out) { if (seen++ == left) throw Stop(); return u5e::normalization_form_c(g, out); }); } catch (Stop&) { c.count("abandoned_filters"); } return; }
  char f = ops::FORMS[r.below(4)]; int k = f == 'd' ? P_D : f == 'c' ? P_C : f == 'D' ? P_KD : P_KC; u5e::utf32ne_string o; int budget = 4;
  int n = u5e::filter(a.s8.grapheme_begin(), a.s8.grapheme_end(), o, [&](u5e::basic_grapheme<u5e::utf8_string> g, u5e::utf32ne_string& out) {
    if (budget-- > 0) { int kk = r.below(NPROBE), st = per_octet(kk) ? 0 : r.below(4), v = r.below(8); compare(c, b, kk, st, v, b.go(kk, st, v), "being called from inside a filter"); if (depth && r.chance(1, 6)) disturb(c, r, depth - 1); }
    switch (f) { case 'd': return u5e::normalization_form_d(g, out); case 'c': return u5e::normalization_form_c(g, out); case 'D': return u5e::normalization_form_kd(g, out); default: return u5e::normalization_form_kc(g, out); } });
  c.count("nested_filters"); Res got = from_i(o.native_string); got.push_back(n); compare(c, a, k, 0, 0, got, "nested calls on another text");
}
static int related(Rng& r, int x) { switch (r.below(9)) { case 0: return x ^ (1 << r.below(21)); case 1: return x + 1; case 2: return x - 1; case 3: return x ^ (int)(1u << r.range(21, 31)); case 4: return -x; case 5: return ~x; case 6: return x + 256 * r.range(-64, 64); case 7: return x + 4096 * r.range(-32, 32); default: return gen::any_cp(r); } }
// the same memory holding one text after the other; oracle only, nothing else at these addresses to compare with
static int like(Rng& r, int x) { int n = ref::enc_size((uint32_t)x); for (int k = 0; k < 200; k++) { int y = r.chance(1, 3) ? related(r, x) : gen::any_cp(r); if (y >= 0 && y < 0x110000 && (y < 0xD800 || y >= 0xE000) && y != x && ref::enc_size((uint32_t)y) == n) return y; } return x; }
template <class S> static void as_oracle(Ctx& c, Rng& r, S& s, const Text& t, const char* how) {
  int k = r.below(7); Res w; const ref::Db& d = ref::db();
  if (k == P_CPS) w = t; else if (k == P_BACK) { w = t; std::reverse(w.begin(), w.end()); } else if (k == P_GRAPHEMES) { auto g = d.segment(t); for (size_t i = 0; i + 1 < g.size(); i++) { w.push_back(g[i + 1] - g[i]); w.insert(w.end(), t.begin() + g[i], t.begin() + g[i + 1]); } } else { char f = ops::FORMS[k - P_D]; w = f == 'C' && has_cjamo(t) ? per_grapheme(t, f) : d.normalize(t, f); w.push_back((int)w.size()); }
  Res got = probe(k, s, r.below(8)); c.count("rewritten_probes"); c.evaluations++;
  if (got != w) c.fail("rewritten", "%s of [%s] in memory that %s held another text is [%s], expected [%s]", probe_name[k], show(t).c_str(), how, show(got).c_str(), show(w).c_str());
}
static void rewritten(Ctx& c, Rng& r) {
  Text t = gen::text(r, r.chance(1, 2) ? 6 : 60); if (t.empty()) t.push_back('a'); std::vector<char> b8(1200); std::vector<int> b32(400); u5e::utf8_string own; own.native_string.reserve(1200);
  for (int k = 0; k < 60; k++) { bool same = r.chance(3, 4); if (same) { for (int q = r.range(1, 3); q--;) { size_t i = r.below(t.size()); t[i] = like(r, t[i]); } } else { t = gen::text(r, 60); if (t.empty()) t.push_back('z'); }
    std::string b = ref::encode(t); if (b.size() > 1100 || t.size() > 390) continue; std::copy(b.begin(), b.end(), b8.begin()); std::copy(t.begin(), t.end(), b32.begin());
    u5e::utf8_string_view v8(sview(b8.data(), b.size())); u5e::utf32ne_string_view v32(iview(b32.data(), t.size())); as_oracle(c, r, v8, t, "just"); as_oracle(c, r, v32, t, "just"); own.native_string.assign(b); as_oracle(c, r, own, t, "just");
    if (r.chance(1, 3)) { u5e::utf8_string fresh(b); as_oracle(c, r, fresh, t, "may have"); }
    if (t.size() > 1) { size_t cut = r.range(1, (int)t.size() - 1); std::vector<int> off = ref::offsets(t); Text p(t.begin(), t.begin() + cut), q(t.begin() + cut, t.end()); u5e::utf8_string_view w(sview(b8.data(), off[cut])), z(sview(b8.data() + off[cut], b.size() - off[cut])); as_oracle(c, r, w, p, "just"); as_oracle(c, r, z, q, "just"); u5e::utf32ne_string_view z32(iview(b32.data() + cut, t.size() - cut)); as_oracle(c, r, z32, q, "just"); } }
}
// the process' settings are no argument of any operation
static void environment(Ctx& c, Rng& r) {
  static const int modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; static const char* locales[] = {"C", "C.UTF-8", "POSIX", ""}; static const int errs[] = {0, ERANGE, EDOM, EILSEQ, ENOMEM}; std::string was = setlocale(LC_ALL, 0);
  Source& s = *g_pool[r.below(g_pool.size())]; int k = r.below(NPROBE), st = per_octet(k) ? r.below(2) : r.below(4), v = r.below(8), m = r.below(4), l = r.below(4), e = r.below(5); char after[120]; snprintf(after, sizeof after, "setting rounding mode %d, locale \"%s\" and errno %d", m, locales[l], errs[e]);
  setlocale(LC_ALL, locales[l]); fesetround(modes[m]); errno = errs[e]; Res got = s.go(k, st, v); fesetround(FE_TONEAREST); setlocale(LC_ALL, was.c_str()); errno = 0; c.count("environments"); compare(c, s, k, st, v, got, after);
  fesetround(modes[m]); std::string b; for (int x : s.t) { char buf[8]; memset(buf, 0, sizeof buf); u5e::utf8_iterator<char*> w(buf); *w = u5e::codepoint(x); u5e::utf8_iterator<char*> q(buf); if ((int)*q != x) { fesetround(FE_TONEAREST); c.fail("history", "%X written after %s reads back differently", (unsigned)x, after); fesetround(modes[m]); } } fesetround(FE_TONEAREST);
}
void run(Ctx& c) {
  bool s = c.sanitized(); const int POOLS = 8; gen::P();
  g_tab = (Tables*)mmap(0, sizeof(Tables), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (g_tab == MAP_FAILED) { perror("mmap"); exit(3); }
  Res done; bool ok = in_fresh_process([&] { alarm(300); for (int x = 0; x < 0x110000; x++) { g_tab->ccc[x] = (unsigned char)ops::ccc(x); } for (int x = 0; x < 0x110000; x++) g_tab->gcb[x] = (signed char)ops::gcb(x); for (int x = 0; x < 0x110000; x++) g_tab->dm[x] = hmap(ops::dmap(x)); for (int x = 0; x < 0x110000; x++) g_tab->km[x] = hmap(ops::kmap(x)); return Res{1}; }, done);
  if (!ok) { c.fail("lookup-crash", "looking up every codepoint in ascending order ended the process"); return; }
  // no library call was made in this process so far, nor is one before the pools are complete
  bool several = c.nshards != POOLS && c.only_idx < 0; if (!several) make_pool(c, (int)((c.only_idx >= 0 ? c.only_idx : c.shard) % POOLS)); else make_pool(c, 0);
  auto pool_for = [&](uint64_t i) { return several || (int)(i % POOLS) == g_pool_id; };
  c.cases("lookup-pairs", c.amount(s ? 400 : 4000, s ? 8000 : 60000), [&](Rng& r, uint64_t) { for (int k = 0; k < 120; k++) { int x = r.chance(1, 2) ? gen::norm_cp(r) : gen::any_cp(r), w = r.below(4); for (int q = r.range(1, 3); q--;) { lookup(c, related(r, x), r.chance(2, 3) ? w : (int)r.below(4)); lookup(c, x, w); } } c.evaluations++; });
  c.cases("composition-pairs", c.amount(s ? 200 : 2000, 30000), [&](Rng& r, uint64_t) {
    static std::map<std::pair<int,int>, int> first; for (int k = 0; k < 60; k++) { auto p = gen::P().pairs[r.below(gen::P().pairs.size())]; int a = p.first, b = p.second, v; auto it = first.find(p); v = ops::compose(a, b); c.count("lookups"); if (it == first.end()) first[p] = v; else if (it->second != v) c.fail("lookup-history", "composing %X %X gave %X, now %X", (unsigned)a, (unsigned)b, (unsigned)it->second, (unsigned)v);
      switch (r.below(4)) { case 0: ops::compose(b, a); break; case 1: ops::compose(a, related(r, b)); break; case 2: ops::compose(related(r, a), b); break; default: ops::compose(related(r, a), related(r, b)); } v = ops::compose(a, b); if (v != first[p]) c.fail("lookup-history", "composing %X %X gave %X, then %X", (unsigned)a, (unsigned)b, (unsigned)first[p], (unsigned)v); } c.evaluations++; });
  c.cases("histories", c.amount(s ? 240 : 2400, s ? 6000 : 60000) / POOLS * POOLS, [&](Rng& r, uint64_t i) {
    if (!pool_for(i)) return; std::vector<std::unique_ptr<Live>> live; uint64_t h = 0; for (int k = 0; k < 200; k++) { history_step(c, r, live); c.prog->beat++; } h = r.next(); while (!live.empty()) { if (!live.back()->step(c)) live.pop_back(); }
    for (auto& q : g_pool) if (!q->intact()) c.fail("source", "the text [%s] was changed", show(q->t).c_str()); c.count("histories"); c.evaluations += 200; c.nontrivial(h); });
  c.cases("repeats", 8, [&](Rng& r, uint64_t i) { if (!pool_for(i)) return;            // the same call very many times
    for (int q = 0; q < (s ? 3 : 12); q++) { Source& x = *g_pool[r.below(g_pool.size())]; if (x.t.size() > 60) continue; for (int k = 0; k < NPROBE; k++) for (int n = 0; n < (s ? 40 : 400); n++) { compare(c, x, k, 0, n & 7, x.go(k, 0, n & 7), "many repetitions"); c.evaluations++; } c.prog->beat++; } });
  c.cases("rewritten", c.amount(s ? 300 : 2500, s ? 5000 : 40000), [&](Rng& r, uint64_t) { rewritten(c, r); });
  c.cases("environment", 8 * (s ? 4 : 40), [&](Rng& r, uint64_t i) { if (!pool_for(i)) return; for (int k = 0; k < 60; k++) environment(c, r); });
  // destinations keep what they hold whatever it is
  c.cases("destinations", c.amount(s ? 600 : 6000, 60000), [&](Rng& r, uint64_t) {
    Text t = gen::text(r, 60), pt = gen::text(r, 40); std::string pre = r.chance(1, 2) ? ref::encode(pt) : ops::octets(r, r.below(40)); if (r.chance(1, 4)) pre += std::string(r.range(10, 5000), 'x'); u5e::utf8_string s8(ref::encode(t)); u5e::utf32ne_string s32(to_i(t)); c.evaluations++;
    std::string rest; char f = ops::FORMS[r.below(4)];
    { u5e::utf8_string d(pre); if (r.chance(1, 2)) d.native_string.reserve(pre.size() + 4000); ops::normalize(f, s32, d); if (!strip(d, pre, rest)) c.fail("prefix", "%s of [%s] into a string holding %s changed that", ops::form_name(f), show(t).c_str(), hex_bytes(pre).c_str()); u5e::utf8_string e; ops::normalize(f, s32, e); if (rest != e.native_string) c.fail("destination-matters", "%s of [%s] depends on what the destination holds (%s): %s / %s", ops::form_name(f), show(t).c_str(), hex_bytes(pre).c_str(), hex_bytes(rest).c_str(), hex_bytes(e.native_string).c_str()); }
    { utf8_mon d{mon::str8(pre)}; ops::normalize(f, s8, d); std::string g = raw(d.native_string); if (g.compare(0, pre.size(), pre)) c.fail("prefix", "%s into a monitored string", ops::form_name(f)); check_mon(c, d.native_string.ctl(), "destination", hex_bytes(pre)); }
    { u5e::utf8_string d(pre); d.append(s8.codepoint_cbegin(), s8.codepoint_cend()); if (d.native_string != pre + s8.native_string) c.fail("prefix", "appending [%s] to %s gives %s", show(t).c_str(), hex_bytes(pre).c_str(), hex_bytes(d.native_string).c_str()); d.append_from_utf32ne<istring>(s32.codepoint_cbegin(), s32.codepoint_cend()); if (d.native_string != pre + s8.native_string + s8.native_string) c.fail("prefix", "appending UTF-32 [%s] gives %s", show(t).c_str(), hex_bytes(d.native_string).c_str()); }
    { Text wt = pt; u5e::utf32ne_string d(to_i(pt)); int k = ops::normalize(f, s8, d); Text g = from_i(d.native_string); if (g.size() < pt.size() || !std::equal(pt.begin(), pt.end(), g.begin()) || (int)(g.size() - pt.size()) != k) c.fail("prefix", "%s of [%s] into UTF-32 [%s] gives [%s]", ops::form_name(f), show(t).c_str(), show(pt).c_str(), show(g).c_str()); }
    c.count("destinations"); if (!t.empty() && !pre.empty()) { c.nontrivial(hash_cps(t) ^ hash_bytes(pre.data(), pre.size())); c.sample(show(t, 8) + " into " + hex_bytes(pre, 12)); }
    if (s8.native_string != ref::encode(t) || from_i(s32.native_string) != t) c.fail("source", "the text [%s] was changed", show(t).c_str()); });
}
