// Calls whose results are compared with the same call made first in a fresh process.
#ifndef VERIF_PROBES
#define VERIF_PROBES
#include "ops.hpp"
#include <sys/wait.h>
using ref::Text;
typedef std::vector<int> Res;
// a text whose octets (or codepoints) cannot be written to
template <class C> struct ReadOnly {
  char* m; size_t len; const C* p; size_t n;
  ReadOnly(const C* s, size_t n_, bool at_end) : n(n_) { len = (n * sizeof(C) + 4096 + 4095) & ~(size_t)4095; m = (char*)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(m, 0x80, len); C* q = at_end ? (C*)(m + len - n * sizeof(C)) : (C*)(m + 64); if (n) memcpy(q, s, n * sizeof(C)); p = q; mprotect(m, len, PROT_READ); }
  ReadOnly(const ReadOnly&) = delete; ~ReadOnly() { munmap(m, len); }
};
enum { P_CPS, P_BACK, P_GRAPHEMES, P_D, P_C, P_KD, P_KC, P_BOUNDS, P_RANGE, P_DECOMP, P_COMPOSE, P_SEEK, NPROBE };
static const char* probe_name[NPROBE] = {"codepoints", "codepoints backwards", "graphemes", "NFD", "NFC", "NFKD", "NFKC", "bounds and comparisons", "append", "decompositions", "composition in place", "grapheme seeks"};
// fixed prefix in front of whatever is appended; the result is what follows it
template <class S, class O> static bool strip(O& o, const S& pre, S& rest) { S got = raw(o.native_string); if (got.size() < pre.size() || !std::equal(pre.begin(), pre.end(), got.begin())) return false; rest.assign(got.begin() + pre.size(), got.end()); return true; }
template <class E> struct OutOf; template <> struct OutOf<u5e::utf8> { typedef u5e::utf8_string type; }; template <> struct OutOf<u5e::utf32ne> { typedef u5e::utf32ne_string type; };
static const int PREFIX_LOST = -424242;
static void put8(const std::string& s, Res& o) { Text t; if (!ref::decode(s, t)) { o.push_back(-7); for (char ch : s) o.push_back((unsigned char)ch); } else o.insert(o.end(), t.begin(), t.end()); }
// One call (or pass) on s. variant picks output encoding and prefix, not the result.
template <class E, class N> static Res probe(int k, u5e::basic_encodedstring<E, N>& s, int variant) {
  typedef u5e::basic_encodedstring<E, N> S; Res o; size_t cap = s.native_string.size() + 4;
  switch (k) {
    case P_CPS: return ops::codepoints(s);
    case P_BACK: { auto b = s.codepoint_cbegin(), it = s.codepoint_cend(); while (it != b && o.size() < cap) { --it; o.push_back((int)*it); } return o; }
    case P_GRAPHEMES: for (auto& g : ops::graphemes(s)) { o.push_back((int)g.size()); o.insert(o.end(), g.begin(), g.end()); } return o;
    case P_D: case P_C: case P_KD: case P_KC: {
      char f = k == P_D ? 'd' : k == P_C ? 'c' : k == P_KD ? 'D' : 'C'; int n;
      if (variant & 1) { std::string pre = variant & 2 ? std::string("\x80\xE2\x82\xACq\xF0", 6) : variant & 4 ? std::string(40, 'p') : "", rest; u5e::utf8_string d(pre); n = ops::normalize(f, s, d); if (!strip(d, pre, rest)) return Res{PREFIX_LOST}; put8(rest, o); }
      else { Text pre = variant & 2 ? Text{0x301, -5, 0x1100} : variant & 4 ? Text(30, 'p') : Text(), rest; u5e::utf32ne_string d(to_i(pre)); n = ops::normalize(f, s, d); if (!strip(d, pre, rest)) return Res{PREFIX_LOST}; o = rest; }
      o.push_back(n); return o; }
    case P_BOUNDS: { auto b = s.codepoint_cbegin(), e = s.codepoint_cend(); o.push_back(b == e); o.push_back(b != e); int i = 0; for (auto it = b; it != e && i < 40; ++it, ++i) { o.push_back(it == b); o.push_back(it == e); } return o; }
    case P_RANGE: { typename OutOf<E>::type d; auto b = s.codepoint_cbegin(), e = s.codepoint_cend(); if (b != e) ++b; d.template append<N>(b, e); auto w = raw(d.native_string); for (auto x : w) o.push_back((int)x); return o; }
    case P_DECOMP: { u5e::utf32ne_string d, q; int n = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), d, u5e::canonical_decomposition<u5e::utf32ne_string>), m = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), q, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>); o = from_i(d.native_string); o.push_back(-2); for (int x : q.native_string) o.push_back(x); o.push_back(n); o.push_back(m); return o; }
    case P_COMPOSE: { Text t = ops::codepoints(s); ref::db().order(t); u5e::utf32ne_string d(to_i(t)); int n = 0; auto e = u5e::canonical_composition(d, &n); o.assign(d.native_string.begin(), e); o.push_back(n); return o; }
    default: { typedef u5e::basic_grapheme_iterator<S> G; auto b = s.codepoint_cbegin(), e = s.codepoint_cend(), at = b; int i = 0; for (; at != e && i < 24; ++at, ++i) { G g(b, e, at); auto gr = *g; o.push_back((int)ops::cps(gr.codepoint_begin(), gr.codepoint_end(), cap).size()); o.push_back(g == s.grapheme_begin()); o.push_back(g == at); } return o; }
  }
}
struct Source {                                    // one text in four storages, two of them not writable
  Text t; std::string b; u5e::utf8_string s8; u5e::utf32ne_string s32; ReadOnly<char> r8; ReadOnly<int> r32; u5e::utf8_string_view v8; u5e::utf32ne_string_view v32; Res base[NPROBE]; bool have[NPROBE];
  Source(const Text& x, bool e) : t(x), b(ref::encode(x)), s8(b), s32(to_i(x)), r8(b.data(), b.size(), e), r32(x.data(), x.size(), e), v8(sview(r8.p, r8.n)), v32(iview(r32.p, r32.n)) {}
  Res go(int k, int storage, int variant) { switch (storage) { case 0: return probe(k, s8, variant); case 1: return probe(k, v8, variant); case 2: return probe(k, s32, variant); default: return probe(k, v32, variant); } }
  bool intact() { return s8.native_string == b && from_i(s32.native_string) == t && (b.empty() || !memcmp(r8.p, b.data(), b.size())) && (t.empty() || !memcmp(r32.p, t.data(), t.size() * sizeof(int))); }
};
static bool per_octet(int k) { return k == P_RANGE; }             // result depends on the encoding
static bool in_fresh_process(const std::function<Res()>& f, Res& out) {
  int fd[2]; if (pipe(fd)) { perror("pipe"); exit(3); } pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (!p) { close(fd[0]); alarm(60); Res r = f(); size_t n = r.size() * sizeof(int); const char* q = (const char*)r.data(); uint32_t len = (uint32_t)r.size(); bool ok = write(fd[1], &len, 4) == 4; while (ok && n) { ssize_t w = write(fd[1], q, n); if (w <= 0) ok = false; else { q += w; n -= w; } } _exit(ok ? 0 : 4); }
  close(fd[1]); std::string got; char buf[65536]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, k); close(fd[0]); int st; waitpid(p, &st, 0);
  if (got.size() < 4) return false; uint32_t len; memcpy(&len, got.data(), 4); if (got.size() != 4 + len * sizeof(int)) return false; out.resize(len); if (len) memcpy(out.data(), got.data() + 4, len * sizeof(int)); return st == 0;
}
#endif
