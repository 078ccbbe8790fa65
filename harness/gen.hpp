// Hostile Unicode text generator (independent of /repo).
#ifndef VERIF_GEN
#define VERIF_GEN
#include "common.hpp"
#include "ref.hpp"
namespace gen {
using ref::Text; using vf::Rng;

struct Pools {
  std::vector<int> gcb[ref::NGCB];
  std::vector<int> marks;                       // ccc != 0
  std::map<int, std::vector<int>> by_ccc;
  std::vector<int> composites, singletons, excl, compat, second, first, canon, ocomp;
  std::vector<int> edges, interesting, cjamo, starters_ext;
  std::vector<std::pair<int,int>> pairs;
  Pools() {
    const ref::Db& d = ref::db();
    for (int c = 0; c < ref::NCP; c++) {
      if (c >= 0xD800 && c < 0xE000) continue;
      int g = d.gcb(c); if (g != ref::OTHER) gcb[g].push_back(c);
      if (d.ccc(c)) { marks.push_back(c); by_ccc[d.ccc(c)].push_back(c); }
      if (!d.ccc(c) && (g == ref::EXTEND || g == ref::ZWJ || g == ref::SPACINGMARK)) starters_ext.push_back(c);
    }
    for (auto& kv : d.raw) {
      if (d.compat_tag.at(kv.first)) { compat.push_back(kv.first); continue; }
      canon.push_back(kv.first);
      if (kv.second.size() == 1) singletons.push_back(kv.first);
      else if (d.excluded[kv.first]) excl.push_back(kv.first);
    }
    std::set<int> f, s;
    for (auto& kv : d.comp_) { composites.push_back(kv.second); f.insert((int)(kv.first >> 32)); s.insert((int)(kv.first & 0xffffffff)); pairs.push_back({(int)(kv.first >> 32), (int)(kv.first & 0xffffffff)}); }
    first.assign(f.begin(), f.end()); second.assign(s.begin(), s.end());
    for (int c : second) if (!d.ccc(c)) ocomp.push_back(c);   // starters that compose with what precedes
    for (int c = 0x3131; c <= 0x318E; c++) cjamo.push_back(c);
    for (int c = 0xFFA0; c <= 0xFFDC; c++) cjamo.push_back(c);
    for (auto* v : {&composites, &singletons, &excl, &compat, &canon}) std::sort(v->begin(), v->end());
    std::sort(pairs.begin(), pairs.end());
    int e[] = {0, 1, 9, 10, 13, 0x20, 'a', 'A', 'o', 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0xA0, 0xBF, 0xC0, 0xFF, 0x100, 0x3FF, 0x400, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000,
      0x1001, 0x1FFF, 0x2000, 0x3FFF, 0x4000, 0x7FFF, 0x8000, 0xD7FF, 0xE000, 0xFDD0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1F600, 0x1F1E6, 0x1FFFF,
      0x20000, 0x2FFFF, 0x3FFFF, 0x40000, 0x7FFFF, 0x80000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF, 0xFEFF, 0x200B, 0x200C, 0x200D, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD7A3, 0xD7A4, 0xABFF};
    edges.assign(e, e + sizeof e / sizeof *e);
    for (auto* v : {&first, &second, &singletons, &excl}) interesting.insert(interesting.end(), v->begin(), v->end());
    for (int g = 0; g < ref::NGCB; g++) for (size_t i = 0; i < gcb[g].size() && i < 20; i++) interesting.push_back(gcb[g][i]);
  }
};
inline const Pools& P() { static Pools* p = new Pools; return *p; }

inline int scalar(Rng& r) {             // uniform over encoded sizes first
  for (;;) {
    int c;
    switch (r.below(6)) {
      case 0: c = r.below(0x80); break;
      case 1: c = r.range(0x80, 0x7FF); break;
      case 2: c = r.range(0x800, 0x1FFF); break;
      case 3: c = r.range(0x800, 0xFFFF); break;
      case 4: c = r.range(0x10000, 0x1FFFF); break;
      default: c = r.range(0x10000, 0x10FFFF);
    }
    if (c < 0xD800 || c > 0xDFFF) return c;
  }
}
inline int by_break(Rng& r) {
  for (;;) {
    int g = r.below(ref::NGCB);
    if (g == ref::OTHER) return r.chance(1, 2) ? 'a' + r.below(26) : scalar(r);
    if (!P().gcb[g].empty()) return r.pick(P().gcb[g]);
  }
}
inline int jamo(Rng& r) {
  switch (r.below(10)) {
    case 0: case 1: return r.range(0x1100, 0x1112);
    case 2: case 3: return r.range(0x1161, 0x1175);
    case 4: case 5: return r.range(0x11A7, 0x11C3);
    case 6: return 0xAC00 + 28 * r.below(399);
    case 7: return 0xAC00 + r.below(11172);
    case 8: { static const int x[] = {0x1113, 0x115F, 0x1160, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0x10FF, 0xA960, 0xD7B0, 0xD7CB, 0xD7A3, 0xAC00}; return x[r.below(14)]; }
    default: return r.pick(P().marks);
  }
}
inline int mark(Rng& r) {               // uniform over combining classes
  static std::vector<int> cl; if (cl.empty()) for (auto& k : P().by_ccc) cl.push_back(k.first);
  if (r.chance(1, 3)) { static const int common[] = {0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0x30A, 0x30C, 0x31B, 0x323, 0x327, 0x328, 0x32D, 0x331, 0x338, 0x342, 0x345, 0x3099, 0x309A, 0x93C, 0x653, 0x94D}; return common[r.below(24)]; }
  return r.pick(P().by_ccc.at(cl[r.below(cl.size())]));
}
inline int norm_cp(Rng& r) {
  switch (r.below(14)) {
    case 0: return r.pick(P().composites);
    case 1: return r.pick(P().first);
    case 2: return r.pick(P().second);
    case 3: case 4: case 5: return mark(r);
    case 6: return r.pick(P().singletons);
    case 7: return r.pick(P().excl);
    case 8: return jamo(r);
    case 9: return r.pick(P().starters_ext);
    case 10: return r.pick(P().compat);
    case 11: return r.pick(P().ocomp);
    case 12: return r.pick(P().canon);
    default: return r.pick(P().edges);
  }
}
inline int any_cp(Rng& r) {
  switch (r.below(5)) { case 0: return scalar(r); case 1: return by_break(r); case 2: return norm_cp(r); case 3: return r.pick(P().edges); default: return r.pick(P().interesting); }
}
inline size_t length(Rng& r, size_t cap) {
  size_t n;
  switch (r.below(12)) {
    case 0: n = r.below(2); break;
    case 1: case 2: case 3: case 4: n = r.range(1, 6); break;
    case 5: case 6: case 7: n = r.range(2, 20); break;
    case 8: case 9: n = r.range(10, 60); break;
    case 10: n = r.range(30, 300); break;
    default: n = r.range(1, 4); if (r.chance(1, 4)) n = r.range(200, 2000);
  }
  return n < cap ? n : cap;
}
// Text with the given flavour; every codepoint is a scalar value.
inline Text text(Rng& r, size_t cap = 2000, int kind = -1) {
  size_t n = length(r, cap); Text t;
  if (kind < 0) kind = r.below(11);
  switch (kind) {
    case 0: for (size_t i = 0; i < n; i++) t.push_back(scalar(r)); break;
    case 1: for (size_t i = 0; i < n; i++) t.push_back(by_break(r)); break;
    case 2: for (size_t i = 0; i < n; i++) t.push_back(norm_cp(r)); break;
    case 3: {                                            // decomposed composites, marks shuffled
      while (t.size() < n) {
        int c = r.chance(1, 2) ? r.pick(P().composites) : r.pick(P().canon);
        Text d; if (r.chance(1, 2)) ref::db().decompose(c, false, d); else { auto it = ref::db().raw.find(c); d = it->second; }
        int extra = r.below(4); for (int i = 0; i < extra; i++) d.insert(d.begin() + r.range(d.size() ? 1 : 0, d.size()), mark(r));
        if (r.chance(1, 2) && d.size() > 2) for (size_t i = d.size() - 1; i > 1; i--) std::swap(d[i], d[1 + r.below(i)]);
        t.insert(t.end(), d.begin(), d.end());
      }
      break; }
    case 4: for (size_t i = 0; i < n; i++) t.push_back(jamo(r)); break;
    case 5: {                                            // one starter, very many marks
      t.push_back(r.chance(1, 2) ? 'a' + (int)r.below(26) : r.pick(P().first));
      size_t m = r.chance(1, 8) ? r.range(100, 1200) : r.range(2, 60); if (m > cap) m = cap;
      int nm = r.range(1, 6); std::vector<int> ms; for (int i = 0; i < nm; i++) ms.push_back(mark(r));
      bool many = r.chance(1, 2);
      for (size_t i = 0; i < m; i++) t.push_back(many ? mark(r) : r.pick(ms));
      if (r.chance(1, 2)) t.push_back('z');
      break; }
    case 6: for (size_t i = 0; i < n; i++) t.push_back(r.chance(1, 12) ? any_cp(r) : 0x20 + (int)r.below(0x5F)); break;
    case 7: while (t.size() < n) { Text s = text(r, 12, r.below(7)); t.insert(t.end(), s.begin(), s.end()); } break;
    case 8: {                                            // strings over a tiny alphabet
      int k = r.range(2, 4); std::vector<int> al; for (int i = 0; i < k; i++) al.push_back(any_cp(r));
      for (size_t i = 0; i < n; i++) t.push_back(r.pick(al));
      break; }
    case 9: {                                            // composing pairs with things in between
      while (t.size() < n) {
        auto p = P().pairs[r.below(P().pairs.size())];
        t.push_back(p.first);
        int k = r.below(3); for (int i = 0; i < k; i++) t.push_back(r.chance(3, 4) ? mark(r) : r.pick(P().starters_ext));
        t.push_back(p.second);
        if (r.chance(1, 3)) t.push_back(mark(r));
      }
      break; }
    default: for (size_t i = 0; i < n; i++) t.push_back(r.chance(1, 2) ? r.pick(P().cjamo) : r.chance(1, 2) ? r.pick(P().compat) : any_cp(r)); break;
  }
  if (t.size() > cap) t.resize(cap);
  return t;
}
// a long text, tens of thousands of codepoints
inline Text long_text(Rng& r, size_t n) {
  Text t; t.reserve(n + 64);
  int style = r.below(4);
  if (style == 0) { t.push_back('a'); while (t.size() < n) t.push_back(mark(r)); }           // a single huge grapheme
  else if (style == 1) { std::vector<int> al; for (int i = 0; i < 3; i++) al.push_back(any_cp(r)); while (t.size() < n) t.push_back(r.pick(al)); }
  else while (t.size() < n) { Text s = text(r, 300); t.insert(t.end(), s.begin(), s.end()); }
  return t;
}
// past every small counter: more than 65536 elements of one kind
const int HUGE = 10;
inline Text huge_text(Rng& r, uint64_t style) {
  size_t n = 65536 + r.range(100, 8000); Text t; t.reserve(n + 64); auto fill = [&](std::vector<int> al) { while (t.size() < n) t.push_back(al[r.below(al.size())]); };
  switch (style % HUGE) {
    case 0: t.push_back(r.pick(P().first)); fill({mark(r)}); break;                                  // one mark over and over
    case 1: { t.push_back('e'); int c = r.chance(1, 2) ? 230 : 220; fill(P().by_ccc.at(c)); break; }  // one class, order to be kept
    case 2: t.push_back(r.pick(P().composites)); while (t.size() < n) t.push_back(mark(r)); break;   // one grapheme, all classes
    case 3: fill({0x1F1E6, 0x1F1FF}); break;
    case 4: t.push_back(0x1100); fill({0x1161}); break;
    case 5: fill({0x20, 'a', 'z', '0'}); t.push_back(0xE9); break;                                    // one octet each
    case 6: while (t.size() < n) t.push_back(scalar(r)); break;
    case 7: while (t.size() < n) t.push_back(norm_cp(r)); break;
    case 8: while (t.size() < n) { Text s = text(r, 300); t.insert(t.end(), s.begin(), s.end()); } break;
    default: fill({'a', 0xE9, 0x20AC, 0x1F600, 13, 10}); break;
  }
  t.push_back('b'); t.push_back(0x301); return t;
}
inline bool no_combining(const Text& t) { for (int c : t) if (c >= 0x300) return false; return true; }

// texts of every exact length up to 140 and about every power of two up to 4096, in codepoints or in octets, of shapes
// in which each element or octet could be the first one past a buffer, a block or a counter
const int SHAPES = 14;
inline const std::vector<int>& lengths() { static std::vector<int> v; if (v.empty()) { for (int i = 0; i <= 140; i++) v.push_back(i); for (int x : {200, 300, 400, 500, 1000}) v.push_back(x); for (int k = 8; k <= 12; k++) for (int d = -1; d <= 1; d++) v.push_back((1 << k) + d); } return v; }
inline uint64_t shapes() { return SHAPES * lengths().size(); }
inline Text shaped(Rng& r, uint64_t i) {
  size_t n = lengths()[i / SHAPES % lengths().size()]; Text t; auto& p = P(); auto ascii = [&] { return 0x20 + (int)r.below(0x5F); };
  switch (i % SHAPES) {
    case 0: if (n) t.push_back(r.pick(p.first)); while (t.size() < n) t.push_back(mark(r)); break;                       // a grapheme of n codepoints
    case 1: while (t.size() < n) t.push_back(mark(r)); break;                                                            // n marks without a base
    case 2: { auto& same = p.by_ccc.at(r.chance(1, 2) ? 230 : 220); t.push_back('o'); while (t.size() < n + 1) t.push_back(r.pick(same)); t.push_back('b'); break; }   // n marks of one class
    case 3: { t.push_back(r.pick(p.first)); std::vector<int> m; for (size_t k = 0; k < n; k++) m.push_back(mark(r)); std::stable_sort(m.begin(), m.end(), [](int a, int b) { return ref::db().ccc(a) > ref::db().ccc(b); }); t.insert(t.end(), m.begin(), m.end()); t.push_back('b'); break; }   // n marks of descending class
    case 4: while (t.size() < n) t.push_back(ascii()); break;                                                           // n octets
    case 5: while (t.size() < n) t.push_back(ascii()); t.push_back(scalar(r)); for (int k = r.below(70); k--;) t.push_back(ascii()); break;   // one other codepoint after n octets
    case 6: { static const int lo[] = {0x80, 0x800, 0x10000}, hi[] = {0x7FF, 0xD7FF, 0x10FFFF}; int z = r.below(3); while (t.size() < n) t.push_back(r.range(lo[z], hi[z])); break; }   // one encoded size
    case 7: { size_t o = 0; while (o < n) { int c = any_cp(r); size_t z = ref::enc_size(c); if (o + z > n) { c = ascii(); z = 1; } t.push_back(c); o += z; } break; }   // exactly n octets
    case 8: while (t.size() < n) { auto q = r.pick(p.pairs); t.push_back(q.first); if (t.size() < n) t.push_back(q.second); } break;   // pairs
    case 9: while (t.size() < n) t.push_back(r.pick(p.composites)); break;                                              // all of them longer afterwards
    case 10: { static const int one[][2] = {{0x1F1E6, 0x1F1FF}, {0x1100, 0x1160}, {0x600, 0x110BD}, {0x200D, 0x2764}, {0x11A8, 0x11C2}, {13, 10}}; auto& q = one[r.below(6)]; t.push_back('x'); while (t.size() < n + 1) t.push_back(q[r.below(2)]); t.push_back('y'); break; }
    case 11: { for (size_t k = r.below(8); k--;) t.push_back(any_cp(r)); t.push_back(r.pick(p.first)); size_t b = t.size(); while (t.size() < b + n) t.push_back(r.pick(p.starters_ext)); t.push_back(r.pick(p.second)); break; }   // n codepoints in between
    case 12: while (t.size() < n) t.push_back(jamo(r)); break;
    default: while (t.size() < n) t.push_back(any_cp(r)); break;
  }
  return t;
}
// the same with values beyond Unicode, up to 31 bits (five and six octets)
const int WIDE_SHAPES = 4;
inline uint64_t wide_shapes() { return WIDE_SHAPES * lengths().size(); }
inline int beyond(Rng& r) { int b = r.range(21, 30); return r.chance(1, 4) ? 0x110000 + (int)r.below(0xF0000) : (int)((1u << b) + r.below(1u << b)); }
inline Text wide_shaped(Rng& r, uint64_t i) {
  size_t n = lengths()[i / WIDE_SHAPES % lengths().size()]; Text t; auto ascii = [&] { return 0x20 + (int)r.below(0x5F); };
  switch (i % WIDE_SHAPES) {
    case 0: while (t.size() < n) t.push_back(ascii()); for (int k = r.range(1, 3); k--;) t.push_back(beyond(r)); for (int k = r.below(70); k--;) t.push_back(ascii()); break;
    case 1: { int z = r.range(5, 6); while (t.size() < n) { int x = beyond(r); if (ref::enc_size(x) == z) t.push_back(x); } t.push_back('b'); break; }
    case 2: while (t.size() < n) t.push_back(r.chance(1, 2) ? beyond(r) : any_cp(r)); break;
    default: { size_t o = 0; while (o < n) { int c = r.chance(1, 3) ? beyond(r) : any_cp(r); size_t z = ref::enc_size(c); if (o + z > n) { c = ascii(); z = 1; } t.push_back(c); o += z; } for (int k = r.range(1, 4); k--;) t.push_back(beyond(r)); break; }
  }
  return t;
}
// What may surround a view in memory: octets chosen to derail stray reads.
inline std::string junk(Rng& r, int n) {
  static const unsigned char j[] = {0x80, 0xBF, 0x81, 0xCC, 0x81, 0xC3, 0xE2, 0xF0, 0xF8, 0xFC, 0xFF, 0x00, 'a', '\n', '\r', 0xCC, 0x88};
  std::string o; int style = r.below(5);
  for (int i = 0; i < n; i++) {
    if (style == 0) o += (char)(0x80 | r.below(0x40));
    else if (style == 1) { o += (char)0xCC; o += (char)(0x80 + r.below(0x20)); }
    else if (style == 2) o += (char)r.below(256);
    else if (style == 3) o += (char)0xF0;
    else o += (char)j[r.below(sizeof j)];
  }
  o.resize(n); return o;
}
inline Text junk32(Rng& r, int n) {
  Text o; int style = r.below(4);
  for (int i = 0; i < n; i++) o.push_back(style == 0 ? mark(r) : style == 1 ? 0x200D : style == 2 ? 0x1F1E6 : any_cp(r));
  return o;
}
} // namespace gen
#endif
