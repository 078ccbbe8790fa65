// Encodings and native strings the library has never heard of, through the interface it documents for them.
#include "ops.hpp"
#include <deque>
using namespace vf; using ref::Text;
// ---- UTF-16 in native endianness, with a generic iterator ----
struct utf16ne {
  template <class NI> class it {
  public:
    typedef std::bidirectional_iterator_tag iterator_category; typedef u5e::codepoint value_type; typedef std::ptrdiff_t difference_type; typedef const u5e::codepoint* pointer; typedef u5e::codepoint reference;
    NI p; it() : p() {} it(NI q) : p(q) {} it(const it& o) : p(o.p) {} it& operator=(const it& o) { p = o.p; return *this; }
    static bool high(unsigned x) { return (x & 0xFC00) == 0xD800; } static bool low(unsigned x) { return (x & 0xFC00) == 0xDC00; }
    u5e::codepoint operator*() const { unsigned a = (unsigned)(*p) & 0xFFFF; if (!high(a)) return (int)a; NI q = p; ++q; return (int)(0x10000 + ((a - 0xD800) << 10) + (((unsigned)(*q) & 0xFFFF) - 0xDC00)); }
    it& operator++() { if (high((unsigned)*p & 0xFFFF)) ++p; ++p; return *this; } it operator++(int) { it t(*this); ++*this; return t; }
    it& operator--() { --p; if (low((unsigned)*p & 0xFFFF)) --p; return *this; } it operator--(int) { it t(*this); --*this; return t; }
    bool operator==(const it& o) const { return p == o.p; } bool operator!=(const it& o) const { return p != o.p; }
  };
  template <class N> using iterator = it<typename N::iterator>; template <class N> using const_iterator = it<typename N::const_iterator>;
  template <class N> static typename N::const_iterator native_const_iterator(it<typename N::const_iterator> i) { return i.p; }
  template <class N> static typename N::const_iterator native_const_iterator(typename N::const_iterator, it<typename N::const_iterator> i) { return i.p; }
  static void put(int v, std::vector<char16_t>& o) { if (v < 0x10000) { o.push_back((char16_t)v); return; } v -= 0x10000; o.push_back((char16_t)(0xD800 + (v >> 10))); o.push_back((char16_t)(0xDC00 + (v & 0x3FF))); }
  template <class I, class O> static void append_from_utf32ne(I a, I b, O& o) { std::vector<char16_t> v; for (; a != b; ++a) put((int)*a, v); o.append(v.begin(), v.end()); }
  typedef char16_t unit; static std::vector<char16_t> encode(const Text& t) { std::vector<char16_t> v; for (int x : t) put(x, v); return v; }
};
// ---- four octets a codepoint, the other endianness ----
struct utf32be {
  template <class NI> class it {
  public:
    typedef std::random_access_iterator_tag iterator_category; typedef u5e::codepoint value_type; typedef std::ptrdiff_t difference_type; typedef const u5e::codepoint* pointer; typedef u5e::codepoint reference;
    NI p; it() : p() {} it(NI q) : p(q) {} it(const it& o) : p(o.p) {} it& operator=(const it& o) { p = o.p; return *this; }
    u5e::codepoint operator*() const { unsigned v = 0; NI q = p; for (int i = 0; i < 4; i++, ++q) v = v << 8 | (unsigned char)*q; return (int)v; }
    it& operator+=(difference_type n) { p += 4 * n; return *this; } it operator+(difference_type n) const { return it(p + 4 * n); } it operator-(difference_type n) const { return it(p - 4 * n); } difference_type operator-(const it& o) const { return (p - o.p) / 4; }
    it& operator++() { p += 4; return *this; } it operator++(int) { it t(*this); ++*this; return t; } it& operator--() { p -= 4; return *this; } it operator--(int) { it t(*this); --*this; return t; }
    bool operator==(const it& o) const { return p == o.p; } bool operator!=(const it& o) const { return p != o.p; } bool operator<(const it& o) const { return p < o.p; }
  };
  template <class N> using iterator = it<typename N::iterator>; template <class N> using const_iterator = it<typename N::const_iterator>;
  template <class N> static typename N::const_iterator native_const_iterator(it<typename N::const_iterator> i) { return i.p; }
  template <class N> static typename N::const_iterator native_const_iterator(typename N::const_iterator, it<typename N::const_iterator> i) { return i.p; }
  static void put(int x, std::vector<char>& o) { unsigned v = (unsigned)x; for (int s = 24; s >= 0; s -= 8) o.push_back((char)(v >> s)); }
  template <class I, class O> static void append_from_utf32ne(I a, I b, O& o) { std::vector<char> v; for (; a != b; ++a) put((int)*a, v); o.append(v.begin(), v.end()); }
  typedef char unit; static std::vector<char> encode(const Text& t) { std::vector<char> v; for (int x : t) put(x, v); return v; }
};
// ---- native strings: in pieces, with an allocator, with traits of their own, of other element types ----
template <class C> class Pieces {           // not contiguous in memory
  std::deque<C> d;
public:
  typedef C value_type; typedef C* pointer; typedef const C* const_pointer; typedef C& reference; typedef const C& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef typename std::deque<C>::iterator iterator; typedef typename std::deque<C>::const_iterator const_iterator; typedef typename std::deque<C>::reverse_iterator reverse_iterator; typedef typename std::deque<C>::const_reverse_iterator const_reverse_iterator;
  Pieces() {} template <class It> Pieces(It a, It b) : d(a, b) {}
  iterator begin() { return d.begin(); } iterator end() { return d.end(); } const_iterator begin() const { return d.begin(); } const_iterator end() const { return d.end(); } const_iterator cbegin() const { return d.cbegin(); } const_iterator cend() const { return d.cend(); }
  size_type size() const { return d.size(); } bool empty() const { return d.empty(); } C& operator[](size_type i) { return d[i]; } const C& operator[](size_type i) const { return d[i]; }
  void push_back(C x) { d.push_back(x); } void clear() { d.clear(); } void reserve(size_type) {}
  template <class It> Pieces& append(It a, It b) { std::deque<C> t(a, b); d.insert(d.end(), t.begin(), t.end()); return *this; }
};
static uint64_t g_arena_calls;
template <class T> struct Arena { typedef T value_type; int id; explicit Arena(int i = 7) : id(i) {} template <class U> Arena(const Arena<U>& o) : id(o.id) {} T* allocate(size_t n) { g_arena_calls++; return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { ::operator delete(p); } template <class U> bool operator==(const Arena<U>& o) const { return id == o.id; } template <class U> bool operator!=(const Arena<U>& o) const { return id != o.id; } };
struct AllEqual : std::char_traits<char> {   // a type whose own comparison says everything is equal
  static bool eq(char, char) { return true; } static bool lt(char, char) { return false; } static int compare(const char*, const char*, size_t) { return 0; } static const char* find(const char* p, size_t, const char&) { return p; }
};
struct Folding : std::char_traits<char> {    // letters are the same in either case, and so are octets that differ in the highest bit
  static int low(char c) { int x = c & 0x7F; return x >= 'A' && x <= 'Z' ? x + 32 : x; }
  static bool eq(char a, char b) { return low(a) == low(b); } static bool lt(char a, char b) { return low(a) < low(b); } static int compare(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; } static const char* find(const char* p, size_t n, const char& x) { for (; n; --n, ++p) if (eq(*p, x)) return p; return 0; }
};
struct Mod7 : std::char_traits<int> {         // integers that leave the same remainder are the same
  static unsigned m(int x) { return (unsigned)x % 7; } static bool eq(int a, int b) { return m(a) == m(b); } static bool lt(int a, int b) { return m(a) < m(b); } static int compare(const int* a, const int* b, size_t n) { for (; n; --n, ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; } static const int* find(const int* p, size_t n, const int& x) { for (; n; --n, ++p) if (eq(*p, x)) return p; return 0; }
};
typedef std::basic_string<char, Folding> folding_string; typedef std::basic_string<int, Mod7> mod_istring;
typedef std::basic_string<char, AllEqual> odd_string; typedef std::basic_string<char, std::char_traits<char>, Arena<char>> arena_string; typedef std::basic_string<unsigned char> ustring; typedef std::basic_string<signed char> scstring;
typedef std::basic_string<int, std::char_traits<int>, Arena<int>> arena_istring;

#ifndef VERIF_NO_MON
template <class C> using Elsewhere = Pieces<C>;
#else                                        // a library that needs more of its storage than elementary operations
template <class C> using Elsewhere = std::basic_string<C, std::char_traits<C>, Arena<C>>;
#endif
template <class C> static int unit(C x) { return sizeof(C) == 1 ? (int)(unsigned char)x : (int)x; }
template <class N> static Text units(const N& n) { Text t; for (auto i = n.begin(); i != n.end(); ++i) t.push_back(unit(*i)); return t; }
template <class V> static Text to_units(const V& v) { Text t; for (auto x : v) t.push_back(unit(x)); return t; }
struct Want { Text t; std::vector<Text> gr; Text nf[4]; int n[4]; Text dec, kdec; std::vector<int> at; std::vector<int> seg; };
static Want expected(const Text& t) {        // what native UTF-32 gives, and the oracle's segmentation
  Want w; w.t = t; w.seg = ref::db().segment(t); for (size_t k = 0; k + 1 < w.seg.size(); k++) w.gr.push_back(Text(t.begin() + w.seg[k], t.begin() + w.seg[k + 1]));
  u5e::utf32ne_string s(to_i(t)); for (int i = 0; i < 4; i++) ops::norm32(ops::FORMS[i], s, w.nf[i], &w.n[i]);
  for (int x : t) { ref::db().decompose(x, false, w.dec); ref::db().decompose(x, true, w.kdec); } return w;
}
static std::string flat(const std::vector<Text>& g) { std::string o; for (auto& t : g) { o += "[" + show(t) + "]"; if (o.size() > 500) break; } return o; }
// f(name, text) for a text of encoding E in native string N; enc encodes codepoints into elements
template <class E, class N, class Enc> static void check(Ctx& c, Rng& r, const char* name, const Want& w, Enc enc) {
  typedef u5e::basic_encodedstring<E, N> S; auto v = enc(w.t); N native; native.append(v.begin(), v.end()); S s(native); c.count("configurations"); c.count(name); Text before = units(s.native_string);
  Text got = ops::codepoints(s); if (got != w.t) c.fail("codepoints", "%s: codepoints of [%s] are [%s]", name, show(w.t).c_str(), show(got).c_str());
  { Text back; auto b = s.codepoint_cbegin(), i = s.codepoint_cend(); while (i != b && back.size() <= w.t.size()) { --i; back.push_back((int)*i); } std::reverse(back.begin(), back.end()); if (back != w.t) c.fail("codepoints", "%s: codepoints of [%s] backwards are [%s]", name, show(w.t).c_str(), show(back).c_str()); }
  std::vector<Text> g = ops::graphemes(s); if (g != w.gr) c.fail("graphemes", "%s: graphemes of [%s] are %s", name, show(w.t).c_str(), flat(g).c_str());
  for (int i = 0; i < 4; i++) {
    S out; int n = ops::normalize(ops::FORMS[i], s, out); c.count("normalizations"); Text have = units(out.native_string), want = to_units(enc(w.nf[i]));
    if (have != want || n != w.n[i]) c.fail("normalization", "%s: %s of [%s] is [%s], %d reported; expected [%s], %d", name, ops::form_name(ops::FORMS[i]), show(w.t).c_str(), show(ops::codepoints(out)).c_str(), n, show(w.nf[i]).c_str(), w.n[i]);
    if (r.chance(1, 2)) { Text o; int k; ops::norm32(ops::FORMS[i], s, o, &k); if (o != w.nf[i] || k != w.n[i]) c.fail("normalization", "%s to UTF-32: %s of [%s] is [%s]", name, ops::form_name(ops::FORMS[i]), show(w.t).c_str(), show(o).c_str()); }
    else { u5e::utf8_string o; int k = ops::normalize(ops::FORMS[i], s, o); if (o.native_string != ref::encode(w.nf[i]) || k != w.n[i]) c.fail("normalization", "%s to UTF-8: %s of [%s] is %s", name, ops::form_name(ops::FORMS[i]), show(w.t).c_str(), hex_bytes(o.native_string).c_str()); }
    u5e::utf8_string s8(ref::encode(w.t)); S o8; int k = ops::normalize(ops::FORMS[i], s8, o8); if (units(o8.native_string) != want || k != w.n[i]) c.fail("normalization", "UTF-8 to %s: %s of [%s] is [%s]", name, ops::form_name(ops::FORMS[i]), show(w.t).c_str(), show(ops::codepoints(o8)).c_str());
  }
  { u5e::utf32ne_string d, k; int n = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), d, u5e::canonical_decomposition<u5e::utf32ne_string>), m = u5e::filter(s.codepoint_cbegin(), s.codepoint_cend(), k, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>);
    if (from_i(d.native_string) != w.dec || n != (int)w.dec.size() || from_i(k.native_string) != w.kdec || m != (int)w.kdec.size()) c.fail("decomposition", "%s: decompositions of [%s] are [%s] and [%s]", name, show(w.t).c_str(), show(from_i(d.native_string)).c_str(), show(from_i(k.native_string)).c_str()); }
  // conversion of UTF-32 into it, ranges and graphemes appended, seeks
  { u5e::utf32ne_string s32(to_i(w.t)); S o; N pre; auto pv = enc(Text{'p', 0xE9, 0x1F600}); pre.append(pv.begin(), pv.end()); o.native_string = pre; o.template append_from_utf32ne<istring>(s32.codepoint_cbegin(), s32.codepoint_cend()); Text all{'p', 0xE9, 0x1F600}; all.insert(all.end(), w.t.begin(), w.t.end()); if (units(o.native_string) != to_units(enc(all))) c.fail("conversion", "%s: appending UTF-32 [%s] gives [%s]", name, show(w.t).c_str(), show(ops::codepoints(o)).c_str()); c.count("conversions"); }
  { typedef u5e::basic_encodedstring<u5e::utf32ne, Elsewhere<int>> Far; Elsewhere<int> fv; Text ft = w.t; fv.append(ft.begin(), ft.end()); Far far(fv); S o; o.template append_from_utf32ne<Elsewhere<int>>(far.codepoint_cbegin(), far.codepoint_cend()); if (units(o.native_string) != to_units(enc(w.t))) c.fail("conversion", "%s: appending UTF-32 [%s] out of another string type gives [%s]", name, show(w.t).c_str(), show(ops::codepoints(o)).c_str()); c.count("conversions_from_pieces"); }
  std::vector<typename S::const_iterator> pos; { auto i = s.codepoint_cbegin(), e = s.codepoint_cend(); while (i != e && pos.size() < w.t.size()) { pos.push_back(i); ++i; } pos.push_back(e); }
  if (pos.size() != w.t.size() + 1) return;
  typedef u5e::basic_grapheme_iterator<S> G;
  for (int q = 0; q < 6; q++) {
    size_t a = r.below(pos.size()), b = r.chance(1, 2) ? std::min(pos.size() - 1, a + r.below(4)) : a + r.below(pos.size() - a); if (q == 0) { a = 0; b = pos.size() - 1; }
    Text sub(w.t.begin() + a, w.t.begin() + b); { S o; o.append(pos[a], pos[b]); if (units(o.native_string) != to_units(enc(sub))) c.fail("append", "%s: codepoints %zu to %zu of [%s] appended give [%s]", name, a, b, show(w.t).c_str(), show(ops::codepoints(o)).c_str()); }
    { u5e::basic_encodedstring<E, Elsewhere<typename N::value_type>> o; o.template append<N>(pos[a], pos[b]); if (units(o.native_string) != to_units(enc(sub))) c.fail("append", "%s into another string type: codepoints %zu to %zu of [%s] appended give [%s]", name, a, b, show(w.t).c_str(), show(ops::codepoints(o)).c_str()); }
    auto grapheme_of = [&](size_t x) { size_t k = 0; while (k + 1 < w.seg.size() && (size_t)w.seg[k + 1] <= x) k++; return k; };
    size_t ga = grapheme_of(a), gb = grapheme_of(b); G x(s.codepoint_cbegin(), s.codepoint_cend(), pos[a]), y(s.codepoint_cbegin(), s.codepoint_cend(), pos[b]); c.count("seeks", 2);
    if (a < w.t.size()) { auto gr = *x; Text have = ops::cps(gr.codepoint_begin(), gr.codepoint_end(), w.t.size() + 4); if (have != w.gr[ga]) c.fail("seek", "%s: seeking codepoint %zu of [%s] gives [%s]", name, a, show(w.t).c_str(), show(have).c_str()); }
    bool eq = ga == gb; if ((x == y) != eq || (y == x) != eq || (x != y) == eq || (x == pos[b]) != eq) c.fail("seek", "%s: positions %zu and %zu of [%s] compare wrongly", name, a, b, show(w.t).c_str());
    S o; o.append(x, y); Text gs(w.t.begin() + w.seg[ga], w.t.begin() + (gb < w.seg.size() ? w.seg[gb] : (int)w.t.size())); if (units(o.native_string) != to_units(enc(gs))) c.fail("append", "%s: graphemes from %zu to %zu of [%s] appended give [%s]", name, a, b, show(w.t).c_str(), show(ops::codepoints(o)).c_str());
  }
  { N like; Text lt = before; typedef typename N::value_type C; for (int& x : lt) x = r.chance(1, 2) ? x : sizeof(C) == 1 ? (x >= 'a' && x <= 'z' ? x - 32 : 'q') : 'q'; std::vector<C> lv(lt.begin(), lt.end()); like.append(lv.begin(), lv.end()); S over(like); over = s; c.count("assigned_over"); if (units(over.native_string) != before) c.fail("copy", "%s: [%s] assigned to a text of as many elements leaves it different", name, show(w.t).c_str()); }   // whatever its own comparison says of the two
  { S copy(s), other; other = s; S moved(std::move(copy)); if (units(other.native_string) != before || units(moved.native_string) != before) c.fail("copy", "%s: copies of [%s] differ", name, show(w.t).c_str()); }
  if (units(s.native_string) != before) c.fail("source", "%s: the text [%s] was changed", name, show(w.t).c_str());
}
static void one(Ctx& c, Rng& r, const Text& t) {
  Want w = expected(t); auto e8 = [](const Text& x) { std::string s = ref::encode(x); return std::vector<char>(s.begin(), s.end()); }; auto e32 = [](const Text& x) { return x; };
  auto e16 = [](const Text& x) { return utf16ne::encode(x); }; auto eb = [](const Text& x) { return utf32be::encode(x); };
  int which = r.below(4);
  check<utf16ne, std::u16string>(c, r, "utf16.u16string", w, e16);
  check<utf32be, std::string>(c, r, "utf32be.string", w, eb);
  check<u5e::utf8, arena_string>(c, r, "utf8.allocator", w, e8);
  switch (which) {
    case 0: check<utf16ne, std::basic_string<unsigned short>>(c, r, "utf16.unsigned-short", w, e16); check<u5e::utf8, odd_string>(c, r, "utf8.traits", w, e8);
            check<u5e::utf8, folding_string>(c, r, "utf8.folding-traits", w, e8); check<u5e::utf32ne, mod_istring>(c, r, "utf32.remainder-traits", w, e32); break;
    case 1: check<u5e::utf32ne, arena_istring>(c, r, "utf32.allocator", w, e32); break;
    default: break;
  }
#ifndef VERIF_NO_MON
  if (which == 1) check<u5e::utf8, ustring>(c, r, "utf8.unsigned-char", w, e8);
  if (which == 2) { check<u5e::utf32ne, std::u32string>(c, r, "utf32.u32string", w, e32); check<u5e::utf8, scstring>(c, r, "utf8.signed-char", w, e8); }
  check<u5e::utf8, Pieces<char>>(c, r, "utf8.pieces", w, e8);
  if (which == 3) { check<utf16ne, Pieces<char16_t>>(c, r, "utf16.pieces", w, e16); check<u5e::utf32ne, Pieces<int>>(c, r, "utf32.pieces", w, e32); check<utf32be, Pieces<char>>(c, r, "utf32be.pieces", w, eb); }
#endif
  c.evaluations++; bool multi = false; for (int x : t) if (x >= 0x10000 || ref::db().ccc(x)) multi = true; if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 12)); }
}
void run(Ctx& c) {
  bool s = c.sanitized(); const uint64_t block = 256, nb = 0x110000 / block; uint64_t step = c.thorough ? 1 : s ? 128 : 16;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) { if (i % step != c.seed % step) return; for (uint64_t k = 0; k < block; k += 4) { Text t; for (uint64_t q = 0; q < 4; q++) { int cp = (int)(i * block + k + q); if (cp < 0xD800 || cp >= 0xE000) { t.push_back(cp); if (r.chance(1, 2)) t.push_back(gen::any_cp(r)); c.count("codepoints_swept"); } } one(c, r, t); } });
  c.cases("texts", c.amount(s ? 1200 : 9000, s ? 20000 : 200000), [&](Rng& r, uint64_t) { one(c, r, gen::text(r, 200)); });
  c.cases("lengths", gen::shapes(), [&](Rng& r, uint64_t i) { if (!c.thorough && mix(i) % (s ? 24 : 4) != c.seed % (s ? 24 : 4)) return; one(c, r, gen::shaped(r, i)); });
  c.cases("long", c.amount(8, 60), [&](Rng& r, uint64_t) { one(c, r, gen::long_text(r, r.range(2000, 9000))); });
  c.cases("empty", 8, [&](Rng& r, uint64_t) { one(c, r, Text()); });
  c.count("arena_allocations", g_arena_calls);
}
