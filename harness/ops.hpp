// The library's operations, called through its public interface.
#ifndef VERIF_OPS
#define VERIF_OPS
#include "stor.hpp"
#include <u5e/utf8_bounds.hpp>
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
namespace ops {
using ref::Text;
static const char FORMS[4] = {'d', 'c', 'D', 'C'};
inline const char* form_name(char f) { return f == 'd' ? "NFD" : f == 'c' ? "NFC" : f == 'D' ? "NFKD" : "NFKC"; }

// codepoints of a range; cap stops a pass that runs away
template <class It> Text cps(It b, It e, size_t cap) {
  Text t; while (b != e) { if (t.size() > cap) { t.push_back(-77); break; } t.push_back((int)*b); ++b; } return t;
}
template <class S> Text codepoints(S& s) { return cps(s.codepoint_cbegin(), s.codepoint_cend(), s.native_string.size() + 4); }
// the graphemes, each as its codepoints
template <class S> std::vector<Text> graphemes(S& s) {
  std::vector<Text> g; size_t cap = s.native_string.size() + 4;
  u5e::basic_grapheme_iterator<S> it = s.grapheme_begin(), e = s.grapheme_end();
  while (it != e) {
    if (g.size() > cap) { g.push_back(Text(1, -77)); break; }
    auto gr = *it; g.push_back(cps(gr.codepoint_begin(), gr.codepoint_end(), cap)); ++it;
  }
  return g;
}
template <class S, class O> int normalize(char form, S& s, O& out) {
  switch (form) {
    case 'd': return u5e::filter(s.grapheme_begin(), s.grapheme_end(), out, u5e::normalization_form_d<S, O>);
    case 'c': return u5e::filter(s.grapheme_begin(), s.grapheme_end(), out, u5e::normalization_form_c<S, O>);
    case 'D': return u5e::filter(s.grapheme_begin(), s.grapheme_end(), out, u5e::normalization_form_kd<S, O>);
    default: return u5e::filter(s.grapheme_begin(), s.grapheme_end(), out, u5e::normalization_form_kc<S, O>);
  }
}
// Normalized content in either output encoding; false when the UTF-8 output is malformed.
template <class S> bool norm32(char form, S& s, Text& out, int* count = nullptr) { u5e::utf32ne_string o; int n = normalize(form, s, o); if (count) *count = n; out = from_i(o.native_string); return true; }
template <class S> bool norm8(char form, S& s, Text& out, int* count = nullptr) { u5e::utf8_string o; int n = normalize(form, s, o); if (count) *count = n; out.clear(); return ref::decode(o.native_string, out); }
inline Text norm_text(char form, const Text& t) { u5e::utf32ne_string s(to_i(t)); Text o; norm32(form, s, o); return o; }

inline int gcb(int cp) {
  typedef u5e::props::grapheme_cluster_break G;
  switch (G::resolve(cp)) {
    case G::OTHER: return ref::OTHER; case G::PREPEND: return ref::PREPEND; case G::CR: return ref::CR; case G::LF: return ref::LF;
    case G::CONTROL: return ref::CONTROL; case G::EXTEND: return ref::EXTEND; case G::REGIONAL_INDICATOR: return ref::REGIONAL_INDICATOR;
    case G::SPACINGMARK: return ref::SPACINGMARK; case G::L: return ref::L; case G::V: return ref::V; case G::T: return ref::T;
    case G::LV: return ref::LV; case G::LVT: return ref::LVT; case G::E_BASE: return ref::E_BASE; case G::E_MODIFIER: return ref::E_MODIFIER;
    case G::ZWJ: return ref::ZWJ; case G::GLUE_AFTER_ZWJ: return ref::GLUE_AFTER_ZWJ; case G::E_BASE_GAZ: return ref::E_BASE_GAZ;
  }
  return -1;
}
inline int ccc(int cp) { return u5e::props::canonical_combining_class::resolve(cp); }
inline Text mapping(int const* m) { Text t; if (!m) return t; for (int i = 0; i < 64 && m[i]; i++) t.push_back(m[i]); return t; }
inline int const* dmap(int cp) { return u5e::props::canonical_decomposition_mapping::resolve(cp); }
inline int const* kmap(int cp) { return u5e::props::compatibility_and_canonical_decomposition_mapping::resolve(cp); }
inline int compose(int a, int b) { int c = -1; return u5e::props::canonical_composition_mapping::resolve(a, b, &c) ? c : -1; }

// Well-formed range that passes the bounds check by the property's own words.
inline int lead_size(unsigned char b) { return b < 0xC0 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; }
inline bool cont(unsigned char b) { return (b & 0xC0) == 0x80; }
inline bool bounds_ok(const std::string& s) {
  if (s.empty()) return true;
  if (cont(s[0])) return false;
  for (size_t d = 1; d <= 6 && d <= s.size(); d++) { unsigned char b = s[s.size() - d]; if (b >= 0xC0 && lead_size(b) > (int)d) return false; }
  return true;
}
// FE and FF start nothing that is defined; near the end the verdict is open
inline bool bounds_open(const std::string& s) { for (size_t d = 1; d <= 8 && d <= s.size(); d++) if ((unsigned char)s[s.size() - d] >= 0xFE) return true; return false; }

// an arbitrary octet string, biased to UTF-8-like structure
inline std::string octets(vf::Rng& r, size_t n) {
  static const unsigned char R[] = {'a', 'z', 0, 0x7F, 0x80, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0xCC, 0x81, 0x88};
  std::string s; int style = r.below(5);
  while (s.size() < n) {
    if (style == 0) s += (char)r.below(256);
    else if (style == 1) s += (char)R[r.below(sizeof R)];
    else if (style == 2) { if (r.chance(1, 3)) s += (char)(0xC0 + r.below(0x40)); else s += (char)(0x80 + r.below(0x40)); }
    else { ref::encode1(gen::any_cp(r), s); if (r.chance(1, 4) && !s.empty()) { size_t k = r.below(s.size()); switch (r.below(3)) { case 0: s[k] = (char)R[r.below(sizeof R)]; break; case 1: s.erase(k, 1); break; default: s.insert(k, 1, (char)R[r.below(sizeof R)]); } } }
  }
  s.resize(n); return s;
}
} // namespace ops
#endif
