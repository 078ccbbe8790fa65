// All headers, in the opposite order and before anything else, in a translation unit of its own.
#if __has_include(<u5e/version.hpp>)
#include <u5e/version.hpp>
#endif
#if __has_include(<u5e/utf8_util.hpp>)
#include <u5e/utf8_util.hpp>
#endif
#if __has_include(<u5e/utf8_string_view_grapheme_iterator.hpp>)
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#endif
#if __has_include(<u5e/utf8_string_view_grapheme.hpp>)
#include <u5e/utf8_string_view_grapheme.hpp>
#endif
#if __has_include(<u5e/utf8_string_view.hpp>)
#include <u5e/utf8_string_view.hpp>
#endif
#if __has_include(<u5e/utf8_string_grapheme_iterator.hpp>)
#include <u5e/utf8_string_grapheme_iterator.hpp>
#endif
#if __has_include(<u5e/utf8_string_grapheme.hpp>)
#include <u5e/utf8_string_grapheme.hpp>
#endif
#if __has_include(<u5e/utf8_string.hpp>)
#include <u5e/utf8_string.hpp>
#endif
#if __has_include(<u5e/utf8_iterator.hpp>)
#include <u5e/utf8_iterator.hpp>
#endif
#if __has_include(<u5e/utf8_bounds.hpp>)
#include <u5e/utf8_bounds.hpp>
#endif
#if __has_include(<u5e/utf8.hpp>)
#include <u5e/utf8.hpp>
#endif
#if __has_include(<u5e/utf32ne_string_view_grapheme_iterator.hpp>)
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#endif
#if __has_include(<u5e/utf32ne_string_view_grapheme.hpp>)
#include <u5e/utf32ne_string_view_grapheme.hpp>
#endif
#if __has_include(<u5e/utf32ne_string_view.hpp>)
#include <u5e/utf32ne_string_view.hpp>
#endif
#if __has_include(<u5e/utf32ne_string_grapheme_iterator.hpp>)
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#endif
#if __has_include(<u5e/utf32ne_string_grapheme.hpp>)
#include <u5e/utf32ne_string_grapheme.hpp>
#endif
#if __has_include(<u5e/utf32ne_string.hpp>)
#include <u5e/utf32ne_string.hpp>
#endif
#if __has_include(<u5e/utf32ne.hpp>)
#include <u5e/utf32ne.hpp>
#endif
#if __has_include(<u5e/props/grapheme_cluster_break.hpp>)
#include <u5e/props/grapheme_cluster_break.hpp>
#endif
#if __has_include(<u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>)
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#endif
#if __has_include(<u5e/props/canonical_decomposition_mapping.hpp>)
#include <u5e/props/canonical_decomposition_mapping.hpp>
#endif
#if __has_include(<u5e/props/canonical_composition_mapping.hpp>)
#include <u5e/props/canonical_composition_mapping.hpp>
#endif
#if __has_include(<u5e/props/canonical_combining_class.hpp>)
#include <u5e/props/canonical_combining_class.hpp>
#endif
#if __has_include(<u5e/normalization_form_kd.hpp>)
#include <u5e/normalization_form_kd.hpp>
#endif
#if __has_include(<u5e/normalization_form_kc.hpp>)
#include <u5e/normalization_form_kc.hpp>
#endif
#if __has_include(<u5e/normalization_form_d.hpp>)
#include <u5e/normalization_form_d.hpp>
#endif
#if __has_include(<u5e/normalization_form_c.hpp>)
#include <u5e/normalization_form_c.hpp>
#endif
#if __has_include(<u5e/iterator_assertion.hpp>)
#include <u5e/iterator_assertion.hpp>
#endif
#if __has_include(<u5e/hangul.hpp>)
#include <u5e/hangul.hpp>
#endif
#if __has_include(<u5e/filter.hpp>)
#include <u5e/filter.hpp>
#endif
#if __has_include(<u5e/encoding_assertion.hpp>)
#include <u5e/encoding_assertion.hpp>
#endif
#if __has_include(<u5e/compatibility_and_canonical_decomposition.hpp>)
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#endif
#if __has_include(<u5e/codepoint_traits.hpp>)
#include <u5e/codepoint_traits.hpp>
#endif
#if __has_include(<u5e/codepoint_decomposition.hpp>)
#include <u5e/codepoint_decomposition.hpp>
#endif
#if __has_include(<u5e/codepoint.hpp>)
#include <u5e/codepoint.hpp>
#endif
#if __has_include(<u5e/canonical_decomposition.hpp>)
#include <u5e/canonical_decomposition.hpp>
#endif
#if __has_include(<u5e/canonical_composition.hpp>)
#include <u5e/canonical_composition.hpp>
#endif
#if __has_include(<u5e/canonical_combining_order.hpp>)
#include <u5e/canonical_combining_order.hpp>
#endif
#if __has_include(<u5e/basic_grapheme_iterator.hpp>)
#include <u5e/basic_grapheme_iterator.hpp>
#endif
#if __has_include(<u5e/basic_grapheme.hpp>)
#include <u5e/basic_grapheme.hpp>
#endif
#if __has_include(<u5e/basic_encodedstring.hpp>)
#include <u5e/basic_encodedstring.hpp>
#endif
#include "c32.hpp"
namespace other {
typedef u5e::utf8_string S;
template <class F> static void form(const std::string& b, std::string& o, F f) { S s(b), out; u5e::filter(s.grapheme_begin(), s.grapheme_end(), out, f); o += out.native_string; o += '\xFF'; }
std::string digest(const std::string& b) {
  std::string o; form(b, o, u5e::normalization_form_d<S, S>); form(b, o, u5e::normalization_form_c<S, S>); form(b, o, u5e::normalization_form_kd<S, S>); form(b, o, u5e::normalization_form_kc<S, S>);
  S s(b); for (u5e::utf8_string_grapheme_iterator i = s.grapheme_begin(), e = s.grapheme_end(); i != e; i++) { u5e::utf8_string_grapheme g = *i; int n = 0; for (auto p = g.codepoint_begin(); p != g.codepoint_end(); p++) n++; o += std::to_string(n) + ","; }
  return o;
}
}
