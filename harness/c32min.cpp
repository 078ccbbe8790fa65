// Ordinary uses of the public interface over standard strings only: what has to build wherever anything of the library does.
#include <list>
#include <string>
#include <vector>
#include <iterator>
#include <algorithm>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
#include <u5e/version.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
template <class S, class O> int forms(S& s) {
  O o; int n = u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_d<S, O>);
  n += u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_c<S, O>);
  n += u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_kd<S, O>);
  return n + u5e::filter(s.grapheme_begin(), s.grapheme_end(), o, u5e::normalization_form_kc<S, O>);
}
template <class S> int uses(S& s) {
  int n = 0; u5e::utf32ne_string u; typename S::const_iterator b = s.codepoint_cbegin(), e = s.codepoint_cend();
  for (typename S::const_iterator i = b; i != e; i++) { n += *i; n += i == b; n += (*i == 0x41); }
  for (typename S::const_iterator i = e; i != b;) { --i; n += (int)*i; }
  n += (int)std::distance(b, e); n += std::find(b, e, u5e::codepoint(0x41)) != e;
  u5e::basic_grapheme_iterator<S> g = s.grapheme_begin(), ge = s.grapheme_end(), at(b, e, b);
  for (; g != ge; g++) { u5e::basic_grapheme<S> x = *g; n += x.codepoint_begin() != x.codepoint_end(); n += g == at; n += g == b; }
  n += u5e::filter(b, e, u, u5e::canonical_decomposition<u5e::utf32ne_string>) + u5e::filter(b, e, u, u5e::compatibility_and_canonical_decomposition<u5e::utf32ne_string>);
  return n + forms<S, u5e::utf8_string>(s) + forms<S, u5e::utf32ne_string>(s);
}
int ordinary_uses(const std::string& a, const std::basic_string<int>& b) {
  u5e::utf8_string s8(a); u5e::utf32ne_string s32(b); u5e::utf8_string_view v8{std::experimental::string_view(a)}; u5e::utf32ne_string_view v32{std::experimental::basic_string_view<int>(b.data(), b.size())};
  int n = uses(s8) + uses(s32) + uses(v8) + uses(v32), c = 0; std::string m(a); std::basic_string<int> b32(b);
  n += u5e::utf8_bounds<std::string::const_iterator>::check(a.begin(), a.end()) + u5e::utf8_bounds<std::string::iterator>::enforce(m.begin(), m.end());
  for (u5e::utf8_string::iterator i = s8.codepoint_begin(); i != s8.codepoint_end(); ++i) n += (int)*i;
  if (!a.empty()) { u5e::utf8_string::iterator i = s8.codepoint_begin(); *i = u5e::codepoint(0x41); u5e::utf8_iterator<const char*> p(a.c_str()); n += *p; }
  u5e::utf8_string o8; u5e::utf32ne_string o32; o8.append(s8.codepoint_cbegin(), s8.codepoint_cend()); o32.append(s32.codepoint_cbegin(), s32.codepoint_cend());
  o8.append_from_utf32ne<std::basic_string<int>>(s32.codepoint_cbegin(), s32.codepoint_cend());
  std::stable_sort(b32.begin(), b32.end(), u5e::canonical_combining_order); u5e::canonical_composition(s32, &c);
  return n + c + u5e::version::run_time::major + u5e::version::compile_time::minor;
}
int main(int argc, char** argv) { std::basic_string<int> t; for (int i = 0; i < argc; i++) t.push_back(0x41 + i); return ordinary_uses(argv[0], t) < 0; }
