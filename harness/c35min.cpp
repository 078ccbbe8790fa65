// Ordinary uses of standard algorithms on texts: what must compile (built when the driver of C35 does not).
#include <algorithm>
#include <iterator>
#include <numeric>
#include <string>
#include <vector>
#include <u5e/utf8_string.hpp>
#include <u5e/utf32ne_string.hpp>
template <class It> static long use(It b, It e) {
  long n = std::distance(b, e); It x = b; if (n) std::advance(x, 1); It y = std::next(b, n ? 1 : 0); if (n) y = std::prev(e);
  n += std::count(b, e, u5e::codepoint('a')); n += std::find(b, e, u5e::codepoint('a')) == e; n += std::find_if(b, e, [](u5e::codepoint c) { return (int)c == 'b'; }) == e; n += std::equal(b, e, b); n += std::lexicographical_compare(b, e, x, e); n += std::search(b, e, x, e) == e; n += std::adjacent_find(b, e) == e;
  std::vector<int> v(b, e); std::copy(b, e, v.begin()); std::transform(b, e, v.begin(), [](int c) { return c + 1; }); std::for_each(b, e, [&](int c) { n += c; }); n = std::accumulate(b, e, n);
  std::reverse_iterator<It> r(e), q(b); std::vector<int> w(r, q); n += std::find(r, q, u5e::codepoint('a')) == q; std::basic_string<int> s(b, e); s.append(b, e); return n + (long)s.size() + (x == y);
}
int main() {
  u5e::utf8_string a(std::string("ab")); u5e::utf32ne_string b; b.native_string.assign({'a', 'b'}); long n = 0;
  n += use(a.codepoint_cbegin(), a.codepoint_cend()) + use(a.codepoint_begin(), a.codepoint_end()) + use(b.codepoint_cbegin(), b.codepoint_cend()) + use(b.codepoint_begin(), b.codepoint_end());
  std::replace(a.codepoint_begin(), a.codepoint_end(), u5e::codepoint('a'), u5e::codepoint('c')); std::fill(b.codepoint_begin(), b.codepoint_end(), u5e::codepoint('x')); int t[] = {0xE9, 'x'}; std::string buf(4, ' '); std::copy(t, t + 2, u5e::utf8_iterator<std::string::iterator>(buf.begin()));
  return n == 0;
}
