// A plain loop over a text, without any algorithm.
#include <string>
#include <u5e/utf8_string.hpp>
int main() { u5e::utf8_string s(std::string("ab")); int n = 0; for (u5e::utf8_string::const_iterator i = s.codepoint_cbegin(); i != s.codepoint_cend(); ++i) n += *i; for (u5e::utf8_string::iterator i = s.codepoint_begin(); i != s.codepoint_end(); ++i) *i = u5e::codepoint('x'); return n == 0; }
