// What the second translation unit of C32 computes with its own copy of the headers.
#ifndef VERIF_C32
#define VERIF_C32
#include <string>
#include <vector>
#include "ref.hpp"
namespace other {
std::string digest(const std::string& octets);                    // forms D, C, KD, KC one after the other and the grapheme sizes
inline std::string expected(const ref::Text& t, const std::vector<ref::Text>& nf) {
  std::string o; for (auto& f : nf) { o += ref::encode(f); o += '\xFF'; }
  std::vector<int> s = ref::db().segment(t); for (size_t i = 0; i + 1 < s.size(); i++) o += std::to_string(s[i + 1] - s[i]) + ",";
  return o;
}
}
#endif
