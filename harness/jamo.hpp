// The limitation of normalizing form KC grapheme by grapheme (known finding).
#ifndef VERIF_JAMO
#define VERIF_JAMO
#include "ref.hpp"
// a codepoint whose compatibility mapping consists of conjoining jamo (compatibility, halfwidth, circled, parenthesized)
static inline bool has_cjamo(const ref::Text& t) { for (int c : t) { const ref::Text* m = ref::db().mapping(c, true); if (m) for (int x : *m) if (x >= 0x1100 && x <= 0x11FF) return true; } return false; }
// what normalizing each grapheme on its own gives by definition
static inline ref::Text per_grapheme(const ref::Text& t, char form) {
  ref::Text o; std::vector<int> seg = ref::db().segment(t);
  for (size_t g = 0; g + 1 < seg.size(); g++) { ref::Text n = ref::db().normalize(ref::Text(t.begin() + seg[g], t.begin() + seg[g + 1]), form); o.insert(o.end(), n.begin(), n.end()); }
  return o;
}
#endif
