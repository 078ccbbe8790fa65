// The oracle: Unicode 9.0 by the book, from the pinned data files, sharing no
// code and no tables with /repo. Texts are vectors of codepoint values.
#ifndef VERIF_REF
#define VERIF_REF
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>

namespace ref {
typedef std::vector<int> Text;
enum Gcb { OTHER, PREPEND, CR, LF, CONTROL, EXTEND, REGIONAL_INDICATOR, SPACINGMARK, L, V, T, LV, LVT,
           E_BASE, E_MODIFIER, ZWJ, GLUE_AFTER_ZWJ, E_BASE_GAZ, NGCB };
static const char* const gcb_names[NGCB] = {"Other","Prepend","CR","LF","Control","Extend","Regional_Indicator",
  "SpacingMark","L","V","T","LV","LVT","E_Base","E_Modifier","ZWJ","Glue_After_Zwj","E_Base_GAZ"};
const int NCP = 0x110000;

struct Db {
  std::vector<unsigned char> ccc_, gcb_;
  std::vector<char> assigned;
  std::unordered_map<int, Text> raw;          // one-step mapping
  std::unordered_map<int, bool> compat_tag;   // mapping carries a <tag>
  std::vector<char> excluded;
  std::unordered_map<uint64_t, int> comp_;
  std::unordered_map<int, Text> full_c, full_k;
  Db() : ccc_(NCP), gcb_(NCP), assigned(NCP), excluded(NCP) { load(); }

  static std::string dir() { const char* e = getenv("VERIF_DATA"); return e ? e : "/verif/data"; }
  static FILE* must(const std::string& n) { FILE* f = fopen((dir() + "/" + n).c_str(), "r"); if (!f) { perror(n.c_str()); exit(3); } return f; }
  static std::vector<std::string> split(const std::string& s, char sep) {
    std::vector<std::string> o; size_t a = 0;
    for (;;) { size_t b = s.find(sep, a); if (b == std::string::npos) { o.push_back(s.substr(a)); return o; } o.push_back(s.substr(a, b - a)); a = b + 1; }
  }
  static std::string trim(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }

  void load() {
    char line[4096]; int range_first = -1;
    FILE* f = must("UnicodeData.txt");
    while (fgets(line, sizeof line, f)) {
      std::vector<std::string> c = split(trim(line), ';');
      if (c.size() < 6) continue;
      int cp = (int)strtol(c[0].c_str(), 0, 16);
      if (c[1].find(", First>") != std::string::npos) range_first = cp;
      if (c[1].find(", Last>") != std::string::npos) { for (int i = range_first; i <= cp; i++) assigned[i] = 1; }
      assigned[cp] = 1;
      ccc_[cp] = (unsigned char)atoi(c[3].c_str());
      if (!c[5].empty()) {
        Text t; bool tag = false;
        for (auto& w : split(c[5], ' ')) { if (w[0] == '<') tag = true; else t.push_back((int)strtol(w.c_str(), 0, 16)); }
        raw[cp] = t; compat_tag[cp] = tag;
      }
    }
    fclose(f);
    f = must("CompositionExclusions.txt");
    while (fgets(line, sizeof line, f)) { if (char* h = strchr(line, '#')) *h = 0; std::string s = trim(line); if (!s.empty()) excluded[strtol(s.c_str(), 0, 16)] = 1; }
    fclose(f);
    f = must("GraphemeBreakProperty.txt");
    while (fgets(line, sizeof line, f)) {
      if (char* h = strchr(line, '#')) *h = 0;
      std::string s = trim(line); if (s.empty()) continue;
      std::vector<std::string> c = split(s, ';'); if (c.size() != 2) continue;
      std::string r = trim(c[0]), n = trim(c[1]); size_t d = r.find("..");
      int a = (int)strtol(r.c_str(), 0, 16), b = d == std::string::npos ? a : (int)strtol(r.c_str() + d + 2, 0, 16), v = -1;
      for (int i = 0; i < NGCB; i++) if (n == gcb_names[i]) v = i;
      if (v < 0) { fprintf(stderr, "class %s\n", n.c_str()); exit(3); }
      for (int i = a; i <= b; i++) gcb_[i] = (unsigned char)v;
    }
    fclose(f);
    for (auto& kv : raw) {
      if (compat_tag[kv.first]) continue;
      const Text& t = kv.second;
      // UAX #15: singletons, non-starter decompositions and listed exclusions do not recompose
      if (t.size() != 2 || excluded[kv.first] || ccc_[kv.first] || ccc_[t[0]]) continue;
      comp_[((uint64_t)t[0] << 32) | (unsigned)t[1]] = kv.first;
    }
    for (auto& kv : raw) { Text k; expand(kv.first, true, k); full_k[kv.first] = k; Text c; expand(kv.first, false, c); if (!compat_tag[kv.first]) full_c[kv.first] = c; }
    // a codepoint that itself has no canonical mapping but whose expansion changes does not exist: expansion starts at the mapping
  }
  void expand(int cp, bool k, Text& out) const {
    auto it = raw.find(cp);
    if (it == raw.end() || (!k && compat_tag.at(cp))) { out.push_back(cp); return; }
    for (int x : it->second) expand(x, k, out);
  }

  int ccc(int cp) const { return cp >= 0 && cp < NCP ? ccc_[cp] : 0; }
  int gcb(int cp) const { return cp >= 0 && cp < NCP ? gcb_[cp] : OTHER; }
  // table mapping only (no Hangul), null when there is none
  const Text* mapping(int cp, bool k) const { auto& m = k ? full_k : full_c; auto it = m.find(cp); return it == m.end() ? nullptr : &it->second; }
  static bool is_hangul(int c) { return c >= 0xAC00 && c < 0xAC00 + 11172; }
  void decompose(int cp, bool k, Text& out) const {
    if (is_hangul(cp)) { int s = cp - 0xAC00; out.push_back(0x1100 + s / 588); out.push_back(0x1161 + (s % 588) / 28); if (s % 28) out.push_back(0x11A7 + s % 28); return; }
    const Text* m = mapping(cp, k);
    if (m) out.insert(out.end(), m->begin(), m->end()); else out.push_back(cp);
  }
  int table_compose(int a, int b) const { auto it = comp_.find(((uint64_t)(unsigned)a << 32) | (unsigned)b); return it == comp_.end() ? -1 : it->second; }
  int compose(int a, int b) const {
    if (a >= 0x1100 && a < 0x1113 && b >= 0x1161 && b < 0x1176) return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    if (is_hangul(a) && (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3) return a + (b - 0x11A7);
    return table_compose(a, b);
  }
  void order(Text& t) const {                      // D109: stable within runs of non-starters
    size_t i = 0;
    while (i < t.size()) {
      if (!ccc(t[i])) { i++; continue; }
      size_t j = i; while (j < t.size() && ccc(t[j])) j++;
      std::stable_sort(t.begin() + i, t.begin() + j, [this](int a, int b) { return ccc(a) < ccc(b); });
      i = j;
    }
  }
  Text composed(const Text& t) const {             // D117, t canonically ordered
    Text o; long starter = -1; int last = 0;       // class of the last codepoint kept after the starter
    for (int c : t) {
      int k = ccc(c);
      bool adjacent = starter >= 0 && starter == (long)o.size() - 1;
      if (starter >= 0 && (adjacent || (last < k && last != 0))) {
        int p = compose(o[starter], c);
        if (p >= 0) { o[starter] = p; continue; }
      }
      o.push_back(c);
      if (!k) { starter = (long)o.size() - 1; last = 0; } else last = k;
    }
    return o;
  }
  Text normalize(const Text& t, char form) const { // 'd' 'c' 'D'(=kd) 'C'(=kc)
    bool k = form == 'D' || form == 'C'; Text o;
    for (int c : t) decompose(c, k, o);
    order(o);
    return form == 'c' || form == 'C' ? composed(o) : o;
  }
  bool boundary(int ca, int cb) const {            // UAX #29 revision 29 applied to the pair
    int a = gcb(ca), b = gcb(cb);
    if (a == CR && b == LF) return false;
    if (a == CR || a == LF || a == CONTROL) return true;
    if (b == CR || b == LF || b == CONTROL) return true;
    if (a == L && (b == L || b == V || b == LV || b == LVT)) return false;
    if ((a == LV || a == V) && (b == V || b == T)) return false;
    if ((a == LVT || a == T) && b == T) return false;
    if (b == EXTEND || b == ZWJ || b == SPACINGMARK) return false;
    if (a == PREPEND) return false;
    if ((a == E_BASE || a == E_BASE_GAZ || a == EXTEND) && b == E_MODIFIER) return false;
    if (a == ZWJ && (b == GLUE_AFTER_ZWJ || b == E_BASE_GAZ)) return false;
    if (a == REGIONAL_INDICATOR && b == REGIONAL_INDICATOR) return false;
    return true;
  }
  // indices of grapheme starts, plus the length as last element
  std::vector<int> segment(const Text& t) const {
    std::vector<int> s;
    for (size_t i = 0; i < t.size(); i++) if (i == 0 || boundary(t[i - 1], t[i])) s.push_back((int)i);
    s.push_back((int)t.size());
    return s;
  }
};
inline const Db& db() { static Db* d = new Db; return *d; }

inline int enc_size(uint32_t v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; }
inline void encode1(uint32_t v, std::string& o) {
  int n = enc_size(v);
  if (n == 1) { o += (char)v; return; }
  static const unsigned char lead[] = {0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC};
  o += (char)(lead[n] | (v >> (6 * (n - 1))));
  for (int i = n - 2; i >= 0; i--) o += (char)(0x80 | ((v >> (6 * i)) & 0x3F));
}
inline std::string encode(const Text& t) { std::string o; for (int c : t) encode1((uint32_t)c, o); return o; }
// octet offset of every codepoint, plus the total as last element
inline std::vector<int> offsets(const Text& t) { std::vector<int> o; int p = 0; for (int c : t) { o.push_back(p); p += enc_size((uint32_t)c); } o.push_back(p); return o; }
// codepoint index for every octet position, end included
inline std::vector<int> octet_owner(const Text& t) { std::vector<int> o; for (size_t i = 0; i < t.size(); i++) o.insert(o.end(), enc_size((uint32_t)t[i]), (int)i); o.push_back((int)t.size()); return o; }
// strict decoder (1..6 octets, shortest form); false when malformed
inline bool decode(const std::string& s, Text& out) {
  size_t i = 0;
  while (i < s.size()) {
    unsigned char b = (unsigned char)s[i]; int n; uint32_t v;
    if (b < 0x80) { out.push_back(b); i++; continue; }
    if (b < 0xC0) return false; else if (b < 0xE0) n = 2, v = b & 0x1F; else if (b < 0xF0) n = 3, v = b & 0xF;
    else if (b < 0xF8) n = 4, v = b & 7; else if (b < 0xFC) n = 5, v = b & 3; else if (b < 0xFE) n = 6, v = b & 1; else return false;
    if (i + n > s.size()) return false;
    for (int k = 1; k < n; k++) { unsigned char x = (unsigned char)s[i + k]; if ((x & 0xC0) != 0x80) return false; v = v << 6 | (x & 0x3F); }
    if (enc_size(v) != n) return false;
    out.push_back((int)v); i += n;
  }
  return true;
}
} // namespace ref
#endif
