// Monitored native storage: a string-like type whose iterators check every
// dereference against the text's range and count it. Usable as NativeString.
#ifndef VERIF_MON
#define VERIF_MON
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <algorithm>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <string>
#include <vector>
namespace mon {
#ifdef VERIF_MON_HOOK
static void (*g_hook)();             // called at every access
#endif
struct Budget : std::runtime_error { Budget() : std::runtime_error("octet access budget exceeded") {} };

template <class C> struct Ctl {
  C* lo = nullptr; C* hi = nullptr;
  uint64_t reads = 0, budget = UINT64_MAX, oob = 0;
  long first_oob = 0;                  // element index relative to lo
  C dummy = C();
  C hostile = C();                     // what a stray read sees
  C& at(C* p) {
#ifdef VERIF_MON_HOOK
    if (g_hook) g_hook();
#endif
    if (++reads > budget) throw Budget();
    if (p < lo || p >= hi) { if (!oob++) first_oob = (long)(p - lo); dummy = hostile; return dummy; }
    return *p;
  }
};
#ifndef VERIF_NO_MON
template <class C, bool K> struct iter {
  typedef std::random_access_iterator_tag iterator_category;
  typedef C value_type; typedef std::ptrdiff_t difference_type;
  typedef typename std::conditional<K, const C*, C*>::type pointer;
  typedef typename std::conditional<K, const C&, C&>::type reference;
  C* p = nullptr; Ctl<C>* c = nullptr;
  iter() {}
  iter(C* p_, Ctl<C>* c_) : p(p_), c(c_) {}
  iter(const iter& o) : p(o.p), c(o.c) {}
  template <bool K2, class = typename std::enable_if<K && !K2>::type> iter(const iter<C, K2>& o) : p(o.p), c(o.c) {}
  iter& operator=(const iter& o) { p = o.p; c = o.c; return *this; }
  reference operator*() const { return c->at(p); }
  pointer operator->() const { return &c->at(p); }
  reference operator[](difference_type n) const { return c->at(p + n); }
  iter& operator++() { ++p; return *this; }
  iter operator++(int) { iter t(*this); ++p; return t; }
  iter& operator--() { --p; return *this; }
  iter operator--(int) { iter t(*this); --p; return t; }
  iter& operator+=(difference_type n) { p += n; return *this; }
  iter& operator-=(difference_type n) { p -= n; return *this; }
  iter operator+(difference_type n) const { return iter(p + n, c); }
  iter operator-(difference_type n) const { return iter(p - n, c); }
  friend iter operator+(difference_type n, const iter& i) { return i + n; }
};
template <class C, bool A, bool B> std::ptrdiff_t operator-(const iter<C, A>& a, const iter<C, B>& b) { return a.p - b.p; }
template <class C, bool A, bool B> bool operator==(const iter<C, A>& a, const iter<C, B>& b) { return a.p == b.p; }
template <class C, bool A, bool B> bool operator!=(const iter<C, A>& a, const iter<C, B>& b) { return a.p != b.p; }
template <class C, bool A, bool B> bool operator<(const iter<C, A>& a, const iter<C, B>& b) { return a.p < b.p; }
template <class C, bool A, bool B> bool operator>(const iter<C, A>& a, const iter<C, B>& b) { return a.p > b.p; }
template <class C, bool A, bool B> bool operator<=(const iter<C, A>& a, const iter<C, B>& b) { return a.p <= b.p; }
template <class C, bool A, bool B> bool operator>=(const iter<C, A>& a, const iter<C, B>& b) { return a.p >= b.p; }

template <class C> class basic_str {
public:
  typedef C value_type; typedef C& reference; typedef const C& const_reference; typedef C* pointer; typedef const C* const_pointer;
  typedef iter<C, false> iterator; typedef iter<C, true> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  static const size_type npos = (size_type)-1;
private:
  std::vector<C> v; Ctl<C>* c;
  void sync() { c->lo = v.data() + pad; c->hi = v.data() + v.size() - pad; }
  enum { pad = 8 };                    // so that stray positions stay inside one object
  void init(const C* s, size_type n) { v.assign(pad, C()); v.insert(v.end(), s, s + n); v.insert(v.end(), (size_t)pad, C()); sync(); }
public:
  basic_str() : c(new Ctl<C>) { init(nullptr, 0); }
  basic_str(const C* s, size_type n) : c(new Ctl<C>) { init(s, n); }
  basic_str(const std::basic_string<C>& s) : c(new Ctl<C>) { init(s.data(), s.size()); }
  basic_str(const std::vector<C>& s) : c(new Ctl<C>) { init(s.data(), s.size()); }
  basic_str(const basic_str& o) : c(new Ctl<C>) { init(o.data(), o.size()); c->hostile = o.c->hostile; }
  basic_str& operator=(const basic_str& o) { if (this != &o) { std::vector<C> t(o.data(), o.data() + o.size()); init(t.data(), t.size()); } return *this; }
  ~basic_str() { delete c; }
  Ctl<C>& ctl() { return *c; }
  iterator begin() { return iterator(c->lo, c); }
  iterator end() { return iterator(c->hi, c); }
  const_iterator begin() const { return const_iterator(c->lo, c); }
  const_iterator end() const { return const_iterator(c->hi, c); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_type size() const { return v.size() - 2 * pad; }
  size_type length() const { return size(); }
  bool empty() const { return !size(); }
  const C* data() const { return v.data() + pad; }
  const C& operator[](size_type i) const { return c->at(c->lo + i); }
  C& operator[](size_type i) { return c->at(c->lo + i); }
  void clear() { init(nullptr, 0); }
  void reserve(size_type n) { v.reserve(n + 2 * pad); sync(); }
  void push_back(C x) { v.insert(v.end() - pad, x); sync(); }
  template <class It> basic_str& append(It a, It b) { std::vector<C> t; for (; a != b; ++a) t.push_back(*a); v.insert(v.end() - pad, t.begin(), t.end()); sync(); return *this; }
  basic_str& append(const C* s, size_type n) { std::vector<C> t(s, s + n); v.insert(v.end() - pad, t.begin(), t.end()); sync(); return *this; }
  basic_str& append(size_type n, C x) { v.insert(v.end() - pad, n, x); sync(); return *this; }
  basic_str& append(const basic_str& o) { return append(o.data(), o.size()); }
  basic_str& append(const C* s) { size_type n = 0; while (s[n] != C()) n++; return append(s, n); }
  basic_str& append(std::initializer_list<C> l) { return append(l.begin(), l.end()); }
  basic_str& append(const basic_str& o, size_type p, size_type n = npos) { return append(o.data() + p, std::min(n, o.size() - p)); }
  basic_str& operator+=(C x) { push_back(x); return *this; }
  basic_str& operator+=(const basic_str& o) { return append(o); }
  basic_str& operator+=(const C* s) { return append(s); }
  basic_str(const basic_str& o, size_type p, size_type n = npos) : c(new Ctl<C>) { init(o.data() + p, std::min(n, o.size() - p)); }
  basic_str(size_type n, C x) : c(new Ctl<C>) { init(nullptr, 0); append(n, x); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> basic_str(It a, It b) : c(new Ctl<C>) { init(nullptr, 0); append(a, b); }
  template <class It> basic_str& assign(It a, It b) { basic_str t(a, b); return *this = t; }
  basic_str& assign(const basic_str& o) { return *this = o; }
  void resize(size_type n, C x = C()) { if (n <= size()) v.erase(v.end() - pad - (size() - n), v.end() - pad); else append(n - size(), x); sync(); }
  void pop_back() { resize(size() - 1); }
  C& front() { return (*this)[0]; } const C& front() const { return (*this)[0]; }
  C& back() { return (*this)[size() - 1]; } const C& back() const { return (*this)[size() - 1]; }
  C& at(size_type i) { if (i >= size()) throw std::out_of_range("at"); return (*this)[i]; } const C& at(size_type i) const { if (i >= size()) throw std::out_of_range("at"); return (*this)[i]; }
  C* data() { return v.data() + pad; }
  size_type capacity() const { return v.capacity() - 2 * pad; }
  size_type max_size() const { return v.max_size() - 2 * pad; }
  void shrink_to_fit() {}
  void swap(basic_str& o) { basic_str t(o); o = *this; *this = t; }
  iterator erase(const_iterator a, const_iterator b) { size_type i = a.p - data(), j = b.p - data(); v.erase(v.begin() + pad + i, v.begin() + pad + j); sync(); return begin() + i; }
  iterator erase(const_iterator a) { return erase(a, a + 1); }
  basic_str& erase(size_type i = 0, size_type n = npos) { n = std::min(n, size() - i); v.erase(v.begin() + pad + i, v.begin() + pad + i + n); sync(); return *this; }
  template <class It> iterator insert(const_iterator at, It a, It b) { size_type i = at.p - data(); std::vector<C> t; for (; a != b; ++a) t.push_back(*a); v.insert(v.begin() + pad + i, t.begin(), t.end()); sync(); return begin() + i; }
  iterator insert(const_iterator at, C x) { return insert(at, &x, &x + 1); }
  basic_str substr(size_type p = 0, size_type n = npos) const { return basic_str(*this, p, n); }
  int compare(const basic_str& o) const { return str().compare(o.str()); }
  friend bool operator==(const basic_str& a, const basic_str& b) { return a.v == b.v; }
  friend bool operator!=(const basic_str& a, const basic_str& b) { return a.v != b.v; }
  friend bool operator<(const basic_str& a, const basic_str& b) { return a.compare(b) < 0; }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const { return rbegin(); } const_reverse_iterator crend() const { return rend(); }
  std::basic_string<C> str() const { return std::basic_string<C>(data(), size()); }
};
#else
// A library that needs more of its storage than the class above offers is
// exercised over plain strings instead; the sanitizers still watch those.
template <class C> class basic_str : public std::basic_string<C> {
  typedef std::basic_string<C> B; Ctl<C> c;
public:
  using B::B; using B::append;
  basic_str() {} basic_str(const B& s) : B(s) {} basic_str(const std::vector<C>& s) : B(s.data(), s.size()) {}
  basic_str(const basic_str& o) : B(o) {} basic_str& operator=(const basic_str& o) { B::operator=(static_cast<const B&>(o)); return *this; }
  Ctl<C>& ctl() { return c; }
  B str() const { return *this; }
};
#endif
typedef basic_str<char> str8;
typedef basic_str<int> str32;
} // namespace mon
#endif
