// The native object is the text: whatever its owner does to it directly, everything else follows.
#include "ops.hpp"
using namespace vf; using ref::Text;
template <class S> struct Kit;
template <> struct Kit<u5e::utf8_string> { typedef std::string M; typedef std::string N; static N native(const M& m) { return m; } static M from(const Text& t) { return ref::encode(t); } static bool text(const M& m, Text& t) { t.clear(); return ref::decode(m, t); } static const char* name() { return "utf8_string"; } static std::string shown(const M& m) { return hex_bytes(m); } static M junk(Rng& r, size_t n) { return ops::octets(r, n); } enum { plain = 1 }; };
template <> struct Kit<u5e::utf32ne_string> { typedef istring M; typedef istring N; static N native(const M& m) { return m; } static M from(const Text& t) { return to_i(t); } static bool text(const M& m, Text& t) { t = from_i(m); return true; } static const char* name() { return "utf32ne_string"; } static std::string shown(const M& m) { return show(from_i(m)); } static M junk(Rng& r, size_t n) { M m; while (n--) m += gen::any_cp(r); return m; } enum { plain = 1 }; };
template <class It, class M> static bool same(It b, It e, const M& m) { if ((size_t)(e - b) != m.size()) return false; for (size_t i = 0; i < m.size(); i++, ++b) if (*b != m[i]) return false; return b == e; }
template <class S, class M> static bool native_ok(S& s, const M& m) { return s.native_string.size() == m.size() && same(s.native_begin(), s.native_end(), m) && same(s.native_cbegin(), s.native_cend(), m) && s.native_begin() == s.native_string.begin() && s.native_end() == s.native_string.end() && s.native_cbegin() == s.native_string.cbegin() && s.native_cend() == s.native_string.cend(); }
template <class S> static Text reversed(S& s) { Text t; auto b = s.codepoint_cbegin(), i = s.codepoint_cend(); while (i != b) { --i; t.push_back((int)*i); if (t.size() > s.native_string.size()) break; } std::reverse(t.begin(), t.end()); return t; }
// everything the library says about s, which holds the well-formed text t
template <class S, class Fresh> static bool follows(Ctx& c, Rng& r, const char* n, const char* after, S& s, const Text& t, Fresh fresh) {
  auto bad = [&](const char* what, const Text& got) { c.fail("stale", "%s: after %s, %s gives [%s] for [%s]", n, after, what, show(got).c_str(), show(t).c_str()); return false; };
  Text g = ops::codepoints(s); if (g != t) return bad("iteration", g);
  g = ops::cps(s.codepoint_begin(), s.codepoint_end(), t.size() + 4); if (g != t) return bad("mutable iteration", g);
  g = reversed(s); if (g != t) return bad("backward iteration", g);
  std::vector<Text> gr = ops::graphemes(s); std::vector<int> want = ref::db().segment(t); c.count("passes", 4);
  bool ok = gr.size() + 1 == want.size() || (t.empty() && gr.empty()); for (size_t i = 0; ok && i < gr.size(); i++) ok = gr[i] == Text(t.begin() + want[i], t.begin() + want[i + 1]);
  if (!ok) { Text all; for (auto& x : gr) { all.insert(all.end(), x.begin(), x.end()); all.push_back(-1); } return bad("segmentation", all); }
  if (r.chance(1, 3)) { char f = ops::FORMS[r.below(4)]; auto z = fresh(); Text a, b; int na, nb; ops::norm32(f, s, a, &na); ops::norm32(f, z, b, &nb); c.count("normalizations"); if (a != b || na != nb) return bad(ops::form_name(f), a); }
  return true;
}
template <class S> static void taken(S s, typename Kit<S>::M& out) { out.assign(s.native_begin(), s.native_end()); }    // built implicitly from the native object
template <class S> static void owned(Ctx& c, Rng& r, int steps, bool hostile) {
  typedef Kit<S> K; typedef typename K::M M; typedef typename M::value_type C; M m = K::from(gen::text(r, 30)); S s(K::native(m)); uint64_t h = 0; Text t; c.evaluations++;
  static const char* const names[] = {"clear", "resize (shrinking)", "resize (growing)", "erase", "insert", "replace", "swap", "assign", "push_back", "pop_back", "reserve", "shrink_to_fit", "overwriting through native_begin", "overwriting by index", "moving out and back", "assignment from a moved one", "append", "append_from_utf32ne", "a write through an iterator", "filter into it", "copying and assigning", "overwriting everything in place", "implicit construction", "native append", "assignment of native_string"};
  for (int k = 0; k < steps; k++) {
    int op = r.below(25); h = mix(h ^ op ^ m.size()); auto& n = s.native_string; size_t z = m.size(), p = r.below(z + 1), l = std::min<size_t>(z - p, r.below(6)); bool lib = false;
    // positions where a well-formed text stays one, unless it need not
    if (!hostile && K::text(m, t)) { std::vector<size_t> at; size_t o = 0; for (int x : t) { at.push_back(o); o += sizeof(C) == 1 ? ref::enc_size(x) : 1; } at.push_back(o); size_t a = r.below(at.size()), b = r.range(a, std::min(at.size() - 1, a + 4)); p = at[a]; l = at[b] - p; }
    M x = hostile ? K::junk(r, r.below(12)) : K::from(gen::text(r, 10)); if (z > 500) op = 0;
    switch (op) {
      case 0: n.clear(); m.clear(); break;
      case 1: n.resize(p); m.resize(p); break;
      case 2: { size_t q = z + r.below(40); n.resize(q); m.resize(q); break; }
      case 3: n.erase(p, l); m.erase(p, l); break;
      case 4: n.insert(p, x); m.insert(p, x); break;
      case 5: n.replace(p, l, x); m.replace(p, l, x); break;
      case 6: { M y(x); n.swap(y); m.swap(x); if (y != x) c.fail("native", "%s: what was swapped out of the text is [%s] and not [%s]", K::name(), K::shown(y).c_str(), K::shown(x).c_str()); break; }
      case 7: n.assign(x.begin(), x.end()); m = x; break;
      case 8: { C q = hostile ? (C)(x.empty() ? 0 : x[0]) : (C)('a' + r.below(26)); n.push_back(q); m.push_back(q); break; }
      case 9: if (z && (hostile || (unsigned)m[z - 1] < 128)) { n.pop_back(); m.pop_back(); } break;
      case 10: n.reserve(z + r.below(300)); break;
      case 11: n.shrink_to_fit(); break;
      case 12: if (z) { auto i = s.native_begin() + r.below(z); if ((unsigned)*i < 128 || hostile) { C q = hostile ? (C)r.next() : (C)('A' + r.below(26)); m[i - s.native_begin()] = q; *i = q; } } break;
      case 13: if (z) { size_t i = r.below(z); if ((unsigned)m[i] < 128 || hostile) { C q = hostile ? (C)r.next() : (C)('0' + r.below(10)); n[i] = q; m[i] = q; } } break;
      case 14: { M y(std::move(n)); y.insert(p, x); m.insert(p, x); n = std::move(y); break; }
      case 15: { M y(x); n = std::move(y); m = x; break; }
      case 16: if (K::text(x, t)) { S o(K::native(x)); s.append(o.codepoint_cbegin(), o.codepoint_cend()); m += x; lib = true; } break;
      case 17: { Text y = gen::text(r, 8); u5e::utf32ne_string o(to_i(y)); s.template append_from_utf32ne<istring>(o.codepoint_cbegin(), o.codepoint_cend()); m += K::from(y); lib = true; break; }
      case 18: if (K::text(m, t) && !t.empty()) { size_t i = r.below(t.size()); auto it = s.codepoint_begin(); std::advance(it, i); int y = t[i] < 128 ? 'a' + (int)r.below(26) : t[i]; *it = u5e::codepoint(y); t[i] = y; m = K::from(t); lib = true; } break;
      case 19: { Text y = gen::text(r, 8), w; u5e::utf32ne_string o(to_i(y)); char f = ops::FORMS[r.below(4)]; ops::norm32(f, o, w); ops::normalize(f, o, s); m += K::from(w); lib = true; break; }
      case 20: { S o(s); S q; q = o; if (!native_ok(o, m) || !native_ok(q, m)) c.fail("native", "%s: a copy of [%s] holds something else", K::name(), K::shown(m).c_str()); s = q; lib = true; break; }
      case 21: for (size_t i = 0; i < z; i++) if (hostile || (unsigned)m[i] < 128) { n[i] = m[i] = (C)('a' + i % 26); } break;
      case 22: { M got; taken<S>(n, got); if (got != m) c.fail("native", "%s: the text built from [%s] holds [%s]", K::name(), K::shown(m).c_str(), K::shown(got).c_str()); S o = n; const M before(x); S q{before}; if (!native_ok(o, m) || !native_ok(q, x) || before != x) c.fail("native", "%s: the text built from [%s] holds something else", K::name(), K::shown(x).c_str()); s = K::native(x); m = x; break; }
      case 23: n += x; m += x; break;
      default: { S o(K::native(x)); n = o.native_string; m = x; }
    }
    c.count(lib ? "library_changes" : "native_changes"); 
    if (!native_ok(s, m)) { c.fail("native", "%s: after %s the native object holds [%s] instead of [%s]", K::name(), names[op], K::shown(M(s.native_string.begin(), s.native_string.end())).c_str(), K::shown(m).c_str()); return; }
    if (!hostile && K::text(m, t)) { c.count("followed"); if (!follows(c, r, K::name(), names[op], s, t, [&] { return S(K::native(m)); })) return; }
    else c.count("hostile_contents");
  }
  c.nontrivial(h); c.sample(K::name() + std::string(": ") + K::shown(m));
}
// views: the memory given, and nothing else, whatever is written there
template <class S, class V, class C> static void viewed(Ctx& c, Rng& r, const char* name, int steps) {
  const bool u8 = sizeof(C) == 1; typedef std::basic_string<C> M; auto enc = [&](const Text& t) { M m; if (u8) for (char x : ref::encode(t)) m += (C)x; else for (int x : t) m += (C)x; return m; };
  std::vector<Text> texts; std::vector<std::unique_ptr<Exact<C>>> mem; for (int k = 0; k < 3; k++) { texts.push_back(k && r.chance(1, 3) ? texts[0] : gen::text(r, 25)); /* the same contents elsewhere */ M m = enc(texts.back()); mem.emplace_back(new Exact<C>(m.data(), m.size())); }
  S s; Text t; const C* base = s.native_string.data(); uint64_t h = 0; size_t which = 0, off = 0; c.evaluations++; bool null = true;
  for (int k = 0; k < steps; k++) {
    int op = k ? r.below(7) : 6; h = mix(h ^ op); const char* how = "default construction";
    auto sizes = [&](size_t a, size_t b) { size_t n = 0; for (; a < b; a++) n += u8 ? ref::enc_size(t[a]) : 1; return n; };
    switch (op) {
      case 0: case 1: { which = r.below(3); V v(mem[which]->p.get(), mem[which]->n); if (op) { s.native_string = v; how = "pointing it elsewhere"; } else { s = S(v); how = "assignment"; } t = texts[which]; off = 0; base = v.data(); null = false; break; }
      case 2: { size_t a = r.below(t.size() + 1), n = sizes(0, a); s.native_string.remove_prefix(n); base += n; off += a; t.erase(t.begin(), t.begin() + a); how = "remove_prefix"; break; }
      case 3: { size_t a = r.below(t.size() + 1); s.native_string.remove_suffix(sizes(a, t.size())); t.resize(a); how = "remove_suffix"; break; }
      case 4: if (!null && !t.empty()) { size_t a = r.below(t.size()); C* w = mem[which]->p.get() + (base - mem[which]->p.get()) + sizes(0, a); int old = t[a], y = old < 128 ? 'a' + (int)r.below(26) : (old ^ 1); if (ref::enc_size(y) != ref::enc_size(old)) y = old; M q = enc(Text(1, y)); std::copy(q.begin(), q.end(), w); t[a] = y; texts[which][off + a] = y; how = "writing to its memory"; } break;
      case 5: { S o(s); s.native_string = V(); s = o; how = "emptying and restoring it"; break; }
      default: { S d; s = d; t.clear(); off = 0; base = d.native_string.data(); null = true; }
    }
    c.count("view_changes"); M m = enc(t);
    if (s.native_string.data() != base || !native_ok(s, m)) { c.fail("view-native", "%s: after %s the view is of other memory or of other contents than [%s]", name, how, show(t).c_str()); return; }
    if (t.empty()) c.count(null ? "null_views" : "empty_views");
    if (!follows(c, r, name, how, s, t, [&] { return S(V(m.data(), m.size())); })) return;
    if (t.empty()) { u5e::utf8_string o("x"); u5e::utf32ne_string o4(istring(1, 'x')); for (char f : ops::FORMS) if (ops::normalize(f, s, o) || ops::normalize(f, s, o4) || o.native_string != "x" || o4.native_string != istring(1, 'x')) { c.fail("empty", "%s: normalizing no text wrote something", name); return; } }
  }
  c.nontrivial(h);
}
void run(Ctx& c) {
  bool s = c.sanitized(); int n = 25;
  c.cases("owned8", c.amount(s ? 300 : 3000, s ? 6000 : 60000), [&](Rng& r, uint64_t) { owned<u5e::utf8_string>(c, r, n, false); });
  c.cases("owned32", c.amount(s ? 300 : 3000, s ? 6000 : 60000), [&](Rng& r, uint64_t) { owned<u5e::utf32ne_string>(c, r, n, false); });
  c.cases("any-octets", c.amount(s ? 500 : 5000, s ? 10000 : 100000), [&](Rng& r, uint64_t) { owned<u5e::utf8_string>(c, r, n, true); });
  c.cases("any-integers", c.amount(s ? 200 : 1000, s ? 4000 : 20000), [&](Rng& r, uint64_t) { owned<u5e::utf32ne_string>(c, r, n, true); });
  c.cases("views8", c.amount(s ? 300 : 3000, s ? 6000 : 60000), [&](Rng& r, uint64_t) { viewed<u5e::utf8_string_view, sview, char>(c, r, "utf8_string_view", n); });
  c.cases("views32", c.amount(s ? 300 : 3000, s ? 6000 : 60000), [&](Rng& r, uint64_t) { viewed<u5e::utf32ne_string_view, iview, int>(c, r, "utf32ne_string_view", n); });
}
