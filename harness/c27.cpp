// Lookups of a library whose tables were just generated, against the database they were generated from.
#include "ops.hpp"
#define run run_all
#include "c17.cpp"
#undef run
void run(Ctx& c) {
  const gen::Pools& P = gen::P(); const ref::Db& d = ref::db();
  c.cases("every-codepoint", 0x110, [&](Rng&, uint64_t i) { for (int k = 0; k < 4096; k++) point(c, (int)(i * 4096) + k); });
  std::set<int> fs, ss; for (auto& kv : d.raw) { const Text& t = kv.second; if (t.size() > 1) { fs.insert(t[0]); ss.insert(t[1]); } }
  std::vector<int> f(fs.begin(), fs.end());
  c.cases("pairs", f.size(), [&](Rng&, uint64_t i) { for (int b : ss) pair(c, f[i], b); });
  c.cases("raw-pairs", 1, [&](Rng& r, uint64_t) { for (auto& kv : d.raw) { const Text& t = kv.second; if (t.size() > 1) { pair(c, t[0], t[1]); pair(c, t[1], t[0]); Text e; d.decompose(kv.first, true, e); for (size_t i = 0; i + 1 < e.size(); i++) pair(c, e[i], e[i + 1]); } } for (int k = 0; k < 200000; k++) pair(c, gen::norm_cp(r), gen::mark(r)); });
  c.cases("forms", 3000, [&](Rng& r, uint64_t) { Text t = gen::text(r, 60); for (char q : ops::FORMS) { Text got = ops::norm_text(q, t), want; // per grapheme, as documented
      std::vector<int> seg = d.segment(t); for (size_t g = 0; g + 1 < seg.size() && !t.empty(); g++) { Text w = d.normalize(Text(t.begin() + seg[g], t.begin() + seg[g + 1]), q); want.insert(want.end(), w.begin(), w.end()); }
      c.count("normalizations"); if (got != want) c.fail("form", "%s of [%s] is [%s], expected [%s]", ops::form_name(q), show(t).c_str(), show(got).c_str(), show(want).c_str()); } });
  c.count("mapped_codepoints", d.raw.size()); c.count("composing_pairs", P.pairs.size()); c.count("databases"); c.sample("database with " + std::to_string(d.raw.size()) + " mappings and " + std::to_string(P.pairs.size()) + " pairs");
}
