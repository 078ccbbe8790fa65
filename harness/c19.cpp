// Threads that use the library at once, from the very first call of a process on: ThreadSanitizer watches the
// accesses, every result is compared with the one a single-threaded process gives.
#include "probes.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
using namespace vf;
static const int NT = 8;
struct Job { int text, kind, storage, variant; };            // kind < NPROBE: a probe, otherwise a run of lookups
struct Plan { std::vector<std::unique_ptr<Source>> texts; int shared; std::vector<Job> jobs[NT]; std::vector<std::vector<int>> looks; bool yield; };
enum { P_LOOK = NPROBE, P_PAIRS = NPROBE + 1 };
static Res look(const std::vector<int>& v, int which) {
  Res o; size_t n = v.size(); for (size_t i = 0; i < n; i++) { int x = v[i]; switch (which) { case 0: o.push_back(ops::ccc(x)); break; case 1: o.push_back(ops::gcb(x)); break; case 2: { Text m = ops::mapping(ops::dmap(x)); o.push_back((int)m.size()); o.insert(o.end(), m.begin(), m.end()); break; } case 3: { Text m = ops::mapping(ops::kmap(x)); o.push_back((int)m.size()); o.insert(o.end(), m.begin(), m.end()); break; } default: o.push_back(ops::compose(x, v[(i + 1) % n])); } } return o;
}
static Res perform(Plan& p, const Job& j) { if (j.kind < NPROBE) return p.texts[j.text]->go(j.kind, j.storage, j.variant); return look(p.looks[j.text % p.looks.size()], j.variant % 5); }
static void make(Rng& r, Plan& p, uint64_t i, bool heavy) {
  p.shared = 3; int n = p.shared + 2 * NT; p.yield = r.chance(1, 2);
  for (int k = 0; k < n; k++) p.texts.emplace_back(new Source(gen::text(r, heavy ? 200 : 60), r.chance(1, 2)));
  for (int k = 0; k < 4; k++) { std::vector<int> v; for (int q = 0; q < (heavy ? 4000 : 150); q++) { if (r.chance(1, 3)) { auto x = gen::P().pairs[r.below(gen::P().pairs.size())]; v.push_back(x.first); v.push_back(x.second); } else v.push_back(gen::norm_cp(r)); } p.looks.push_back(v); }
  int first = (int)(i % (NPROBE + 5)), nj = heavy ? 40 : 14;
  for (int t = 0; t < NT; t++) for (int k = 0; k < nj; k++) {
    Job j; bool sh = r.chance(1, 2); j.text = sh ? (int)r.below(p.shared) : p.shared + 2 * t + (int)r.below(2); j.kind = r.chance(1, 3) ? P_LOOK : (int)r.below(NPROBE); j.storage = per_octet(j.kind) ? r.below(2) : r.below(4); j.variant = r.below(8);
    if (k == 0) { bool l = first >= NPROBE; j.kind = l ? P_LOOK : first; if (l) j.variant = first - NPROBE; j.text = (i / 17) % 2 ? 0 : p.shared + 2 * t; if (per_octet(j.kind)) j.storage &= 1; }   // everybody's very first call is of the same kind
    if (j.kind == P_LOOK && k) { j.text = r.below(4); j.variant = r.below(5); }
    p.jobs[t].push_back(j); }
}
static std::atomic<int> g_ready, g_active; static std::atomic<unsigned> g_ticket;
struct Tally { unsigned overlapped = 0, done = 0; std::vector<std::pair<unsigned, int>> order; std::vector<int> bad; };
static void worker(Plan* p, int t, const std::vector<Res>* want, Tally* y, int rounds, uint64_t seed) {
  Rng r(seed); g_ready.fetch_add(1, std::memory_order_relaxed); while (g_ready.load(std::memory_order_relaxed) < NT) sched_yield();
  for (int rd = 0; rd < rounds; rd++) for (size_t k = 0; k < p->jobs[t].size(); k++) {
    // relaxed counters order nothing between the threads
    if (g_active.fetch_add(1, std::memory_order_relaxed)) y->overlapped++; unsigned tk = g_ticket.fetch_add(1, std::memory_order_relaxed); if (tk < 96) y->order.push_back({tk, t});
    Res got = perform(*p, p->jobs[t][k]); g_active.fetch_sub(1, std::memory_order_relaxed); y->done++;
    if (got != (*want)[k]) y->bad.push_back((int)k);
    if (p->yield) switch (r.below(6)) { case 0: sched_yield(); break; case 1: usleep(r.below(200)); break; case 2: for (volatile int q = r.below(2000); q > 0; q = q - 1) {} }
  }
}
void run(Ctx& c) {
  bool ts = c.config.compare(0, 4, "tsan") == 0; gen::P();
  auto round = [&](Rng& r, uint64_t i, bool heavy) {
    Plan p; make(r, p, i, heavy); Res flat; const int rounds = heavy ? (ts ? 2 : 6) : 1; uint64_t seed = r.next();
    // the same calls, one after another, in a process of their own
    if (!in_fresh_process([&] { alarm(200); Res o; for (int t = 0; t < NT; t++) for (auto& j : p.jobs[t]) { Res x = perform(p, j); o.push_back((int)x.size()); o.insert(o.end(), x.begin(), x.end()); } return o; }, flat)) { c.count("sequential_run_failed"); return; }
    std::vector<Res> want[NT]; size_t at = 0; for (int t = 0; t < NT; t++) for (size_t k = 0; k < p.jobs[t].size(); k++) { size_t n = flat[at++]; want[t].push_back(Res(flat.begin() + at, flat.begin() + at + n)); at += n; }
    time_t began = time(0); Res out; bool ok = in_fresh_process([&] { alarm(200);
      g_ready = 0; g_active = 0; g_ticket = 0; Tally y[NT]; std::thread th[NT]; for (int t = 0; t < NT; t++) th[t] = std::thread(worker, &p, t, &want[t], &y[t], rounds, seed + t); for (auto& t : th) t.join();
      Res o; unsigned ov = 0, dn = 0; std::vector<std::pair<unsigned, int>> ord; for (auto& q : y) { ov += q.overlapped; dn += q.done; ord.insert(ord.end(), q.order.begin(), q.order.end()); } std::sort(ord.begin(), ord.end()); std::vector<int> seq; for (auto& q : ord) seq.push_back(q.second); uint64_t h = hash_cps(seq);
      bool intact = true; for (auto& s : p.texts) intact = intact && s->intact(); o = {(int)ov, (int)dn, (int)(h & 0x7fffffff), (int)((h >> 32) & 0x7fffffff), intact}; for (int t = 0; t < NT; t++) for (int k : y[t].bad) { o.push_back(t); o.push_back(k); } return o; }, out);
    if (!ok || out.size() < 5) { c.fail("thread-crash", "a process with %d threads calling the library died (process %llu)", NT, (unsigned long long)i); if (time(0) - began > 150) throw TooMany(); return; }
    c.evaluations++; c.count("calls_begun_while_another_ran", out[0]); c.count("threads", NT); c.count("results_compared", out[1]); c.nontrivial(((uint64_t)(unsigned)out[2] << 32) | (unsigned)out[3]);
    if (!out[4]) c.fail("source", "a text shared by threads was changed");
    if (out.size() > 5) { const Job& j = p.jobs[out[5]][out[6]]; c.fail("result", "thread %d, call %d (%s of [%s]) gave another result than a single-threaded run; %zu such calls", out[5], out[6], j.kind < NPROBE ? probe_name[j.kind] : "lookups", j.kind < NPROBE ? show(p.texts[j.text]->t).c_str() : "", (out.size() - 5) / 2); }
  };
  c.cases("first-calls", c.amount(ts ? 136 : 272, ts ? 4000 : 8000), [&](Rng& r, uint64_t i) { round(r, i, false); });
  c.cases("stress", c.amount(ts ? 8 : 48, ts ? 200 : 1500), [&](Rng& r, uint64_t i) { round(r, i, true); });
  c.sample("8 threads, first call of each of the same kind, then texts of their own and shared ones");
}
