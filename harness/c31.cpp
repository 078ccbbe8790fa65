// Calls made before main, in static constructors of any priority, and after it, in destructors and exit handlers.
// Each case is a process of its own: the parent hands it texts and the results the same calls give inside main.
#include "probes.hpp"
#include <thread>
#include <pthread.h>
using namespace vf; using ref::Text;
enum { PH_EARLY, PH_STATIC, PH_MAIN, PH_THREAD_EXIT, PH_ATEXIT, PH_LATE, PH_KEY, NPHASE };
static const char* phase_name[NPHASE] = {"constructor of highest priority", "static constructor", "main", "thread_local destructor", "exit handler", "destructor of the first static object", "thread key destructor"};
// the job: [texts][per text: length, codepoints, per probe: length, result], and the plan of calls
struct Job { int ntext, phases; uint64_t seed; int calls; };
static const char* job_file() { return getenv("VERIF_LIFETIME"); }
struct Mapped { const int* p = nullptr; Job j; std::vector<Text> t; std::vector<std::vector<Res>> want; };
static Mapped* load() {                                       // no library call in here
  static Mapped* m = nullptr; if (m) return m; FILE* f = fopen(job_file(), "rb"); if (!f) _exit(90); m = new Mapped; auto get = [&](void* q, size_t n) { if (fread(q, 1, n, f) != n) _exit(91); };
  get(&m->j, sizeof m->j); auto vec = [&] { int n; get(&n, 4); Res v(n); if (n) get(v.data(), 4 * (size_t)n); return v; };
  for (int i = 0; i < m->j.ntext; i++) { m->t.push_back(vec()); m->want.emplace_back(); for (int k = 0; k < NPROBE; k++) m->want.back().push_back(vec()); } fclose(f); return m;
}
static void say(const char* what, int phase, int text, int probe, const Res& got) { FILE* f = fopen((std::string(job_file()) + ".out").c_str(), "a"); if (!f) return; fprintf(f, "%s\t%d\t%d\t%d\t%s\n", what, phase, text, probe, show(got, 20).c_str()); fclose(f); }
template <class S> static Res call(int k, S& s, int v) {       // without the oracle, which a child does not load
  if (k != P_COMPOSE) return probe(k, s, v); u5e::utf32ne_string d; int n = 0; ops::normalize('d', s, d); auto e = u5e::canonical_composition(d, &n); Res o(d.native_string.begin(), e); o.push_back(n); return o;
}
// library objects that live through all of it
static u5e::utf8_string* g_text8; static u5e::utf32ne_string* g_text32;
static void calls(int phase) {
  Mapped* m = load(); if (!(m->j.phases >> phase & 1)) return; Rng r(m->j.seed + phase * 7919); int n = 0;
  for (int k = 0; k < m->j.calls; k++) { int i = r.below(m->t.size()), p = r.below(NPROBE), v = r.below(8); const Text& t = m->t[i]; std::string b = ref::encode(t); Res got; bool wide = !per_octet(p) && r.chance(1, 2);
    if (wide) { u5e::utf32ne_string s(to_i(t)); got = call(p, s, v); } else { u5e::utf8_string s(b); got = call(p, s, v); }
    n++; if (got != m->want[i][p]) say("differs", phase, i, p, got); }
  if (phase == PH_EARLY) { g_text8 = new u5e::utf8_string(ref::encode(m->t[0])); g_text32 = new u5e::utf32ne_string(to_i(m->t[0])); }
  else if (g_text8) { Res a = probe(P_C, *g_text8, 0), b = probe(P_KD, *g_text32, 0); if (a != m->want[0][P_C]) say("held", phase, 0, P_C, a); if (b != m->want[0][P_KD]) say("held", phase, 0, P_KD, b); n += 2; }
  say("done", phase, n, 0, Res());
}
static void at_exit() { calls(PH_ATEXIT); }
static void at_key(void*) { calls(PH_KEY); }
struct Early { Early() { if (job_file()) { calls(PH_EARLY); atexit(at_exit); } } ~Early() { if (job_file()) { calls(PH_LATE); } } };
struct Static { Static() { if (job_file()) calls(PH_STATIC); } };
struct Local { bool on = false; ~Local() { if (on) calls(PH_THREAD_EXIT); } };
static Early g_early __attribute__((init_priority(101)));
static Static g_static;
static thread_local Local g_local;
static void child() {
  calls(PH_MAIN); std::thread t([] { g_local.on = true; }); t.join(); pthread_key_t k; pthread_key_create(&k, at_key); std::thread u([&] { pthread_setspecific(k, &k); }); u.join();
}
static void run_child(Ctx& c, Rng& r, int phases, int calls_, int ntext) {
  std::string file = c.outdir + "/" + c.config + "." + std::to_string(c.shard) + ".job"; unlink((file + ".out").c_str());
  std::vector<Text> ts; FILE* f = fopen(file.c_str(), "wb"); if (!f) { perror("job"); exit(3); } Job j = {ntext, phases, r.next(), calls_}; fwrite(&j, sizeof j, 1, f); auto vec = [&](const Res& v) { int n = (int)v.size(); fwrite(&n, 4, 1, f); if (n) fwrite(v.data(), 4, n, f); };
  for (int i = 0; i < ntext; i++) { Text t = gen::text(r, 60); ts.push_back(t); vec(t); u5e::utf8_string s(ref::encode(t)); for (int k = 0; k < NPROBE; k++) vec(call(k, s, 0)); if (t.size() > 1) c.nontrivial(hash_cps(t)); } fclose(f);
  pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (!p) { struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, 0); setenv("VERIF_LIFETIME", file.c_str(), 1); alarm(120); std::string sh = std::to_string(c.shard); execl("/proc/self/exe", "lifetime", "--out", c.outdir.c_str(), "--config", (c.config + "-child").c_str(), "--shard", sh.c_str(), (char*)0); _exit(92); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} c.count("processes"); c.evaluations++; int done = 0; uint64_t n = 0;
  FILE* o = fopen((file + ".out").c_str(), "r"); char what[32], rest[800]; int ph, i, k;
  if (o) { char line[1024]; while (fgets(line, sizeof line, o)) { rest[0] = 0; if (sscanf(line, "%31[^\t]\t%d\t%d\t%d\t%799[^\n]", what, &ph, &i, &k, rest) < 4 || ph < 0 || ph >= NPHASE) continue; if (!strcmp(what, "done")) { done |= 1 << ph; n += i; c.count((std::string("phase.") + phase_name[ph]).c_str(), i); } else c.fail("lifetime", "%s of [%s] in a %s gives [%s], unlike inside main%s", probe_name[k], show(ts[i]).c_str(), phase_name[ph], rest, strcmp(what, "held") ? "" : " (text made before main)"); } fclose(o); }
  if (done != phases || !WIFEXITED(st) || WEXITSTATUS(st)) { int next = 0; while (next < NPHASE && (done >> next & 1 || !(phases >> next & 1))) next++;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 99)) c.fail("lifetime-crash", "a process that uses the library in these phases: %X ends with %s %d, phases completed: %X", phases, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), done); else if (WIFEXITED(st) && WEXITSTATUS(st) >= 90 && WEXITSTATUS(st) < 95) { fprintf(stderr, "child could not run: %d\n", WEXITSTATUS(st)); exit(3); } else c.fail("lifetime-crash", "a process that uses the library in the phases %X ends with status %d, phases completed: %X", phases, WEXITSTATUS(st), done); }
}
void run(Ctx& c) {
  if (job_file()) { child(); return; }
  bool s = c.sanitized(); int all = (1 << NPHASE) - 1;
  c.cases("one-phase", c.amount(s ? 56 : 210, 2100), [&](Rng& r, uint64_t i) { run_child(c, r, 1 << (i % NPHASE), r.chance(1, 3) ? 1 : r.range(2, 60), r.range(1, 12)); });
  c.cases("all-phases", c.amount(s ? 24 : 240, 4000), [&](Rng& r, uint64_t) { run_child(c, r, all, r.range(5, 60), r.range(1, 12)); });
  c.cases("some-phases", c.amount(s ? 24 : 240, 4000), [&](Rng& r, uint64_t) { run_child(c, r, 1 + r.below(all), r.range(1, 60), r.range(1, 12)); });
}
