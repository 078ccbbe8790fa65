// The same calls in processes with other surroundings: locales, rounding, environment, files, limits, stream states.
// Each case is a process of its own that may not make system calls other than for memory while the library runs.
#include "probes.hpp"
#include <iostream>
#include <locale>
#include <new>
#include <thread>
#include <cfenv>
#include <clocale>
#include <ctime>
#include <cstddef>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#if defined(__x86_64__)
#include <xmmintrin.h>
#endif
using namespace vf; using ref::Text;
enum { X_LOOK = NPROBE, X_ENDS, X_WRITE, X_ORDER, NCALL };
static const char* call_name(int k) { static const char* x[] = {"lookups", "bounds", "writes", "combining order"}; return k < NPROBE ? probe_name[k] : x[k - NPROBE]; }
template <class S> static Res extra(int k, S&, const Text& t) {
  Res o;
  switch (k) {
    case X_LOOK: for (size_t i = 0; i < t.size(); i++) { int cp = t[i]; o.push_back(ops::ccc(cp)); o.push_back(ops::gcb(cp)); for (int const* m : {ops::dmap(cp), ops::kmap(cp)}) { Text w = ops::mapping(m); o.push_back((int)w.size()); o.insert(o.end(), w.begin(), w.end()); } o.push_back(ops::compose(cp, t[(i + 1) % t.size()])); } return o;
    case X_ENDS: { std::string b = ref::encode(t); for (size_t cut = 0; cut < 9 && cut < b.size(); cut++) { std::string x = b.substr(cut / 3, b.size() - cut % 3 - cut / 3); o.push_back(u5e::utf8_bounds<std::string::iterator>::check(x.begin(), x.end())); o.push_back(u5e::utf8_bounds<std::string::iterator>::enforce(x.begin(), x.end())); for (char ch : x) o.push_back((unsigned char)ch); } return o; }
    case X_WRITE: { std::string b(t.size() * 6 + 1, 'x'); u5e::utf8_iterator<std::string::iterator> it(b.begin()); for (size_t i = 0; i < t.size(); i++) { *it = u5e::codepoint(i % 5 == 4 ? (t[i] << 10) & 0x7FFFFFFF : t[i]); ++it; } for (char ch : b) o.push_back((unsigned char)ch);
      u5e::utf32ne_string w(to_i(t)); u5e::utf8_string d; d.append_from_utf32ne<istring>(w.codepoint_cbegin(), w.codepoint_cend()); for (char ch : d.native_string) o.push_back((unsigned char)ch); return o; }
    default: { u5e::utf32ne_string d(to_i(t)); u5e::canonical_combining_sort(d.codepoint_begin(), d.codepoint_end()); return from_i(d.native_string); }
  }
}
template <class S> static Res call(int k, S& s, int v, const Text& t) {       // without the oracle, which a child does not load
  if (k >= NPROBE) return extra(k, s, t);
  if (k != P_COMPOSE) return probe(k, s, v); u5e::utf32ne_string d; int n = 0; ops::normalize('d', s, d); auto e = u5e::canonical_composition(d, &n); Res o(d.native_string.begin(), e); o.push_back(n); return o;
}
// what the child saw, in memory shared with its parent
struct Report { volatile int ready, done; int strict, applied, nsys, sys[8], nused, nstate, ndiff; char used[8][32], state[8][120]; int text[8], what[8], len[8], got[8][16]; uint64_t calls; };
static Report g_first, *g_rep = &g_first; static volatile bool g_in, g_own;
static void put(int& n, char (*where)[32], const char* s) { for (int i = 0; i < n && i < 8; i++) if (!strcmp(where[i], s)) return; if (n < 8) { strncpy(where[n], s, 31); n++; } }
// facilities of the surroundings, watched: used by the library, or by a static object of it before main
extern "C" char __executable_start, etext;
static void used(const char* what, void* from) { if (g_own) return; if (g_in || ((char*)from >= &__executable_start && (char*)from < &etext)) put(g_rep->nused, g_rep->used, what); }
#define USED(n) used(n, __builtin_return_address(0))
static char* find_env(const char* n) { size_t k = strlen(n); for (char** e = environ; e && *e; e++) if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; return nullptr; }
extern "C" {
  char* getenv(const char* n) noexcept { USED("getenv"); return find_env(n); }
  char* secure_getenv(const char* n) noexcept { USED("secure_getenv"); return find_env(n); }
  static uint64_t g_rand = 1;
  int rand() noexcept { USED("rand"); g_rand = mix(g_rand); return (int)(g_rand & RAND_MAX); }
  long random() noexcept { USED("random"); g_rand = mix(g_rand); return (long)(g_rand & RAND_MAX); }
  void srand(unsigned s) noexcept { USED("srand"); g_rand = s; }
  void srandom(unsigned s) noexcept { USED("srandom"); g_rand = s; }
  time_t time(time_t* t) noexcept { USED("time"); struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  clock_t clock() noexcept { USED("clock"); return 1; }
  char* setlocale(int c, const char* n) noexcept { if (n) USED("setlocale"); static char* (*real)(int, const char*) = (char* (*)(int, const char*))dlsym(RTLD_NEXT, "setlocale"); return real(c, n); }
}
static void on_sys(int, siginfo_t* i, void* u) {
  int nr = i->si_syscall; bool have = false;
#if defined(__x86_64__)
  // the allocator looks at how the system overcommits memory
  if (nr == SYS_openat) { const char* path = (const char*)((ucontext_t*)u)->uc_mcontext.gregs[REG_RSI]; if (path && (!strncmp(path, "/proc/sys/vm/", 13) || !strncmp(path, "/sys/devices/system/cpu", 23))) { ((ucontext_t*)u)->uc_mcontext.gregs[REG_RAX] = -ENOENT; return; } }
#endif
  for (int k = 0; k < g_rep->nsys && k < 8; k++) have |= g_rep->sys[k] == nr; if (!have && g_rep->nsys < 8) g_rep->sys[g_rep->nsys++] = nr;
#if defined(__x86_64__)
  ((ucontext_t*)u)->uc_mcontext.gregs[REG_RAX] = -ENOSYS;
#else
  (void)u; _exit(94);
#endif
}
static bool restrict_calls() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, 0); sigset_t s; sigemptyset(&s); sigaddset(&s, SIGSYS); pthread_sigmask(SIG_UNBLOCK, &s, 0);
  std::vector<sock_filter> f; auto op = [&](uint16_t code, uint32_t k, uint8_t t, uint8_t e) { sock_filter x = {code, t, e, k}; f.push_back(x); };
  op(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr), 0, 0);
  op(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3); op(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[4]), 0, 0); op(BPF_JMP | BPF_JEQ | BPF_K, 0xFFFFFFFFu, 0, 0); f.back().jt = 1; op(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
  // a memory mapping without a file falls through with the descriptor loaded; every other number is compared
  static const int ok[] = {SYS_brk, SYS_munmap, SYS_mremap, SYS_madvise, SYS_mprotect, SYS_futex, SYS_sched_yield, SYS_rt_sigreturn, SYS_exit_group, SYS_exit, SYS_set_robust_list, SYS_restart_syscall};
  op(BPF_JMP | BPF_JEQ | BPF_K, 0xFFFFFFFFu, 0, 1); op(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
  for (int n : ok) { op(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)n, 0, 1); op(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0); }
  op(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
  sock_fprog p = {(unsigned short)f.size(), f.data()}; if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return false; return !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0);
}
// the surroundings
enum { S_LOCALE, S_CXXLOCALE, S_THREADLOCALE, S_ROUND, S_FLUSH, S_TRAPS, S_NOENV, S_ENV, S_NOFILES, S_LIMITS, S_NOWHERE, S_SIGNALS, S_STREAMS, S_HANDLERS, S_MEMORY, S_THREAD, S_STACK, S_USER, NSUR };
static const char* sur_name[NSUR] = {"locale of the program", "global C++ locale with facets of its own", "locale of the thread", "rounding mode", "denormals flushed", "floating-point traps", "no environment", "other environment", "no open files", "limits", "a removed working directory", "blocked signals", "formatted streams", "handlers for new and terminate", "filled memory", "another thread", "filled stack", "another user"};
struct Punct : std::numpunct<char> { char do_thousands_sep() const override { return '7'; } char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "no"; } };
struct Kinds : std::ctype<char> { static mask* table() { static mask m[table_size]; for (size_t i = 0; i < table_size; i++) m[i] = i & 1 ? (mask)(alpha | upper | print) : (mask)(cntrl | space | digit); return m; } Kinds() : std::ctype<char>(table()) {} char do_toupper(char c) const override { return (char)(c ^ 1); } char do_tolower(char c) const override { return (char)(c ^ 2); } char do_widen(char c) const override { return c; } };
static void my_new() { throw std::bad_alloc(); }
static void my_end() { _exit(93); }
static int round_of(Rng& r) { static const int m[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}; return m[r.below(3)]; }
static void apply(int mask, Rng& r, const char* loc) {
  auto on = [&](int b) { return mask >> b & 1; };
  if (on(S_ENV)) { for (const char* n : {"LANG", "LC_CTYPE", "LC_COLLATE", "LANGUAGE", "TZ", "POSIXLY_CORRECT", "HOME", "TMPDIR", "PATH", "U5E_DATA", "UCD", "UNICODE_VERSION"}) { std::string v; for (int k = r.below(9); k--;) v += (char)r.range(33, 126); setenv(n, v.c_str(), 1); } }
  if (on(S_LOCALE) && loc[0]) { if (setlocale(LC_ALL, loc)) g_rep->applied |= 1 << S_LOCALE; }
  if (on(S_THREADLOCALE)) { locale_t l = loc[0] ? newlocale(LC_ALL_MASK, loc, (locale_t)0) : (locale_t)0; if (!l) l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0); if (l) { uselocale(l); g_rep->applied |= 1 << S_THREADLOCALE; } }
  if (on(S_CXXLOCALE)) { std::locale l(std::locale(std::locale::classic(), new Punct), new Kinds); std::locale::global(l); std::cout.imbue(l); }
  if (on(S_NOENV)) { if (r.chance(1, 2)) clearenv(); else environ = nullptr; }
  if (on(S_NOWHERE)) { char d[] = "/tmp/u5e-nowhere-XXXXXX"; if (mkdtemp(d) && !chdir(d)) rmdir(d); umask(0777); }
  if (on(S_SIGNALS)) { sigset_t s; sigfillset(&s); sigdelset(&s, SIGSYS); pthread_sigmask(SIG_SETMASK, &s, 0); }
  if (on(S_STREAMS)) { for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) { o->setf(std::ios::hex, std::ios::basefield); o->setf(std::ios::showbase | std::ios::showpos | std::ios::unitbuf); o->width(9); o->fill('*'); o->precision(1); if (r.chance(1, 2)) o->exceptions(std::ios::badbit | std::ios::failbit); } setvbuf(stdout, nullptr, _IONBF, 0); std::cin.setstate(std::ios::failbit); }
  if (on(S_HANDLERS)) { std::set_new_handler(my_new); std::set_terminate(my_end); }
  if (on(S_MEMORY)) { mallopt(M_PERTURB, r.range(1, 255)); if (r.chance(1, 2)) mallopt(M_MMAP_THRESHOLD, 64); if (r.chance(1, 3)) mallopt(M_TRIM_THRESHOLD, 0); }
  if (on(S_LIMITS)) { struct rlimit z = {0, 0}; setrlimit(RLIMIT_FSIZE, &z); setrlimit(RLIMIT_CORE, &z); setrlimit(RLIMIT_NPROC, &z); setrlimit(RLIMIT_MEMLOCK, &z); }
  if (on(S_NOFILES)) { for (int k = 0; k < 64; k++) close(k); struct rlimit z = {0, 0}; setrlimit(RLIMIT_NOFILE, &z); }
  if (on(S_USER) && !getuid()) { if (!setgid(65534) && !setuid(65534)) g_rep->applied |= 1 << S_USER; }
}
static void apply_float(int mask, Rng& r) {                     // of the thread that makes the calls
  auto on = [&](int b) { return mask >> b & 1; };
  if (on(S_ROUND)) fesetround(round_of(r));
#if defined(__x86_64__)
  if (on(S_FLUSH)) { _mm_setcsr(_mm_getcsr() | 0x8040); unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); cw &= ~0x300; __asm__ volatile("fldcw %0" : : "m"(cw)); }
#endif
  if (on(S_TRAPS)) { feclearexcept(FE_ALL_EXCEPT); feenableexcept(FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW); }
}
struct State { int round, traps; unsigned csr; unsigned short cw; char loc[200]; locale_t tl; char** env; uint64_t envh; std::locale* cxx; std::ios::fmtflags fl[3]; std::streamsize pr[3], wi[3]; char fi[3]; int st[4], ex[4]; void* buf[3]; void* tie; std::new_handler nh; std::terminate_handler th; };
static State observe(std::locale* now) {
  State s; memset((void*)&s, 0, sizeof s); s.round = fegetround(); s.traps = fegetexcept();
#if defined(__x86_64__)
  s.csr = _mm_getcsr() & ~0x3Fu; __asm__ volatile("fnstcw %0" : "=m"(s.cw));
#endif
  if (const char* l = setlocale(LC_ALL, nullptr)) strncpy(s.loc, l, sizeof s.loc - 1); s.tl = uselocale((locale_t)0); s.env = environ; uint64_t h = 7; for (char** e = environ; e && *e; e++) h = hash_bytes(*e, strlen(*e), h); s.envh = h; s.cxx = now;
  std::ostream* o[] = {&std::cout, &std::cerr, &std::clog}; for (int k = 0; k < 3; k++) { s.fl[k] = o[k]->flags(); s.pr[k] = o[k]->precision(); s.wi[k] = o[k]->width(); s.fi[k] = o[k]->fill(); s.st[k] = o[k]->rdstate(); s.ex[k] = o[k]->exceptions(); s.buf[k] = o[k]->rdbuf(); } s.st[3] = std::cin.rdstate(); s.ex[3] = std::cin.exceptions(); s.tie = std::cin.tie(); s.nh = std::get_new_handler(); s.th = std::get_terminate(); return s;
}
static const char* changed(const State& a, const State& b) {
  if (a.round != b.round) return "the rounding mode"; if (a.traps != b.traps) return "the floating-point traps"; if (a.csr != b.csr || a.cw != b.cw) return "the floating-point control word"; if (strcmp(a.loc, b.loc)) return "the locale of the program"; if (a.tl != b.tl) return "the locale of the thread"; if (a.env != b.env || a.envh != b.envh) return "the environment";
  for (int k = 0; k < 3; k++) if (a.fl[k] != b.fl[k] || a.pr[k] != b.pr[k] || a.wi[k] != b.wi[k] || a.fi[k] != b.fi[k] || a.st[k] != b.st[k] || a.ex[k] != b.ex[k] || a.buf[k] != b.buf[k]) return "a standard stream";
  if (a.st[3] != b.st[3] || a.ex[3] != b.ex[3] || a.tie != b.tie) return "standard input"; if (a.nh != b.nh) return "the new handler"; if (a.th != b.th) return "the terminate handler"; return nullptr;
}
static __attribute__((noinline)) void fill_stack(int v) { volatile char b[16384]; memset((void*)b, v, sizeof b); __asm__ volatile("" : : "r"(b) : "memory"); }
struct Job { int ntext, mask, calls; uint64_t seed; char loc[64]; };
static const char* job_file() { static bool own = (g_own = true); (void)own; const char* p = find_env("VERIF_SURROUNDINGS"); g_own = false; return p; }
static void child() {
  g_own = true; std::string file = job_file(); g_own = true; FILE* f = fopen(file.c_str(), "rb"); if (!f) _exit(90); auto get = [&](void* q, size_t n) { if (fread(q, 1, n, f) != n) _exit(91); }; Job j; get(&j, sizeof j);
  auto vec = [&] { int n; get(&n, 4); Res v(n); if (n) get(v.data(), 4 * (size_t)n); return v; }; std::vector<Text> t; std::vector<std::vector<Res>> want; for (int i = 0; i < j.ntext; i++) { t.push_back(vec()); want.emplace_back(); for (int k = 0; k < NCALL; k++) want.back().push_back(vec()); } fclose(f);
  int fd = open((file + ".rep").c_str(), O_RDWR); if (fd < 0) _exit(90); Report* rep = (Report*)mmap(0, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (rep == MAP_FAILED) _exit(90); *rep = g_first; g_rep = rep;
  { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); } alarm(100); std::string().shrink_to_fit(); free(malloc(100));
  Rng r(j.seed); bool thread = j.mask >> S_THREAD & 1;
  auto calls = [&] {
    free(malloc(100)); apply(j.mask, r, j.loc); apply_float(j.mask, r); static std::locale now; rep->strict = restrict_calls(); rep->ready = 1; State before = observe(&now);
    for (int n = 0; n < j.calls; n++) {
      int i = r.below(t.size()), k = r.below(NCALL), v = r.below(8), st = per_octet(k) ? r.below(2) : r.below(4); Res got; int e = r.chance(1, 2) ? (int)r.below(134) : 0; if (j.mask >> S_STACK & 1) fill_stack(r.below(256)); std::string b = ref::encode(t[i]); errno = e; const char* threw = nullptr;
      g_own = false; g_in = true;
      try { switch (st) { case 0: { u5e::utf8_string s(b); got = call(k, s, v, t[i]); break; } case 1: { u5e::utf8_string_view s(sview(b.data(), b.size())); got = call(k, s, v, t[i]); break; } case 2: { u5e::utf32ne_string s(to_i(t[i])); got = call(k, s, v, t[i]); break; } default: { u5e::utf32ne_string_view s(iview(t[i].data(), t[i].size())); got = call(k, s, v, t[i]); } } }
      catch (std::exception&) { threw = "an exception left the library"; }
      g_in = false; g_own = true; rep->calls++;
      if (got != want[i][k] && rep->ndiff < 8) { int d = rep->ndiff; rep->text[d] = i; rep->what[d] = k; rep->len[d] = (int)std::min<size_t>(got.size(), 16); std::copy(got.begin(), got.begin() + rep->len[d], rep->got[d]); rep->ndiff = d + 1; }
      State after = observe(&now); const char* ch = threw ? threw : changed(before, after); if (!ch && !(std::locale() == now)) ch = "the global C++ locale"; if (ch) { if (rep->nstate < 8) { snprintf(rep->state[rep->nstate], 120, "%s, by %s", ch, call_name(k)); rep->nstate++; } before = after; }
    }
    rep->done = 1; _exit(0); };
  if (thread) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 18); pthread_t p; static std::function<void()> fn = calls; if (pthread_create(&p, &a, [](void*) -> void* { fn(); return nullptr; }, nullptr)) _exit(92); pthread_join(p, nullptr); } else calls();
}
static std::vector<std::string> g_locales; static std::string g_locdir;
static void make_locales(Ctx& c) {                              // compiled by the system's own program; none where there is none
  g_locdir = c.outdir + "/" + c.config + "." + std::to_string(c.shard) + ".loc"; mkdir(g_locdir.c_str(), 0755);
  static const char* want[][2] = {{"tr_TR", "ISO-8859-9"}, {"ja_JP", "EUC-JP"}, {"de_DE", "ISO-8859-1"}, {"ru_RU", "KOI8-R"}};
  for (auto& w : want) { std::string n = std::string(w[0]) + "." + w[1], cmd = "timeout 60 localedef -i " + std::string(w[0]) + " -f " + w[1] + " '" + g_locdir + "/" + n + "' >/dev/null 2>&1"; if (system(cmd.c_str())) {} struct stat st; if (!stat((g_locdir + "/" + n + "/LC_CTYPE").c_str(), &st)) g_locales.push_back(n); }
  c.counters["highest_locales"] = g_locales.size();
}
static void one(Ctx& c, Rng& r, int mask, int calls) {
  std::string file = c.outdir + "/" + c.config + "." + std::to_string(c.shard) + ".job"; FILE* f = fopen(file.c_str(), "wb"); if (!f) { perror("job"); exit(3); }
  Job j; memset(&j, 0, sizeof j); j.ntext = r.range(2, 8); j.mask = mask; j.calls = calls; j.seed = r.next(); strncpy(j.loc, g_locales.empty() || r.chance(1, 6) ? "C.UTF-8" : r.pick(g_locales).c_str(), 63); fwrite(&j, sizeof j, 1, f); auto vec = [&](const Res& v) { int n = (int)v.size(); fwrite(&n, 4, 1, f); if (n) fwrite(v.data(), 4, n, f); };
  std::vector<Text> ts; for (int i = 0; i < j.ntext; i++) { Text t = gen::text(r, 60); if (i == 0) for (int k = 0; k < 20; k++) t.push_back(r.range(0x80, 0x2FF)); ts.push_back(t); vec(t); u5e::utf8_string s(ref::encode(t)); for (int k = 0; k < NCALL; k++) vec(call(k, s, 0, t)); if (t.size() > 1) c.nontrivial(hash_cps(t)); } fclose(f);
  std::string rf = file + ".rep"; int fd = open(rf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666); if (fd < 0 || ftruncate(fd, sizeof(Report))) { perror("report"); exit(3); } Report* rep = (Report*)mmap(0, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (rep == MAP_FAILED) { perror("report"); exit(3); }
  pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (!p) { struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, 0); setenv("VERIF_SURROUNDINGS", file.c_str(), 1); setenv("LOCPATH", g_locdir.c_str(), 1); std::string sh = std::to_string(c.shard); execl("/proc/self/exe", "surroundings", "--out", c.outdir.c_str(), "--config", (c.config + "-child").c_str(), "--shard", sh.c_str(), (char*)0); _exit(92); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} c.count("processes"); c.evaluations += rep->calls; c.count("calls", rep->calls); if (rep->strict) c.count("processes_without_system_calls"); c.prog->beat++;
  for (int b = 0; b < NSUR; b++) if (mask >> b & 1) { bool real = b == S_LOCALE || b == S_THREADLOCALE || b == S_USER ? rep->applied >> b & 1 : true; if (real) c.count((std::string("in.") + sur_name[b]).c_str()); }
  std::string in; for (int b = 0; b < NSUR; b++) if (mask >> b & 1) in += (in.empty() ? "" : ", ") + std::string(sur_name[b]) + (b == S_LOCALE || b == S_THREADLOCALE ? std::string(" ") + j.loc : "");
  for (int k = 0; k < rep->nused; k++) c.fail("used", "the library uses %s", rep->used[k]);
  for (int k = 0; k < rep->nsys; k++) c.fail("system-call", "the library makes system call %d (with %s)", rep->sys[k], in.c_str());
  for (int k = 0; k < rep->nstate; k++) c.fail("changed", "the library changes %s (with %s)", rep->state[k], in.c_str());
  for (int k = 0; k < rep->ndiff; k++) { Res got(rep->got[k], rep->got[k] + rep->len[k]); c.fail("surroundings", "%s of [%s] with %s begins [%s], unlike in a plain process", call_name(rep->what[k]), show(ts[rep->text[k]]).c_str(), in.c_str(), show(got).c_str()); }
  if (!rep->done) { if (rep->ready && WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGALRM) c.fail("surroundings-crash", "with %s the process ends with signal %d", in.c_str(), WTERMSIG(st)); else if (rep->ready && WIFEXITED(st) && WEXITSTATUS(st) == 93) c.fail("surroundings-crash", "with %s the program is terminated", in.c_str()); else { fprintf(stderr, "child ended with %x, ready %d (%s)\n", st, rep->ready, in.c_str()); exit(3); } }
  munmap(rep, sizeof(Report)); unlink(rf.c_str());
}
void run(Ctx& c) {
  if (job_file()) { child(); return; }
  g_own = true; make_locales(c);
  c.cases("each", c.amount(NSUR * 12, NSUR * 120), [&](Rng& r, uint64_t i) { one(c, r, 1 << (i % NSUR), r.range(5, 120)); });
  c.cases("several", c.amount(400, 6000), [&](Rng& r, uint64_t) { int m = 0; for (int k = r.range(1, 8); k--;) m |= 1 << r.below(NSUR); one(c, r, m, r.range(5, 120)); });
  c.cases("all", c.amount(100, 1000), [&](Rng& r, uint64_t) { int m = (1 << NSUR) - 1; m &= ~(1 << (r.chance(1, 2) ? S_NOENV : S_ENV)); one(c, r, m, r.range(5, 120)); });
  c.cases("plain", c.amount(20, 100), [&](Rng& r, uint64_t) { one(c, r, 0, 60); });
}
