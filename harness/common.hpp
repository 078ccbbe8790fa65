// Shared driver code: seeded cases, sharding, verdicts, evidence counters,
// crash/hang attribution. Independent of /repo.
#ifndef VERIF_COMMON
#define VERIF_COMMON
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace vf {

inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return mix(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31); }
  uint32_t below(uint64_t n) { return n ? (uint32_t)(next() % n) : 0; }
  int range(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class V> typename V::value_type pick(const V& v) { return v[below(v.size())]; }
};

// What the process is doing right now, in a file mapping that survives a crash.
struct Progress { char group[64]; volatile uint64_t idx; volatile uint64_t beat; char note[160]; };

struct TooMany : std::runtime_error { TooMany() : std::runtime_error("too many violations") {} };

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, nshards = 1;
  std::string only_group; int64_t only_idx = -1;
  std::string config = "plain";
  std::string outdir = ".";
  double scale = 1.0;

  uint64_t evaluations = 0;
  std::map<std::string, uint64_t> counters;
  std::vector<uint64_t> hashes;                    // inputs judged non-trivial
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> fail_count;
  uint64_t total_fail = 0;
  Progress* prog = nullptr;
  std::string group; uint64_t idx = 0;
  FILE* vio = nullptr;

  bool sanitized() const { return config != "plain"; }

  void count(const char* k, uint64_t n = 1) { counters[k] += n; }
  void nontrivial(uint64_t h) { if (hashes.size() < 400000) hashes.push_back(h); else counters["distinct_not_stored"]++; }
  void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(s); }
  void note(const std::string& s) { if (prog) { strncpy(prog->note, s.c_str(), sizeof prog->note - 1); } }

  // A violated property. key identifies the kind of failure (for known findings).
  void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    uint64_t& c = fail_count[key];
    c++; total_fail++;
    if (c <= 3) {
      char buf[3000];
      va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
      for (char* p = buf; *p; p++) if (*p == '\n') *p = ' ';
      if (vio) { fprintf(vio, "%s\t%s\t%llu\t%s\n", key.c_str(), group.c_str(), (unsigned long long)idx, buf); fflush(vio); }
    }
    if (fail_count.size() > 40) throw TooMany();
  }

  // n cases named by (group, index); every case is a function of (seed, group, index).
  void cases(const char* g, uint64_t n, const std::function<void(Rng&, uint64_t)>& f) {
    if (!only_group.empty() && only_group != g) return;
    group = g;
    uint64_t gh = hash_bytes(g, strlen(g));
    if (prog) { memset(prog->group, 0, sizeof prog->group); strncpy(prog->group, g, sizeof prog->group - 1); }
    for (uint64_t i = 0; i < n; i++) {
      if (only_idx >= 0 ? (uint64_t)only_idx != i : (int)(i % nshards) != shard) continue;
      idx = i;
      if (prog) { prog->idx = i; prog->beat++; }
      Rng r(mix(seed ^ gh) + mix(i));
      f(r, i);
      counters[std::string("cases.") + g]++;
      // one kind of failure is established after a few hundred occurrences
      if (total_fail > 300) return;
    }
  }
  // n cases scaled by tier
  uint64_t amount(uint64_t quick, uint64_t thorough_n) {
    double v = (double)(thorough ? thorough_n : quick) * scale;
    return v < 1 ? 1 : (uint64_t)v;
  }
};

inline std::string hex_bytes(const std::string& s, size_t cap = 160) {
  static const char* d = "0123456789abcdef"; std::string o;
  for (size_t i = 0; i < s.size() && i < cap; i++) { o += d[(s[i] >> 4) & 15]; o += d[s[i] & 15]; }
  if (s.size() > cap) o += "...(" + std::to_string(s.size()) + " octets)";
  return o;
}
inline std::string show(const std::vector<int>& v, size_t cap = 48) {
  std::string o; char b[24];
  for (size_t i = 0; i < v.size() && i < cap; i++) { snprintf(b, sizeof b, "%s%X", i ? " " : "", (unsigned)v[i]); o += b; }
  if (v.size() > cap) o += " ...(" + std::to_string(v.size()) + " codepoints)";
  return o;
}
inline uint64_t hash_cps(const std::vector<int>& v) { return hash_bytes(v.data(), v.size() * sizeof(int)); }

inline std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

extern Ctx* g_ctx;
static inline void hang_tick(int) {
  // CPU seconds without a new case: the loaded machine does not count.
  static uint64_t last = 0; static int quiet = 0;
  Progress* p = g_ctx ? g_ctx->prog : nullptr;
  if (!p) return;
  if (p->beat != last) { last = p->beat; quiet = 0; return; }
  if (++quiet >= 40) { static const char m[] = "HANG: no progress for 40 CPU seconds\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
}

} // namespace vf

void run(vf::Ctx& c);   // supplied by each property's driver

#ifdef VERIF_MAIN
namespace vf { Ctx* g_ctx = nullptr; }
int main(int argc, char** argv) {
  vf::Ctx c; vf::g_ctx = &c;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--tier") c.thorough = v == "thorough";
    else if (k == "--shard") c.shard = atoi(v.c_str());
    else if (k == "--nshards") c.nshards = atoi(v.c_str());
    else if (k == "--group") c.only_group = v;
    else if (k == "--idx") c.only_idx = atoll(v.c_str());
    else if (k == "--config") c.config = v;
    else if (k == "--out") c.outdir = v;
    else if (k == "--scale") c.scale = atof(v.c_str());
  }
  std::string base = c.outdir + "/" + c.config + "." + std::to_string(c.shard);
  int fd = open((base + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(vf::Progress))) { perror("progress"); return 3; }
  c.prog = (vf::Progress*)mmap(0, sizeof(vf::Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (c.prog == MAP_FAILED) { perror("mmap"); return 3; }
  c.vio = fopen((base + ".vio").c_str(), "w");
  if (!c.vio) { perror("vio"); return 3; }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = vf::hang_tick; sa.sa_flags = SA_RESTART;
  sigaction(SIGPROF, &sa, 0);
  struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_PROF, &tv, 0);
  try { run(c); }
  catch (vf::TooMany&) {}
  catch (std::exception& e) { c.fail("exception", "unexpected exception: %s", e.what()); }
  struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, 0);
  FILE* f = fopen((base + ".stats").c_str(), "w");
  if (!f) { perror("stats"); return 3; }
  fprintf(f, "{\"evaluations\":%llu,\"counters\":{", (unsigned long long)c.evaluations);
  bool first = true;
  for (auto& kv : c.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", vf::json_str(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\"fails\":{"); first = true;
  for (auto& kv : c.fail_count) { fprintf(f, "%s%s:%llu", first ? "" : ",", vf::json_str(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\"samples\":["); first = true;
  for (auto& s : c.samples) { fprintf(f, "%s%s", first ? "" : ",", vf::json_str(s).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  FILE* h = fopen((base + ".hashes").c_str(), "wb");
  if (h) { std::sort(c.hashes.begin(), c.hashes.end()); c.hashes.erase(std::unique(c.hashes.begin(), c.hashes.end()), c.hashes.end());
    fwrite(c.hashes.data(), 8, c.hashes.size(), h); fclose(h); }
  fclose(c.vio);
  return c.total_fail ? 1 : 0;
}
#endif
#endif
