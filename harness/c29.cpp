// The repository's example programs run on arguments, their output judged by the oracle.
#include "common.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
extern char** environ;
using namespace vf; using ref::Text;
static std::string dir; static int serial;
struct Ran { int status; std::string out, err; };
static std::string slurp(const std::string& p) { std::string o; FILE* f = fopen(p.c_str(), "rb"); if (!f) return o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static Ran go(Ctx& c, const std::string& name, const std::vector<std::string>& args) {
  std::string base = c.outdir + "/ex." + c.config + "." + std::to_string(c.shard) + "." + std::to_string(serial++), prog = dir + "/" + name; Ran r; std::vector<char*> av; av.push_back((char*)prog.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, (base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, (base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  pid_t p; int e = posix_spawn(&p, prog.c_str(), &fa, nullptr, av.data(), environ); posix_spawn_file_actions_destroy(&fa); if (e) { fprintf(stderr, "cannot run %s: %s\n", prog.c_str(), strerror(e)); exit(3); }
  for (int k = 0;; k++) { pid_t w = waitpid(p, &r.status, WNOHANG); if (w == p) break; if (k > 60000) { kill(p, SIGKILL); waitpid(p, &r.status, 0); r.status = 1 << 30; break; } usleep(k < 200 ? 200 : 2000); if (k % 100 == 0) c.prog->beat++; }
  r.out = slurp(base + ".out"); r.err = slurp(base + ".err"); unlink((base + ".out").c_str()); unlink((base + ".err").c_str()); c.count("processes"); c.count(("runs." + name).c_str()); return r;
}
static void u(std::string& o, int x, const char* f) { char b[40]; snprintf(b, sizeof b, f, (unsigned long long)x); o += b; }
static Text by_grapheme(const Text& t, char form) { Text o; std::vector<int> s = ref::db().segment(t); for (size_t k = 0; k + 1 < s.size(); k++) { Text n = ref::db().normalize(Text(t.begin() + s[k], t.begin() + s[k + 1]), form); o.insert(o.end(), n.begin(), n.end()); } return o; }
struct Program { const char* name; char kind; };
static const Program programs[] = {{"simple_iteration", 'i'}, {"grapheme_iteration", 'g'}, {"normalization_form_d", 'd'}, {"normalization_form_c", 'c'}, {"normalization_form_kd", 'D'}, {"normalization_form_kc", 'C'}};
// what the program prints for one argument; a second acceptable line for the known per-grapheme reading of form KC
static std::string line(char kind, const Text& t, std::string* also) {
  std::string o;
  if (kind == 'i') for (int x : t) u(o, x, " U+%06llx ");
  else if (kind == 'g') { std::vector<int> s = ref::db().segment(t); for (size_t k = 0; k + 1 < s.size(); k++) { o += "["; for (int i = s[k]; i < s[k + 1]; i++) u(o, t[i], " U+%06llx"); o += " ]"; } }
  else { for (int x : ref::db().normalize(t, kind)) u(o, x, " U+%06llx"); if (kind == 'C') for (int x : by_grapheme(t, kind)) u(*also, x, " U+%06llx"); }
  if (also && kind != 'C') *also = o; return o;
}
static void ended(Ctx& c, const char* name, const Ran& r, int want, const std::string& about) {
  if (!(WIFEXITED(r.status) && WEXITSTATUS(r.status) == want)) c.fail(std::string("status-") + name, "%s on %s ended with status %X (expected exit %d): %s", name, about.c_str(), r.status, want, r.err.substr(0, 900).c_str());
}
static void batch(Ctx& c, const std::vector<Text>& ts) {
  std::vector<std::string> args; for (auto& t : ts) args.push_back(ref::encode(t)); std::string about = std::to_string(ts.size()) + " arguments";
  for (auto& p : programs) {
    Ran r = go(c, p.name, args); ended(c, p.name, r, 0, about); size_t at = 0, k = 0;
    for (; k < ts.size(); k++) { size_t nl = r.out.find('\n', at); if (nl == std::string::npos) break; std::string got = r.out.substr(at, nl - at), other, want = line(p.kind, ts[k], &other); at = nl + 1; c.count("lines"); if (got != want && got != other) c.fail(std::string("output-") + p.name, "%s prints \"%s\" for [%s], expected \"%s\"", p.name, got.substr(0, 500).c_str(), show(ts[k]).c_str(), want.substr(0, 500).c_str()); }
    if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0 && (k != ts.size() || at != r.out.size())) c.fail(std::string("output-") + p.name, "%s prints %zu lines for %zu arguments, %zu octets more", p.name, k, ts.size(), r.out.size() - at);
  }
  for (auto& t : ts) { c.evaluations++; bool multi = false; for (int x : t) if (x >= 0x80) multi = true; if (multi && t.size() > 1) { c.nontrivial(hash_cps(t)); c.sample(show(t, 10)); } }
}
static Text nonzero(Text t) { t.erase(std::remove(t.begin(), t.end(), 0), t.end()); return t; }   // an argument holds no U+0000
void run(Ctx& c) {
  const char* e = getenv("VERIF_EXAMPLES"); if (!e) { fprintf(stderr, "no VERIF_EXAMPLES\n"); exit(3); } dir = e; bool s = c.sanitized();
  c.cases("fixed", 8, [&](Rng& r, uint64_t i) {
    static const Text in{0xC4, 0xFB03, 'n'}; static const struct { const char* name; char form; } f[] = {{"normalization_form_d_utf32", 'd'}, {"normalization_form_c_utf32", 'c'}, {"normalization_form_kd_utf32", 'D'}, {"normalization_form_kc_utf32", 'C'}};
    c.evaluations++; if (i < 4) { std::string w; for (int x : ref::db().normalize(in, f[i].form)) u(w, x, " U+%06llx"); Ran q = go(c, f[i].name, {}); ended(c, f[i].name, q, 0, "no arguments"); if (q.out != w) c.fail("output-utf32", "%s prints \"%s\", expected \"%s\"", f[i].name, q.out.c_str(), w.c_str()); }
    else if (i == 4) { Ran q = go(c, "truncate_on_codepoint", {}); ended(c, "truncate_on_codepoint", q, 0, "no arguments"); if (q.out != "Ola\n") c.fail("output-truncate", "truncate_on_codepoint prints \"%s\"", q.out.c_str()); }
    else if (i == 5) { Ran q = go(c, "truncate_on_grapheme", {}); ended(c, "truncate_on_grapheme", q, 0, "no arguments"); if (q.out != "Ol\n") c.fail("output-truncate", "truncate_on_grapheme prints \"%s\"", q.out.c_str()); }
    else for (int k = 0; k < (s ? 12 : 60); k++) { Text t = nonzero(gen::text(r, 10)); std::string a = ref::encode(t); Ran q = go(c, "smallest_code", {a}); ended(c, "smallest_code", q, (t.empty() ? 0 : t[0]) & 255, hex_bytes(a)); c.evaluations++; } });
  const uint64_t per = 1024, nb = 0x110000 / per; uint64_t step = c.thorough ? 1 : s ? 64 : 8;
  c.cases("every-codepoint", nb, [&](Rng& r, uint64_t i) { if (i % step != c.seed % step && !(!s && i < 4)) return; std::vector<Text> ts; for (uint64_t k = 0; k < per; k++) { int x = (int)(i * per + k); if (!x || (x >= 0xD800 && x < 0xE000)) continue; Text t{x}; if (r.chance(2, 3)) t.push_back(gen::any_cp(r)); if (r.chance(1, 2)) t.insert(t.begin(), gen::any_cp(r)); ts.push_back(nonzero(t)); c.count("codepoints_swept"); } if (!ts.empty()) batch(c, ts); });
  c.cases("texts", c.amount(s ? 60 : 400, s ? 1000 : 8000), [&](Rng& r, uint64_t) { std::vector<Text> ts; int n = r.chance(1, 6) ? r.below(3) : r.range(5, 80); for (int k = 0; k < n; k++) ts.push_back(nonzero(gen::text(r, 300))); batch(c, ts); });
  c.cases("lengths", (gen::shapes() + 63) / 64, [&](Rng& r, uint64_t i) { if (s && !c.thorough && i % 8 != c.seed % 8) return; std::vector<Text> ts; for (uint64_t k = 0; k < 64; k++) ts.push_back(nonzero(gen::shaped(r, i * 64 + k))); batch(c, ts); });
  c.cases("long", c.amount(8, 60), [&](Rng& r, uint64_t i) { std::vector<Text> ts; for (int k = 0; k < 3; k++) { Text t = nonzero(k == 0 && i % 2 ? gen::huge_text(r, r.below(6)) : gen::long_text(r, 30000)); while (ref::encode(t).size() > 131000) t.resize(t.size() * 9 / 10); ts.push_back(t); } batch(c, ts); });
}
