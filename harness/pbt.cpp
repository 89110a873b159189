// Runner for the property registry: forked workers over a shared cursor, crash / hang capture,
// tape shrinking, replay files, JSON report.
#include "pbt.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <atomic>

#ifdef __cplusplus
extern "C" {
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1"; }
const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }
const char* __tsan_default_options() { return "exitcode=98:halt_on_error=1:die_after_fork=0:second_deadlock_stack=0"; }
}
#endif

namespace pbt {

static const size_t MIRROR = 1 << 17;
enum { ST_IDLE = 0, ST_RUN = 1, ST_FAIL = 2, ST_HANG = 3 };
struct Slot {
  volatile int state;
  volatile uint64_t prop, index;
  char msg[4096];
  char desc[1 << 16];
  int isnontrivial;
  uint64_t mirror[MIRROR + 1];
};
struct Shared { std::atomic<uint64_t> cursor; std::atomic<int> stop; };

static Shared* sh;
static Slot* slots;
static int hang_s = 20;
static double shrink_s = 40;
static Slot* myslot;

static void on_prof(int) { if (myslot) myslot->state = ST_HANG; _exit(77); }
static void arm(int s, int wall = 4) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = wall * s; setitimer(ITIMER_REAL, &it, nullptr);   // blocked without using the CPU
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void silence(const std::string& base) {
  int o = open((base + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  int n = open("/dev/null", O_WRONLY);
  (void)o;
  if (n >= 0) dup2(n, 1);
  if (o >= 0) dup2(o, 2);
}
static uint64_t strhash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; } return h; }
static void put_str(char* dst, size_t cap, const std::string& s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }
static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
    else o += (char)ch;
  }
  return o;
}
static std::string slurp(const std::string& p, size_t cap) {
  std::string s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < cap) s.append(b, n);
  fclose(f); return s;
}

struct Stats {
  std::map<std::string, uint64_t> labels; std::map<std::string, double> maxima;
  uint64_t evals = 0, nontriv = 0, discards = 0; std::vector<uint64_t> hashes; std::vector<std::string> samples;
};

HugeGrid::HugeGrid(size_t b) : bytes(b) { p = mmap(nullptr, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { p = nullptr; throw Discard(); } }
HugeGrid::~HugeGrid() { if (p) munmap(p, bytes); }
void huge_extent(Ctx& c, int dim, const int* n, int nmom, long* a, long* b) {
  double want = c.uni(29, 33) - log2(nmom), w[8], s = 0; for (int k = 0; k < dim; ++k) { w[k] = 0.1 + c.uni(0, 1); s += w[k]; }
  bool late = c.chance(3, 4);
  for (int k = 0; k < dim; ++k) { double bits = std::min(24.0, std::max(0.0, want * w[k] / s)); long ext = (long)pow(2, bits) - n[k]; if (ext < 0) ext = 0; a[k] = late && c.chance(k ? 1 : 3, k ? 2 : 4) ? ext : (long)c.raw((uint64_t)ext + 1); b[k] = ext - a[k]; }
}
// run one case; returns 0 pass, 1 fail (msg), 2 discard
static int run_case(const Prop& p, Ctx& c, std::string& msg) {
  try { p.fn(c); }
  catch (Fail& f) { msg = f.msg; return 1; }
  catch (Discard&) { return 2; }
  return 0;
}

struct Opt {
  std::string prop, out, rundir = "/tmp", replaydir = "/tmp", variant = "plain", replay;
  uint64_t seed = 1; int workers = 8; double scale = 1, maxsec = 600; bool list = false, nofork = false;
} opt;

static std::vector<Prop> sel;
static std::vector<uint64_t> counts;       // cases per selected property
static std::vector<std::pair<uint32_t, uint32_t>> items;

static void worker(int w) {
  myslot = &slots[w];
  silence(opt.rundir + fmt("/w%d", w));
  signal(SIGPROF, on_prof); signal(SIGALRM, on_prof); prctl(PR_SET_PDEATHSIG, SIGKILL);
  std::vector<Stats> st(sel.size());
  double t0 = now();
  for (;;) {
    if (sh->stop.load()) break;
    uint64_t k = sh->cursor.fetch_add(1);
    if (k >= items.size()) break;
    if ((k & 15) == 0 && now() - t0 > opt.maxsec) { sh->stop.store(1); break; }
    uint32_t pi = items[k].first, ci = items[k].second;
    Ctx c;
    c.rng = mix(mix(opt.seed) ^ strhash(sel[pi].name)) + 0x632be59bd9b4e019ull * (uint64_t)(ci + 1);
    c.rng = mix(c.rng);
    c.mirror = myslot->mirror; c.mirrorcap = MIRROR; c.mirror[0] = 0;
    c.labels = &st[pi].labels; c.maxima = &st[pi].maxima;
    c.wantdesc = ci < 6;
    myslot->prop = pi; myslot->index = ci; myslot->state = ST_RUN;
    arm(hang_s);
    std::string msg;
    int r = run_case(sel[pi], c, msg);
    arm(0);
    if (r == 1) {
      put_str(myslot->msg, sizeof myslot->msg, msg);
      myslot->state = ST_FAIL;
      sh->stop.store(1);
      break;
    }
    myslot->state = ST_IDLE;
    st[pi].evals++;
    if (r == 2) { st[pi].discards++; continue; }
    if (c.isnontrivial) {
      st[pi].nontriv++; st[pi].hashes.push_back(c.hash());
      if (c.wantdesc && st[pi].samples.size() < 2 && !c.desc.empty()) st[pi].samples.push_back(c.desc.substr(0, 1500));
    }
  }
  bool failed = myslot->state == ST_FAIL;
  FILE* f = fopen((opt.rundir + fmt("/w%d.st", w)).c_str(), "wb");
  if (f) {
    for (size_t p = 0; p < sel.size(); ++p) {
      fprintf(f, "P %zu %llu %llu %llu\n", p, (unsigned long long)st[p].evals, (unsigned long long)st[p].nontriv, (unsigned long long)st[p].discards);
      for (auto& l : st[p].labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
      for (auto& l : st[p].maxima) fprintf(f, "M %.17g %s\n", l.second, l.first.c_str());
      for (auto& s : st[p].samples) { fprintf(f, "S %zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); }
      fprintf(f, "H %zu\n", st[p].hashes.size());
      fwrite(st[p].hashes.data(), 8, st[p].hashes.size(), f);
      fputc('\n', f);
    }
    fclose(f);
  }
  _exit(failed ? 10 : 0);
}

static void read_stats(int w, std::vector<Stats>& st) {
  FILE* f = fopen((opt.rundir + fmt("/w%d.st", w)).c_str(), "rb"); if (!f) return;
  char line[8192]; Stats* cur = nullptr;
  while (fgets(line, sizeof line, f)) {
    size_t L = strlen(line); if (L && line[L - 1] == '\n') line[L - 1] = 0;
    if (line[0] == 'P') {
      size_t p; unsigned long long e, n, d; if (sscanf(line + 2, "%zu %llu %llu %llu", &p, &e, &n, &d) != 4 || p >= st.size()) break;
      cur = &st[p]; cur->evals += e; cur->nontriv += n; cur->discards += d;
    } else if (!cur) break;
    else if (line[0] == 'L') { char* q; uint64_t v = strtoull(line + 2, &q, 10); cur->labels[q + 1] += v; }
    else if (line[0] == 'M') { char* q; double v = strtod(line + 2, &q); double& m = cur->maxima[q + 1]; if (!(v <= m)) m = v; }
    else if (line[0] == 'S') { size_t n = strtoull(line + 2, nullptr, 10); std::string s(n, 0); if (fread(&s[0], 1, n, f) != n) break; fgetc(f); if (cur->samples.size() < 3) cur->samples.push_back(s); }
    else if (line[0] == 'H') { size_t n = strtoull(line + 2, nullptr, 10); size_t o = cur->hashes.size(); cur->hashes.resize(o + n); if (fread(cur->hashes.data() + o, 8, n, f) != n) break; fgetc(f); }
  }
  fclose(f);
}

struct Trial { bool failed; std::string msg; std::vector<uint64_t> tape; std::string desc; };
static Trial trial(const Prop& p, const std::vector<uint64_t>& tape, bool want) {
  Slot* s = &slots[opt.workers];
  s->state = ST_RUN; s->msg[0] = 0; s->desc[0] = 0; s->mirror[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  std::string base = opt.rundir + "/trial";
  if (pid == 0) {
    myslot = s;
    silence(base);
    signal(SIGPROF, on_prof); signal(SIGALRM, on_prof); prctl(PR_SET_PDEATHSIG, SIGKILL);
    Ctx c; c.replay = true; c.tape = tape; c.wantdesc = want;
    c.mirror = s->mirror; c.mirrorcap = MIRROR;
    arm(hang_s, 2);
    std::string msg;
    int r = run_case(p, c, msg);
    arm(0);
    put_str(s->desc, sizeof s->desc, c.desc);
    if (r == 1) { put_str(s->msg, sizeof s->msg, msg); s->state = ST_FAIL; _exit(10); }
    s->state = ST_IDLE;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  Trial t; t.failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
  size_t n = std::min<size_t>(s->mirror[0], MIRROR);
  t.tape.assign(s->mirror + 1, s->mirror + 1 + n);
  t.desc = s->desc;
  if (t.failed) {
    if (s->state == ST_FAIL) t.msg = s->msg;
    else if (s->state == ST_HANG) t.msg = fmt("hang: no result after %d s of CPU time, or blocked for %d s", hang_s, 2 * hang_s);
    else {
      std::string e = slurp(base + ".out", 65536);
      size_t k = e.find("ERROR: "); if (k == std::string::npos) k = e.find("runtime error"); if (k == std::string::npos) k = e.find("WARNING: ThreadSanitizer");
      if (k == std::string::npos) k = 0;
      t.msg = (WIFSIGNALED(status) ? fmt("crash: signal %d", WTERMSIG(status)) : fmt("crash: exit status %d", WEXITSTATUS(status))) + ": " + e.substr(k, 1200);
    }
  }
  return t;
}

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, double budget) {
  double t0 = now();
  auto ok = [&](std::vector<uint64_t>& cand) {
    Trial t = trial(p, cand, false);
    if (!t.failed) return false;
    // normalise to what was really consumed
    if (t.tape.size() <= cand.size()) cand = t.tape;
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (cand.size() > best.size() || (cand.size() == best.size() && !(cand < best))) return false;
    best = cand; return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() - t0 < budget; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && now() - t0 < budget;) {
        std::vector<uint64_t> c2(best); c2.erase(c2.begin() + i, c2.begin() + i + len);
        if (ok(c2)) { progress = true; continue; }
        std::vector<uint64_t> c3(best); bool z = true;
        for (size_t j = i; j < i + len; ++j) { if (c3[j]) z = false; c3[j] = 0; }
        if (!z && ok(c3)) { progress = true; }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
      uint64_t lo = 0;
      for (int it = 0; it < 64 && i < best.size() && best[i] > lo && now() - t0 < budget; ++it) {
        std::vector<uint64_t> c2(best); uint64_t mid = lo + (best[i] - lo) / 2; c2[i] = mid;
        if (ok(c2)) progress = true; else lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string write_replay(const Prop& p, const std::vector<uint64_t>& tape, const std::string& msg, const std::string& desc) {
  mkdir(opt.replaydir.c_str(), 0755);
  std::string fn = p.name; for (char& ch : fn) if (ch == '/' || ch == ' ') ch = '_';
  std::string path = opt.replaydir + "/" + fn + "-" + opt.variant + ".replay";
  FILE* f = fopen(path.c_str(), "w"); if (!f) return path;
  fprintf(f, "property: %s\nvariant: %s\nseed: %llu\n", p.name.c_str(), opt.variant.c_str(), (unsigned long long)opt.seed);
  fprintf(f, "tape:"); for (uint64_t v : tape) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n");
  fprintf(f, "--- failure\n%s\n--- minimal case\n%s\n", msg.c_str(), desc.c_str());
  fclose(f);
  return path;
}

static int do_replay() {
  std::string s = slurp(opt.replay, 1 << 24);
  size_t a = s.find("property: "), b = s.find("tape:");
  if (a == std::string::npos || b == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
  std::string name = s.substr(a + 10, s.find('\n', a) - a - 10);
  std::vector<uint64_t> tape; const char* q = s.c_str() + b + 5; char* e;
  while (*q == ' ') { tape.push_back(strtoull(q, &e, 10)); q = e; }
  for (auto& p : registry()) if (p.name == name) {
    if (opt.nofork) {
      Ctx c; c.replay = true; c.tape = tape; c.wantdesc = true; std::string msg;
      int r = run_case(p, c, msg); printf("%s%s\n%s", r == 1 ? "FAIL: " : "PASS", msg.c_str(), c.desc.c_str()); return r == 1;
    }
    Trial t = trial(p, tape, true);
    printf("%s: %s\n%s\n%s", name.c_str(), t.failed ? "FAIL" : "PASS", t.msg.c_str(), t.desc.c_str());
    return t.failed ? 1 : 0;
  }
  fprintf(stderr, "unknown property %s\n", name.c_str());
  return 2;
}

int run_main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") opt.prop = val(); else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") opt.workers = atoi(val().c_str()); else if (a == "--scale") opt.scale = atof(val().c_str());
    else if (a == "--maxsec") opt.maxsec = atof(val().c_str()); else if (a == "--out") opt.out = val();
    else if (a == "--rundir") opt.rundir = val(); else if (a == "--replaydir") opt.replaydir = val();
    else if (a == "--variant") opt.variant = val(); else if (a == "--hang") hang_s = atoi(val().c_str());
    else if (a == "--shrink") shrink_s = atof(val().c_str()); else if (a == "--replay") opt.replay = val(); else if (a == "--list") opt.list = true; else if (a == "--nofork") opt.nofork = true;
  }
  if (opt.list) { for (auto& p : registry()) printf("%s\n", p.name.c_str()); return 0; }
  struct rlimit rl; getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl);
  size_t ssz = sizeof(Slot) * (opt.workers + 1);
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  slots = (Slot*)mmap(0, ssz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED || slots == MAP_FAILED) { perror("mmap"); return 2; }
  if (!opt.replay.empty()) return do_replay();
  double t0 = now();
  for (auto& p : registry()) if (p.name.compare(0, opt.prop.size(), opt.prop) == 0) sel.push_back(p);
  if (sel.empty()) { fprintf(stderr, "no property matches %s\n", opt.prop.c_str()); return 2; }
  // interleave the sub-properties so that an early stop still covers all of them
  uint64_t mx = 0;
  for (auto& p : sel) { uint64_t n = (uint64_t)std::max(1.0, p.cases * opt.scale); counts.push_back(n); mx = std::max(mx, n); }
  {
    std::vector<double> acc(sel.size(), 0); std::vector<uint32_t> done(sel.size(), 0);
    for (uint64_t k = 0; k < mx; ++k) for (size_t p = 0; p < sel.size(); ++p) {
      uint64_t want = (uint64_t)(((__int128)(k + 1) * counts[p] + mx - 1) / mx);
      while (done[p] < want && done[p] < counts[p]) items.push_back({(uint32_t)p, done[p]++});
    }
  }
  std::vector<pid_t> pids;
  for (int w = 0; w < opt.workers; ++w) {
    fflush(stdout);
    pid_t pid = fork(); if (pid == 0) worker(w); pids.push_back(pid);
  }
  struct Cand { size_t prop; std::vector<uint64_t> tape; uint64_t index; };
  std::vector<Cand> cands;
  for (size_t left = pids.size(); left > 0;) {
    int status; pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) { if (errno == EINTR) continue; break; }
    int w = -1; for (size_t i = 0; i < pids.size(); ++i) if (pids[i] == pid) w = (int)i;
    if (w < 0) continue;
    --left;
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      sh->stop.store(1);
      Slot& s = slots[w]; size_t n = std::min<size_t>(s.mirror[0], MIRROR);
      cands.push_back({(size_t)s.prop, std::vector<uint64_t>(s.mirror + 1, s.mirror + 1 + n), s.index});
    }
  }
  std::vector<Stats> st(sel.size());
  for (int w = 0; w < opt.workers; ++w) read_stats(w, st);
  std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.tape.size() < b.tape.size(); });
  int rc = 0; std::string vio, vmsg;
  for (auto& cd : cands) {
    const Prop& p = sel[cd.prop];
    Trial t = trial(p, cd.tape, false);
    if (!t.failed) { if (!rc) { rc = 3; vmsg = p.name + " case " + std::to_string(cd.index) + " did not reproduce"; } continue; }
    std::vector<uint64_t> best = shrink(p, t.tape.size() <= cd.tape.size() ? t.tape : cd.tape, shrink_s);
    Trial f; int fails = 0;
    for (int i = 0; i < 3; ++i) { f = trial(p, best, true); fails += f.failed; }
    if (fails < 3) { best = cd.tape; fails = 0; for (int i = 0; i < 3; ++i) { f = trial(p, best, true); fails += f.failed; } }
    if (fails < 3) { if (!rc) { rc = 3; vmsg = p.name + " failure is not deterministic: " + t.msg; } continue; }
    vio = write_replay(p, best, f.msg, f.desc); vmsg = f.msg; rc = 1;
    vmsg = p.name + ": " + vmsg;
    break;
  }
  uint64_t ev = 0, dn = 0, disc = 0;
  std::string js = "{\n \"subproperties\": [";
  std::vector<std::string> samples;
  for (size_t p = 0; p < sel.size(); ++p) {
    std::sort(st[p].hashes.begin(), st[p].hashes.end());
    uint64_t d = std::unique(st[p].hashes.begin(), st[p].hashes.end()) - st[p].hashes.begin();
    ev += st[p].evals; dn += d; disc += st[p].discards;
    js += fmt("%s\n  {\"name\": \"%s\", \"cases_planned\": %llu, \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"rule\": \"%s\", \"classes\": {", p ? "," : "",
              sel[p].name.c_str(), (unsigned long long)counts[p], (unsigned long long)st[p].evals, (unsigned long long)d, (unsigned long long)st[p].discards, jesc(sel[p].rule).c_str());
    bool first = true;
    for (auto& l : st[p].labels) { js += fmt("%s\"%s\": %llu", first ? "" : ", ", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
    js += "}, \"maxima\": {"; first = true;
    for (auto& l : st[p].maxima) { double v = l.second; if (!std::isfinite(v)) v = 1e308; js += fmt("%s\"%s\": %.6g", first ? "" : ", ", jesc(l.first).c_str(), v); first = false; }
    js += "}, \"samples\": ["; first = true;
    for (auto& s : st[p].samples) { js += fmt("%s\"%s\"", first ? "" : ", ", jesc(s).c_str()); first = false; }
    js += "]}";
  }
  js += fmt("\n ],\n \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"planned\": %zu, \"seed\": %llu, \"variant\": \"%s\", \"wall_s\": %.3f,\n \"status\": %d, \"replay\": \"%s\", \"message\": \"%s\"\n}\n",
            (unsigned long long)ev, (unsigned long long)dn, (unsigned long long)disc, items.size(), (unsigned long long)opt.seed, opt.variant.c_str(), now() - t0, rc, jesc(vio).c_str(), jesc(vmsg).c_str());
  if (!opt.out.empty()) { FILE* f = fopen(opt.out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  else fputs(js.c_str(), stdout);
  return rc;
}
}

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
