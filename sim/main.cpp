// Driver: one forked child per simulated run.  Explores seeds, confirms, minimises and replays violations.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace rt;

namespace rt { extern std::uint32_t* g_pairmap; void install_terminate(); }
extern "C" int __real_clock_gettime_driver(void);

static double now() {   // the driver's own clock, by system call: the library functions are simulated
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static void out(int fd, const char* fmt, ...) {
  static char b[1 << 17];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  raw_write(fd, b, n);
}
template <class T>
static T* shm(std::size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { out(2, "mmap failed\n"); syscall(SYS_exit_group, 3); }
  return (T*)p;
}

static const PropertyDef* g_prop;
static int                g_tier;

static void on_signal(int sig) {
  g.active = 0;
  if (sig == SIGPROF) finish(ST_VIOLATION, "no-progress", "the call burned 40 s of processor time without reaching a scheduling point");
  char b[100];
  snprintf(b, sizeof b, "the process was killed by signal %d (%s)", sig,
           sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "signal");
  finish(ST_VIOLATION, "crash", b);
}
static void scenario_body(void*) { g_prop->scenario(g_tier); }

struct Streams {
  std::vector<std::uint32_t> v[sim::S_NSTREAMS];
};
struct Outcome {
  int           status;
  std::string   cls, msg, notes;
  std::uint64_t hash, steps, preempts, switches, fibers;
};

static void clear_shared(bool log) {
  g_sh->status = ST_RUNNING;
  g_sh->cls[0] = g_sh->msg[0] = 0;
  g_sh->notes_n = 0;
  g_sh->notes[0] = 0;
  g_sh->hash = g_sh->steps = g_sh->switches = g_sh->preempts = g_sh->fibers = g_sh->sim_ns = g_sh->scen_hash = g_sh->sched_hash = 0;
  g_sh->nontrivial = 0;
  g_sh->log_on = log;
  for (auto& l : g_sh->log) l.n = 0;
}
static void child(std::uint64_t seed, const Streams* rep) {
  static char alt[65536];
  stack_t     ss{};
  ss.ss_sp = alt; ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
  struct itimerval it{};
  it.it_value.tv_sec = 40;
  setitimer(ITIMER_PROF, &it, nullptr);
  if (rep)
    for (int s = 0; s < sim::S_NSTREAMS; s++) {
      g_replay.on[s] = true;
      g_replay.v[s]  = rep->v[s].data();
      g_replay.n[s]  = (std::uint32_t)rep->v[s].size();
      g_replay.i[s]  = 0;
    }
  seed_streams(seed);
  install_terminate();
  begin_run_state();
  run_on_stack(&scenario_body, nullptr);
  finish(ST_OK, "", "");
}
static void run_once(std::uint64_t seed, const Streams* rep, bool log) {
  clear_shared(log);
  pid_t p = (pid_t)syscall(SYS_fork);
  if (p == 0) { child(seed, rep); syscall(SYS_exit_group, 0); }
  if (p < 0) { out(2, "fork failed\n"); syscall(SYS_exit_group, 3); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (g_sh->status == ST_RUNNING) {
    g_sh->status = ST_ENGINE;
    snprintf(g_sh->msg, sizeof g_sh->msg, "child ended with wait status 0x%x and no verdict", st);
  }
}
static Outcome outcome() {
  return {g_sh->status, g_sh->cls, g_sh->msg, std::string(g_sh->notes, g_sh->notes_n), g_sh->hash, g_sh->steps, g_sh->preempts, g_sh->switches, g_sh->fibers};
}
static Streams take_log() {
  Streams s;
  for (int i = 0; i < sim::S_NSTREAMS; i++) {
    std::uint32_t n = std::min(g_sh->log[i].n, LOG_CAP);
    s.v[i].assign(g_sh->log[i].v, g_sh->log[i].v + n);
  }
  return s;
}
static std::uint64_t seed_of(std::uint64_t base, std::uint64_t i) {
  Rng r{base * 0x9e3779b97f4a7c15ull + i * 0xd1342543de82ef95ull + 12345};
  for (const char* c = g_prop->id; *c; c++) r.s = r.s * 131 + (unsigned char)*c;
  r.next();
  return r.next();
}

// ---------------------------------------------------------------------------------------------
struct Known { std::string id, cls, sub; };
static std::vector<Known> g_known;
static void load_known(const char* file) {
  FILE* f = fopen(file, "r");
  if (!f) return;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (line[0] == '#' || !line[0]) continue;
    char* a = line; char* b = strchr(a, '\t'); if (!b) continue; *b++ = 0;
    char* c = strchr(b, '\t'); if (!c) continue; *c++ = 0;
    if (!strcmp(a, g_prop->id)) g_known.push_back({a, b, c});
  }
  fclose(f);
}
static int known_index(const char* cls, const char* msg) {
  for (std::size_t i = 0; i < g_known.size(); i++)
    if (g_known[i].cls == cls && strstr(msg, g_known[i].sub.c_str())) return (int)i;
  return -1;
}

struct Agg {
  std::uint64_t runs, ok, failstops, steps, switches, preempts, fibers, sim_ns;
  std::uint64_t known[64];
  Named         faults[NPROBES], probes[NPROBES];
  std::uint64_t viol_index;   // lowest run index with a violation, ~0 if none
  std::uint64_t engine_index;
  char          engine_msg[400];
};

static void fold(Named* d, Named* s) {
  for (int i = 0; i < NPROBES && s[i].name[0]; i++)
    for (int j = 0; j < NPROBES; j++) {
      if (!d[j].name[0]) memcpy(d[j].name, s[i].name, sizeof s[i].name);
      if (!strcmp(d[j].name, s[i].name)) { d[j].count += s[i].count; break; }
    }
}
static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}

// ---------------------------------------------------------------------------------------------
// version 1 replays recorded choices; version 2 draws them from the seed again (kept for a failure its recorded choices do not reproduce)
static bool write_replay(const char* path, std::uint64_t seed, std::uint64_t idx, const Streams& s, const Outcome& o, const Outcome& orig, const Streams& os, int version = 1) {
  FILE* f = fopen(path, "w");
  if (!f) return false;
  fprintf(f, "nwsim-replay %d\nproperty %s\ntier %d\nseed %llu\nrun %llu\nclass %s\nhash %llu\n", version, g_prop->id, g_tier, (unsigned long long)seed,
          (unsigned long long)idx, o.cls.c_str(), (unsigned long long)o.hash);
  static const char* nm[] = {"workload", "schedule", "tasks", "faults"};
  for (int i = 0; i < sim::S_NSTREAMS; i++) {
    fprintf(f, "stream %s %zu", nm[i], s.v[i].size());
    for (auto x : s.v[i]) fprintf(f, " %u", x);
    fprintf(f, "\n");
  }
  fprintf(f, "# violation [%s]: %s\n", o.cls.c_str(), o.msg.c_str());
  fprintf(f, "# found at seed %llu (run %llu): %s; minimised from %zu/%zu/%zu/%zu to %zu/%zu/%zu/%zu choices (workload/schedule/tasks/faults)\n",
          (unsigned long long)seed, (unsigned long long)idx, orig.msg.c_str(), os.v[0].size(), os.v[1].size(), os.v[2].size(), os.v[3].size(), s.v[0].size(),
          s.v[1].size(), s.v[2].size(), s.v[3].size());
  fprintf(f, "# steps %llu, preemptions %llu, threads %llu\n# what happened in the minimised run:\n", (unsigned long long)o.steps,
          (unsigned long long)o.preempts, (unsigned long long)o.fibers);
  const char* p = o.notes.c_str();
  while (*p) {
    const char* e = strchr(p, '\n');
    std::string l = e ? std::string(p, e) : std::string(p);
    fprintf(f, "#   %s\n", l.c_str());
    if (!e) break;
    p = e + 1;
  }
  fclose(f);
  return true;
}
static bool read_replay(const char* path, std::string& prop, int& tier, std::uint64_t& seed, std::string& cls, std::uint64_t& hash, Streams& s, int& version) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char a[128], b[128];
  unsigned long long x;
  if (fscanf(f, "nwsim-replay %d", &version) != 1) return false;
  if (fscanf(f, " property %127s", b) != 1) return false;
  prop = b;
  if (fscanf(f, " tier %d", &tier) != 1) return false;
  if (fscanf(f, " seed %llu", &x) != 1) return false;
  seed = x;
  if (fscanf(f, " run %llu", &x) != 1) return false;
  if (fscanf(f, " class %127s", b) != 1) return false;
  cls = b;
  if (fscanf(f, " hash %llu", &x) != 1) return false;
  hash = x;
  for (int i = 0; i < sim::S_NSTREAMS; i++) {
    std::size_t n;
    if (fscanf(f, " stream %127s %zu", a, &n) != 2) return false;
    s.v[i].resize(n);
    for (auto& e : s.v[i])
      if (fscanf(f, "%u", &e) != 1) return false;
  }
  fclose(f);
  return true;
}

// Delta-debugging over the four choice streams; keeps the class of the violation.
static Streams minimise(std::uint64_t seed, const Streams& start, const std::string& cls, double budget, std::uint64_t& tries) {
  Streams best = start;
  double  end  = now() + budget;
  auto    bad  = [&](const Streams& s) {
    tries++;
    run_once(seed, &s, false);
    return g_sh->status == ST_VIOLATION && cls == g_sh->cls && known_index(g_sh->cls, g_sh->msg) < 0;
  };
  auto truncate = [&](int st) {
    for (std::size_t keep = 0; now() < end;) {   // try empty, then longer prefixes
      Streams c = best;
      if (keep >= c.v[st].size()) break;
      c.v[st].resize(keep);
      if (bad(c)) { best = c; break; }
      keep = keep ? keep * 2 : (st == sim::S_SCHED ? 2 : 1);
    }
    // then shave the tail
    for (std::size_t cut = best.v[st].size() / 2; cut >= 1 && now() < end; cut /= 2) {
      Streams c = best;
      if (c.v[st].size() < cut) continue;
      c.v[st].resize(c.v[st].size() - cut);
      if (bad(c)) { best = c; cut *= 2; if (cut > best.v[st].size()) cut = best.v[st].size(); if (!cut) break; }
    }
  };
  auto remove_chunks = [&](int st, std::size_t unit) {
    for (std::size_t len = std::max<std::size_t>(unit, best.v[st].size() / 2 / unit * unit); len >= unit && now() < end; len = len / 2 / unit * unit) {
      for (std::size_t at = 0; at + len <= best.v[st].size() && now() < end;) {
        Streams c = best;
        c.v[st].erase(c.v[st].begin() + at, c.v[st].begin() + at + len);
        if (bad(c)) best = c;
        else at += len;
      }
      if (len == unit) break;
    }
  };
  auto lower = [&](int st) {
    std::size_t lim = std::min<std::size_t>(best.v[st].size(), 400);
    for (std::size_t i = 0; i < lim && now() < end; i++) {
      if (!best.v[st][i]) continue;
      for (std::uint32_t t : {0u, best.v[st][i] / 2, best.v[st][i] - 1}) {
        Streams c = best;
        if (t >= c.v[st][i]) continue;
        c.v[st][i] = t;
        if (bad(c)) { best = c; break; }
      }
    }
  };
  for (int round = 0; round < 3 && now() < end; round++) {
    std::size_t before = 0, after = 0;
    for (auto& v : best.v) before += v.size();
    truncate(sim::S_FAULT);
    truncate(sim::S_SCHED);
    truncate(sim::S_TASK);
    truncate(sim::S_WORK);
    remove_chunks(sim::S_SCHED, 2);
    remove_chunks(sim::S_WORK, 1);
    remove_chunks(sim::S_FAULT, 1);
    remove_chunks(sim::S_TASK, 1);
    lower(sim::S_FAULT);
    lower(sim::S_WORK);
    lower(sim::S_TASK);
    for (auto& v : best.v) after += v.size();
    if (after == before) break;
  }
  return best;
}

static int do_replay(const char* file, bool verbose) {
  std::string   prop, cls;
  std::uint64_t seed, hash;
  Streams       s;
  int           version = 1;
  if (!read_replay(file, prop, g_tier, seed, cls, hash, s, version)) { out(2, "cannot read replay file %s\n", file); return 2; }
  g_prop = nullptr;
  for (int i = 0; i < g_nproperties; i++)
    if (prop == g_properties[i].id) g_prop = &g_properties[i];
  if (!g_prop) { out(2, "this program does not hold property %s\n", prop.c_str()); return 2; }
  g_sh = shm<Shared>();
  run_once(seed, version == 2 ? nullptr : &s, true);
  Outcome o = outcome();
  if (verbose) out(1, "%s", o.notes.c_str());
  if (o.status == ST_VIOLATION && o.cls == cls && o.hash == hash) {
    out(1, "REPRODUCED property=%s class=%s hash=%llu: %s\n", prop.c_str(), o.cls.c_str(), (unsigned long long)o.hash, o.msg.c_str());
    return 1;
  }
  if (o.status == ST_VIOLATION) {
    out(1, "DIFFERENT property=%s class=%s hash=%llu (recorded %s %llu): %s\n", prop.c_str(), o.cls.c_str(), (unsigned long long)o.hash, cls.c_str(), (unsigned long long)hash, o.msg.c_str());
    return 4;
  }
  out(1, "NOT-REPRODUCED property=%s status=%d %s\n", prop.c_str(), o.status, o.msg.c_str());
  return 0;
}

int main(int argc, char** argv, char** envp) {
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("NWSIM_REEXEC")) {
    if (personality(per | ADDR_NO_RANDOMIZE) != -1) {
      setenv("NWSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  (void)envp;
  const char *prop = nullptr, *outfile = nullptr, *replaydir = ".", *replay = nullptr, *known = nullptr;
  std::uint64_t base = 1, runs = 1000, one = ~0ull;
  double        maxs = 60, minbudget = 25;
  int           workers = 8;
  bool          verbose = false;
  int           selftest = 16;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto        v = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property") prop = v();
    else if (a == "--tier") g_tier = !strcmp(v(), "thorough");
    else if (a == "--seed") base = strtoull(v(), nullptr, 10);
    else if (a == "--runs") runs = strtoull(v(), nullptr, 10);
    else if (a == "--max-seconds") maxs = atof(v());
    else if (a == "--minimise-seconds") minbudget = atof(v());
    else if (a == "--workers") workers = atoi(v());
    else if (a == "--out") outfile = v();
    else if (a == "--replay-dir") replaydir = v();
    else if (a == "--replay") replay = v();
    else if (a == "--known") known = v();
    else if (a == "--selftest") selftest = atoi(v());
    else if (a == "--one") one = strtoull(v(), nullptr, 10);
    else if (a == "-v") verbose = true;
    else if (a == "--list") { for (int k = 0; k < g_nproperties; k++) out(1, "%s\n", g_properties[k].id); return 0; }
    else { out(2, "unknown argument %s\n", a.c_str()); syscall(SYS_exit_group, 2); }
  }
  if (replay) syscall(SYS_exit_group, do_replay(replay, verbose));
  for (int i = 0; i < g_nproperties; i++)
    if (prop && !strcmp(prop, g_properties[i].id)) g_prop = &g_properties[i];
  if (!g_prop) { out(2, "no such property\n"); syscall(SYS_exit_group, 2); }
  if (known) load_known(known);
  if (one != ~0ull) {
    g_sh = shm<Shared>();
    run_once(seed_of(base, one), nullptr, true);
    Outcome o = outcome();
    out(1, "%s", o.notes.c_str());
    out(1, "status %d class %s msg %s hash %llu steps %llu preempts %llu switches %llu fibers %llu nontrivial %d\n", o.status, o.cls.c_str(), o.msg.c_str(),
        (unsigned long long)o.hash, (unsigned long long)o.steps, (unsigned long long)o.preempts, (unsigned long long)o.switches, (unsigned long long)o.fibers, g_sh->nontrivial);
    for (int i = 0; i < NPROBES && g_sh->faults[i].name[0]; i++) out(1, "fault %s %llu\n", g_sh->faults[i].name, (unsigned long long)g_sh->faults[i].count);
    for (int i = 0; i < NPROBES && g_sh->probes[i].name[0]; i++) out(1, "probe %s %llu\n", g_sh->probes[i].name, (unsigned long long)g_sh->probes[i].count);
    if (verbose) {   // does the log of the run reproduce it?
      Streams s1 = take_log();
      run_once(seed_of(base, one), &s1, true);
      Outcome o2 = outcome();
      Streams s2 = take_log();
      out(1, "replayed from its log: status %d class %s msg %s hash %llu steps %llu\n", o2.status, o2.cls.c_str(), o2.msg.c_str(), (unsigned long long)o2.hash, (unsigned long long)o2.steps);
      for (int s = 0; s < sim::S_NSTREAMS; s++) {
        std::size_t k = 0, n = std::min(s1.v[s].size(), s2.v[s].size());
        while (k < n && s1.v[s][k] == s2.v[s][k]) k++;
        out(1, "stream %d: %zu and %zu choices, equal up to %zu", s, s1.v[s].size(), s2.v[s].size(), k);
        for (std::size_t j = k; j < k + 6 && j < n; j++) out(1, " %u/%u", s1.v[s][j], s2.v[s][j]);
        out(1, "\n");
      }
    }
    syscall(SYS_exit_group, o.status == ST_VIOLATION ? 1 : o.status == ST_ENGINE ? 2 : 0);
  }

  double t0 = now();
  g_pairmap = shm<std::uint32_t>((1u << 22) / 32);
  Agg*   agg = shm<Agg>(workers);
  struct Rec { std::uint64_t h, sched; unsigned char nt, done; };
  Rec* rec = shm<Rec>(runs);
  for (int w = 0; w < workers; w++) agg[w].viol_index = agg[w].engine_index = ~0ull;
  std::uint64_t* stop_at = shm<std::uint64_t>();
  *stop_at = ~0ull;
  std::vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    pid_t p = (pid_t)syscall(SYS_fork);
    if (p) { pids.push_back(p); continue; }
    g_sh   = shm<Shared>();
    Agg& A = agg[w];
    for (std::uint64_t i = w; i < runs; i += workers) {
      if (now() - t0 > maxs) break;
      if (i > __atomic_load_n(stop_at, __ATOMIC_RELAXED)) break;
      run_once(seed_of(base, i), nullptr, false);
      A.runs++;
      A.steps += g_sh->steps; A.switches += g_sh->switches; A.preempts += g_sh->preempts; A.fibers += g_sh->fibers; A.sim_ns += g_sh->sim_ns;
      rec[i] = {g_sh->hash, g_sh->sched_hash ^ g_sh->scen_hash * 3, (unsigned char)(g_sh->nontrivial != 0), 1};
      if (g_sh->status == ST_OK) A.ok++;
      else if (g_sh->status == ST_FAILSTOP_OK) A.failstops++;
      else if (g_sh->status == ST_VIOLATION) {
        int k = known_index(g_sh->cls, g_sh->msg);
        if (k >= 0 && k < 64) { A.known[k]++; continue; }
        A.viol_index = i;
        std::uint64_t cur = __atomic_load_n(stop_at, __ATOMIC_RELAXED);
        while (i < cur && !__atomic_compare_exchange_n(stop_at, &cur, i, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
        break;
      } else {
        A.engine_index = i;
        snprintf(A.engine_msg, sizeof A.engine_msg, "%.390s", g_sh->msg);
        __atomic_store_n(stop_at, 0, __ATOMIC_RELAXED);
        break;
      }
    }
    memcpy(A.faults, g_sh->faults, sizeof A.faults);
    memcpy(A.probes, g_sh->probes, sizeof A.probes);
    syscall(SYS_exit_group, 0);
  }
  bool lost = false;
  for (pid_t p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (st != 0) lost = true;
  }
  double explore = now() - t0;
  Agg    T{};
  T.viol_index = T.engine_index = ~0ull;
  for (int w = 0; w < workers; w++) {
    Agg& A = agg[w];
    T.runs += A.runs; T.ok += A.ok; T.failstops += A.failstops; T.steps += A.steps; T.switches += A.switches; T.preempts += A.preempts; T.fibers += A.fibers; T.sim_ns += A.sim_ns;
    for (int k = 0; k < 64; k++) T.known[k] += A.known[k];
    fold(T.faults, A.faults);
    fold(T.probes, A.probes);
    T.viol_index = std::min(T.viol_index, A.viol_index);
    if (A.engine_index != ~0ull) { T.engine_index = A.engine_index; memcpy(T.engine_msg, A.engine_msg, sizeof T.engine_msg); }
  }
  int         rc = 0;
  std::string err;
  if (lost) { err = "a worker process was lost"; rc = 2; }
  if (T.engine_index != ~0ull) { err = "simulator error in run " + std::to_string(T.engine_index) + ": " + T.engine_msg; rc = 2; }
  std::uint64_t uniq = 0, uniq_nt = 0, uniq_sched = 0;
  {
    std::vector<std::uint64_t> a, b, c;
    for (std::uint64_t i = 0; i < runs; i++)
      if (rec[i].done) { a.push_back(rec[i].h); c.push_back(rec[i].sched); if (rec[i].nt) b.push_back(rec[i].h); }
    auto cnt = [](std::vector<std::uint64_t>& v) { std::sort(v.begin(), v.end()); return (std::uint64_t)(std::unique(v.begin(), v.end()) - v.begin()); };
    uniq = cnt(a); uniq_nt = cnt(b); uniq_sched = cnt(c);
  }
  std::uint64_t pairs = 0;
  for (std::uint32_t i = 0; i < (1u << 22) / 32; i++) pairs += __builtin_popcount(g_pairmap[i]);
  g_pairmap = nullptr;
  g_sh = shm<Shared>();
  // determinism gate: the same seeds again, in this process, must give the same executions
  std::uint64_t gate = 0, gate_bad = 0, logs = 0, logs_bad = 0;
  std::vector<std::string> samples;
  for (std::uint64_t k = 0; k < (std::uint64_t)selftest && rc == 0 && T.viol_index == ~0ull; k++) {
    std::uint64_t i = k < 4 ? k : (k * 7919) % runs;
    if (!rec[i].done) continue;
    run_once(seed_of(base, i), nullptr, true);
    gate++;
    if (g_sh->hash != rec[i].h) { gate_bad++; err = "run " + std::to_string(i) + " was not repeatable"; rc = 2; }
    if (k < 4) samples.push_back("run " + std::to_string(i) + ": " + std::string(g_sh->notes, g_sh->notes_n));
    // and the log of its choices must give it too
    Streams lg = take_log();
    run_once(seed_of(base, i), &lg, false);
    logs++;
    if (g_sh->hash != rec[i].h) logs_bad++;
  }
  std::string   vpath, vmsg, vcls;
  std::uint64_t tries = 0;
  double        mint  = 0;
  if (rc == 0 && T.viol_index != ~0ull) {
    std::uint64_t i = T.viol_index, sd = seed_of(base, i);
    run_once(sd, nullptr, true);
    Outcome o1 = outcome();
    Streams s1 = take_log();
    run_once(sd, nullptr, true);
    Outcome o2 = outcome();
    if (o1.status != ST_VIOLATION || o1.hash != o2.hash || o1.cls != o2.cls || o1.hash != rec[i].h) {
      err = "the violation of run " + std::to_string(i) + " (" + o1.cls + ": " + o1.msg + ") was not repeatable";
      rc = 2;
    } else {
      run_once(sd, &s1, false);
      Outcome o3 = outcome();
      Streams m = s1;
      double  tm = now();
      bool    rep_ok = o3.status == ST_VIOLATION && o3.cls == o1.cls;
      if (rep_ok) m = minimise(sd, s1, o1.cls, minbudget, tries);
      mint = now() - tm;
      run_once(sd, &m, true);
      Outcome om = outcome();
      vpath = std::string(replaydir) + "/" + g_prop->id + "-" + std::to_string(base) + "-" + std::to_string(i) + ".replay";
      for (int version = 1; version <= 2; version++) {
        if (version == 1 && (!rep_ok || om.status != ST_VIOLATION)) continue;
        if (version == 2) om = o1;
        write_replay(vpath.c_str(), sd, i, version == 2 ? Streams() : m, om, o1, s1, version);
        // a fresh process must reproduce it from the file
        pid_t p = (pid_t)syscall(SYS_fork);
        if (p == 0) {
          const char* a[] = {argv[0], "--replay", vpath.c_str(), nullptr};
          int fd = (int)syscall(SYS_open, "/dev/null", 1);
          syscall(SYS_dup2, fd, 1);
          execv("/proc/self/exe", (char* const*)a);
          syscall(SYS_exit_group, 9);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { err = "a fresh process did not reproduce " + vpath; rc = 2; }
        else { rc = 1; err.clear(); vmsg = om.msg; vcls = om.cls; break; }
      }
    }
  }
  std::string j = "{";
  auto        num = [&](const char* k, double v) { char b[80]; snprintf(b, sizeof b, "\"%s\": %.15g, ", k, v); j += b; };
  auto        str = [&](const char* k, const std::string& v) { j += std::string("\"") + k + "\": \"" + jesc(v) + "\", "; };
  str("property", g_prop->id);
  str("rule", g_prop->rule);
  num("runs", T.runs); num("runs_planned", runs); num("ok", T.ok); num("accepted_loud_stops", T.failstops);
  num("distinct_executions", uniq); num("distinct_nontrivial", uniq_nt); num("distinct_schedules", uniq_sched);
  num("preemption_site_pairs", pairs);
  num("steps", T.steps); num("switches", T.switches); num("preemptions", T.preempts); num("simulated_threads", T.fibers);
  num("sim_seconds", T.sim_ns * 1e-9); num("explore_seconds", explore);
  num("repeat_checks", gate); num("repeat_mismatches", gate_bad); num("log_checks", logs); num("log_mismatches", logs_bad);
  num("minimise_runs", tries); num("minimise_seconds", mint);
  num("rc", rc); str("error", err); str("violation_class", vcls); str("violation", vmsg); str("replay", vpath);
  auto table = [&](const char* k, Named* t) {
    j += std::string("\"") + k + "\": {";
    bool first = true;
    for (int i = 0; i < NPROBES && t[i].name[0]; i++) { j += std::string(first ? "" : ", ") + "\"" + jesc(t[i].name) + "\": " + std::to_string(t[i].count); first = false; }
    j += "}, ";
  };
  table("faults", T.faults);
  table("probes", T.probes);
  j += "\"known\": [";
  for (std::size_t k = 0; k < g_known.size(); k++)
    j += std::string(k ? ", " : "") + "{\"class\": \"" + jesc(g_known[k].cls) + "\", \"match\": \"" + jesc(g_known[k].sub) + "\", \"hits\": " + std::to_string(T.known[k]) + "}";
  j += "], \"samples\": [";
  for (std::size_t k = 0; k < samples.size(); k++) j += std::string(k ? ", " : "") + "\"" + jesc(samples[k]) + "\"";
  j += "]}\n";
  if (outfile) {
    int fd = (int)syscall(SYS_open, outfile, 01 | 0100 | 01000, 0644);
    raw_write(fd, j.data(), j.size());
    syscall(SYS_close, fd);
  } else raw_write(1, j.data(), j.size());
  if (rc == 1) out(1, "VIOLATION property=%s replay=%s\n%s: %s\n", g_prop->id, vpath.c_str(), vcls.c_str(), vmsg.c_str());
  if (rc == 2) out(2, "ERROR %s\n", err.c_str());
  syscall(SYS_exit_group, rc);
}
