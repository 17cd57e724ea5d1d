// Shared state, results, path forking and solver interface of the symbolic executor.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "expr.h"
#include "ranges.h"

#define MAXENT 128
#define MAXREACH 64
struct EntryStats {
  std::atomic<u64> paths, completed, assumed_out, forks, branches, queries, qsat, qunsat, qunknown,
      cachehits, steps, asserts, assert_queries, assert_const, violations, incomplete, aborted, samples, hard, solver_us, deepest, domains;
  std::atomic<u32> reach[MAXREACH];
  char reachname[MAXREACH][48];
  std::atomic<u32> nreach;
  std::atomic<u32> stop;
};
struct Shared {
  sem_t tok;
  std::atomic<u64> livepaths;
  std::atomic<u32> stopall;
  std::atomic<u64> crashed;
  EntryStats ent[MAXENT];
  u8 cov[1 << 20];  // per (repo) basic block
};
static Shared *g_sh;
static EntryStats *g_st;
static int g_entry;
static const char *g_entryname;
static std::string g_out;  // output directory
static bool g_owntoken = false;
static double g_deadline;
static u64 g_steplimit = 8000000;
static u64 g_maxviol = 12;
static unsigned g_sample_mod = 1;
static u64 g_pathid = 1;
static u64 g_rlimit = 200000000;
static std::vector<const Expr *> g_pc;
static std::vector<std::pair<std::string, const Expr *>> g_obs;  // observations: label, value
static std::vector<u64> g_obs_c;
static bool g_path_incomplete = false;
static u64 g_steps = 0, g_steps0 = 0;  // of this process; of the path before this process was forked
static u64 g_nbranch = 0, g_branchlimit = 3000;  // solver decisions on this path

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void appendFile(const std::string &path, const std::string &data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  ssize_t r = write(fd, data.data(), data.size());
  (void)r;
  close(fd);
}

[[noreturn]] static void endProcess() {
  if (g_owntoken) sem_post(&g_sh->tok);
  _exit(0);
}

static std::string jsonEsc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static std::string inputsJson() {
  std::string r = "[";
  for (size_t i = 0; i < g_syms.size(); i++) {
    char b[128];
    snprintf(b, sizeof b, "%s[\"%s\",%llu]", i ? "," : "", g_syms[i].name,
             (unsigned long long)(g_syms[i].base + g_model[i]));
    r += b;
  }
  return r + "]";
}
static std::string obsJson() {
  std::string r = "[";
  for (size_t i = 0; i < g_obs.size(); i++) {
    char b[64];
    u64 v = g_obs[i].second ? evalE(g_obs[i].second) : g_obs_c[i];
    snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long)v);
    r += b;
  }
  return r + "]";
}
static void writeRecord(const char *kind, const std::string &msg, const std::string &where) {
  std::string s = std::string("{\"kind\":\"") + kind + "\",\"entry\":\"" + g_entryname +
                  "\",\"msg\":\"" + jsonEsc(msg) + "\",\"where\":\"" + jsonEsc(where) +
                  "\",\"steps\":" + std::to_string(g_steps) + ",\"inputs\":" + inputsJson() +
                  ",\"obs\":" + obsJson() + "}\n";
  appendFile(g_out + "/records.jsonl", s);
}

static std::string g_where;  // filled by the interpreter on demand
static std::string currentLocation();

static void flushSteps() {
  g_st->steps += g_steps;
}

[[noreturn]] static void pathEnd() {  // completed
  g_st->paths++;
  g_st->completed++;
  if (!g_path_incomplete) {
    // sample for native validation
    u64 n = g_st->samples.load();
    u64 h = g_pathid * 0x9e3779b97f4a7c15ull;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    if (n < 48 || (n < 400 && h % 16 == 0)) {
      g_st->samples++;
      writeRecord("path", "", "");
    }
  }
  flushSteps();
  endProcess();
}
[[noreturn]] static void pathOut() {  // assumption violated
  g_st->paths++;
  g_st->assumed_out++;
  flushSteps();
  endProcess();
}
[[noreturn]] static void pathIncomplete(const std::string &why) {
  g_st->paths++;
  u64 n = g_st->incomplete++;
  if (n < 60) writeRecord("incomplete", why, currentLocation());
  flushSteps();
  endProcess();
}
[[noreturn]] static void pathViolation(const std::string &why) {
  g_st->paths++;
  u64 n = g_st->violations++;
  if (n < g_maxviol) writeRecord("violation", why, currentLocation());
  if (n + 1 >= g_maxviol) g_st->stop = 1;
  flushSteps();
  endProcess();
}
static void checkStop() {
  if (g_st->stop || g_sh->stopall || now() > g_deadline) {
    if (!(g_st->stop && g_st->violations >= g_maxviol)) {
      g_st->aborted++;
    }
    g_st->paths++;
    flushSteps();
    endProcess();
  }
}

// ---------------------------------------------------------------- forking
// Returns true in the new process. Either the new process runs in parallel (a token was free) or this
// process waits until the new one has finished (depth first).
static bool doFork() {
  checkStop();
  g_st->forks++;
  while (waitpid(-1, nullptr, WNOHANG) > 0) {}
  bool par = sem_trywait(&g_sh->tok) == 0;
  pid_t pid;
  for (int tries = 0;; tries++) {
    pid = fork();
    if (pid >= 0 || tries > 50) break;
    usleep(20000);
  }
  if (pid < 0) {
    if (par) sem_post(&g_sh->tok);
    pathIncomplete("fork failed");
  }
  if (pid == 0) {
    g_owntoken = par;
    g_steps0 += g_steps;
    g_steps = 0;
    g_pathid = g_pathid * 2 + 1 + (g_pathid >> 50);
    return true;
  }
  g_pathid = g_pathid * 2 + (g_pathid >> 50);
  if (!par) {
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { g_sh->crashed++; g_st->aborted++; }
    checkStop();
  }
  return false;
}

// ---------------------------------------------------------------- solver
static Z3_solver g_solver, g_solver2 = nullptr;  // quick default solver; bit-blasting SAT solver for what it does not decide
static u64 g_rlimit1 = 100000, g_rlimitchars = 20000;  // the latter when all symbols are characters or smaller: the interval procedures decide these
static Z3_params limitParams(u64 rl) {
  Z3_params p = Z3_mk_params(g_z3);
  Z3_params_inc_ref(g_z3, p);
  Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "rlimit"), (unsigned)rl);
  Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "random_seed"), 1);
  return p;
}
static void onAlarm(int);
static void initZ3() {
  signal(SIGALRM, onAlarm);
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  g_z3 = Z3_mk_context(cfg);
  g_solver = Z3_mk_simple_solver(g_z3);
  Z3_solver_inc_ref(g_z3, g_solver);
  Z3_solver_set_params(g_z3, g_solver, limitParams(g_rlimit1));
}

static double g_qtimeout = 20;
static volatile int g_alarms = 0;
static void onAlarm(int) {  // a query ran too long: ask Z3 to stop; if it does not, give the path up
  if (g_alarms++ == 0) { Z3_interrupt(g_z3); return; }
  if (g_alarms < 4) return;
  g_st->paths++;
  g_st->incomplete++;
  g_st->qunknown++;
  if (g_owntoken) sem_post(&g_sh->tok);
  _exit(0);
}
static Z3_lbool timedCheck(Z3_solver sv) {
  g_alarms = 0;
  struct itimerval t = {{2, 0}, {(time_t)g_qtimeout, (suseconds_t)((g_qtimeout - (time_t)g_qtimeout) * 1e6)}};
  setitimer(ITIMER_REAL, &t, nullptr);
  Z3_lbool r = Z3_solver_check(g_z3, sv);
  struct itimerval z = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &z, nullptr);
  return r;
}

struct CacheEnt { int r; std::vector<u32> ids; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<u64, CacheEnt> g_qcache;
static bool g_dumpq = false;
static u64 g_ndump = 0;

// 1 sat (model in out), 0 unsat, -1 unknown
static int wideSym(const Expr *e);
static int wideFind(const Expr *e, int m, u64 &at);
static bool modelHolds(const std::vector<u64> &m);
static int boxSolve(const Expr *q, u64 s0, u64 s1, const std::vector<u8> &in, u64 limit, std::vector<u64> &m);
static u64 g_pin0 = 0, g_pin1 = 0;  // symbols the path condition leaves only one value
static int checkSat(const Expr *q, std::vector<u64> &out, bool wide = false) {
  if (isC(q)) { out = g_model; return q->c ? 1 : 0; }
  u64 s0 = q->s0 & ~g_pin0, s1 = q->s1 & ~g_pin1;
  static std::vector<u8> in;
  in.assign(g_pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < g_pc.size(); i++)
      if (!in[i] && ((g_pc[i]->s0 & s0) | (g_pc[i]->s1 & s1))) {
        in[i] = 1;
        s0 |= g_pc[i]->s0 & ~g_pin0;
        s1 |= g_pc[i]->s1 & ~g_pin1;
        ch = true;
      }
  }
  u64 key = hmix(0x1234567, q->id);
  std::vector<u32> ids;
  for (size_t i = 0; i < g_pc.size(); i++) if (in[i]) ids.push_back(g_pc[i]->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  u64 p0 = q->s0, p1 = q->s1;  // symbols with one value left that occur: the query says which
  for (size_t i = 0; i < g_pc.size(); i++) if (in[i]) { p0 |= g_pc[i]->s0; p1 |= g_pc[i]->s1; }
  p0 &= g_pin0; p1 &= g_pin1;
  std::vector<const Expr *> fixed;
  for (size_t i = 0; i < g_syms.size() && (p0 | p1); i++)
    if (i < 64 ? (p0 >> i & 1) : i < 128 && (p1 >> (i - 64) & 1)) {
      const Expr *f = mkEq(intern(E_SYM, g_syms[i].w, i), mkC(g_syms[i].w, g_model[i]));
      if (!isC(f)) { fixed.push_back(f); ids.push_back(f->id); }
    }
  for (u32 x : ids) key = hmix(key, x + 1);
  ids.push_back(q->id);
  auto it = g_qcache.find(key);
  if (it != g_qcache.end() && it->second.ids == ids) {
    g_st->cachehits++;
    if (it->second.r == 1) {
      out = g_model;
      for (auto &p : it->second.m) out[p.first] = p.second;
    }
    return it->second.r;
  }
  double t0 = now();
  auto settle = [&](int f, const std::vector<u64> &m) {  // decided by going through the values left
    g_st->domains++;
    CacheEnt ce;
    ce.ids = ids;
    ce.r = f;
    if (f == 1) {
      for (size_t i = 0; i < g_syms.size() && i < 128; i++)
        if (i < 64 ? (s0 >> i & 1) : (s1 >> (i - 64) & 1)) ce.m.push_back({(u32)i, m[i]});
      out = m;
    }
    g_st->solver_us += (u64)((now() - t0) * 1e6);
    g_qcache[key] = ce;
    return f;
  };
  std::vector<u64> pm;
  g_st->queries++;
  Z3_solver_push(g_z3, g_solver);
  for (size_t i = 0; i < g_syms.size(); i++) {
    unsigned m = i & 127;
    bool inm = m < 64 ? (s0 >> m & 1) : (s1 >> (m - 64) & 1);
    if (inm && g_syms[i].hi < maskw(g_syms[i].w)) {
      const Expr *s = intern(E_SYM, g_syms[i].w, i);
      Z3_solver_assert(g_z3, g_solver,
                       Z3_mk_bvule(g_z3, toZ3(s), toZ3(mkC(g_syms[i].w, g_syms[i].hi))));
    }
  }
  for (size_t i = 0; i < g_pc.size(); i++)
    if (in[i]) Z3_solver_assert(g_z3, g_solver, toZ3b(g_pc[i]));
  for (auto f : fixed) Z3_solver_assert(g_z3, g_solver, toZ3b(f));
  Z3_solver_assert(g_z3, g_solver, toZ3b(q));
  if (g_dumpq && (g_ndump++ % 97) == 0) {
    Z3_string s = Z3_solver_to_string(g_z3, g_solver);
    char nm[64];
    snprintf(nm, sizeof nm, "/q_%d_%llu_%llu.smt2", g_entry, (unsigned long long)g_pathid, (unsigned long long)g_ndump);
    appendFile(g_out + nm, std::string("(set-logic QF_BV)\n") + s + "(check-sat)\n");
  }
  bool chars = false, others = false;
  for (size_t i = 0; i < g_syms.size() && i < 128; i++)
    if (i < 64 ? (s0 >> i & 1) : (s1 >> (i - 64) & 1)) {
      if (g_syms[i].hi > 0x10FFFF) others = true;
      else if (g_syms[i].hi > 63) chars = true;
    }
  static u64 lim = g_rlimit1;
  u64 want = chars && !others ? std::min(g_rlimitchars, g_rlimit1) : g_rlimit1;
  if (want != lim) { lim = want; Z3_solver_set_params(g_z3, g_solver, limitParams(lim)); }
  Z3_lbool r = timedCheck(g_solver);
  Z3_solver used = g_solver;
  int ws = r == Z3_L_UNDEF && wide ? wideSym(q) : -1;
  if (ws >= 0) {  // too hard at once: decide it exactly over the one symbol's intervals
    u64 at = 0;
    int f = wideFind(q, ws, at);
    std::vector<u64> m = g_model;
    if (f == 1) m[ws] = at;
    if (f == 0 || (f == 1 && modelHolds(m))) {
      Z3_solver_pop(g_z3, g_solver, 1);
      return settle(f, m);
    }
  }
  if (r == Z3_L_UNDEF && !others) {
    int f = boxSolve(q, s0, s1, in, 20000000, pm);
    if (f >= 0) {
      Z3_solver_pop(g_z3, g_solver, 1);
      return settle(f, pm);
    }
  }
  if (r == Z3_L_UNDEF) {
    if (!g_solver2) {
      g_solver2 = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV"));
      Z3_solver_inc_ref(g_z3, g_solver2);
      Z3_solver_set_params(g_z3, g_solver2, limitParams(g_rlimit));
    }
    used = g_solver2;
    g_st->hard++;
    Z3_solver_reset(g_z3, used);
    Z3_ast_vector av = Z3_solver_get_assertions(g_z3, g_solver);
    Z3_ast_vector_inc_ref(g_z3, av);
    for (unsigned i = 0; i < Z3_ast_vector_size(g_z3, av); i++) Z3_solver_assert(g_z3, used, Z3_ast_vector_get(g_z3, av, i));
    Z3_ast_vector_dec_ref(g_z3, av);
    r = timedCheck(used);
  }
  CacheEnt ce;
  ce.ids = ids;
  ce.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (ce.r == 1) {
    Z3_model m = Z3_solver_get_model(g_z3, used);
    Z3_model_inc_ref(g_z3, m);
    out = g_model;
    for (size_t i = 0; i < g_syms.size(); i++) {
      unsigned b = i & 127;
      bool inm = b < 64 ? (s0 >> b & 1) : (s1 >> (b - 64) & 1);
      if (!inm) continue;
      Z3_ast v;
      u64 val = 0;
      if (Z3_model_eval(g_z3, m, toZ3(intern(E_SYM, g_syms[i].w, i)), true, &v))
        Z3_get_numeral_uint64(g_z3, v, (uint64_t *)&val);
      out[i] = val;
      ce.m.push_back({(u32)i, val});
    }
    Z3_model_dec_ref(g_z3, m);
    g_st->qsat++;
  } else if (ce.r == 0) g_st->qunsat++;
  else {
    g_st->qunknown++;
    if (g_st->qunknown < 6) {
      char nm[96];
      snprintf(nm, sizeof nm, "/unk_%d_%llu.smt2", g_entry, (unsigned long long)g_st->qunknown.load());
      appendFile(g_out + nm, std::string("(set-logic QF_BV)\n") + Z3_solver_to_string(g_z3, g_solver) + "(check-sat)\n");
    }
  }
  if (g_dumpq && (g_ndump % 97) == 1) {
    char nm[96];
    snprintf(nm, sizeof nm, "/q_%d_%llu_%llu.res", g_entry, (unsigned long long)g_pathid, (unsigned long long)g_ndump);
    appendFile(g_out + nm, ce.r == 1 ? "sat" : ce.r == 0 ? "unsat" : "unknown");
  }
  Z3_solver_pop(g_z3, g_solver, 1);
  g_st->solver_us += (u64)((now() - t0) * 1e6);
  g_qcache[key] = ce;
  return ce.r;
}

static void setModel(const std::vector<u64> &m) {
  g_model = m;
  g_modelgen++;
}
// symbols the path condition leaves only one value: conditions over them need no query
static bool pinned(const Expr *e) { return !(e->s0 & ~g_pin0) && !(e->s1 & ~g_pin1); }
static void tryPin(const Expr *e) {
  int n = __builtin_popcountll(e->s0) + __builtin_popcountll(e->s1);
  if (n != 1 || pinned(e)) return;
  unsigned m = e->s0 ? __builtin_ctzll(e->s0) : 64 + __builtin_ctzll(e->s1);
  if (m >= g_syms.size() || g_syms.size() > 128) return;
  std::vector<u64> out;
  const Expr *s = intern(E_SYM, g_syms[m].w, m);
  if (checkSat(mkNot(mkEq(s, mkC(g_syms[m].w, g_model[m]))), out) == 0) { g_pin0 |= e->s0; g_pin1 |= e->s1; }
}
// Values the path condition's single-symbol parts leave a symbol with a small declared domain (bit v = value v).
// Used only to see, exactly, that one side of a branch is infeasible; feasible sides and assertions go to Z3.
static std::vector<u64> g_dom;
static std::unordered_map<u32, u64> g_truth;
static int unarySym(const Expr *e) {  // the one symbol of e that is not pinned, if its declared domain is small
  u64 a = e->s0 & ~g_pin0, b = e->s1 & ~g_pin1;
  if (__builtin_popcountll(a) + __builtin_popcountll(b) != 1 || g_syms.size() > 128) return -1;
  unsigned m = a ? __builtin_ctzll(a) : 64 + __builtin_ctzll(b);
  if (m >= g_syms.size() || g_syms[m].hi > 63) return -1;
  while (g_dom.size() < g_syms.size()) {
    u64 hi = g_syms[g_dom.size()].hi;
    g_dom.push_back(hi >= 63 ? ~0ull : (1ull << (hi + 1)) - 1);
  }
  return (int)m;
}
static u64 truthMask(const Expr *e, int m) {
  bool alone = __builtin_popcountll(e->s0) + __builtin_popcountll(e->s1) == 1;
  if (alone) {
    auto it = g_truth.find(e->id);
    if (it != g_truth.end()) return it->second;
  }
  u64 keep = g_model[m], r = 0;
  for (u64 v = 0; v <= g_syms[m].hi; v++) {
    if (!alone && !(g_dom[m] >> v & 1)) continue;
    g_model[m] = v;
    g_modelgen++;
    if (evalE(e)) r |= 1ull << v;
  }
  g_model[m] = keep;
  g_modelgen++;
  if (alone) g_truth[e->id] = r;
  return r;
}
// The same for a symbol with a large domain: the values left to it, as intervals (a superset when the work limit was hit).
static std::vector<std::vector<Iv>> g_ivdom;
static int wideSym(const Expr *e) {
  u64 a = e->s0 & ~g_pin0, b = e->s1 & ~g_pin1;
  if (__builtin_popcountll(a) + __builtin_popcountll(b) != 1 || g_syms.size() > 128) return -1;
  unsigned m = a ? __builtin_ctzll(a) : 64 + __builtin_ctzll(b);
  if (m >= g_syms.size() || g_syms[m].hi <= 63 || g_syms[m].hi > 0xFFFFFFFFull) return -1;
  while (g_ivdom.size() < g_syms.size()) g_ivdom.push_back({{0, g_syms[g_ivdom.size()].hi}});
  return (int)m;
}
static const u64 IVLIMIT = 4000000;
// 1: e holds for a value of its symbol (in at) that the single-symbol path condition allows, 0: for none, -1: not found out
static int wideFind(const Expr *e, int m, u64 &at) {
  g_ivsym = m;
  g_ivwork = 0;
  for (auto &x : g_ivdom[m]) {
    int r = ivFind(e, x.lo, x.hi, at, IVLIMIT);
    if (r) return r;
  }
  return 0;
}
// Conditions over several symbols: branch and prune over all of them (exact; -1 when the work limit is hit).
static int boxSolve(const Expr *q, u64 s0, u64 s1, const std::vector<u8> &in, u64 limit, std::vector<u64> &m) {
  if (g_syms.size() > 128) return -1;
  while (g_ivdom.size() < g_syms.size()) g_ivdom.push_back({{0, g_syms[g_ivdom.size()].hi}});
  std::vector<u32> ss;
  std::vector<std::vector<Iv>> small;
  std::vector<const std::vector<Iv> *> dom;
  small.reserve(128);
  for (size_t i = 0; i < g_syms.size(); i++)
    if (i < 64 ? (s0 >> i & 1) : (s1 >> (i - 64) & 1)) {
      if (g_syms[i].hi > 0xFFFFFFFFull || ss.size() > 12) return -1;
      ss.push_back((u32)i);
      if (g_syms[i].hi <= 63 && i < g_dom.size()) {
        small.push_back({});
        for (u64 v = 0; v <= g_syms[i].hi; v++) if (g_dom[i] >> v & 1) { if (!small.back().empty() && small.back().back().hi + 1 == v) small.back().back().hi = v; else small.back().push_back({v, v}); }
        dom.push_back(&small.back());
      } else dom.push_back(&g_ivdom[i]);
    }
  std::vector<const Expr *> cs = {q};
  for (size_t i = 0; i < g_pc.size(); i++) {
    if (!in[i]) continue;
    u64 a = g_pc[i]->s0 & ~g_pin0, b = g_pc[i]->s1 & ~g_pin1;
    if (__builtin_popcountll(a) + __builtin_popcountll(b) > 1) cs.push_back(g_pc[i]);  // the others are in the intervals
  }
  int r = ivSolve(cs, ss, dom, limit);
  if (r != 1) return r;
  m = g_model;
  for (u32 i : ss) m[i] = g_blo[i];
  return modelHolds(m) && [&] { std::vector<u64> keep = g_model; g_model = m; g_modelgen++; bool t = evalE(q); g_model = keep; g_modelgen++; return t; }() ? 1 : -1;
}
static bool modelHolds(const std::vector<u64> &m) {  // does m satisfy the whole path condition?
  std::vector<u64> keep = g_model;
  g_model = m;
  g_modelgen++;
  bool ok = true;
  for (auto p : g_pc) if (!evalE(p)) { ok = false; break; }
  g_model = keep;
  g_modelgen++;
  return ok;
}
static void narrow(const Expr *e) {
  int m = unarySym(e);
  if (m < 0) {
    m = wideSym(e);
    if (m < 0) return;
    g_ivsym = m;
    g_ivwork = 0;
    std::vector<Iv> out;
    for (auto &x : g_ivdom[m]) if (!ivFilter(e, x.lo, x.hi, out, IVLIMIT)) return;
    g_ivdom[m] = out;
    if (out.size() == 1 && out[0].lo == out[0].hi) { if (m < 64) g_pin0 |= 1ull << m; else g_pin1 |= 1ull << (m - 64); }
    return;
  }
  g_dom[m] &= truthMask(e, m);
  if (__builtin_popcountll(g_dom[m]) == 1) { if (m < 64) g_pin0 |= 1ull << m; else g_pin1 |= 1ull << (m - 64); }
}
static void addPC(const Expr *e) {
  if (isC(e)) {
    if (!e->c) { fprintf(stderr, "adding false\n"); abort(); }
    return;
  }
  if (e->op == E_AND && e->w == 1) { addPC(e->a); addPC(e->b); return; }
  for (auto x : g_pc) if (x == e) return;
  g_pc.push_back(e);
  narrow(e);
  if (e->op == E_EQ) tryPin(e);
}

// e is true iff one of the collected parts is
static void disjuncts(const Expr *e, std::vector<const Expr *> &out, int depth = 0) {
  if (e->w == 1 && depth < 200) {
    if (e->op == E_OR) { disjuncts(e->a, out, depth + 1); disjuncts(e->b, out, depth + 1); return; }
    if (e->op == E_XOR && isC(e->b) && e->b->c == 1) {
      const Expr *x = e->a;
      if (x->op == E_AND) { disjuncts(mkNot(x->a), out, depth + 1); disjuncts(mkNot(x->b), out, depth + 1); return; }
      if (x->op == E_EQ && isC(x->b) && x->b->c == 0) {
        const Expr *y = x->a;
        while (y->op == E_ZEXT) y = y->a;
        if (y->op == E_OR) {
          disjuncts(mkNot(mkEq(y->a, mkC(y->w, 0))), out, depth + 1);
          disjuncts(mkNot(mkEq(y->b, mkC(y->w, 0))), out, depth + 1);
          return;
        }
      }
    }
  }
  if (isC(e) && !e->c) return;
  out.push_back(e);
}
// Branch on a 1-bit expression: returns the side this process takes.
static bool branchOn(const Expr *c, bool check = false) {  // check: an assertion, which Z3 is asked first
  if (isC(c)) return c->c;
  g_st->branches++;
  if (pinned(c)) return evalE(c);
  // syntactic: already in path condition?
  for (auto x : g_pc) {
    if (x == c) return true;
    if (x->op == E_XOR && x->w == 1 && isC(x->b) && x->a == c) return false;
    if (c->op == E_XOR && isC(c->b) && x == c->a) return false;
  }
  bool v = evalE(c);
  int us = unarySym(c);
  if (us >= 0 && !check) {
    u64 t = truthMask(c, us) & g_dom[us];
    if (t == 0 || t == g_dom[us]) { g_st->domains++; return v; }
  }
  const Expr *other = v ? mkNot(c) : c;
  std::vector<u64> m;
  if (now() > g_deadline) checkStop();
  if (++g_nbranch > g_branchlimit) pathViolation("no termination within " + std::to_string(g_branchlimit) + " symbolic branches");
  int r = -1, ws = check ? -1 : wideSym(other);
  u64 at = 0;
  if (ws >= 0) {
    r = wideFind(other, ws, at);
    if (r == 0) { g_st->domains++; return v; }
    if (r == 1) {
      m = g_model;
      m[ws] = at;
      if (modelHolds(m)) g_st->domains++;
      else r = -1;
    }
  }
  if (r < 0 && check) {  // an assertion over many characters: its parts in turn
    std::vector<const Expr *> parts;
    disjuncts(other, parts);
    r = 0;
    for (auto p : parts) {
      int k = checkSat(p, m, true);
      if (k == 1) { r = 1; break; }
      if (k < 0) r = -1;
    }
  } else if (r < 0) r = checkSat(other, m);
  if (r == 0) return v;
  if (r < 0) {
    g_path_incomplete = true;
    u64 n = g_st->incomplete++;
    if (n < 60) writeRecord("incomplete", "solver gave up (one side of a branch dropped)", currentLocation());
    addPC(v ? c : mkNot(c));
    return v;
  }
  if (doFork()) {
    setModel(m);
    addPC(other);
    return !v;
  }
  addPC(v ? c : mkNot(c));
  return v;
}
// Fix e to one value; other values are explored by other processes.
static u64 concretize(const Expr *e, unsigned limit = 100000) {
  for (;;) {
    if (isC(e)) return e->c;
    u64 v = evalE(e);
    if (pinned(e)) return v;
    const Expr *eq = mkEq(e, mkC(e->w, v));
    if (isC(eq)) return v;
    if (branchOn(eq)) return v;
  }
}
static bool mayBeTrue(const Expr *c, std::vector<u64> &m) {
  if (isC(c)) { m = g_model; return c->c; }
  if (evalE(c)) { m = g_model; return true; }
  if (pinned(c)) return false;
  int r = checkSat(c, m, true);
  if (r < 0) {
    g_path_incomplete = true;
    u64 n = g_st->incomplete++;
    if (n < 60) writeRecord("incomplete", "solver gave up on a check", currentLocation());
    return false;
  }
  return r == 1;
}
