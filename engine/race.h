// Data races between two operations that run as two threads. The operations are executed one after the other;
// an access of the second thread conflicts with one of the first when one of them writes, not both are atomic and
// the two hold no common lock. As this uses locks only and not the order in which the two happened to run, it covers
// every schedule of the two. Memory the first thread allocates itself, both threads' own stacks and the
// initialization of local statics are exempt: the second thread can reach that memory only through a shared access
// that is checked.
#pragma once
struct RaceCell {
  u8 fl;                      // of thread 1: 1 read, 2 write, 4 atomic read, 8 atomic write
  u8 rany, rexcl, wany, wexcl;  // locks held at every read / at every write
};
static RaceCell *g_race;
static u64 g_thrstk, g_thrheap;
static bool g_atomicacc = false;
static int g_inguard = 0;
static u8 g_lany = 0, g_lexcl = 0;
static std::vector<std::pair<u64, u64>> g_tls;  // thread-local variables: address, size
static void tlsReset();                        // gives them their initial values
static std::vector<std::pair<u64, int>> g_locks;  // address, times held (index = bit)

static void raceAccess(u64 a, u64 n, bool write) {
  if (g_inguard || (a >= g_thrstk && a < STK1) || a >= g_thrheap) return;
  if (!write && (SHB(a) & SRO)) return;
  for (auto &t : g_tls) if (a >= t.first && a < t.first + t.second) return;
  for (u64 i = 0; i < n; i++) {
    RaceCell &c = g_race[a + i - ARENA];
    if (g_thr == 1) {
      u8 b = (write ? 2 : 1) << (g_atomicacc ? 2 : 0);
      if (write) {
        if (!(c.fl & 10)) c.wany = c.wexcl = 255;
        c.wany &= g_lany;
        c.wexcl &= g_lexcl;
      } else {
        if (!(c.fl & 5)) c.rany = c.rexcl = 255;
        c.rany &= g_lany;
        c.rexcl &= g_lexcl;
      }
      c.fl |= b;
    } else if (c.fl) {
      bool w = c.fl & (g_atomicacc ? 2 : 10), r = write && (c.fl & (g_atomicacc ? 1 : 5));
      if (w && ((c.wany & g_lexcl) | (c.wexcl & g_lany))) w = false;
      if (r && ((c.rany & g_lexcl) | (c.rexcl & g_lany))) r = false;
      if (w || r) {
        g_thr = 0;
        pathViolation(std::string("data race: one thread ") + (write ? "writes" : "reads") + " memory another thread " +
                      (w ? "writes" : "reads") + " without a common lock");
      }
    }
  }
}
static void raceThread(int k) {
  if (!g_race) {
    g_race = (RaceCell *)mmap(nullptr, ASIZE * sizeof(RaceCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_race == MAP_FAILED) { g_race = nullptr; pathIncomplete("no memory for access records"); }
  }
  if (k && g_lany) pathViolation("a lock is still held when the operation has ended");
  if (k) tlsReset();
  g_thr = k;
  g_thrstk = g_stktop;
  if (k < 2) g_thrheap = g_heaptop;
}
static void raceLock(u64 m, int mode) {  // 1 exclusive, 2 shared, 0 release
  unsigned i = 0;
  while (i < g_locks.size() && g_locks[i].first != m) i++;
  if (i == g_locks.size()) {
    if (i == 8) pathIncomplete("more than 8 locks");
    g_locks.push_back({m, 0});
  }
  u8 bit = 1 << i;
  int &held = g_locks[i].second;
  if (mode == 0) {
    if (held == 0) pathViolation("a lock that is not held is released");
    if (--held == 0) { g_lany &= ~bit; g_lexcl &= ~bit; }
    return;
  }
  if (held && (mode == 1 || (g_lexcl & bit))) {
    if (*(int *)(m + 16) != 1) pathViolation("deadlock: a thread acquires a lock it holds");  // not a recursive mutex
  }
  held++;
  g_lany |= bit;
  if (mode == 1) g_lexcl |= bit;
}
