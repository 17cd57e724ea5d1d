// Program memory: a fixed arena with a shadow byte and an expression cell per byte.
#pragma once
#include "core.h"

static const u64 ARENA = 0x100000000000ull;
static const u64 ASIZE = 0x40000000ull;
static const u64 GLOB0 = ARENA + 0x10000, GLOB1 = ARENA + 0x4000000;
static const u64 FUNC0 = ARENA + 0x4000000, FUNC1 = ARENA + 0x5000000;
static const u64 STK0 = ARENA + 0x8000000, STK1 = ARENA + 0xC000000;
static const u64 HEAP0 = ARENA + 0x10000000, HEAP1 = ARENA + ASIZE;
enum { SV = 1, SS = 2, SRO = 4, SFREED = 8 };
static u8 *g_shadow;
static u64 *g_cells;  // (Expr*) | byte index
static u64 g_globtop = GLOB0, g_stktop = STK0, g_heaptop = HEAP0, g_functop = FUNC0;
static u64 g_heaplimit = 0x18000000;  // bytes a path may allocate

struct V {
  const Expr *e;
  u64 c;
};
static inline V C(u64 c) { return V{nullptr, c}; }
static inline V FE(const Expr *e) { return isC(e) ? V{nullptr, e->c} : V{e, 0}; }
static inline const Expr *X(const V &v, unsigned w) { return v.e ? v.e : mkC(w, v.c); }

static inline u8 &SHB(u64 a) { return g_shadow[a - ARENA]; }
static inline u64 &CELL(u64 a) { return g_cells[a - ARENA]; }
static inline bool inArena(u64 a, u64 n = 1) { return a - ARENA < ASIZE && n <= ASIZE && a - ARENA + n <= ASIZE; }

static void memInit() {
  void *p = mmap((void *)ARENA, ASIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA) { perror("mmap arena"); exit(3); }
  g_shadow = (u8 *)mmap(nullptr, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_cells = (u64 *)mmap(nullptr, ASIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_shadow == MAP_FAILED || g_cells == MAP_FAILED) { perror("mmap shadow"); exit(3); }
}

static std::string hexs(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

[[noreturn]] static void memError(u64 a, u64 n, bool write) {
  std::string k;
  if (a < 4096) k = "null pointer ";
  else if (!inArena(a, n)) k = "wild pointer ";
  else {
    u8 s = SHB(a);
    for (u64 i = 0; i < n; i++) if (!(SHB(a + i) & SV)) { s = SHB(a + i); break; }
    if (s & SFREED) k = "use after free: ";
    else if (a >= HEAP0) k = "heap out-of-bounds ";
    else if (a >= STK0 && a < STK1) k = "stack out-of-bounds ";
    else if (write && (s & SRO)) k = "write to constant ";
    else k = "global out-of-bounds ";
  }
  pathViolation("memory error: " + k + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes");
}
static int g_thr = 0;  // the thread whose accesses are recorded, 0: none (see race.h)
static void raceAccess(u64 a, u64 n, bool write);
static inline bool okRange(u64 a, u64 n, bool write) {
  if (!inArena(a, n)) return false;
  const u8 *s = &SHB(a);
  for (u64 i = 0; i < n; i++) {
    if (!(s[i] & SV)) return false;
    if (write && (s[i] & SRO)) return false;
  }
  if (g_thr) raceAccess(a, n, write);
  return true;
}
static inline bool anySym(u64 a, u64 n) {
  const u8 *s = &SHB(a);
  for (u64 i = 0; i < n; i++) if (s[i] & SS) return true;
  return false;
}
static inline u64 rawRead(u64 a, unsigned n) {
  u64 v = 0;
  memcpy(&v, (void *)a, n);
  return v;
}
static const Expr *byteExpr(u64 a) {
  if (!(SHB(a) & SS)) return mkC(8, *(u8 *)a);
  u64 cl = CELL(a);
  const Expr *e = (const Expr *)(cl & ~7ull);
  unsigned idx = cl & 7, bits = std::min(8u, (unsigned)e->w - 8 * idx);
  return mkZext(mkExtract(e, 8 * idx, bits), 8);
}
// read w bits at a (already checked)
static V readMem(u64 a, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!anySym(a, n)) return C(rawRead(a, n) & maskw(w));
  u64 c0 = CELL(a);
  const Expr *e = (const Expr *)(c0 & ~7ull);
  bool same = SHB(a) & SS;
  for (unsigned i = 0; same && i < n; i++)
    if (!(SHB(a + i) & SS) || CELL(a + i) != c0 + i) same = false;
  if (same) {
    unsigned idx = c0 & 7;
    if (idx == 0 && e->w == w) return FE(e);
    if (8 * idx + w <= e->w) return FE(mkExtract(e, 8 * idx, w));
    if (idx == 0 && e->w < w) return FE(mkZext(e, w));
  }
  const Expr *r = byteExpr(a);
  for (unsigned i = 1; i < n; i++) r = mkConcat(byteExpr(a + i), r);
  if (r->w > w) r = mkExtract(r, 0, w);
  return FE(r);
}
static void writeMem(u64 a, const V &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    u64 c = v.c & maskw(w);
    memcpy((void *)a, &c, n);
    u8 *s = &SHB(a);
    for (unsigned i = 0; i < n; i++) s[i] &= ~SS;
    return;
  }
  const Expr *e = v.e;
  if (e->w & 7) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    SHB(a + i) |= SS;
    CELL(a + i) = (u64)e | i;
  }
}
static void copyMem(u64 d, u64 s, u64 n) {  // memmove semantics, both checked
  if (n == 0 || d == s) return;
  bool sym = anySym(s, n), dsym = anySym(d, n);
  if (sym) {
    std::vector<u64> cells(n);
    std::vector<u8> fl(n);
    for (u64 i = 0; i < n; i++) { fl[i] = SHB(s + i) & SS; if (fl[i]) cells[i] = CELL(s + i); }
    memmove((void *)d, (void *)s, n);
    for (u64 i = 0; i < n; i++) {
      if (fl[i]) { SHB(d + i) |= SS; CELL(d + i) = cells[i]; }
      else SHB(d + i) &= ~SS;
    }
    return;
  }
  memmove((void *)d, (void *)s, n);
  if (dsym) for (u64 i = 0; i < n; i++) SHB(d + i) &= ~SS;
}

static u64 heapAlloc(u64 n) {
  u64 a = (g_heaptop + 48 + 15) & ~15ull;
  g_heaptop = a + n;
  if (g_heaptop - HEAP0 > g_heaplimit) pathViolation("memory limit: path allocated more than " + std::to_string(g_heaplimit >> 20) + " MB");
  *(u64 *)(a - 16) = n;
  *(u64 *)(a - 8) = 0xA110C8ED;
  memset(&SHB(a), SV, n);
  return a;
}
static void heapFree(u64 a) {
  if (a == 0) return;
  if (a < HEAP0 + 16 || a >= HEAP1 || (a & 15)) pathViolation("memory error: free of a pointer that is not a heap block");
  u64 m = *(u64 *)(a - 8);
  if (m == 0xF4EEF4EE) pathViolation("memory error: double free");
  if (m != 0xA110C8ED) pathViolation("memory error: free of a pointer that is not a heap block");
  u64 n = *(u64 *)(a - 16);
  if (g_thr) raceAccess(a, n, true);
  *(u64 *)(a - 8) = 0xF4EEF4EE;
  memset(&SHB(a), SFREED, n);
}
static u64 globAlloc(u64 n, u64 align) {
  if (align < 16) align = 16;
  u64 a = (g_globtop + 32 + align - 1) & ~(align - 1);
  g_globtop = a + n;
  if (g_globtop >= GLOB1) { fprintf(stderr, "globals too large\n"); exit(3); }
  memset(&SHB(a), SV, n);
  return a;
}

#include "race.h"

// -------- symbolic addresses
static unsigned tzk(const Expr *e) {
  switch (e->op) {
    case E_CONST: return e->c ? __builtin_ctzll(e->c) : e->w;
    case E_SHL: if (isC(e->b)) return std::min<unsigned>(e->w, tzk(e->a) + e->b->c); return 0;
    case E_ADD: case E_SUB: case E_OR: return std::min(tzk(e->a), tzk(e->b));
    case E_AND: return std::max(tzk(e->a), tzk(e->b));
    case E_MUL: return std::min<unsigned>(e->w, tzk(e->a) + tzk(e->b));
    case E_ZEXT: case E_SEXT: return tzk(e->a);
    case E_ITE: return std::min(tzk(e->b), tzk(e->k));
    case E_CONCAT: { unsigned t = tzk(e->b); return t < e->b->w ? t : t + tzk(e->a); }
    default: return 0;
  }
}
// candidate concrete addresses for an n-byte access through ae; forks out-of-bounds cases.
static void candidates(const Expr *ae, unsigned n, bool write, std::vector<u64> &out) {
  for (;;) {
    u64 a = evalE(ae);
    // can the address be any of a few values?
    u64 base = a, end = a;
    if (!okRange(a, n, write)) {
      // this value is an error: report it on a path of its own, continue with the others
      const Expr *eq = mkEq(ae, mkC(ae->w, a));
      if (branchOn(eq)) memError(a, n, write);
      continue;
    }
    u64 lim = 4096;
    while (base > ARENA && (SHB(base - 1) & SV) && a - base < lim) base--;
    end = a + n;
    while ((SHB(end) & SV) && end - a < lim) end++;
    const Expr *inb = mkBin(E_AND, mkBin(E_ULE, mkC(64, base), ae), mkBin(E_ULE, ae, mkC(64, end - n)));
    if (!branchOn(inb)) continue;
    unsigned tz = std::min(tzk(ae), 12u);
    u64 step = 1ull << tz;
    u64 lo = std::max(base, ae->lo), hi = std::min(end - n, ae->hi);
    u64 c = (lo + step - 1) & ~(step - 1);
    out.clear();
    for (; c <= hi && out.size() <= 1100; c += step) {
      const Expr *eq = mkEq(ae, mkC(64, c));
      if (isC(eq) && !eq->c) continue;
      out.push_back(c);
    }
    if (out.size() > 1024 || out.empty()) {
      out.clear();
      out.push_back(concretize(ae));
    }
    return;
  }
}
static V loadV(const V &addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!addr.e) {
    if (!okRange(addr.c, n, false)) memError(addr.c, n, false);
    return readMem(addr.c, w);
  }
  std::vector<u64> cs;
  candidates(addr.e, n, false, cs);
  if (cs.size() == 1) return readMem(cs[0], w);
  // group candidates with the same value to keep the expression small
  const Expr *r = nullptr;
  std::vector<std::pair<const Expr *, const Expr *>> groups;  // value, condition
  std::unordered_map<const Expr *, size_t> idx;
  for (u64 c : cs) {
    const Expr *v = X(readMem(c, w), w);
    auto it = idx.find(v);
    const Expr *eq = mkEq(addr.e, mkC(64, c));
    if (it == idx.end()) { idx[v] = groups.size(); groups.push_back({v, eq}); }
    else groups[it->second].second = mkBin(E_OR, groups[it->second].second, eq);
  }
  // the most frequent value last would be smaller; keep order, last is the default
  for (size_t i = groups.size(); i-- > 0;) r = r ? mkIte(groups[i].second, groups[i].first, r) : groups[i].first;
  return FE(r);
}
static void storeV(const V &addr, const V &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!addr.e) {
    if (!okRange(addr.c, n, true)) memError(addr.c, n, true);
    writeMem(addr.c, v, w);
    return;
  }
  std::vector<u64> cs;
  candidates(addr.e, n, true, cs);
  if (cs.size() > 64) { writeMem(concretize(addr.e), v, w); return; }
  if (cs.size() == 1) { writeMem(cs[0], v, w); return; }
  const Expr *nv = X(v, w);
  for (u64 c : cs) {
    const Expr *eq = mkEq(addr.e, mkC(64, c));
    const Expr *old = X(readMem(c, w), w);
    writeMem(c, FE(mkIte(eq, nv, old)), w);
  }
}
