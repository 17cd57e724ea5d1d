// Runtime functions and intrinsics implemented by the executor itself.
#pragma once

#define BI(name) static bool name(CallDesc *cd, V *a, unsigned n, V *ret)
static u64 cv(const V &v) { return v.e ? concretize(v.e) : v.c; }
BI(b_nop) { (void)cd; (void)a; (void)n; (void)ret; return false; }
BI(b_zero) { (void)cd; (void)a; (void)n; ret[0] = C(0); return false; }
BI(b_arg0) { (void)cd; (void)n; ret[0] = a[0]; return false; }
BI(b_what) { (void)cd; (void)n; ret[0] = C(*(u64 *)(cv(a[0]) + 8)); return false; }

static std::string cstr(u64 p) {
  std::string s;
  for (;; p++) {
    if (!okRange(p, 1, false)) memError(p, 1, false);
    V b = readMem(p, 8);
    char c = (char)cv(b);
    if (!c) break;
    s += c;
    if (s.size() > 4000) break;
  }
  return s;
}
static void chk(u64 p, u64 n, bool wr) {
  if (n && !okRange(p, n, wr)) memError(p, n, wr);
}

// ---- heap
BI(b_new) {
  (void)cd; (void)n;
  u64 sz = cv(a[0]);
  if (sz > (1ull << 40)) return throwStd("_ZTISt9bad_alloc", "std::bad_alloc");
  ret[0] = C(heapAlloc(sz));
  return false;
}
BI(b_malloc) { (void)cd; (void)n; ret[0] = C(heapAlloc(cv(a[0]))); return false; }
BI(b_calloc) {
  (void)cd; (void)n;
  u64 sz = cv(a[0]) * cv(a[1]);
  u64 p = heapAlloc(sz);
  memset((void *)p, 0, sz);
  ret[0] = C(p);
  return false;
}
BI(b_free) { (void)cd; (void)n; (void)ret; heapFree(cv(a[0])); return false; }
BI(b_realloc) {
  (void)cd; (void)n;
  u64 p = cv(a[0]), sz = cv(a[1]);
  u64 q = heapAlloc(sz);
  if (p) {
    u64 old = *(u64 *)(p - 16);
    copyMem(q, p, std::min(old, sz));
    heapFree(p);
  }
  ret[0] = C(q);
  return false;
}
// ---- memory
static void doCopy(V *a, bool overlapOk) {
  u64 d = cv(a[0]), s = cv(a[1]), n = cv(a[2]);
  (void)overlapOk;
  chk(s, n, false);
  chk(d, n, true);
  copyMem(d, s, n);
}
BI(b_memcpy) { (void)cd; (void)n; doCopy(a, true); ret[0] = C(cv(a[0])); return false; }
BI(b_wmemcpy) { (void)cd; (void)n; V t[3] = {a[0], a[1], C(cv(a[2]) * 4)}; doCopy(t, true); ret[0] = C(cv(a[0])); return false; }
static void doSet(u64 d, const V &v, u64 cnt, unsigned w) {
  chk(d, cnt * (w / 8), true);
  for (u64 i = 0; i < cnt; i++) writeMem(d + i * (w / 8), v.e ? FE(mkExtract(v.e, 0, w)) : C(v.c & maskw(w)), w);
}
BI(b_memset) { (void)cd; (void)n; doSet(cv(a[0]), a[1], cv(a[2]), 8); ret[0] = C(cv(a[0])); return false; }
BI(b_wmemset) { (void)cd; (void)n; doSet(cv(a[0]), a[1], cv(a[2]), 32); ret[0] = C(cv(a[0])); return false; }

static V cmpMem(u64 p, u64 q, u64 cnt, unsigned w, bool sgn) {
  unsigned b = w / 8;
  chk(p, cnt * b, false);
  chk(q, cnt * b, false);
  const Expr *r = nullptr;
  // build from the end; stop at the first concretely different position
  std::vector<std::pair<const Expr *, const Expr *>> diffs;
  const Expr *last = mkC(32, 0);
  for (u64 i = 0; i < cnt; i++) {
    V x = readMem(p + i * b, w), y = readMem(q + i * b, w);
    const Expr *X1 = X(x, w), *Y1 = X(y, w);
    const Expr *eq = mkEq(X1, Y1);
    if (isC(eq) && eq->c) continue;
    const Expr *v = mkIte(mkBin(sgn ? E_SLT : E_ULT, X1, Y1), mkC(32, 0xffffffff), mkC(32, 1));
    if (isC(eq)) { last = v; break; }
    diffs.push_back({eq, v});
  }
  r = last;
  for (size_t i = diffs.size(); i-- > 0;) r = mkIte(diffs[i].first, r, diffs[i].second);
  return FE(r);
}
static V eqMem(u64 p, u64 q, u64 cnt) {  // bcmp: 0 iff equal
  chk(p, cnt, false);
  chk(q, cnt, false);
  if (!anySym(p, cnt) && !anySym(q, cnt)) return C(memcmp((void *)p, (void *)q, cnt) ? 1 : 0);
  const Expr *r = mkC(1, 1);
  for (u64 i = 0; i < cnt; i++) {
    const Expr *eq = mkEq(X(readMem(p + i, 8), 8), X(readMem(q + i, 8), 8));
    r = mkBin(E_AND, r, eq);
    if (isC(r) && !r->c) break;
  }
  return FE(mkZext(mkNot(r), 32));
}
BI(b_memcmp) { (void)cd; (void)n; ret[0] = cmpMem(cv(a[0]), cv(a[1]), cv(a[2]), 8, false); return false; }
BI(b_bcmp) { (void)cd; (void)n; ret[0] = eqMem(cv(a[0]), cv(a[1]), cv(a[2])); return false; }
BI(b_wmemcmp) { (void)cd; (void)n; ret[0] = cmpMem(cv(a[0]), cv(a[1]), cv(a[2]), 32, true); return false; }
static u64 slen(u64 p, unsigned w) {
  u64 k = 0;
  for (;; k++) {
    u64 q = p + k * (w / 8);
    chk(q, w / 8, false);
    V b = readMem(q, w);
    if (!b.e) { if (b.c == 0) break; continue; }
    if (branchOn(mkEq(b.e, mkC(w, 0)))) break;
  }
  return k;
}
BI(b_strlen) { (void)cd; (void)n; ret[0] = C(slen(cv(a[0]), 8)); return false; }
BI(b_wcslen) { (void)cd; (void)n; ret[0] = C(slen(cv(a[0]), 32)); return false; }
static u64 findMem(u64 p, const V &c, u64 cnt, unsigned w) {
  for (u64 i = 0; i < cnt; i++) {
    u64 q = p + i * (w / 8);
    chk(q, w / 8, false);
    const Expr *eq = mkEq(X(readMem(q, w), w), mkExtract(X(c, 32), 0, w));
    if (branchOn(eq)) return q;
  }
  return 0;
}
BI(b_memchr) { (void)cd; (void)n; ret[0] = C(findMem(cv(a[0]), a[1], cv(a[2]), 8)); return false; }
BI(b_wmemchr) { (void)cd; (void)n; ret[0] = C(findMem(cv(a[0]), a[1], cv(a[2]), 32)); return false; }
BI(b_strcmp) {
  (void)cd; (void)n;
  u64 p = cv(a[0]), q = cv(a[1]);
  for (;; p++, q++) {
    chk(p, 1, false);
    chk(q, 1, false);
    u64 x = cv(readMem(p, 8)), y = cv(readMem(q, 8));
    if (x != y) { ret[0] = C((u32)(x < y ? -1 : 1)); return false; }
    if (!x) { ret[0] = C(0); return false; }
  }
}

// ---- exceptions
BI(b_exc_alloc) { (void)cd; (void)n; ret[0] = C(heapAlloc(std::max<u64>(64, cv(a[0])))); return false; }
BI(b_throw) {
  (void)cd; (void)n; (void)ret;
  u64 o = cv(a[0]), ti = cv(a[1]);
  g_exti[o] = ti;
  unwindTo(o, ti, false);
  return true;
}
BI(b_begin_catch) {
  (void)cd; (void)n;
  u64 o = cv(a[0]);
  g_caught.push_back({o, g_exti[o]});
  ret[0] = C(o);
  return false;
}
BI(b_end_catch) { (void)cd; (void)a; (void)n; (void)ret; if (!g_caught.empty()) g_caught.pop_back(); return false; }
BI(b_rethrow) {
  (void)cd; (void)a; (void)n; (void)ret;
  if (g_caught.empty()) pathViolation("std::terminate (rethrow without exception)");
  Exc e = g_caught.back();
  unwindTo(e.obj, e.ti, false);
  return true;
}
BI(b_terminate) { (void)cd; (void)a; (void)n; (void)ret; pathViolation("std::terminate called"); }
BI(b_abort) { (void)cd; (void)a; (void)n; (void)ret; pathViolation("abort called"); }
BI(b_pure) { (void)cd; (void)a; (void)n; (void)ret; pathViolation("pure virtual function called"); }
BI(b_assert_fail) {
  (void)cd; (void)n; (void)ret;
  std::string c;
  for (unsigned i = 0; i < n; i++) if (!a[i].e && okRange(a[i].c, 1, false) && a[i].c > 4096) { std::string t = cstr(a[i].c); c += (c.empty() ? "" : " | ") + t.substr(0, 120); }
  pathViolation("library assertion failed (undefined behaviour): " + c);
}
BI(b_guard_acquire) {
  (void)cd; (void)n;
  u64 g = cv(a[0]);
  ret[0] = C(*(u8 *)g ? 0 : 1);
  if (!*(u8 *)g) g_inguard++;
  return false;
}
BI(b_guard_release) { (void)cd; (void)n; (void)ret; *(u8 *)cv(a[0]) = 1; g_inguard--; return false; }
BI(b_guard_abort) { (void)cd; (void)a; (void)n; (void)ret; g_inguard--; return false; }
// classes with one base at most
BI(b_dynamic_cast) {
  (void)cd; (void)n;
  u64 p = cv(a[0]);
  chk(p, 8, false);
  u64 vt = cv(readMem(p, 64));
  if (vt < 16 || !okRange(vt - 16, 16, false)) pathIncomplete("dynamic_cast of an object of the library");
  u64 ti = cv(readMem(vt - 8, 64)), top = p + cv(readMem(vt - 16, 64)), dst = cv(a[2]);
  for (u64 t = ti;;) {
    if (derivesFrom(t, dst) && derivesFrom(dst, t)) break;
    auto it = g_tibase.find(t);
    if (it == g_tibase.end() || it->second.empty()) { ret[0] = C(0); return false; }
    if (it->second.size() > 1) pathIncomplete("dynamic_cast with several bases");
    t = it->second[0];
  }
  ret[0] = C(top);
  return false;
}
static std::vector<u64> g_fmtm;
static std::vector<V> fmt(V *a, unsigned n, unsigned i) {  // a[i] is the format
  std::string f = cstr(cv(a[i++]));
  std::vector<V> o;
  for (size_t k = 0; k < f.size(); k++) {
    if (f[k] != '%') { o.push_back(C((u8)f[k])); continue; }
    if (f[++k] == '%') { o.push_back(C('%')); continue; }
    bool zero = false, left = false;
    for (; f[k] == '0' || f[k] == '-'; k++) (f[k] == '0' ? zero : left) = true;
    if (i >= n) pathViolation("a format string asks for more arguments than are given");
    size_t width = 0;
    if (f[k] == '*') { width = cv(a[i++]); k++; }
    else while (isdigit(f[k])) width = width * 10 + f[k++] - '0';
    int prec = -1;
    if (f[k] == '.') {
      prec = 0;
      if (f[++k] == '*') { prec = (int)cv(a[i++]); k++; }
      else while (isdigit(f[k])) prec = prec * 10 + f[k++] - '0';
    }
    int w = 32;
    for (; strchr("hlzjt", f[k]) && f[k]; k++) w = f[k] == 'h' ? w / 2 : 64;
    std::vector<V> s;
    char t = f[k];
    if (t == 's') {
      u64 p = cv(a[i++]);
      for (u64 j = 0; prec < 0 || (int)j < prec; j++) {
        chk(p + j, 1, false);
        V v = readMem(p + j, 8);
        if (cv(v) == 0) break;
        s.push_back(v);
      }
    } else if (t == 'c') s.push_back(a[i].e ? FE(mkExtract(a[i].e, 0, 8)) : C(a[i].c & 255)), i++;
    else if ((t == 'x' || t == 'X') && a[i].e && zero && width == 2 && !mayBeTrue(mkNot(mkBin(E_ULT, a[i].e, mkC(a[i].e->w, 256))), g_fmtm)) {
      for (int h = 1; h >= 0; h--) {
        const Expr *d = mkExtract(a[i].e, 4 * h, 4), *d8 = mkZext(d, 8);
        s.push_back(FE(mkIte(mkBin(E_ULT, d, mkC(4, 10)), mkBin(E_ADD, d8, mkC(8, '0')), mkBin(E_ADD, d8, mkC(8, (t == 'X' ? 'A' : 'a') - 10)))));
      }
      i++;
    } else if (strchr("diuxXo", t) && t && prec < 0) {
      u64 v = cv(a[i++]);
      char b[32];
      if (t == 'd' || t == 'i') snprintf(b, 32, "%lld", w == 64 ? (long long)v : w == 32 ? (int)v : w == 16 ? (short)v : (signed char)v);
      else snprintf(b, 32, t == 'u' ? "%llu" : t == 'x' ? "%llx" : t == 'X' ? "%llX" : "%llo", (unsigned long long)(w == 64 ? v : v & ((1ull << w) - 1)));
      size_t neg = b[0] == '-';
      for (char *c = b; *c; c++) s.push_back(C((u8)*c));
      if (zero && !left) while (s.size() < width) s.insert(s.begin() + neg, C('0'));
    } else pathIncomplete("format conversion %" + std::string(1, t));
    if (!left) while (s.size() < width) s.insert(s.begin(), C(' '));
    o.insert(o.end(), s.begin(), s.end());
    while (left && s.size() < width) { o.push_back(C(' ')); s.push_back(C(' ')); }
  }
  return o;
}
static u64 fmtTo(u64 p, u64 size, const std::vector<V> &o) {
  for (u64 i = 0; i < size && i <= o.size(); i++) {
    chk(p + i, 1, true);
    writeMem(p + i, i == o.size() || i == size - 1 ? C(0) : o[i], 8);
  }
  return o.size();
}
BI(b_snprintf) { (void)cd; ret[0] = C(fmtTo(cv(a[0]), cv(a[1]), fmt(a, n, 2))); return false; }
BI(b_sprintf) { (void)cd; ret[0] = C(fmtTo(cv(a[0]), 1u << 30, fmt(a, n, 1))); return false; }
BI(b_printf) { (void)cd; ret[0] = C(fmt(a, n, 0).size()); return false; }
BI(b_fprintf) { (void)cd; ret[0] = C(fmt(a, n, 1).size()); return false; }
// ---- threads
BI(b_sym_once) { (void)cd; (void)n; (void)ret; g_inguard += cv(a[0]) ? 1 : -1; return false; }
BI(b_sym_thread) { (void)cd; (void)n; (void)ret; raceThread((int)cv(a[0])); return false; }
BI(b_sym_held) { (void)cd; (void)a; (void)n; ret[0] = C(g_lany); return false; }
BI(b_lock) { (void)cd; (void)n; raceLock(cv(a[0]), 1); ret[0] = C(0); return false; }
BI(b_lock_shared) { (void)cd; (void)n; raceLock(cv(a[0]), 2); ret[0] = C(0); return false; }
BI(b_unlock) { (void)cd; (void)n; raceLock(cv(a[0]), 0); ret[0] = C(0); return false; }

static std::string excMsg(V *a, const std::string &name) {
  if (name.size() > 3 && name.substr(name.size() - 3) == "PKc") return cstr(cv(a[1]));
  if (name.find("RKNSt7__cxx1112basic_string") != std::string::npos) {
    u64 s = cv(a[1]);
    u64 p = *(u64 *)s, len = *(u64 *)(s + 8);
    std::string r;
    for (u64 i = 0; i < len && i < 400; i++) { V b = readMem(p + i, 8); r += b.e ? '?' : (char)b.c; }
    return r;
  }
  return "";
}
BI(b_excctor) {
  (void)n; (void)ret;
  u64 o = cv(a[0]);
  std::string nm = cd->name;
  u64 m;
  if (nm.find("ERKS_") != std::string::npos || nm.find("EOS_") != std::string::npos) m = *(u64 *)(cv(a[1]) + 8);
  else {
    std::string msg = excMsg(a, nm);
    m = heapAlloc(msg.size() + 1);
    memcpy((void *)m, msg.c_str(), msg.size() + 1);
  }
  writeMem(o, C(g_fakevt + 16), 64);
  writeMem(o + 8, C(m), 64);
  return false;
}
static std::map<std::string, std::string> THROWS = {
    {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
    {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
    {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt19__throw_range_errorPKc", "_ZTISt11range_error"},
    {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
    {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
    {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error"},
    {"_ZSt22__throw_overflow_errorPKc", "_ZTISt14overflow_error"}};
BI(b_throwstd) {
  (void)n; (void)ret;
  std::string msg;
  if (n > 0) msg = cstr(cv(a[0]));
  return throwStd(THROWS[cd->name.empty() ? "" : cd->name], msg);
}

// ---- harness interface
static V newSym(const std::string &name, u64 lo, u64 hi) {
  u64 range = hi - lo;
  if (range == 0) {
    // still recorded so that the native run reads its inputs in the same order
    Symbol s;
    memset(&s, 0, sizeof s);
    snprintf(s.name, sizeof s.name, "%s", name.c_str());
    s.w = 1; s.lo = 0; s.hi = 0; s.base = lo;
    g_syms.push_back(s);
    g_model.push_back(0);
    return C(lo);
  }
  unsigned w = 64 - __builtin_clzll(range);
  Symbol s;
  memset(&s, 0, sizeof s);
  snprintf(s.name, sizeof s.name, "%s", name.c_str());
  s.w = w;
  s.lo = 0;
  s.hi = range;
  s.base = lo;
  g_syms.push_back(s);
  g_model.push_back(0);
  const Expr *e = intern(E_SYM, w, g_syms.size() - 1);
  return FE(mkBin(E_ADD, mkZext(e, 64), mkC(64, lo)));
}
BI(b_sym_int) {
  (void)cd; (void)n;
  if (g_syms.size() >= 120) pathIncomplete("too many symbolic inputs");
  ret[0] = newSym(cstr(cv(a[0])), cv(a[1]), cv(a[2]));
  return false;
}
static void assumeE(const Expr *c) {
  if (isC(c)) { if (!c->c) pathOut(); return; }
  if (!evalE(c)) {
    std::vector<u64> m;
    int r = checkSat(c, m);
    if (r == 0) pathOut();
    if (r < 0) pathIncomplete("solver gave up on an assumption");
    setModel(m);
  }
  addPC(c);
}
static const Expr *truth(const V &v, unsigned w) { return v.e ? mkNot(mkEq(v.e, mkC(v.e->w, 0))) : mkC(1, (v.c & maskw(w)) != 0); }
BI(b_sym_assume) { (void)n; (void)ret; assumeE(truth(a[0], cd ? cd->argw[0] : 32)); return false; }
BI(b_sym_assert) {
  (void)n; (void)ret;
  g_st->asserts++;
  const Expr *c = truth(a[0], cd->argw[0]);
  if (isC(c)) g_st->assert_const++;
  else g_st->assert_queries++;
  if (!branchOn(c, true)) pathViolation("assertion failed: " + cstr(cv(a[1])));
  return false;
}
BI(b_sym_fail) { (void)cd; (void)n; (void)ret; g_st->asserts++; pathViolation("assertion failed: " + cstr(cv(a[0]))); }
BI(b_sym_unsupported) { (void)cd; (void)n; (void)ret; pathIncomplete("model limit: " + cstr(cv(a[0]))); }
BI(b_sym_reach) {
  (void)cd; (void)n; (void)ret;
  std::string t = cstr(cv(a[0]));
  u32 k = g_st->nreach;
  for (u32 i = 0; i < k && i < MAXREACH; i++)
    if (!strncmp(g_st->reachname[i], t.c_str(), 47)) { g_st->reach[i]++; return false; }
  u32 i = g_st->nreach++;
  if (i < MAXREACH) {
    snprintf(g_st->reachname[i], 48, "%s", t.c_str());
    g_st->reach[i]++;
  }
  return false;
}
BI(b_sym_observe) {
  (void)cd; (void)n; (void)ret;
  if (g_obs.size() < 4000) {
    g_obs.push_back({"", a[0].e});
    g_obs_c.push_back(a[0].c);
  }
  return false;
}
BI(b_sym_concretize) { (void)cd; (void)n; ret[0] = C(cv(a[0])); return false; }
BI(b_sym_symbolic) { (void)cd; (void)n; ret[0] = C(a[0].e != nullptr); return false; }
BI(b_sym_icu) {
  (void)cd; (void)n;
  u64 fn = cv(a[0]);
  ret[0] = a[1].e ? FE(uniExpr(fn, a[1].e)) : C(icuFn(fn, (u32)a[1].c));
  return false;
}
// whole-string Unicode normalization of concrete code points by the real ICU:
// (kind, const u32* in, u64 n, u32* out, u64 cap) -> length
BI(b_sym_unorm) {
  (void)cd; (void)n;
  unsigned kind = cv(a[0]);
  u64 p = cv(a[1]), cnt = cv(a[2]), o = cv(a[3]), cap = cv(a[4]);
  UErrorCode st = U_ZERO_ERROR;
  icu::UnicodeString s;
  for (u64 i = 0; i < cnt; i++) {
    chk(p + 4 * i, 4, false);
    u64 c = cv(readMem(p + 4 * i, 32));
    s.append((UChar32)c);
  }
  const icu::Normalizer2 *nm = kind == 0 ? icu::Normalizer2::getNFCInstance(st) : kind == 1 ? icu::Normalizer2::getNFDInstance(st)
                             : kind == 2 ? icu::Normalizer2::getNFKCInstance(st) : icu::Normalizer2::getNFKDInstance(st);
  icu::UnicodeString r = nm->normalize(s, st);
  u64 k = 0;
  for (int i = 0; i < r.length() && k < cap; k++) {
    UChar32 x = r.char32At(i);
    writeMem(o + 4 * k, C((u32)x), 32);
    i += U16_LENGTH(x);
  }
  ret[0] = C(k);
  return false;
}
// ---- hash tables: one bucket, so that no address or hash depends on symbolic data
BI(b_hash_bytes) { (void)cd; (void)a; (void)n; ret[0] = C(0x9e3779b97f4a7c15ull); return false; }
BI(b_next_bkt) { (void)cd; (void)a; (void)n; ret[0] = C(1); return false; }
BI(b_need_rehash) { (void)cd; (void)a; (void)n; ret[0] = C(0); ret[1] = C(0); return false; }
BI(b_exit) { (void)cd; (void)a; (void)n; (void)ret; pathViolation("exit called"); }

static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static std::unordered_map<const Function *, Builtin> g_bicache;
static Builtin lookupBuiltin(const Function *f) {
  auto c = g_bicache.find(f);
  if (c != g_bicache.end()) return c->second;
  std::string nm = f->getName().str();
  Builtin b = nullptr;
  if (!f->isDeclaration() && starts(nm, "pthread_")) {  // the harness' own
    g_bicache[f] = b;
    return b;
  }
  auto it = g_builtins.find(nm);
  if (it != g_builtins.end()) b = it->second;
  else if (f->isDeclaration()) {
    static const char *EXC[] = {"_ZNSt9exception", "_ZNSt11logic_error", "_ZNSt13runtime_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument",
                                "_ZNSt12length_error", "_ZNSt11range_error", "_ZNSt12domain_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error",
                                "_ZNSt9bad_alloc", "_ZNSt8bad_cast", "_ZNSt17bad_function_call", "_ZNSt20bad_array_new_length", "_ZNSt19bad_optional_access"};
    for (auto e : EXC) {
      if (starts(nm, e)) {
        std::string rest = nm.substr(strlen(e));
        if (rest[0] == 'C') b = b_excctor;
        else if (rest[0] == 'D') b = rest[1] == '0' ? b_free : b_nop;
        else if (rest[0] == 'a') b = b_arg0;
      }
      std::string k = "_ZNK" + std::string(e + 3);
      if (starts(nm, k.c_str()) && nm.find("4whatEv") != std::string::npos) b = b_what;
    }
    if (!b && starts(nm, "pthread_")) b = b_zero;
    if (!b && starts(nm, "__gthr")) b = b_zero;
    if (!b && nm.find("__glibcxx_assert_fail") != std::string::npos) b = b_assert_fail;
  }
  g_bicache[f] = b;
  return b;
}
static void registerBuiltins() {
  auto &B = g_builtins;
  for (const char *s : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) B[s] = b_new;
  for (const char *s : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc"}) B[s] = b_malloc;
  for (const char *s : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t"}) B[s] = b_free;
  B["calloc"] = b_calloc;
  B["realloc"] = b_realloc;
  B["memcpy"] = B["memmove"] = b_memcpy;
  B["wmemcpy"] = B["wmemmove"] = b_wmemcpy;
  B["memset"] = b_memset;
  B["wmemset"] = b_wmemset;
  B["memcmp"] = b_memcmp;
  B["bcmp"] = b_bcmp;
  B["wmemcmp"] = b_wmemcmp;
  B["strlen"] = b_strlen;
  B["wcslen"] = b_wcslen;
  B["memchr"] = b_memchr;
  B["wmemchr"] = b_wmemchr;
  B["strcmp"] = b_strcmp;
  B["__cxa_allocate_exception"] = b_exc_alloc;
  B["__cxa_free_exception"] = b_nop;
  B["__cxa_throw"] = b_throw;
  B["__cxa_begin_catch"] = b_begin_catch;
  B["__cxa_get_exception_ptr"] = b_arg0;
  B["__cxa_end_catch"] = b_end_catch;
  B["__cxa_rethrow"] = b_rethrow;
  B["__cxa_atexit"] = b_zero;
  B["__cxa_thread_atexit"] = b_zero;
  B["__cxa_pure_virtual"] = b_pure;
  B["__cxa_guard_acquire"] = b_guard_acquire;
  B["__cxa_guard_release"] = b_guard_release;
  B["__cxa_guard_abort"] = b_guard_abort;
  B["__sym_thread"] = b_sym_thread;
  B["__sym_held"] = b_sym_held;
  B["__dynamic_cast"] = b_dynamic_cast;
  B["snprintf"] = b_snprintf;
  B["sprintf"] = b_sprintf;
  B["printf"] = b_printf;
  B["fprintf"] = b_fprintf;
  for (const char *s : {"puts", "putchar", "fputs", "fputc", "putc", "fflush", "fwrite", "fputwc"}) B[s] = b_zero;
  B["__sym_once"] = b_sym_once;
  B["__sym_lock"] = B["pthread_mutex_trylock"] = B["pthread_mutex_lock"] = b_lock;
  B["pthread_rwlock_wrlock"] = B["pthread_rwlock_trywrlock"] = B["pthread_spin_lock"] = b_lock;
  B["pthread_rwlock_rdlock"] = B["pthread_rwlock_tryrdlock"] = b_lock_shared;
  B["__sym_unlock"] = B["pthread_mutex_unlock"] = B["pthread_rwlock_unlock"] = B["pthread_spin_unlock"] = b_unlock;
  B["__clang_call_terminate"] = b_terminate;
  B["_ZSt9terminatev"] = b_terminate;
  B["abort"] = b_abort;
  B["exit"] = b_exit;
  B["__assert_fail"] = b_assert_fail;
  B["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = b_assert_fail;
  for (auto &t : THROWS) B[t.first] = b_throwstd;
  B["_ZSt11_Hash_bytesPKvmm"] = b_hash_bytes;
  B["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = b_next_bkt;
  B["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = b_need_rehash;
  B["__sym_int"] = b_sym_int;
  B["__sym_assume"] = b_sym_assume;
  B["__sym_assert"] = b_sym_assert;
  B["__sym_fail"] = b_sym_fail;
  B["__sym_unsupported"] = b_sym_unsupported;
  B["__sym_reach"] = b_sym_reach;
  B["__sym_observe"] = b_sym_observe;
  B["__sym_concretize"] = b_sym_concretize;
  B["__sym_symbolic"] = b_sym_symbolic;
  B["__sym_icu"] = b_sym_icu;
  B["__sym_unorm"] = b_sym_unorm;
}

static void intrinsic(Frame &fr, CallDesc *cd, V *a, unsigned n, V *ret) {
  (void)fr;
  unsigned w = cd->retw;
  unsigned per = cd->nret ? cd->nret : 1;
  auto x = [&](unsigned i) { return X(a[i], cd->argw[i]); };
  switch (cd->intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(a, cd->intr == Intrinsic::memmove); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: doSet(cv(a[0]), a[1], cv(a[2]), 8); return;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
      for (unsigned i = 0; i < per; i++) {
        const Expr *p = x(i), *q = x(i + per);
        bool mn = cd->intr == Intrinsic::umin || cd->intr == Intrinsic::smin;
        bool un = cd->intr == Intrinsic::umin || cd->intr == Intrinsic::umax;
        const Expr *lt = mkBin(un ? E_ULT : E_SLT, p, q);
        ret[i] = FE(mn ? mkIte(lt, p, q) : mkIte(lt, q, p));
      }
      return;
    case Intrinsic::abs: {
      const Expr *p = x(0);
      ret[0] = FE(mkIte(mkBin(E_SLT, p, mkC(w, 0)), mkBin(E_SUB, mkC(w, 0), p), p));
      return;
    }
    case Intrinsic::ctpop: ret[0] = C(__builtin_popcountll(cv(a[0]) & maskw(w))); return;
    case Intrinsic::ctlz: { u64 v = cv(a[0]) & maskw(w); ret[0] = C(v ? __builtin_clzll(v) - (64 - w) : w); return; }
    case Intrinsic::cttz: { u64 v = cv(a[0]) & maskw(w); ret[0] = C(v ? __builtin_ctzll(v) : w); return; }
    case Intrinsic::bswap: {
      const Expr *p = x(0), *r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { const Expr *b = mkExtract(p, i, 8); r = r ? mkConcat(r, b) : b; }
      ret[0] = FE(r);
      return;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      u64 s = cv(a[2]) % w;
      const Expr *h = x(0), *l = x(1);
      if (cd->intr == Intrinsic::fshl) ret[0] = s ? FE(mkBin(E_OR, mkBin(E_SHL, h, mkC(w, s)), mkBin(E_LSHR, l, mkC(w, w - s)))) : FE(h);
      else ret[0] = s ? FE(mkBin(E_OR, mkBin(E_SHL, h, mkC(w, w - s)), mkBin(E_LSHR, l, mkC(w, s)))) : FE(l);
      return;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned aw = cd->argw[0];
      const Expr *p = x(0), *q = x(1);
      if (cd->intr == Intrinsic::uadd_with_overflow) {
        const Expr *s = mkBin(E_ADD, p, q);
        ret[0] = FE(s); ret[1] = FE(mkBin(E_ULT, s, p));
      } else if (cd->intr == Intrinsic::usub_with_overflow) {
        ret[0] = FE(mkBin(E_SUB, p, q)); ret[1] = FE(mkBin(E_ULT, p, q));
      } else if (cd->intr == Intrinsic::sadd_with_overflow || cd->intr == Intrinsic::ssub_with_overflow) {
        bool add = cd->intr == Intrinsic::sadd_with_overflow;
        const Expr *s = mkBin(add ? E_ADD : E_SUB, p, q), *z = mkC(aw, 0);
        const Expr *sp = mkBin(E_SLT, p, z), *sq = mkBin(E_SLT, q, z), *ss = mkBin(E_SLT, s, z);
        const Expr *same = mkEq(sp, add ? sq : mkNot(sq));
        ret[0] = FE(s);
        ret[1] = FE(mkBin(E_AND, same, mkNot(mkEq(sp, ss))));
      } else {
        u64 pc = cv(a[0]), qc = cv(a[1]);
        if (cd->intr == Intrinsic::umul_with_overflow) {
          unsigned __int128 r = (unsigned __int128)pc * qc;
          ret[0] = C((u64)r & maskw(aw)); ret[1] = C(r > maskw(aw));
        } else {
          __int128 r = (__int128)sx(pc, aw) * sx(qc, aw);
          ret[0] = C((u64)r & maskw(aw)); ret[1] = C((__int128)sx((u64)r, aw) != r);
        }
      }
      return;
    }
    case Intrinsic::usub_sat: { const Expr *p = x(0), *q = x(1); ret[0] = FE(mkIte(mkBin(E_ULT, p, q), mkC(w, 0), mkBin(E_SUB, p, q))); return; }
    case Intrinsic::uadd_sat: { const Expr *p = x(0), *q = x(1), *s = mkBin(E_ADD, p, q); ret[0] = FE(mkIte(mkBin(E_ULT, s, p), mkC(w, maskw(w)), s)); return; }
    case Intrinsic::eh_typeid_for: ret[0] = C(typeidOf(cv(a[0])) & 0xffffffff); return;
    case Intrinsic::stacksave: ret[0] = C(g_stktop); return;
    case Intrinsic::stackrestore: {
      u64 t = cv(a[0]);
      if (g_stktop > t) { memset(&SHB(t), 0, g_stktop - t); g_stktop = t; }
      return;
    }
    case Intrinsic::objectsize: ret[0] = C(~0ull); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
    case Intrinsic::ptrmask: case Intrinsic::ptr_annotation: case Intrinsic::annotation:
      ret[0] = a[0];
      return;
    case Intrinsic::is_constant: ret[0] = C(0); return;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: pathViolation("trap reached (undefined behaviour)");
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: {
      const Expr *r = x(0);
      EOp op = cd->intr == Intrinsic::vector_reduce_or ? E_OR : cd->intr == Intrinsic::vector_reduce_and ? E_AND : cd->intr == Intrinsic::vector_reduce_add ? E_ADD : E_XOR;
      for (unsigned i = 1; i < n; i++) r = mkBin(op, r, x(i));
      ret[0] = FE(r);
      return;
    }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
      u64 v = cv(a[0]);
      double d; float f;
      if (w == 32) { u32 q = v; memcpy(&f, &q, 4); d = f; } else memcpy(&d, &v, 8);
      d = cd->intr == Intrinsic::floor ? __builtin_floor(d) : cd->intr == Intrinsic::ceil ? __builtin_ceil(d) : cd->intr == Intrinsic::fabs ? __builtin_fabs(d)
        : cd->intr == Intrinsic::sqrt ? __builtin_sqrt(d) : cd->intr == Intrinsic::trunc ? __builtin_trunc(d) : cd->intr == Intrinsic::round ? __builtin_round(d) : __builtin_rint(d);
      if (w == 32) { f = d; u32 q; memcpy(&q, &f, 4); ret[0] = C(q); } else { memcpy(&v, &d, 8); ret[0] = C(v); }
      return;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma: {
      u64 v[3] = {cv(a[0]), cv(a[1]), cv(a[2])};
      if (w == 64) {
        double d[3]; memcpy(d, v, 24);
        double r = d[0] * d[1] + d[2]; memcpy(v, &r, 8); ret[0] = C(v[0]);
      } else {
        float f[3]; for (int i = 0; i < 3; i++) memcpy(&f[i], &v[i], 4);
        float r = f[0] * f[1] + f[2]; u32 q; memcpy(&q, &r, 4); ret[0] = C(q);
      }
      return;
    }
    default: pathIncomplete("unsupported intrinsic " + cd->name);
  }
}
