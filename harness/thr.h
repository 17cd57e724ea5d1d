// Two operations as two threads.
#pragma once
#include <pthread.h>
#include <functional>
#ifdef SYM_JSON_MODEL
extern "C" void __sym_thread(int);
extern "C" int __sym_held();
extern "C" void __sym_lock(pthread_mutex_t *);
extern "C" void __sym_unlock(pthread_mutex_t *);
#else
#include <dlfcn.h>
#include <thread>
// locks taken inside the libraries that are not encoded are no switch points
static bool ours(void *pc) {
  static void *base = [] { Dl_info i; return dladdr((void *)&ours, &i) ? i.dli_fbase : nullptr; }();
  Dl_info i;
  return dladdr(pc, &i) && i.dli_fbase == base;
}
extern "C" int __interceptor_pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak));
extern "C" int __interceptor_pthread_mutex_unlock(pthread_mutex_t *) __attribute__((weak));
#endif
// the executor runs them one after the other and compares what they access (engine/race.h); natively the thread
// sanitizer watches two threads
template <class F, class G> static void twoThreads(F f, G g) {
#ifdef SYM_JSON_MODEL
  __sym_thread(1);
  f();
  __sym_thread(2);
  g();
  __sym_thread(0);
#else
  bool bad1 = false, bad2 = false;
  std::thread a([&] { try { f(); } catch (...) { bad1 = true; } }), b([&] { try { g(); } catch (...) { bad2 = true; } });
  a.join();
  b.join();
  if (bad1 || bad2) throw 1;
#endif
}
// g runs to its end at one of the points where f takes or has released its only lock, or before or after f; without
// races and nested locks every schedule of the two gives what one of these gives when g has one critical section,
// and each is a schedule that can happen
static std::function<void()> g_other;
static int g_lockswitch = 0, g_heldlocks = 0;
static void switchPoint() {
  if (!g_lockswitch || g_heldlocks || !g_other) return;
  if (choose("switch", 0, 1) == 0) return;
  auto g = g_other;
  g_other = nullptr;
  int s = g_lockswitch;
  g_lockswitch = 0;
  g();
  g_lockswitch = s;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
#ifdef SYM_JSON_MODEL
  switchPoint();
  __sym_lock(m);
  if (g_lockswitch) g_heldlocks++;
  return 0;
#else
  bool mine = g_lockswitch && ours(__builtin_return_address(0));
  if (mine) switchPoint();
  int r = __interceptor_pthread_mutex_lock ? __interceptor_pthread_mutex_lock(m) : 0;
  if (mine) g_heldlocks++;
  return r;
#endif
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
#ifdef SYM_JSON_MODEL
  __sym_unlock(m);
  if (g_lockswitch) g_heldlocks--;
  switchPoint();
#else
  bool mine = g_lockswitch && ours(__builtin_return_address(0));
  if (mine) g_heldlocks--;
  if (__interceptor_pthread_mutex_unlock) __interceptor_pthread_mutex_unlock(m);
  if (mine) switchPoint();
#endif
  return 0;
}
template <class F, class G> static void atLock(F f, G g) {
  g_other = g;
  g_lockswitch = 1;
  switchPoint();
  f();
  g_lockswitch = 0;
  if (g_other) { auto h = g_other; g_other = nullptr; h(); }
}
