// Runs harness entries natively on concrete inputs.
// input file: lines "case <id> <entry> <v1> <v2> ..."; output: one line per case
//   "<id> ok <obs hash> <nobs>" | "<id> viol <message>" | "<id> assume" | "<id> crash <how>" | "<id> badinput"
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <sanitizer/common_interface_defs.h>
extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096"; }
extern "C" const char *__tsan_default_options() { return "exitcode=66:halt_on_error=1:report_thread_leaks=0:report_mutex_bugs=0"; }
static std::vector<uint64_t> in;
static size_t pos;
static uint64_t oh = 1469598103934665603ull, on;
static FILE *res;
[[noreturn]] static void done(const char *s, const char *m = "") { fprintf(res, "%s %s\n", s, m); fflush(res); _exit(0); }
extern "C" {
uint64_t __sym_int(const char *, uint64_t lo, uint64_t hi) {
  if (pos >= in.size()) done("badinput", "too few inputs");
  uint64_t v = in[pos++];
  if (v - lo > hi - lo) done("badinput", "out of range");
  return v;
}
void __sym_assume(int c) { if (!c) done("assume"); }
void __sym_assert(int c, const char *m) { if (!c) done("viol assertion failed:", m); }
void __sym_fail(const char *m) { done("viol assertion failed:", m); }
void __sym_reach(const char *) {}
void __sym_observe(uint64_t v) { if (on < 4000) { oh = (oh ^ v) * 1099511628211ull; on++; } }
uint64_t __sym_concretize(uint64_t v) { return v; }
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  int timeout = atoi(argv[2]);
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string kw, id, entry;
    s >> kw >> id >> entry;
    if (kw != "case") continue;
    in.clear();
    uint64_t v;
    while (s >> v) in.push_back(v);
    int p[2], pe[2];
    if (pipe(p) || pipe(pe)) return 2;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]); close(pe[0]);
      dup2(pe[1], 2);
      res = fdopen(p[1], "w");
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      alarm(timeout);
      auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
      if (!fn) done("badinput", "no such entry");
      fn();
      char b[64];
      snprintf(b, sizeof b, "%llu %llu", (unsigned long long)oh, (unsigned long long)on);
      done("ok", b);
    }
    close(p[1]); close(pe[1]);
    std::string out, err;
    char buf[4096];
    ssize_t n;
    while ((n = read(pe[0], buf, sizeof buf)) > 0) if (err.size() < 200000) err.append(buf, n);
    while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(p[0]); close(pe[0]);
    int st;
    waitpid(pid, &st, 0);
    if (!out.empty() && out.back() == '\n') out.pop_back();
    if (out.empty()) {
      std::string why;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) why = "timeout";
      else {
        size_t k = err.find("ERROR: AddressSanitizer");
        if (k == std::string::npos) k = err.find("WARNING: ThreadSanitizer");
        if (k == std::string::npos) k = err.find("runtime error");
        if (k == std::string::npos) k = err.find("Assertion");
        if (k == std::string::npos) k = err.find("terminate called");
        if (k != std::string::npos) { why = err.substr(k, 300); for (auto &c : why) if (c == '\n') c = ' '; }
        else why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
      }
      out = "crash " + why;
    }
    printf("%s %s\n", id.c_str(), out.c_str());
  }
  return 0;
}
