// Native side of the harness interface: replays input vectors against the real code.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <atomic>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SX_ASAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=16:handle_abort=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
#endif
#endif
static std::map<std::string, void (*)()> &table() { static std::map<std::string, void (*)()> t; return t; }
sx_reg::sx_reg(const char *n, void (*f)()) { table()[n] = f; }
static std::vector<uint64_t> in; static size_t pos; static std::vector<uint64_t> obsv; static long live; static bool counting;
static std::string expct[4]; static std::ostringstream cap[3]; static int capfd = -1, realout = -1; static int resfd = 3;
static std::atomic<long> hookLive{0};
static void onM(const volatile void *, size_t) { hookLive++; }
static void onF(const volatile void *p) { if (p) hookLive--; }
static void finish(int code, const char *msg) {
  counting = false;
  std::string s = std::to_string(code) + " " + (msg ? msg : ""); 
  if (realout >= 0) { fflush(stdout); dup2(realout, 1); }
  if (code) fprintf(stderr, "REPLAY: %s\n", msg);
  _exit(code);
}
static uint64_t next() { if (pos >= in.size()) finish(78, "input vector exhausted (different path)"); return in[pos++]; }
extern "C" {
uint64_t sx_sym(const char *, unsigned bits) { uint64_t v = next(); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t sx_choose_(const char *, uint64_t n) { uint64_t v = next(); if (v >= n) finish(78, "choice out of range (different path)"); return v; }
void sx_assume_(unsigned c) { if (!c) finish(77, "assumption does not hold on this input"); }
void sx_assert_(unsigned c, const char *msg) { if (!c) { std::string m = std::string("assertion failed: ") + msg; finish(101, m.c_str()); } }
void sx_fail(const char *msg) { std::string m = std::string("failed: ") + msg; finish(101, m.c_str()); }
void sx_observe(uint64_t v) { obsv.push_back(v); }
void sx_cover(const char *) {}
void sx_known(const char *) {}
uint64_t sx_heap_live() { return 0; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_expect(int s, int kind, uint64_t v) { char b[64]; if (kind == 'c') expct[s] += (char)v; else if (kind == 'i') { snprintf(b, sizeof b, "%lld", (long long)v); expct[s] += b; } else { double d; memcpy(&d, &v, 8); std::ostringstream o; o << d; expct[s] += o.str(); } }
int sx_expect_match() {
  fflush(stdout); std::string so; if (capfd >= 0) { lseek(capfd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(capfd, b, sizeof b)) > 0) so.append(b, n); }
  for (int i = 0; i < 3; i++) if (cap[i].str() != expct[i]) return 0;
  return so == expct[3];
}
}
static int runOne(void (*f)()) {
  obsv.reserve(4096); obsv.clear(); pos = 0;
  capfd = open("/tmp", O_TMPFILE | O_RDWR, 0600); if (capfd < 0) { FILE *t = tmpfile(); capfd = t ? dup(fileno(t)) : -1; }
  fflush(stdout); realout = dup(1); if (capfd >= 0) dup2(capfd, 1);
  std::cout.rdbuf(cap[0].rdbuf()); std::cerr.rdbuf(cap[1].rdbuf()); std::clog.rdbuf(cap[2].rdbuf());
  printf("%s", ""); fflush(stdout);
  long before = hookLive;
  f();
  long after = hookLive;
  bool leak = false; (void)before; (void)after;
#ifdef SX_ASAN
  // stream capture buffers and stdio buffers are the only allocations allowed to survive
  if (getenv("SX_LEAKCHECK") && after > before + (long)atol(getenv("SX_LEAKCHECK"))) leak = true;
#endif
  fflush(stdout); dup2(realout, 1); realout = -1;
  if (leak) { fprintf(stderr, "REPLAY: %ld heap block(s) never freed\n", after - before); _exit(102); }
  return 0;
}
int main(int argc, char **argv) {
#ifdef SX_ASAN
  __sanitizer_install_malloc_and_free_hooks(onM, onF);
#endif
  if (argc < 3) return 2;
  auto it = table().find(argv[1]); if (it == table().end()) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  std::ifstream fi(argv[2]); std::string line; std::vector<std::vector<uint64_t>> cases;
  while (std::getline(fi, line)) { std::istringstream s(line); std::vector<uint64_t> v; uint64_t x; while (s >> x) v.push_back(x); cases.push_back(v); }
  if (argc > 3 && !strcmp(argv[3], "batch")) { // one line per case: exit code and observations
    for (size_t i = 0; i < cases.size(); i++) {
      fflush(stdout); int p[2]; if (pipe(p)) return 2; pid_t k = fork();
      if (k == 0) { close(p[0]); in = cases[i]; alarm(20); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); runOne(it->second); std::string o; for (auto x : obsv) o += " " + std::to_string(x); if (write(p[1], o.data(), o.size()) < 0) _exit(3); _exit(0); }
      close(p[1]); std::string o; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, n); close(p[0]); int st; waitpid(k, &st, 0);
      int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); printf("%d%s\n", code, o.c_str()); }
    return 0;
  }
  in = cases.at(argc > 3 ? atoi(argv[3]) : 0);
  alarm(getenv("SX_TIMEOUT") ? atoi(getenv("SX_TIMEOUT")) : 20);
  runOne(it->second);
  printf("REPLAY: harness passed, observations:"); for (auto x : obsv) printf(" %llu", (unsigned long long)x); printf("\n");
  return 0;
}
