// Driver: harness PROP --seed S --iters N --seconds T [--only K] [--out FILE]
#include <setjmp.h>
#include <sys/time.h>

#include <ctime>
#include <exception>

#include "common.h"

namespace h {
uint64_t g_seed = 1;
long g_iter = 0;
std::string g_stage;
std::string g_known, g_known_assert, g_known_function;
static std::string g_listed;  // known findings that are listed, as ",a,b,"
static char g_assert[512];
static long g_known_hits = 0;
void note_assert(const char* expr, const char* func) {
  std::snprintf(g_assert, sizeof g_assert, "%s in %s", expr, func);
}
long g_checks = 0;
static const char* g_prop = "";
static char g_outname[4096];

static void emit(const char* kind, const char* text) {
  char buf[512];
  FILE* f = g_outname[0] ? std::fopen(g_outname, "w") : stdout;
  if (!f) f = stdout;
  std::fprintf(f, "FAIL property=%s kind=%s seed=%llu iteration=%ld\n", g_prop,
               kind, static_cast<unsigned long long>(g_seed), g_iter);
  std::fprintf(f, "replay: harness %s --seed %llu --only %ld\n", g_prop,
               static_cast<unsigned long long>(g_seed), g_iter);
  std::fprintf(f, "%s\n", text);
  std::fflush(f);
  (void)buf;
}
static sigjmp_buf g_skip;
static void on_signal(int sig) {
  // A failure while a test input is being built, before the code of the
  // property is called, says nothing about the property: skip the input.
  if (g_stage.empty()) siglongjmp(g_skip, 1);
  if (sig == SIGABRT && !g_known.empty() && g_assert[0] &&
      std::strstr(g_assert, g_known_assert.c_str()) &&
      std::strstr(g_assert, g_known_function.c_str()) &&
      g_listed.find("," + g_known + ",") != std::string::npos) {
    ++g_known_hits;
    siglongjmp(g_skip, 1);
  }
  // Called for abort / segmentation fault / alarm inside the code under test.
  std::string s = std::string("signal ") + std::to_string(sig) +
                  (sig == SIGALRM ? " (no result within the time limit)"
                                  : " (abort, assertion or memory fault)") +
                  (g_assert[0] ? std::string(" ") + g_assert : "") +
                  "\nwhile: " + g_stage;
  emit(sig == SIGALRM ? "hang" : "crash", s.c_str());
  _exit(3);
}
int drive(int argc, char** argv,
          const std::map<std::string, IterFn>& properties) {
  std::string prop = argc > 1 ? argv[1] : "";
  long iters = 1000000000, only = -1;
  double seconds = 20;
  for (int i = 2; i + 1 < argc; i += 2) {
    const std::string a = argv[i];
    if (a == "--seed") g_seed = std::strtoull(argv[i + 1], nullptr, 10);
    if (a == "--iters") iters = std::atol(argv[i + 1]);
    if (a == "--seconds") seconds = std::atof(argv[i + 1]);
    if (a == "--only") only = std::atol(argv[i + 1]);
    if (a == "--known") g_listed = std::string(",") + argv[i + 1] + ",";
    if (a == "--out") std::snprintf(g_outname, sizeof g_outname, "%s", argv[i + 1]);
  }
  auto it = properties.find(prop);
  if (it == properties.end()) {
    std::fprintf(stderr, "unknown property %s\n", prop.c_str());
    return 2;
  }
  g_prop = it->first.c_str();
  pool();
  static char stack[1 << 16];
  stack_t ss;
  std::memset(&ss, 0, sizeof ss);
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  std::memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM})
    sigaction(s, &sa, nullptr);
  timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  volatile long done = 0, skipped = 0;
  for (g_iter = only >= 0 ? only : 0; g_iter < iters; ++g_iter) {
    Rng rng(g_seed * 1000003ull + static_cast<uint64_t>(g_iter));
    g_stage.clear();
    g_known.clear();
    g_assert[0] = 0;
    if (sigsetjmp(g_skip, 1)) {
      ++skipped;
      if (only >= 0 || skipped > 100000) break;
      continue;
    }
    alarm(120);
    try {
      it->second(&rng);
    } catch (const Failure& f) {
      emit("wrong-result", f.what.c_str());
      return 3;
    } catch (const std::exception& e) {
      if (g_stage.empty()) {
        ++skipped;
        if (only >= 0) break;
        continue;
      }
      emit("exception", (std::string("unexpected exception: ") + e.what() +
                         "\nwhile: " + g_stage).c_str());
      return 3;
    }
    alarm(0);
    ++done;
    if (only >= 0) break;
    if ((done & 15) == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > seconds)
        break;
    }
  }
  alarm(0);
  if (g_known_hits)
    std::printf("KNOWN %s hits=%ld\n", g_listed.c_str(), g_known_hits);
  std::printf("OK property=%s seed=%llu iterations=%ld skipped=%ld checks=%ld\n", g_prop,
              static_cast<unsigned long long>(g_seed), static_cast<long>(done),
              static_cast<long>(skipped), g_checks);
  return 0;
}
}  // namespace h

// Overrides the C library's handler to keep the text of the assertion.
extern "C" void __assert_fail(const char* expr, const char* file,
                              unsigned line, const char* func) noexcept {
  h::note_assert(expr, func ? func : "");
  (void)file;
  (void)line;
  std::abort();
}
