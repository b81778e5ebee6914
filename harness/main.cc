// searches for a concrete input on which the real code breaks a property
//   exe PROPERTY SECONDS SEED      exit 0: none found, 3: no search for this property, 1: found (printed)
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "common.h"

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Shared { unsigned long episodes; unsigned long seed; };

static void seed_code(unsigned long s) { Util::gen_.seed(s); }

static FILE* OUT;
static void print_trace() {
  size_t from = TRACE.size() > 60 ? TRACE.size() - 60 : 0;
  for (size_t i = from; i < TRACE.size(); i++) fprintf(OUT, "  %s\n", TRACE[i].c_str());
}
static void crashed(int sig) {
  signal(sig, SIG_DFL);
  fprintf(OUT, "crashed (signal %d) after:\n", sig);
  print_trace();
  fflush(OUT);
  raise(sig);
}

static int run(const std::vector<Search>& S, double until, unsigned long seed, unsigned long step, Shared* sh, FILE* out) {
  OUT = out;
  for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(sg, crashed);
  for (unsigned long k = 0;; k++) {
    if (k % 16 == 0 && now() > until) return 0;
    unsigned long es = seed + k * step;
    sh->episodes++;
    sh->seed = es;
    G.seed(es * 0x9e3779b97f4a7c15ull + 12345);
    seed_code(es);
    TRACE.clear();
    try {
      S[k % S.size()]();
    } catch (Violation& v) {
      fprintf(out, "property %s broken (search %lu, seed %lu):\n", PROP.c_str(), k % S.size(), es);
      print_trace();
      fprintf(out, "VIOLATED: %s\n", v.what.c_str());
      fflush(out);
      return 1;
    } catch (Stopped& s) {
      // the code stopped the process on an input outside what the search may judge
    }
  }
}

int main(int argc, char** argv) {
  PROP = argv[1];
  double secs = atof(argv[2]);
  unsigned long seed = strtoul(argv[3], 0, 10) * 1000003ul;
  std::vector<Search> S;
  direct(S);
  static const std::set<std::string> N = {"C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C14", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C25", "C26", "C27", "C28", "C29"};
  if (N.count(PROP)) { S.push_back(node_episode); S.push_back(cluster_episode); if (!S.empty()) S.push_back(node_episode); }
  if (S.empty()) return 3;
  if (argc > 4) {  // replay one episode: exe PROP 0 0 SEARCH SEED
    std::vector<Search> one{S[atoi(argv[4])]};
    Shared sh{};
    return run(one, now() + 1e-3, strtoul(argv[5], 0, 10), 0, &sh, stdout);
  }
  int n = 8;
  auto sh = (Shared*)mmap(0, n * sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double until = now() + secs;
  std::vector<pid_t> pid(n);
  std::vector<FILE*> f(n);
  for (int i = 0; i < n; i++) {
    f[i] = tmpfile();
    fflush(0);
    pid[i] = fork();
    if (pid[i] == 0) {
      // the code under test may write to stdout
      freopen("/dev/null", "w", stdout);
      freopen("/dev/null", "w", stderr);
      alarm((unsigned)secs + 30);
      // distinct episodes per worker, every search in turn
      std::vector<Search> mine;
      for (size_t k = 0; k < S.size(); k++) mine.push_back(S[(k + i) % S.size()]);
      _exit(run(mine, until, seed + i, n, &sh[i], f[i]));
    }
  }
  int rc = 0, left = n;
  while (left > 0) {
    int st;
    pid_t p = wait(&st);
    if (p < 0) break;
    left--;
    for (int i = 0; i < n; i++) if (pid[i] == p) {
      bool crash = WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM;
      bool bad = WIFEXITED(st) && WEXITSTATUS(st) == 1;
      if ((crash || bad) && rc == 0) {
        rc = 1;
        if (crash) printf("the code under test crashed (signal %d) at seed %lu\n", WTERMSIG(st), sh[i].seed);
        rewind(f[i]);
        char b[4096];
        size_t k;
        while ((k = fread(b, 1, sizeof b, f[i])) > 0) fwrite(b, 1, k, stdout);
        for (int j = 0; j < n; j++) if (j != i) kill(pid[j], SIGKILL);
      }
      pid[i] = -1;
    }
  }
  unsigned long eps = 0;
  for (int i = 0; i < n; i++) eps += sh[i].episodes;
  if (!rc) printf("%lu episodes\n", eps);
  return rc;
}
