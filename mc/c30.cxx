// C30: calls leave the process around them as it is, and their results do not depend on it.
// The environment is a product of binary settings; every combination runs all calls in a process of its own.
#include "calls.hpp"
#include <cfenv>
#include <clocale>
#include <dirent.h>
#include <locale>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <xmmintrin.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
extern char** environ;
using namespace mc;

// ---- what the library asks its process for: names of environment variables are noted, clocks can be made to jump
namespace {
struct Asked { std::atomic<int> n; char name[64][128]; };
Asked own{}; Asked* asked = &own;
std::atomic<bool> odd_clock{false}; std::atomic<long> jumps{0};
char* look_up(const char* n) {
  const int had = std::min(asked->n.load(), 64); bool seen = false;
  for (int i = 0; i < had; ++i) seen = seen || std::strncmp(asked->name[i], n, 127) == 0;
  if (!seen) { const int k = asked->n++; if (k < 64) std::strncpy(asked->name[k], n, 127); }
  const size_t l = std::strlen(n);
  for (char** e = environ; e && *e; ++e) if (std::strncmp(*e, n, l) == 0 && (*e)[l] == '=') return *e + l + 1;
  return nullptr;
}
}
extern "C" char* getenv(const char* n) noexcept { return look_up(n); }
extern "C" char* secure_getenv(const char* n) noexcept { return look_up(n); }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept { const int r = int(syscall(SYS_clock_gettime, c, t)); if (r == 0 && odd_clock) t->tv_sec = 1000 + 86400 * ++jumps; return r; }
extern "C" time_t time(time_t* t) noexcept { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); if (t) *t = x.tv_sec; return x.tv_sec; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec x; const int r = clock_gettime(CLOCK_REALTIME, &x); tv->tv_sec = x.tv_sec; tv->tv_usec = x.tv_nsec / 1000; return r; }
extern "C" clock_t clock() noexcept { struct timespec x; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &x); return clock_t(x.tv_sec) * CLOCKS_PER_SEC + x.tv_nsec / 1000; }

namespace {
struct Shared { std::atomic<long long> states, trans; std::atomic<int> failed; char text[4096]; };
Shared* sh = nullptr;
void fail(const std::string& s) { int z = 0; if (sh->failed.compare_exchange_strong(z, 1)) { std::strncpy(sh->text, s.c_str(), sizeof(sh->text) - 1); sh->failed = 2; } }

std::vector<Call> all_calls() {
  auto a = alphabet();
  // the largest requests: nothing of their size may live on the stack, nor any recursion be that deep
  a.push_back({"LebedevLaikov(5810)", [] { return made(LebedevLaikov<double>(5810)); }});
  a.push_back({"Delley(1202)", [] { return made(Delley<double>(1202)); }});
  a.push_back({"AhrensBeylkin(5072)", [] { return made(AhrensBeylkin<double>(5072)); }});
  a.push_back({"Womersley(7878)", [] { return made(Womersley<double>(7878)); }});
  a.push_back({"GaussLegendre(600)", [] { return made(GaussLegendre<double, double>(600)); }});
  a.push_back({"Becke(3000)", [] { return made(Becke<double, double>(3000, 1.0)); }});
  a.push_back({"batches of coinciding points", [] { return made_batcher(Batcher(1, holding(std::vector<P3>(1500, P3{1, 2, 3}), std::vector<double>(1500, 0.5)))); }});
  a.push_back({"batches of points on a line", [] { std::vector<P3> p; for (int i = 0; i < 1500; ++i) p.push_back({std::ldexp(1.0, -i / 2), 0, 0}); return made_batcher(Batcher(1, holding(p, std::vector<double>(1500, 0.5)))); }});
  a.push_back({"an unknown name", [] { std::string s = "accepted"; try { angular_from_string("LEBEDEV "); } catch (const std::exception&) { s = "refused"; } return Made{s, nullptr, [] {}}; }});
  a.push_back({"names in odd cases", [] { return Made{say(unsigned(radial_from_string("mUrAkNoWlEs")), unsigned(angular_from_string("aHrEnSbEyLkIn")), unsigned(radial_from_string("tReUtLeRaHlRiChS"))), nullptr, [] {}}; }});
  a.push_back({"a pruned specification that does not tile", [] { std::string s = "accepted"; try { SphericalGridFactory::generate_grid(PrunedSphericalGridSpecification(RadialQuad::Becke, *make_radial_traits(RadialQuad::Becke, size_t(4), 1.0), std::vector<PruningRegion>{{0, 2, AngularQuad::LebedevLaikov, 26}})); } catch (const std::exception&) { s = "refused"; } return Made{s, nullptr, [] {}}; }});
  return a;
}

// rules and grids of many points, for fewer environments
std::vector<Call> large_calls() {
  using D = double; using F = float; using E = long double; using B = Becke<D, D>; using L = LebedevLaikov<D>;
  std::vector<Call> a; auto add = [&](const char* n, std::function<Made()> f) { a.push_back({n, std::move(f)}); };
  add("GaussLegendre(2500)", [] { return made(GaussLegendre<D, D>(2500)); }); add("GaussLobatto(2500)", [] { return made(GaussLobatto<D, D>(2500)); });
  add("GaussLegendre<long double>(1100)", [] { return made(GaussLegendre<E, E>(1100)); }); add("GaussLobatto<float>(300)", [] { return made(GaussLobatto<F, F>(300)); });
  add("GaussChebyshev1(70001)", [] { return made(GaussChebyshev1<D, D>(70001)); }); add("GaussChebyshev2(70001)", [] { return made(GaussChebyshev2<D, D>(70001)); });
  add("GaussChebyshev2Modified(70001)", [] { return made(GaussChebyshev2Modified<D, D>(70001)); }); add("GaussChebyshev3(70001)", [] { return made(GaussChebyshev3<D, D>(70001)); });
  add("UniformTrapezoid(70001)", [] { return made(UniformTrapezoid<D, D>(70001, -1, 2)); });
  add("Becke(70001)", [] { return made(B(70001, 1.5)); }); add("MurrayHandyLaming(70001)", [] { return made(MurrayHandyLaming<D, D>(70001, 1.5)); });
  add("MuraKnowles(70001)", [] { return made(MuraKnowles<D, D>(70001, 1.5)); }); add("TreutlerAhlrichs(70001)", [] { return made(TreutlerAhlrichs<D, D>(70001, 1.5)); });
  add("spherical grid of 69720 points", [] { auto q = std::make_shared<SphericalQuadrature<B, L>>(B(12, 1.0), L(5810), P3{1, 2, 3}); q->recenter({3, 2, 1}); return made_sph(q->clone()); });
  add("robust scheme of 1500 radial points", [] { auto s = create_pruned_spec(PruningScheme::Robust, UnprunedSphericalGridSpecification(RadialQuad::Becke, *make_radial_traits(RadialQuad::Becke, size_t(1500), 1.5), AngularQuad::LebedevLaikov, 50)); return made_sph(SphericalGridFactory::generate_grid(s)); });
  add("batches of a grid of 60400 points", [] { return made_batcher(Batcher(512, SphericalQuadrature<B, L>(B(200, 1.0), L(302), P3{1, 2, 3}))); });
  return a;
}

// ---- what surrounds a call
std::string listing(const char* d) {
  std::vector<std::string> v; DIR* p = opendir(d); if (!p) return "?";
  const int own = dirfd(p);
  while (auto* e = readdir(p)) if (std::string(e->d_name) != std::to_string(own)) v.push_back(e->d_name);
  closedir(p); std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) s += x + " "; return s;
}
struct Around { std::vector<std::pair<std::string, std::string>> v; };
Around around(int out) {
  Around a; auto add = [&](const char* n, std::string s) { a.v.push_back({n, std::move(s)}); };
  add("rounding mode", say(fegetround()));
  unsigned short cw; asm volatile("fnstcw %0" : "=m"(cw)); add("floating-point control", say(int(cw), "/", int(_mm_getcsr() & ~0x3Fu)));
  add("C locale", setlocale(LC_ALL, nullptr));
  add("C++ locale", say(std::locale().name(), std::locale() == std::locale::classic() ? " classic" : " other"));
  for (std::ostream* o : {&std::cout, &std::cerr, &std::clog}) add("state of a standard stream", say(long(o->flags()), "/", long(o->precision()), "/", int(o->fill()), "/", long(o->width()), "/", int(o->rdstate()), "/", int(o->exceptions()), (o->getloc() == std::locale::classic() ? "c" : "o"), size_t(o->rdbuf()), size_t(o->tie())));
  char b[4096]; add("working directory", getcwd(b, sizeof b) ? b : "none");
  std::string env; for (char** e = environ; e && *e; ++e) { env += *e; env += '\n'; } add("environment variables", env);
  const mode_t m = umask(0); umask(m); add("umask", say(unsigned(m)));
  std::string sg; for (int s = 1; s < 65; ++s) { struct sigaction x; if (sigaction(s, nullptr, &x) == 0) sg += say(size_t(x.sa_handler), ":", x.sa_flags, " "); } add("signal handlers", sg);
  sigset_t ss; pthread_sigmask(SIG_SETMASK, nullptr, &ss); std::string mk; for (int s = 1; s < 65; ++s) mk += sigismember(&ss, s) ? '1' : '0'; add("signal mask", mk);
  add("open files", listing("/proc/self/fd")); add("threads", listing("/proc/self/task"));
  add("terminate handler", say(size_t(std::get_terminate()))); add("new handler", say(size_t(std::get_new_handler())));
  for (int w : {ITIMER_VIRTUAL, ITIMER_PROF}) { itimerval t; getitimer(w, &t); add("timers", say(long(t.it_value.tv_sec), ".", long(t.it_interval.tv_sec))); }
  for (int w : {RLIMIT_STACK, RLIMIT_NOFILE, RLIMIT_CORE, RLIMIT_AS}) { rlimit r; getrlimit(__rlimit_resource_t(w), &r); add("resource limits", say(size_t(r.rlim_cur), "/", size_t(r.rlim_max))); }
  struct stat st; add("output", fstat(out, &st) == 0 ? say(long(st.st_size)) : "?");
  return a;
}

// ---- settings
enum { ERRNO, FLAGS, LOCALE, CLOCALE, RAND, CWD, ENV, CLOSED, STACK, UNWIND, NSET };
const char* SETTING[] = {"errno set", "floating-point flags raised", "odd C++ locale", "C.UTF-8 locale", "random numbers drawn, jumping clocks", "no working directory", "other environment variables", "no standard streams, no more files, one processor", "1 MiB stack", "during stack unwinding"};
std::string name_of(unsigned e) { std::string s; for (int k = 0; k < NSET; ++k) if (e >> k & 1) s += cat(s.empty() ? "" : ", ", SETTING[k]); return s.empty() ? "plain" : s; }
struct Upside : std::ctype<char> {
  char do_toupper(char c) const override { return char(c ^ 1); } const char* do_toupper(char* a, const char* b) const override { for (; a < b; ++a) *a ^= 1; return b; }
  char do_tolower(char c) const override { return char(c ^ 1); } const char* do_tolower(char* a, const char* b) const override { for (; a < b; ++a) *a ^= 1; return b; }
};
struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '5'; } std::string do_grouping() const override { return "\1"; } };

std::string run(const Call& c) { try { return c.make().bytes; } catch (const std::exception& e) { return std::string("exception: ") + e.what(); } catch (...) { return "exception"; } }
struct AtUnwind { const Call& c; std::string& out; ~AtUnwind() { out = run(c); } };
template <class F> void on_small_stack(F&& f) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  pthread_t t; auto g = [](void* p) -> void* { (*static_cast<std::decay_t<F>*>(p))(); return nullptr; };
  if (pthread_create(&t, &at, g, &f) == 0) pthread_join(t, nullptr); else fail("no thread");
  pthread_attr_destroy(&at);
}

void in_environment(unsigned e, int rounding, const std::vector<Call>& calls, const std::vector<std::string>& ref, const std::string& scratch) {
  const std::string file = cat(scratch, "/out.", getpid()), dir = cat(scratch, "/dir.", getpid());
  const int out = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); unlink(file.c_str());
  mkdir(dir.c_str(), 0700); if (chdir(dir.c_str()) || out < 0) { fail("scratch"); return; }
  if (e >> CLOSED & 1) { close(1); close(2); close(0); } else { dup2(out, 1); dup2(out, 2); }
  if (e >> LOCALE & 1) std::locale::global(std::locale(std::locale(std::locale(), new Upside), new Comma));
  if (e >> CLOCALE & 1) setlocale(LC_ALL, "C.UTF-8");
  if (e >> ENV & 1) { clearenv(); setenv("LC_ALL", "tr_TR.UTF-8", 1); setenv("OMP_NUM_THREADS", "3", 1); setenv("INTEGRATORXX_VERBOSITY_LEVEL", "9", 1); setenv("INTEGRATORXX_DEBUG", "1", 1); setenv("HOME", "/nonexistent", 1); }
  if (e >> CWD & 1) rmdir(dir.c_str());
  if (e >> RAND & 1) odd_clock = true;
  if (e >> CLOSED & 1) { cpu_set_t c, one; CPU_ZERO(&one); if (sched_getaffinity(0, sizeof c, &c) == 0) for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &c)) { CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; } }
  if (rounding & 1) fesetround(FE_UPWARD);
  if (rounding & 2) _mm_setcsr(_mm_getcsr() | 0x8040);
  if (e >> CLOSED & 1) { rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &r); }
  for (size_t k = 0; k < calls.size() && !sh->failed; ++k) {
    std::string got; Around before, after;
    auto body = [&] {
      before = around(out);
      if (e >> RAND & 1) srand(unsigned(7 + k)); else srand(1);
      const int first = rand();
      std::feclearexcept(FE_ALL_EXCEPT); if (e >> FLAGS & 1) std::feraiseexcept(FE_ALL_EXCEPT);
      errno = e >> ERRNO & 1 ? ERANGE : 0;
      const int live = std::uncaught_exceptions();
      if (e >> UNWIND & 1) { try { AtUnwind a{calls[k], got}; throw 1; } catch (int) {} } else got = run(calls[k]);
      if (std::uncaught_exceptions() != live) fail("an exception is left in flight");
      const int second = rand();
      srand(unsigned(e >> RAND & 1 ? 7 + k : 1));
      if (rand() != first || rand() != second) fail(cat(calls[k].name, " uses up random numbers (", name_of(e), ")"));
      after = around(out);
    };
    if (e >> STACK & 1) on_small_stack(body); else body();
    ++sh->trans;
    if (!rounding && got != ref[k]) fail(cat(calls[k].name, ": another result with ", name_of(e)));
    for (size_t i = 0; i < before.v.size(); ++i) {
      if (before.v[i].first == "threads" && (e >> STACK & 1)) continue;
      if (before.v[i] != after.v[i]) fail(cat(calls[k].name, " (", name_of(e), rounding ? ", rounding" : "", ") changes the ", before.v[i].first, ": ", before.v[i].second.substr(0, 200), " -> ", after.v[i].second.substr(0, 200)));
    }
  }
  if (!(e >> CWD & 1) && listing(dir.c_str()) != ". .. ") fail(cat("files were made: ", listing(dir.c_str())));
  // anything buffered shows now
  std::cout.flush(); std::cerr.flush(); std::clog.flush(); fflush(stdout);
  struct stat st; if (fstat(out, &st) == 0 && st.st_size != 0) fail(cat(st.st_size, " bytes were printed (", name_of(e), ")"));
  ++sh->states;
  if (chdir("/")) {}
  rmdir(dir.c_str());
}
}  // namespace

int main(int argc, char** argv) {
  if (argc > 2 && std::string(argv[1]) == "--results") {   // all results, of a process started anew
    const int fd = std::atoi(argv[2]); std::string s; for (auto& c : all_calls()) s += run(c) + "\n";
    const auto h = say(std::hash<std::string>{}(s), "/", s.size()); return write(fd, h.data(), h.size()) == ssize_t(h.size()) ? 0 : 1;
  }
  init(argc, argv);
  { auto* m = static_cast<Asked*>(mmap(nullptr, sizeof(Asked), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));   // what forked processes ask is noted as well
    m->n = own.n.load(); std::memcpy(m->name, own.name, sizeof own.name); asked = m; }
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  char scratch[] = "/tmp/mc-c30-XXXXXX"; if (!mkdtemp(scratch)) return 3;
  const auto calls = all_calls();
  // references: each call first in a fresh process
  const auto references = [](const std::vector<Call>& calls) {
   std::vector<std::string> ref;
   for (auto& c : calls) {
    int fd[2]; if (pipe(fd)) std::exit(3);
    const pid_t pid = fork();
    if (pid == 0) { close(fd[0]); const auto s = run(c); size_t at = 0; while (at < s.size()) { const auto w = write(fd[1], s.data() + at, s.size() - at); if (w <= 0) break; at += w; } _exit(0); }
    close(fd[1]); std::string s; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
    close(fd[0]); int st; waitpid(pid, &st, 0); ref.push_back(s);
   }
   return ref;
  };
  const auto ref = references(calls);
  int live = 0;
  auto reap = [&](int limit) { while (live > limit) { int st = 0; if (wait(&st) <= 0) { live = 0; return; } --live; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail(cat("a call ends the process (status ", st, ")")); } };
  auto one_of = [&](unsigned e, int rounding, const std::vector<Call>& calls, const std::vector<std::string>& ref) {
    reap(7);
    const pid_t pid = fork();
    if (pid < 0) { fail("fork"); return; }
    if (pid == 0) { alarm(120); in_environment(e, rounding, calls, ref, scratch); _exit(0); }
    ++live;
  };
  auto one = [&](unsigned e, int rounding) { one_of(e, rounding, calls, ref); };
  // groups of environments: one case for each choice of the last five settings
  for (unsigned hi = 0; hi < (1u << (NSET - 5)); ++hi) {
    if (!begin(cat("environment/", hi))) continue;
    alarm(600); sh->failed = 0;
    for (unsigned lo = 0; lo < 32 && !sh->failed; ++lo) one(hi << 5 | lo, 0);
    reap(0);
    if (sh->failed) violation(sh->text);
  }
  for (int r = 1; r < 4; ++r) {
    if (!begin(cat("rounding/", r))) continue;
    sh->failed = 0;
    for (unsigned e = 0; e < (1u << NSET); e += thorough() ? 1 : 31) if (!sh->failed) one(e, r);
    reap(0);
    if (sh->failed) violation(sh->text);
  }
  // many points: each setting alone, all but one, none and all
  size_t n_large = 0;
  if (begin("large")) {
    alarm(600); sh->failed = 0;
    const auto many = large_calls(); n_large = many.size(); const auto want = references(many);
    for (unsigned e = 0; e < (1u << NSET) && !sh->failed; ++e) { const int k = __builtin_popcount(e); if (k <= 1 || k >= NSET - 1) one_of(e, 0, many, want); }
    reap(0);
    if (sh->failed) violation(sh->text);
  }
  // whatever environment variable was asked for: with any content, set before the process starts, the results are the same
  int n_vars = 0;
  if (begin("variables asked for")) {
    alarm(300);
    const auto results = [&](const std::string& var, const char* value) {
      int fd[2]; if (pipe(fd)) return std::string("pipe");
      const pid_t pid = fork();
      if (pid == 0) {
        alarm(100); close(fd[0]); if (!var.empty()) setenv(var.c_str(), value, 1);
        const auto n = std::to_string(fd[1]); execl("/proc/self/exe", "c30", "--results", n.c_str(), nullptr); _exit(9);
      }
      close(fd[1]); std::string s; char b[256]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
      close(fd[0]); int st; waitpid(pid, &st, 0); ++sh->trans; return st == 0 ? s : cat(s, " and status ", st);
    };
    const auto plain = results("", ""), again = results("", "");
    MC_CHECK(plain == again, "two processes started alike give different results: ", plain, " and ", again);
    const int n = std::min(asked->n.load(), 64);
    for (int i = 0; i < n; ++i) {
      const std::string var = asked->name[i];
      if (var.empty() || var.compare(0, 2, "LD") == 0 || var.compare(0, 7, "GLIBCXX") == 0 || var.compare(0, 6, "MALLOC") == 0) continue;   // the loader's and the run-time system's own
      ++n_vars;
      for (const char* v : {"", "0", "1", "2", "64", "-1", "1e-3", "true", "off", "x"}) { const auto got = results(var, v); MC_CHECK(got == plain, "another result with ", var, "=", v); }
    }
  }
  count("variables_asked_for", n_vars);
  if (rmdir(scratch)) {}
  count("states", sh->states); count("transitions", sh->trans); count("calls", calls.size()); count("settings", NSET); count("large_calls", n_large);
  info("space", cat("every combination of ", int(NSET), " settings of the process x ", calls.size(), " calls; results compared bit for bit with those of a fresh process, and 17 aspects of the process before and after each call; ", n_large, " calls for many points in 22 of the environments"));
  sample(name_of(0x155)); sample(name_of(0x2AA));
  return finish();
}
