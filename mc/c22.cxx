// C22: concurrent use.  Every pair of operations, in two threads in both orders, under every schedule of their synchronisation
// (preemption bounded), with every memory access checked for data races and every result compared with the serial one.
#include "world.hpp"
#include "sched.hpp"
#include <sys/wait.h>
using namespace mc;

namespace {
struct Stats { std::atomic<long long> states, runs, points, accesses, syncs, bytes, capped, skipped, unpreempted; std::atomic<int> failed; char text[2048]; };
Stats* st = nullptr;
static_assert(sched::MAXT < 4);
struct Results { uint64_t h[sched::MAXT + 1][4]; };
uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Program { int n; std::vector<int> seq[sched::MAXT + 1]; };
const Program* prog = nullptr; Results* out = nullptr;
void body(int t, void*) {
  size_t k = 0;
  for (int o : prog->seq[t]) {
    sched::point();
    std::string s; try { s = ops[o].run(t); } catch (const std::exception& e) { s = std::string("exception: ") + e.what(); } catch (...) { s = "exception"; }
    out->h[t][k++] = fnv(s);
  }
}
std::string describe_program(const Program& p) { std::string s; for (int t = 1; t <= p.n; ++t) { if (t > 1) s += " || "; for (int o : p.seq[t]) s += ops[o].name + "; "; } return s; }
void fail(const std::string& s) { int z = 0; if (st->failed.compare_exchange_strong(z, 1)) std::strncpy(st->text, s.c_str(), sizeof(st->text) - 1); }

// one run of the program under the schedule in r->prefix, in a process of its own
int execute(sched::Run* r, const Program& p) {
  prog = &p;
  const pid_t pid = fork();
  if (pid == 0) { alarm(100); sched::run(r, p.n, body, nullptr); _exit(0); }
  int s = 0; waitpid(pid, &s, 0); return s;
}
void explore(const Program& p, int bound, sched::Run* r, Results* res, Results* ref) {
  std::memset(ref, 0, sizeof *ref);
  r->nprefix = 0; r->nshared = 0;
  for (int t = 1; t <= p.n; ++t) {   // alone
    Program a; a.n = t; a.seq[t] = p.seq[t]; out = ref;
    const int s = execute(r, a);
    if (!WIFEXITED(s) || WEXITSTATUS(s) || !r->complete) return fail(cat("alone: ", describe_program(a), ": ", WIFSIGNALED(s) ? "crash" : r->text));
  }
  out = res; r->nprefix = 0; r->nshared = 0;
  long long runs = 0;
  for (;;) {
    std::memset(res, 0, sizeof *res);
    r->accesses = r->syncs = r->bytes = 0; r->text[0] = 0;
    const int s = execute(r, p);
    ++runs; ++st->runs; st->points += r->npoints; st->accesses += r->accesses; st->syncs += r->syncs; st->bytes += r->bytes;
    auto schedule = [&] { std::string o = " [schedule"; for (int i = 0; i < r->npoints; ++i) o += cat(" ", int(r->point[i].enabled[r->point[i].pick])); return o + "]"; };
    if (r->race || r->deadlock) return fail(cat(describe_program(p), ": ", r->text, schedule()));
    if (WIFSIGNALED(s)) return fail(cat(describe_program(p), ": ", WTERMSIG(s) == SIGALRM ? "does not end" : cat("dies of signal ", WTERMSIG(s)), schedule()));
    if (r->unsupported || r->diverged || r->toolong || !r->complete) { ++st->skipped; if (r->unsupported || r->diverged) return; }
    else if (std::memcmp(res, ref, sizeof *res)) return fail(cat(describe_program(p), ": a result differs from the one without the other thread", schedule()));
    if (r->found_shared && r->nshared < sched::NSYNC) { r->nprefix = 0; continue; }   // explore anew with the new scheduling points
    // the next schedule, depth first
    int i = r->npoints - 1, used = 0; std::vector<int> pre(r->npoints);
    for (int k = 0; k < r->npoints; ++k) { pre[k] = used; if (r->point[k].current && r->point[k].pick) ++used; }
    for (; i >= 0; --i) { const auto& q = r->point[i]; if (q.pick + 1 < q.nenabled && pre[i] + (q.current ? 1 : 0) <= bound) break; }
    if (i < 0) break;
    for (int k = 0; k < i; ++k) r->prefix[k] = r->point[k].pick;
    r->prefix[i] = r->point[i].pick + 1; r->nprefix = i + 1;
    if (runs >= 3000) { ++st->capped; break; }
  }
  ++st->states;
}
// code with much synchronisation has many schedules: past this time only those without preemption are explored (and counted as such)
const auto t_start = std::chrono::steady_clock::now();
void all(const std::string& key, const std::vector<Program>& ps, int bound) {
  if (!begin(key)) return;
  alarm(0);
  const auto late = [] { return !thorough() && std::chrono::steady_clock::now() - t_start > std::chrono::seconds(300); };
  st->failed = 0;
  std::vector<pid_t> kids;
  for (int w = 0; w < 8; ++w) {
    const pid_t pid = fork();
    if (pid == 0) {
      auto shared = [](size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
      auto* r = static_cast<sched::Run*>(shared(sizeof(sched::Run))); auto* res = static_cast<Results*>(shared(sizeof(Results))); auto* ref = static_cast<Results*>(shared(sizeof(Results)));
      for (size_t k = w; k < ps.size() && !st->failed; k += 8) { if (late()) ++st->unpreempted; explore(ps[k], late() ? 0 : bound, r, res, ref); }
      _exit(0);
    }
    kids.push_back(pid);
  }
  for (auto k : kids) { int s; waitpid(k, &s, 0); if (!WIFEXITED(s) || WEXITSTATUS(s)) fail("the explorer died"); }
  if (st->failed) violation(st->text);
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  st = static_cast<Stats*>(mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  make_ops();
  // rules of many points, in which other code may run than in small ones
  ops.push_back({"large rules", [](int) {
    using D = double;
    return bytes_of(GaussLegendre<D, D>(130)) + bytes_of(GaussLobatto<D, D>(130)) + bytes_of(GaussChebyshev1<D, D>(520)) + bytes_of(GaussChebyshev2<D, D>(520)) + bytes_of(GaussChebyshev2Modified<D, D>(520)) + bytes_of(GaussChebyshev3<D, D>(520))
      + bytes_of(UniformTrapezoid<D, D>(520, -1, 2)) + bytes_of(B(520, 1.5)) + bytes_of(MurrayHandyLaming<D, D>(520, 1.5)) + bytes_of(MuraKnowles<D, D>(520, 1.5)) + bytes_of(TreutlerAhlrichs<D, D>(520, 1.5))
      + bytes_of(L(302)) + bytes_of(Delley<D>(302)) + bytes_of(AhrensBeylkin<D>(312)) + bytes_of(Womersley<D>(339)) + walk_bytes(Batcher(64, S(B(12, 1.0), L(26), P3{1, 0, 2})));
  }});
  const int bound = thorough() ? 4 : 2;
  for (size_t i = 0; i < ops.size(); ++i) {
    std::vector<Program> ps;
    for (size_t j = i; j < ops.size(); ++j) { Program p; p.n = 2; p.seq[1] = {int(i), int(j)}; p.seq[2] = {int(j), int(i)}; ps.push_back(p); }
    all(cat("pairs/", i), ps, bound);
  }
  // three threads, the large rules aside
  const size_t small = ops.size() - (thorough() ? 0 : 1);
  for (size_t i = 0; i < small; ++i) {
    std::vector<Program> ps;
    for (size_t j = i; j < small; ++j) for (size_t k = j; k < small; ++k) {
      if (!thorough() && k - j > 1 && j - i > 1) continue;
      Program p; p.n = 3; p.seq[1] = {int(i)}; p.seq[2] = {int(j)}; p.seq[3] = {int(k)}; ps.push_back(p);
    }
    all(cat("triples/", i), ps, bound);
  }
  count("states", st->states); count("transitions", st->points); count("schedules", st->runs); count("accesses_checked", st->accesses); count("bytes_checked", st->bytes);
  count("synchronisation_operations", st->syncs); count("operations", ops.size()); count("programs_capped", st->capped); count("runs_skipped", st->skipped); count("programs_without_preemption", st->unpreempted);
  info("space", cat("every pair of ", ops.size(), " operations (", n_calls, " generating calls, one of large rules, 13 constant operations on shared objects, 4 on own objects) in two threads in both orders, every triple without the large rules of which two are neighbours in the list (thorough: every triple) in three; every interleaving of operations and of synchronisation on shared variables with at most ", bound, " preemptions; happens-before race detection on every memory access"));
  sample("LebedevLaikov(26); walk a shared batcher || walk a shared batcher; LebedevLaikov(26)");
  return finish();
}
