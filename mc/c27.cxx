// C27: running out of memory at any allocation of any operation.
#include "world.hpp"
using namespace mc;

namespace {
// counted, and failing on demand
long long n_alloc = 0, n_live = 0, fail_at = -1; bool fail_on = false, armed = false;
void* get(size_t n, size_t al = 0) {
  if (armed) { ++n_alloc; if (n_alloc == fail_at || (fail_on && fail_at > 0 && n_alloc > fail_at)) return nullptr; }
  void* p = al ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
  if (p) ++n_live;
  return p;
}
void put_back(void* p) { if (p) { --n_live; std::free(p); } }
}
void* operator new(size_t n) { if (void* p = get(n)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new(size_t n, std::align_val_t a) { if (void* p = get(n, size_t(a))) return p; throw std::bad_alloc(); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { put_back(p); }
void operator delete[](void* p) noexcept { put_back(p); }
void operator delete(void* p, size_t) noexcept { put_back(p); }
void operator delete[](void* p, size_t) noexcept { put_back(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put_back(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put_back(p); }
void operator delete(void* p, std::align_val_t) noexcept { put_back(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put_back(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put_back(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put_back(p); }

namespace {
long long n_states = 0, n_trans = 0, n_failed = 0, n_survived = 0;
struct Attempt { bool out_of_memory, other; long long allocs, growth; std::string result; };
// one attempt in which allocation k (and, if `on`, all later ones) fails; k = 0: none
void attempt(const Op& op, long long k, bool on, Attempt& a) {
  a.out_of_memory = a.other = false; a.result.clear(); a.result.shrink_to_fit();
  const long long before = n_live;
  n_alloc = 0; fail_at = k ? k : -1; fail_on = on;
  {
    std::string s; 
    armed = true;
    try { s = op.run(1); } catch (const std::bad_alloc&) { a.out_of_memory = true; } catch (...) { a.other = true; }
    armed = false;
    a.allocs = n_alloc;
    const long long live = n_live;   // all that is left of the call is the string
    a.growth = live - before - (s.capacity() > 15 ? 1 : 0);
    a.result = s;
  }
  ++n_trans;
}
}  // namespace

int main(int argc, char** argv) {
  init(argc, argv);
  make_ops();
  ops.erase(std::remove_if(ops.begin(), ops.end(), [](const Op& o) { return o.name.find(" an own ") != std::string::npos; }), ops.end());
  const std::string shared = world_bytes();
  std::vector<std::string> ref(ops.size()); std::vector<long long> total(ops.size());
  if (thorough()) rt().opt.case_seconds = 600;
  for (size_t i = 0; i < ops.size(); ++i) {   // twice, so that whatever is made once has been made
    Attempt a; attempt(ops[i], 0, false, a); attempt(ops[i], 0, false, a); ref[i] = a.result; total[i] = a.allocs;
  }
  for (size_t i = 0; i < ops.size(); ++i) {
    if (!begin(cat("operation/", i))) continue;
    const auto& op = ops[i];
    Attempt a;
    bool bad = false;
    auto wrong = [&](long long k, bool on, const std::string& s) { bad = true; violation(cat(op.name, ": allocation ", k, on ? " and all later ones" : "", " fails: ", s)); };
    for (int n = 0; n < 4; ++n) attempt(op, 0, false, a);
    ++n_states;
    if (a.growth > 0) { violation(cat(op.name, ": ", a.growth, " blocks of memory are lost in each call")); continue; }
    for (int on = 0; on < 2 && !bad; ++on) for (long long k = 1; k <= total[i] && !bad; ++k) {
      attempt(op, k, on, a);
      if (a.other) { wrong(k, on, "ends with an exception which is not bad_alloc"); break; }
      if (a.out_of_memory) ++n_failed; else { ++n_survived; if (a.result != ref[i] && a.result.find("refused") == std::string::npos && a.result.find("exception") == std::string::npos) { wrong(k, on, "goes on with a wrong result"); break; } }
      if (a.growth > 0) {   // something was kept; is it kept again?
        attempt(op, k, on, a); const auto g = a.growth; attempt(op, k, on, a);
        if (g > 0 && a.growth > 0) { wrong(k, on, cat(a.growth, " blocks of memory are lost each time")); break; }
      }
      for (size_t j = 0; j < ops.size(); ++j) {
        if (j != i && !thorough() && (j + i + size_t(k)) % 7) continue;
        attempt(ops[j], 0, false, a);
        if (a.out_of_memory || a.other || a.result != ref[j]) { wrong(k, on, cat("afterwards, ", ops[j].name, " gives another result")); break; }
      }
      if (!bad && world_bytes() != shared) { wrong(k, on, "another object has changed"); break; }
      ++n_states;
    }
  }
  count("states", n_states); count("transitions", n_trans); count("operations", ops.size()); count("calls_out_of_memory", n_failed); count("calls_surviving", n_survived);
  info("space", cat("every allocation of each of ", ops.size(), " operations (generating calls; copying, cloning, batching and building from shared objects) fails, alone or with all later ones; then the operation and every seventh (thorough: every) other one is repeated"));
  sample("robust scheme: allocation 17 of 43 fails -> bad_alloc, nothing lost, the next call gives the same grid");
  return finish();
}
