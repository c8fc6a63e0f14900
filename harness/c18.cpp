// C18: parallel loops.
#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
#include <mutex>
#include <thread>

#include "pbt.hpp"

// number of processors seen by the library, and failing thread creations
static std::atomic<unsigned> g_processors{8};
unsigned int std::thread::hardware_concurrency() noexcept { return g_processors; }
static std::atomic<int> g_fail_at{-1};
static std::atomic<int> g_created{0};
// libstdc++ starts its threads here
void std::thread::_M_start_thread(_State_ptr state, void (*)()) {
  int k = g_created++;
  if (k == g_fail_at) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "injected");
  auto* raw = state.get();
  auto run = [](void* p) -> void* {
    std::unique_ptr<_State> s(static_cast<_State*>(p));
    s->_M_run();
    return nullptr;
  };
  pthread_t handle;
  if (pthread_create(&handle, nullptr, run, raw) != 0) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "real");
  _M_id = std::thread::id(handle);
  state.release();
}

#include "fes/detail/thread.hpp"

using pbt::Case;
using pbt::Gen;

struct Thrown {
  size_t start;
};
struct ThrownStd : std::runtime_error {
  size_t start;
  explicit ThrownStd(size_t s) : std::runtime_error("worker failed"), start(s) {}
};

struct Loop {
  size_t size, threads;
  unsigned processors;
  double p_fail;
  uint64_t salt;
  int mode;     // pauses of the workers
  int fail_at;  // thread whose creation fails
};
static Loop gen_loop(Gen& g) {
  Loop l{};
  switch (g.weighted({4, 3, 2})) {
    case 0: l.size = g.size(0, 12); break;
    case 1: l.size = g.size(0, 2000); break;
    default: l.size = size_t(1) << g.size(3, 60); l.size += g.size(0, 9); break;
  }
  switch (g.weighted({5, 2, 1})) {
    case 0: l.threads = g.size(0, 12); break;
    case 1: l.threads = std::min<size_t>(g.size(0, 64), 40); break;
    default: l.threads = l.size <= 60 ? g.pick({SIZE_MAX, size_t(1) << 40, l.size, l.size + 1}) : g.size(0, 33);
  }
  l.processors = unsigned(g.pick({8, 0, 1, 2, 3, 7, 16}));
  l.p_fail = g.pick({0.0, 0.0, 0.1, 0.5, 1.0});
  l.salt = g.raw(UINT32_MAX);
  l.mode = int(g.raw(3));
  l.fail_at = g.boolean(0.1) ? int(g.integer(0, 8)) : -1;
  return l;
}

static void pause_(int mode, uint64_t r) {
  if (mode == 1) std::this_thread::yield();
  if (mode == 2)
    for (uint64_t k = 0; k < r % 2000; ++k) asm volatile("");
  if (mode == 3 && r % 4 == 0) usleep(useconds_t(r % 300));
}

static void run_loop(Case& c, const Loop& l, bool plain) {
  g_processors = l.processors;
  g_fail_at = l.fail_at;
  g_created = 0;
  std::mutex m;
  std::vector<std::pair<size_t, size_t>> ranges;
  std::set<size_t> thrown;
  std::atomic<int> running{0};
  std::vector<int> items(plain && l.size <= 2000 ? l.size : 0);  // not atomic: the ranges are disjoint
  auto worker = [&](const int64_t start, const int64_t end) {
    ++running;
    uint64_t s = l.salt ^ (uint64_t(start) * 0x9e3779b97f4a7c15ULL);
    uint64_t r = pbt::splitmix(s);
    pause_(l.mode, r);
    for (auto i = size_t(start); i < size_t(end) && i < items.size(); ++i) ++items[i];
    bool fails = double(pbt::splitmix(s) >> 11) * 1.1102230246251565e-16 < l.p_fail;
    {
      std::lock_guard<std::mutex> lock(m);
      ranges.emplace_back(start, end);
      if (fails) thrown.insert(size_t(start));
    }
    pause_(l.mode, r >> 20);
    struct Leave {
      std::atomic<int>& n;
      ~Leave() { --n; }
    } leave{running};
    if (fails) {
      if (r & 1) throw ThrownStd(size_t(start));
      throw Thrown{size_t(start)};
    }
  };
  bool got = false, system = false;
  size_t from = 0;
  try {
    fes::detail::parallel_for(worker, l.size, l.threads);
  } catch (const Thrown& t) {
    got = true;
    from = t.start;
  } catch (const ThrownStd& t) {
    got = true;
    from = t.start;
  } catch (const std::system_error& e) {
    system = true;
  }
  c.check(running == 0, "returned while ", running.load(), " workers are running");
  bool injected = l.fail_at >= 0 && g_created > l.fail_at;
  if (injected) c.label("thread creation failed");
  c.check(!system || injected, "system error without a reason");
  std::sort(ranges.begin(), ranges.end());
  if (!injected || (!system && !got)) {
    // exactly the items
    size_t at = 0;
    for (auto& r : ranges) {
      if (r.first == r.second) continue;
      c.check(r.first == at && r.second > r.first, "range [", r.first, ", ", r.second, ") after the item ", at);
      at = r.second;
    }
    c.check(at == l.size, "stopped at the item ", at, " of ", l.size);
    for (size_t i = 0; i < items.size(); ++i) c.check(items[i] == 1, "item ", i, " processed ", items[i], " times");
  }
  if (thrown.empty())
    c.check(!got, "an exception nobody has thrown");
  else {
    c.check(got || system, "the failure of ", thrown.size(), " workers is not reported");
    if (got) c.check(thrown.count(from) == 1, "the exception is not one of those thrown");
  }
  c.label(l.size == 0 ? "empty" : thrown.size() > 1 ? "several failures" : thrown.size() == 1 ? "one failure" : "success");
  c.label(ranges.size() > 1 ? "parallel" : "sequential");
}

PBT_PROP(loops, 10) {
  auto l = gen_loop(g);
  c.note("size ", l.size, " threads ", l.threads, " processors ", l.processors, " failures ", l.p_fail, " mode ", l.mode, " creation ", l.fail_at);
  run_loop(c, l, true);
  c.nontrivial(l.size > 1 && l.threads != 1);
}

// several loops at once, from several threads, and nested
PBT_PROP(concurrent, 2) {
  auto a = gen_loop(g), b = gen_loop(g);
  a.fail_at = b.fail_at = -1;
  b.processors = a.processors;
  a.size %= 3000;
  b.size %= 3000;
  c.note("sizes ", a.size, " ", b.size, " threads ", a.threads, " ", b.threads);
  std::string error;
  Case other;
  pthread_t t;
  struct Arg {
    Case* c;
    Loop* l;
    std::string* error;
  } arg{&other, &b, &error};
  pthread_create(
      &t, nullptr,
      [](void* p) -> void* {
        auto* x = static_cast<Arg*>(p);
        try {
          run_loop(*x->c, *x->l, true);
        } catch (const pbt::Failure& f) {
          *x->error = f.message;
        }
        return nullptr;
      },
      &arg);
  std::string mine;
  try {
    run_loop(c, a, true);
  } catch (const pbt::Failure& f) {
    mine = f.message;
  }
  pthread_join(t, nullptr);
  c.check(mine.empty() && error.empty(), mine, " ", error);
  c.nontrivial();
}

PBT_PROP(nested, 1) {
  size_t n = g.size(0, 8), m = g.size(0, 20), ta = g.size(0, 4), tb = g.size(0, 4);
  g_processors = unsigned(g.pick({8, 0, 1, 2}));
  g_fail_at = -1;
  c.note("outer ", n, " inner ", m, " threads ", ta, " ", tb);
  std::vector<std::vector<int>> hits(n, std::vector<int>(m));
  fes::detail::parallel_for(
      [&](int64_t s, int64_t e) {
        for (auto i = s; i < e; ++i)
          fes::detail::parallel_for(
              [&, i](int64_t s2, int64_t e2) {
                for (auto j = s2; j < e2; ++j) ++hits[size_t(i)][size_t(j)];
              },
              m, tb);
      },
      n, ta);
  for (auto& h : hits)
    for (auto x : h) c.check(x == 1, "item processed ", x, " times");
  c.nontrivial(n > 1 && m > 1);
}

PBT_MAIN
