// Schedules of the threaded stages: std::thread instead of a task library the sanitizers cannot see into,
// with a seeded choice of task sizes, order and delays.  Nothing but the copiers' own order and the limited
// number of copy objects orders the tasks (claims are relaxed atomics), as in the library replaced.
#ifndef pbpar_h
#define pbpar_h
#include <deal.II/base/multithread_info.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace pbpar
{
  struct State
  {
    uint64_t seed; int level;
    std::atomic<uint64_t> regions{0}, tasks{0}, overlaps{0}, hash{0};
    std::atomic<int> active{0}, maxactive{0};
    State()
    {
      const char *s = getenv("PB_SCHED"); seed = s ? strtoull(s, nullptr, 10) : 0;
      const char *l = getenv("PB_DELAY"); level = l ? atoi(l) : 1;
    }
    ~State()
    {
      if (getenv("PB_PARLOG"))
        fprintf(stderr, "PBPAR regions %lu tasks %lu overlaps %lu maxactive %d schedule %016lx\n", (unsigned long)regions, (unsigned long)tasks, (unsigned long)overlaps, (int)maxactive, (unsigned long)hash);
    }
  };
  inline State &st() { static State s; return s; }
  inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
  inline void pause(uint64_t h)
  {
    const int l = st().level;
    if (!l) return;
    switch (h % (l > 1 ? 4 : 16))
      {
        case 0: std::this_thread::yield(); break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds((h >> 8) % (l > 1 ? 400 : 100))); break;
      }
  }
  struct Task
  {
    Task(uint64_t id)
    {
      State &s = st();
      const int a = s.active.fetch_add(1, std::memory_order_relaxed) + 1;
      if (a > 1) s.overlaps.fetch_add(1, std::memory_order_relaxed);
      if (a > s.maxactive.load(std::memory_order_relaxed)) s.maxactive.store(a, std::memory_order_relaxed);
      const uint64_t n = s.tasks.fetch_add(1, std::memory_order_relaxed);
      s.hash.fetch_add(mix(id * 31 + n * 0x10001), std::memory_order_relaxed); // which task came when
      pause(mix(s.seed + id));
    }
    ~Task() { st().active.fetch_sub(1, std::memory_order_relaxed); }
  };
  inline unsigned int nthreads() { return dealii::MultithreadInfo::n_threads(); }
  struct Errors
  {
    std::mutex m; std::exception_ptr e; std::atomic<bool> any{false};
    void set() { std::lock_guard<std::mutex> l(m); if (!e) e = std::current_exception(); any = true; }
    void check() { if (e) std::rethrow_exception(e); }
  };
  // chunks [b,e) of a list of n tasks processed in a seeded order
  inline void for_chunks(const std::vector<std::pair<size_t, size_t>> &ch, const std::function<void(size_t, size_t)> &f)
  {
    State &s = st();
    const uint64_t reg = s.regions.fetch_add(1, std::memory_order_relaxed);
    const unsigned int T = nthreads();
    std::vector<size_t> ord(ch.size());
    for (size_t i = 0; i < ord.size(); ++i) ord[i] = i;
    if (s.seed) for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[mix(s.seed * 77 + reg * 1013 + i) % i]);
    std::atomic<size_t> next{0};
    Errors err;
    auto work = [&]() {
      for (;;)
        {
          const size_t k = next.fetch_add(1, std::memory_order_relaxed);
          if (k >= ord.size()) return;
          Task t(reg * 7919 + ord[k]);
          try { f(ch[ord[k]].first, ch[ord[k]].second); } catch (...) { err.set(); }
        }
    };
    std::vector<std::thread> th;
    for (unsigned int t = 1; t < T; ++t) th.emplace_back(work);
    work();
    for (auto &t : th) t.join();
    err.check();
  }
  template <class Iterator, class Scratch, class Copy, class Worker>
  void stream(const Iterator &begin, const Iterator &end, Worker worker, std::function<void(const Copy &)> copier, const Scratch &sample_s, const Copy &sample_c, unsigned int queue, unsigned int chunk)
  {
    const unsigned int T = nthreads();
    if (T == 1)
      {
        Scratch s(sample_s); Copy c(sample_c);
        for (Iterator i = begin; i != end; ++i) { worker(i, s, c); if (copier) copier(c); }
        return;
      }
    std::vector<Iterator> items;
    for (Iterator i = begin; i != end; ++i) items.push_back(i);
    if (items.empty()) return;
    State &s = st();
    const uint64_t reg = s.regions.fetch_add(1, std::memory_order_relaxed);
    static const unsigned int sizes[] = {1, 1, 2, 3, 8};
    const size_t cs = s.seed ? std::min<size_t>(sizes[mix(s.seed + reg) % 5], chunk) : chunk, nch = (items.size() + cs - 1) / cs, Q = std::max<size_t>(queue, T);
    // turns: slot q holds chunk q, q+Q, ...; turn 2r: free for round r, 2r+1: filled in round r
    std::vector<std::unique_ptr<std::atomic<size_t>>> turn;
    std::vector<std::vector<Copy>> copies(Q, std::vector<Copy>(cs, sample_c));
    for (size_t q = 0; q < Q; ++q) turn.emplace_back(new std::atomic<size_t>(0));
    std::atomic<size_t> next{0};
    Errors err;
    auto work = [&]() {
      Scratch sc(sample_s);
      for (;;)
        {
          const size_t k = next.fetch_add(1, std::memory_order_relaxed);
          if (k >= nch) return;
          const size_t q = k % Q, r = k / Q;
          while (turn[q]->load(std::memory_order_acquire) != 2 * r) std::this_thread::yield();
          if (!err.any)
            for (size_t j = 0; j < cs && k * cs + j < items.size(); ++j)
              {
                Task t(reg * 7919 + k * cs + j);
                try { worker(items[k * cs + j], sc, copies[q][j]); } catch (...) { err.set(); }
              }
          turn[q]->store(2 * r + 1, std::memory_order_release);
        }
    };
    std::vector<std::thread> th;
    for (unsigned int t = 0; t < T; ++t) th.emplace_back(work);
    for (size_t k = 0; k < nch; ++k)
      {
        const size_t q = k % Q, r = k / Q;
        while (turn[q]->load(std::memory_order_acquire) != 2 * r + 1) std::this_thread::yield();
        if (copier && !err.any)
          for (size_t j = 0; j < cs && k * cs + j < items.size(); ++j)
            try { pause(mix(s.seed * 3 + k)); copier(copies[q][j]); } catch (...) { err.set(); }
        turn[q]->store(2 * r + 2, std::memory_order_release);
      }
    for (auto &t : th) t.join();
    err.check();
  }
}
#endif
