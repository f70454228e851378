#ifndef pb_tbb_parallel_for_h
#define pb_tbb_parallel_for_h
#define __TBB_parallel_for_H
#include <tbb/blocked_range.h>
#include <tbb/partitioner.h>
#include "../pbpar.h"
namespace tbb
{
  template <typename V, typename Body> void parallel_for(const blocked_range<V> &r, const Body &body)
  {
    if (pbpar::nthreads() == 1) { if (!r.empty()) body(r); return; }
    // halves of halves down to the grain size; some are not split further
    std::vector<std::pair<size_t, size_t>> ch;
    const V b0 = r.begin(); const size_t n = r.end() - r.begin(), g = r.grainsize();
    const uint64_t seed = pbpar::st().seed;
    std::function<void(size_t, size_t)> split = [&](size_t b, size_t e) {
      if (e - b > g && (!seed || pbpar::mix(seed + b * 131 + e) % 12 || e - b == n)) { const size_t m = b + (e - b) / 2; split(b, m); split(m, e); }
      else if (e > b) ch.emplace_back(b, e);
    };
    split(0, n);
    pbpar::for_chunks(ch, [&](size_t b, size_t e) { Body copy(body); copy(blocked_range<V>(b0 + b, b0 + e, g)); });
  }
  template <typename V, typename Body, typename P> void parallel_for(const blocked_range<V> &r, const Body &body, P &&) { parallel_for(r, body); }
  template <typename V, typename Body> void parallel_for(const blocked_range<V> &r, const Body &body, task_group_context &) { parallel_for(r, body); }
  template <typename I, typename F> std::enable_if_t<std::is_integral<I>::value> parallel_for(I a, I b, const F &f)
  { parallel_for(blocked_range<I>(a, b), [&](const blocked_range<I> &r) { for (I i = r.begin(); i != r.end(); ++i) f(i); }); }
}
#endif
