#ifndef dealii_work_stream_h
#define dealii_work_stream_h
#include <deal.II/base/config.h>
#include <deal.II/base/exceptions.h>
#include <deal.II/base/graph_coloring.h>
#include <deal.II/base/iterator_range.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/parallel.h>
#include <deal.II/base/std_cxx20/type_traits.h>
#include <deal.II/base/template_constraints.h>
#include <deal.II/base/thread_local_storage.h>
#include <deal.II/base/thread_management.h>
#include <functional>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>
#include "../../pbpar.h"
DEAL_II_NAMESPACE_OPEN
namespace WorkStream
{
  template <class C, class Copier> std::function<void(const C &)> pb_copier(Copier c)
  {
    if constexpr (std::is_invocable<Copier, const C &>::value) return std::function<void(const C &)>(c);
    else return std::function<void(const C &)>();
  }
  template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
  void run(const Iterator &begin, const std_cxx20::type_identity_t<Iterator> &end, Worker worker, Copier copier,
           const ScratchData &s, const CopyData &c, const unsigned int queue_length = 2 * MultithreadInfo::n_threads(), const unsigned int chunk_size = 8)
  { pbpar::stream<Iterator, ScratchData, CopyData>(begin, end, worker, pb_copier<CopyData>(copier), s, c, queue_length, chunk_size); }
  template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
  void run(const std::vector<std::vector<Iterator>> &colored, Worker worker, Copier copier, const ScratchData &s, const CopyData &c,
           const unsigned int queue_length = 2 * MultithreadInfo::n_threads(), const unsigned int chunk_size = 8)
  { for (auto &col : colored) run(col.begin(), col.end(), [&](const typename std::vector<Iterator>::const_iterator &i, ScratchData &a, CopyData &b) { worker(*i, a, b); }, copier, s, c, queue_length, chunk_size); }
  template <typename Worker, typename Copier, typename Range, typename ScratchData, typename CopyData, typename = std::enable_if_t<has_begin_and_end<Range>>>
  void run(Range r, Worker worker, Copier copier, const ScratchData &s, const CopyData &c,
           const unsigned int queue_length = 2 * MultithreadInfo::n_threads(), const unsigned int chunk_size = 8)
  { run(r.begin(), r.end(), worker, copier, s, c, queue_length, chunk_size); }
  template <typename Worker, typename Copier, typename Iterator, typename ScratchData, typename CopyData>
  void run(const IteratorRange<Iterator> &r, Worker worker, Copier copier, const ScratchData &s, const CopyData &c,
           const unsigned int queue_length = 2 * MultithreadInfo::n_threads(), const unsigned int chunk_size = 8)
  { run(r.begin(), r.end(), worker, copier, s, c, queue_length, chunk_size); }
  template <typename MainClass, typename Iterator, typename ScratchData, typename CopyData>
  void run(const Iterator &begin, const std_cxx20::type_identity_t<Iterator> &end, MainClass &m,
           void (MainClass::*worker)(const Iterator &, ScratchData &, CopyData &), void (MainClass::*copier)(const CopyData &),
           const ScratchData &s, const CopyData &c, const unsigned int queue_length = 2 * MultithreadInfo::n_threads(), const unsigned int chunk_size = 8)
  { run(begin, end, [&m, worker](const Iterator &i, ScratchData &a, CopyData &b) { (m.*worker)(i, a, b); }, [&m, copier](const CopyData &b) { (m.*copier)(b); }, s, c, queue_length, chunk_size); }
}
DEAL_II_NAMESPACE_CLOSE
#endif
