// Observers of the library calls that modify shared linear-algebra objects (their code is not instrumented).
// tsan: the modified element is reported to the race detector; sched: overlapping modifications are counted.
#include <Epetra_CrsGraph.h>
#include <Epetra_FECrsGraph.h>
#include <Epetra_FEVector.h>
#include <Epetra_Map.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include "../shim/pbpar.h"
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_write8(void *);
#endif
namespace pbmon
{
  struct Cell { std::atomic<const void *> obj{nullptr}; std::atomic<int> in{0}; double shadow; };
  inline std::atomic<unsigned long> events{0}, conflicts{0};
  inline Cell table[1 << 17];
  inline std::atomic<const char *> what{nullptr};
  // one cell per (object, sub) for as long as the program lives
  inline Cell *cell(const void *obj, size_t sub)
  {
    const void *key = (const char *)obj + 1 + sub * 0x1000003ull * 16;
    size_t h = pbpar::mix((uint64_t)key) % (1 << 17);
    for (unsigned int k = 0; k < 1 << 17; ++k, h = (h + 1) % (1 << 17))
      {
        const void *c = table[h].obj.load(std::memory_order_relaxed);
        if (c == key) return &table[h];
        if (!c) { const void *e = nullptr; if (table[h].obj.compare_exchange_strong(e, key, std::memory_order_relaxed) || e == key) return &table[h]; }
      }
    return nullptr;
  }
  struct Use
  {
    Cell *c;
    Use(const void *obj, size_t sub, const char *w) : c(cell(obj, sub))
    {
      events.fetch_add(1, std::memory_order_relaxed);
      if (!c) return;
#if defined(__SANITIZE_THREAD__)
      __tsan_write8(&c->shadow);
#else
      if (c->in.fetch_add(1, std::memory_order_relaxed) > 0) { conflicts.fetch_add(1); what = w; }
      if (events.load(std::memory_order_relaxed) % 64 == 0) std::this_thread::yield();
#endif
    }
    ~Use() { if (c) c->in.fetch_sub(1, std::memory_order_relaxed); }
  };
  struct Report
  {
    ~Report()
    {
      if (getenv("PB_PARLOG")) fprintf(stderr, "PBMON events %lu conflicts %lu %s\n", (unsigned long)events, (unsigned long)conflicts, what.load() ? what.load() : "-");
    }
  };
  inline Report report;
}
#if !defined(__SANITIZE_THREAD__)
// delays at allocations, so that tasks are also interleaved in the middle
inline void *pb_new(size_t n)
{
  static thread_local uint64_t k = 0;
  if (pbpar::st().level > 1 && pbpar::st().active.load(std::memory_order_relaxed) > 1 && ++k % 32 == 0)
    { const uint64_t h = pbpar::mix(pbpar::st().seed + k * 977); if (h % 8 == 0) std::this_thread::yield(); else if (h % 512 == 1) std::this_thread::sleep_for(std::chrono::microseconds(h >> 8 & 127)); }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return pb_new(n); }
void *operator new[](size_t n) { return pb_new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
extern "C"
{
  int __real__ZN15Epetra_CrsGraph19InsertGlobalIndicesEiiPi(void *, int, int, int *);
  int __wrap__ZN15Epetra_CrsGraph19InsertGlobalIndicesEiiPi(void *o, int r, int n, int *c)
  { pbmon::Use u(o, 0, "sparsity_pattern"); return __real__ZN15Epetra_CrsGraph19InsertGlobalIndicesEiiPi(o, r, n, c); }
  int __real__ZN17Epetra_FECrsGraph19InsertGlobalIndicesEiPKiiS1_(void *, int, const int *, int, const int *);
  int __wrap__ZN17Epetra_FECrsGraph19InsertGlobalIndicesEiPKiiS1_(void *o, int nr, const int *r, int nc, const int *c)
  { pbmon::Use u(o, 0, "sparsity_pattern"); return __real__ZN17Epetra_FECrsGraph19InsertGlobalIndicesEiPKiiS1_(o, nr, r, nc, c); }
  int __real__ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi(void *, int, const int *, const double *, int);
  int __wrap__ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi(void *o, int n, const int *i, const double *v, int k)
  { pbmon::Use u(o, n ? i[0] + 1 : 0, "vector"); return __real__ZN15Epetra_FEVector19ReplaceGlobalValuesEiPKiPKdi(o, n, i, v, k); }
  int __real__ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi(void *, int, const int *, const double *, int);
  int __wrap__ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi(void *o, int n, const int *i, const double *v, int k)
  { pbmon::Use u(o, n ? i[0] + 1 : 0, "vector"); return __real__ZN15Epetra_FEVector19SumIntoGlobalValuesEiPKiPKdi(o, n, i, v, k); }
  void __real__ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb(void *, unsigned, unsigned, const unsigned *, const double *, bool, bool);
  void __wrap__ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb(void *o, unsigned r, unsigned n, const unsigned *c, const double *v, bool a, bool b)
  { pbmon::Use u(o, 0, "matrix"); __real__ZN6dealii16TrilinosWrappers12SparseMatrix3addEjjPKjPKdbb(o, r, n, c, v, a, b); }
  void __real__ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b(void *, unsigned, unsigned, const unsigned *, const double *, bool);
  void __wrap__ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b(void *o, unsigned r, unsigned n, const unsigned *c, const double *v, bool e)
  { pbmon::Use u(o, 0, "matrix"); __real__ZN6dealii16TrilinosWrappers12SparseMatrix3setIdEEvjjPKjPKT_b(o, r, n, c, v, e); }
}
