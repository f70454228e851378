// Interpreter for scripts over the expansion, coefficient-table, Legendre and
// singular-integral classes.  One command per line on stdin, results on stdout.
#include "ass_leg_function.h"
#include "local_expansion.h"
#include "multipole_expansion.h"
#include "singular_kernel_integral.h"
#include <deal.II/fe/mapping_q.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/grid/manifold_lib.h>
#include <cstdio>
#include <cstdint>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif
using namespace dealii;
typedef std::istringstream Iss;
static Point<3> pt(Iss &s) { Point<3> p; s >> p[0] >> p[1] >> p[2]; return p; }

struct Hash
{
  uint64_t h = 1469598103934665603ull;
  void add(double d)
  {
    d += 0.0; // one representation of zero
    unsigned char b[8];
    memcpy(b, &d, 8);
    for (unsigned char c : b) { h ^= c; h *= 1099511628211ull; }
  }
};
static AssLegFunction LEG;
// objects; the order of an expansion is what its history says
struct ME { MultipoleExpansion *e; int p; };
struct LE { LocalExpansion *e; int p; };
struct CE { LocalExpansionCoeff *e; int p; };
static std::map<int, ME> M;
static std::map<int, LE> L;
static std::map<int, CE> C;
static std::map<int, std::vector<MultipoleExpansion>> MV;
static std::map<int, std::vector<LocalExpansion>> LV;
static std::map<int, int> MVP, LVP;

template <class T> static uint64_t hexp(const T &e, int p)
{
  Hash h;
  h.add(e.is_zero);
  Point<3> c = e.GetCenter();
  for (int d = 0; d < 3; ++d) h.add(c[d]);
  h.add(p);
  if (p >= 0 && e.GetCoeffs())
    for (int n = 0; n <= p; ++n)
      for (int m = 0; m <= n; ++m) { h.add(e.GetCoeff(n, m).real()); h.add(e.GetCoeff(n, m).imag()); }
  T &f = const_cast<T &>(e);
  h.add(f.Evaluate(c + Point<3>(.3, .2, -.7)));
  return h.h;
}
static uint64_t htab(LocalExpansionCoeff &e, int p)
{
  Hash h;
  h.add(p);
  for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) for (int nn = 0; nn <= p; ++nn) for (int mm = -nn; mm <= nn; ++mm) h.add(e.get(n, m, nn, mm));
  return h.h;
}
static uint64_t hstatic()
{
  Hash h;
  h.add(htab(LocalExpansion::mExp_to_lExp_Coeff, 10));
  for (int n = 0; n <= 10; ++n) for (int m = 0; m <= n; ++m) for (int nn = n; nn <= 10; ++nn) for (int mm = -nn; mm <= nn; ++mm)
    if (std::abs(mm - m) <= nn - n) h.add(LocalExpansion::lExp_to_lExp_Coeff[n][m][nn][mm]);
  for (int n = 0; n <= 20; ++n) for (int m = 0; m <= n; ++m) { h.add(LocalExpansion::A_n_m(n, m)); h.add(MultipoleExpansion::A_n_m(n, m)); }
  return h.h;
}
static void status()
{
  printf("S");
  for (auto &x : M) printf(" m%d=%016llx", x.first, (unsigned long long)hexp(*x.second.e, x.second.p));
  for (auto &x : L) printf(" l%d=%016llx", x.first, (unsigned long long)hexp(*x.second.e, x.second.p));
  for (auto &x : C) printf(" c%d=%016llx", x.first, (unsigned long long)htab(*x.second.e, x.second.p));
  for (auto &x : MV) { Hash h; for (auto &e : x.second) { uint64_t v = hexp(e, MVP[x.first]); h.add(double(v >> 32)); h.add(double(v & 0xffffffffu)); } printf(" M%d=%016llx", x.first, (unsigned long long)h.h); }
  for (auto &x : LV) { Hash h; for (auto &e : x.second) { uint64_t v = hexp(e, LVP[x.first]); h.add(double(v >> 32)); h.add(double(v & 0xffffffffu)); } printf(" L%d=%016llx", x.first, (unsigned long long)h.h); }
  printf(" t=%016llx\n", (unsigned long long)hstatic());
}
static void coefs(std::complex<double> *c, int p)
{
  printf("C");
  for (int i = 0; i < (p + 1) * (p + 2) / 2; ++i) printf(" %.17g %.17g", c[i].real(), c[i].imag());
  printf("\n");
}
static void sing(Iss &s)
{
  // sing mapdeg fetype fedeg nref u v sph cx cy cz v0 v1 v2 v3
  int md, fd, sph; std::string ft; Point<2> eta;
  s >> md >> ft >> fd >> eta[0] >> eta[1] >> sph;
  Point<3> c = pt(s);
  std::vector<Point<3>> v(4);
  for (auto &x : v) x = pt(s);
  std::vector<CellData<2>> cells(1);
  for (unsigned int k = 0; k < 4; ++k) cells[0].vertices[k] = k;
  Triangulation<2, 3> tria;
  tria.create_triangulation(v, cells, SubCellData());
  if (sph) { tria.set_all_manifold_ids(7); tria.set_manifold(7, SphericalManifold<2, 3>(c)); }
  MappingQ<2, 3> mapping(md);
  std::unique_ptr<FiniteElement<2, 3>> fe;
  if (ft == "q") fe.reset(new FE_Q<2, 3>(fd)); else fe.reset(new FE_DGQ<2, 3>(fd));
  DoFHandler<2, 3> dh(tria);
  dh.distribute_dofs(*fe);
  const DoFHandler<2, 3>::active_cell_iterator cell = dh.begin_active();
  // the mapped geometry at (md+1)^2 equispaced points determines it
  std::vector<Point<2>> g;
  for (int j = 0; j <= md; ++j) for (int i = 0; i <= md; ++i) g.push_back(Point<2>(double(i) / md, double(j) / md));
  printf("G");
  for (auto &x : g) { Point<3> y = mapping.transform_unit_to_real_cell(cell, x); printf(" %.17g %.17g %.17g", y[0], y[1], y[2]); }
  printf("\nU");
  for (auto &x : fe->get_unit_support_points()) printf(" %.17g %.17g", x[0], x[1]);
  printf("\n");
  SingularKernelIntegral<3> ski(cell, *fe, mapping, eta);
  auto V = ski.evaluate_VkNj_integrals();
  auto W = ski.evaluate_WkNj_integrals();
  auto b = ski.evaluate_free_term_b();
  printf("V");
  for (auto &x : V) printf(" %.17g %.17g %.17g", x[0], x[1], x[2]);
  printf("\nW");
  for (auto &x : W) printf(" %.17g %.17g %.17g", x[0], x[1], x[2]);
  printf("\nB %.17g %.17g %.17g\n", b[0], b[1], b[2]);
}
int main()
{
  std::string line;
  std::unique_ptr<int[]> keep;
  while (std::getline(std::cin, line))
    {
      Iss s(line);
      std::string o;
      if (!(s >> o)) continue;
      int i = -1, j = -1, p;
      double a;
      if (o == "leg")
        { // leg nmax x: all values and derivatives
          int n; double x; s >> n >> x;
          printf("P");
          for (int k = 0; k <= n; ++k) for (int m = 0; m <= k; ++m) printf(" %.17g %.17g", LEG.GetAssLegFunSph(k, m, x), LEG.GetAssLegFunSphDeriv(k, m, x));
          printf("\n");
          continue;
        }
      if (o == "sing") { sing(s); continue; }
      if (o == "st") { status(); continue; }
      if (o == "leaktest") { int *volatile z = new int[37]; z[0] = 1; z = nullptr; continue; }
      if (o == "leak")
        {
          for (auto &x : M) delete x.second.e;
          for (auto &x : L) delete x.second.e;
          for (auto &x : C) delete x.second.e;
          M.clear(); L.clear(); C.clear(); MV.clear(); LV.clear();
#if defined(__SANITIZE_ADDRESS__)
          printf("K %d\n", __lsan_do_recoverable_leak_check());
#else
          printf("K 0\n");
#endif
          fflush(stdout);
          continue;
        }
      s >> i;
      // ---- multipole
      if (o == "mnew") { s >> p; Point<3> c = pt(s); M[i] = {new MultipoleExpansion(p, c, &LEG), p}; }
      else if (o == "mdef") M[i] = {new MultipoleExpansion(), -1};
      else if (o == "mcopy") { s >> j; M[i] = {new MultipoleExpansion(*M[j].e), M[j].p}; }
      else if (o == "mass") { s >> j; *M[i].e = *M[j].e; M[i].p = M[j].p; }
      else if (o == "mtmp") { s >> p; Point<3> c = pt(s); *M[i].e = MultipoleExpansion(p, c, &LEG); M[i].p = p; }
      else if (o == "mswap") { s >> j; std::swap(*M[i].e, *M[j].e); std::swap(M[i].p, M[j].p); }
      else if (o == "mdel") { delete M[i].e; M.erase(i); }
      else if (o == "madd") { s >> a; M[i].e->Add(a, pt(s)); }
      else if (o == "mdip") { s >> a; Point<3> x = pt(s), n = pt(s); M[i].e->AddNormDer(a, x, n); }
      else if (o == "mshift") { s >> j; M[i].e->Add(*M[j].e); }
      else if (o == "maxpy") { s >> j >> a; M[i].e->Add(*M[j].e, a); }
      else if (o == "mcen") M[i].e->SetCenter(pt(s));
      else if (o == "mset") { int n, m; double re, im; s >> n >> m >> re >> im; std::complex<double> z(re, im); M[i].e->SetCoeff(n, m, z); M[i].e->is_zero = false; }
      else if (o == "mval") { printf("E"); Point<3> x; while (s >> x[0] >> x[1] >> x[2]) printf(" %.17g", M[i].e->Evaluate(x)); printf("\n"); }
      else if (o == "mcoef") coefs(M[i].e->GetCoeffs(), M[i].p);
      // ---- local
      else if (o == "lnew") { s >> p; Point<3> c = pt(s); L[i] = {new LocalExpansion(p, c, &LEG), p}; }
      else if (o == "ldef") L[i] = {new LocalExpansion(), -1};
      else if (o == "lcopy") { s >> j; L[i] = {new LocalExpansion(*L[j].e), L[j].p}; }
      else if (o == "lass") { s >> j; *L[i].e = *L[j].e; L[i].p = L[j].p; }
      else if (o == "ltmp") { s >> p; Point<3> c = pt(s); *L[i].e = LocalExpansion(p, c, &LEG); L[i].p = p; }
      else if (o == "lswap") { s >> j; std::swap(*L[i].e, *L[j].e); std::swap(L[i].p, L[j].p); }
      else if (o == "ldel") { delete L[i].e; L.erase(i); }
      else if (o == "lshift") { s >> j; L[i].e->Add(*L[j].e); }
      else if (o == "lm2l") { s >> j; L[i].e->Add(*M[j].e); }
      else if (o == "lcen") L[i].e->SetCenter(pt(s));
      else if (o == "lset") { int n, m; double re, im; s >> n >> m >> re >> im; std::complex<double> z(re, im); L[i].e->SetCoeff(n, m, z); L[i].e->is_zero = false; }
      else if (o == "lval") { printf("E"); Point<3> x; while (s >> x[0] >> x[1] >> x[2]) printf(" %.17g", L[i].e->Evaluate(x)); printf("\n"); }
      else if (o == "lcoef") coefs(L[i].e->GetCoeffs(), L[i].p);
      else if (o == "lorder") printf("O %u\n", L[i].e->GetOrder());
      // ---- coefficient tables
      else if (o == "cnew") { s >> p; C[i] = {new LocalExpansionCoeff(p), p}; for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) for (int nn = 0; nn <= p; ++nn) for (int mm = -nn; mm <= nn; ++mm) C[i].e->set(n, m, nn, mm, n + .01 * m + 100 * nn + .3 * mm + i); }
      else if (o == "cdef") C[i] = {new LocalExpansionCoeff(), -1};
      else if (o == "cbuild") { s >> p; C[i] = {new LocalExpansionCoeff(LocalExpansion::mExp_to_lExp_Coeff_Build(LocalExpansion::A_n_m, p)), p}; }
      else if (o == "cstat") C[i] = {new LocalExpansionCoeff(LocalExpansion::mExp_to_lExp_Coeff), 10};
      else if (o == "ccopy") { s >> j; C[i] = {new LocalExpansionCoeff(*C[j].e), C[j].p}; }
      else if (o == "cass") { s >> j; *C[i].e = *C[j].e; C[i].p = C[j].p; }
      else if (o == "ctmp") { s >> p; *C[i].e = LocalExpansion::mExp_to_lExp_Coeff_Build(LocalExpansion::A_n_m, p); C[i].p = p; }
      else if (o == "cdel") { delete C[i].e; C.erase(i); }
      else if (o == "cset") { int n, m, nn, mm; s >> n >> m >> nn >> mm >> a; C[i].e->set(n, m, nn, mm, a); }
      else if (o == "cget") { int n, m, nn, mm; s >> n >> m >> nn >> mm; printf("V %.17g\n", C[i].e->get(n, m, nn, mm)); }
      // ---- containers
      else if (o == "mvec") { int n; s >> n >> j; MV[i].assign(n, *M[j].e); MVP[i] = M[j].p; }
      else if (o == "mvgrow") { int n; s >> n >> j; for (int k = 0; k < n; ++k) MV[i].push_back(*M[j].e); MVP[i] = M[j].p; }
      else if (o == "mvcut") { int n; s >> n; while (n-- > 0 && MV[i].size()) MV[i].erase(MV[i].begin()); }
      else if (o == "mvcopy") { s >> j; MV[i] = MV[j]; MVP[i] = MVP[j]; }
      else if (o == "mvget") { s >> j; M[j] = {new MultipoleExpansion(MV[i].at(0)), MVP[i]}; }
      else if (o == "mvdel") MV.erase(i);
      else if (o == "lvec") { int n; s >> n >> j; LV[i].assign(n, *L[j].e); LVP[i] = L[j].p; }
      else if (o == "lvgrow") { int n; s >> n >> j; for (int k = 0; k < n; ++k) LV[i].push_back(*L[j].e); LVP[i] = L[j].p; }
      else if (o == "lvcut") { int n; s >> n; while (n-- > 0 && LV[i].size()) LV[i].erase(LV[i].begin()); }
      else if (o == "lvcopy") { s >> j; LV[i] = LV[j]; LVP[i] = LVP[j]; }
      else if (o == "lvget") { s >> j; L[j] = {new LocalExpansion(LV[i].at(0)), LVP[i]}; }
      else if (o == "lvdel") LV.erase(i);
      else { fprintf(stderr, "PB-BADOP %s\n", line.c_str()); return 4; }
    }
  printf("END\n");
  return 0;
}
