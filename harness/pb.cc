// Driver of the real pi-BEM classes: executes a list of operations on a
// problem described by a parameter file and records the observable state.
//   pb DIM PRM OUT op op ...
// All recorded arrays are doubles:  "name ndim d0 d1 ...\n" + raw data.
#include "driver.h"
#include "laplace_kernel.h"
#include <deal.II/numerics/error_estimator.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/base/quadrature_selector.h>
#include <deal.II/base/function_parser.h>
#include <deal.II/fe/mapping_q.h>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <random>
#include <sstream>
#include <unistd.h>

#include "pb_common.h"
#ifdef PB_MON
#include "mon.h"
#endif

static std::vector<std::string> split(const std::string &s, char c)
{
  std::vector<std::string> r;
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, c)) r.push_back(t);
  return r;
}

template <int dim>
struct Run
{
  typedef typename DoFHandler<dim - 1, dim>::active_cell_iterator cell_it;
  std::unique_ptr<Driver<dim>> drv;
  Out &out;
  std::string prm;
  unsigned int rank, nproc;
  Run(Out &o, const std::string &p) : out(o), prm(p)
  {
    rank = Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
    nproc = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD);
    fresh();
  }
  void fresh()
  {
    drv.reset();
    ParameterAcceptor::clear();
    drv.reset(new Driver<dim>());
    ParameterAcceptor::initialize(prm, out.path + ".used.prm");
  }
  BEMProblem<dim> &bem() { return drv->bem_problem; }
  ComputationalDomain<dim> &cd() { return drv->computational_domain; }
  BoundaryConditions<dim> &bc() { return drv->boundary_conditions; }
  BEMFMA<dim> &fma() { return drv->bem_problem.fma; }

  std::vector<double> glob(const TrilinosWrappers::MPI::Vector &v)
  {
    if (v.size() == 0) return {};
    Vector<double> l(v);
    return std::vector<double>(l.begin(), l.end());
  }
  // vector unknown as (n_scalar, dim) using the public numbering maps
  void putvec(const std::string &name, const TrilinosWrappers::MPI::Vector &v)
  {
    if (v.size() == 0 || v.size() != bem().gradient_dh.n_dofs()) { out.put(name, {}); return; } // not of the current problem
    std::vector<double> l = glob(v), r(l.size());
    const unsigned int n = bem().gradient_dh.n_dofs() / dim;
    if (n != bem().dh.n_dofs()) { out.put(name, {}); out.put(name + ".raw", l); return; }
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int d = 0; d < dim; ++d)
        r[i * dim + d] = l[bem().vec_original_to_sub_wise[n * d + bem().sub_wise_to_original[i]]];
    out.put(name, r, {n, (unsigned int)dim});
  }
  void dump_tria(const std::string &t)
  {
    auto &tria = cd().tria;
    std::vector<double> v, used, cells, faces, fman, id;
    for (unsigned int i = 0; i < tria.n_vertices(); ++i)
      {
        for (unsigned int d = 0; d < dim; ++d) v.push_back(tria.get_vertices()[i][d]);
        used.push_back(tria.get_used_vertices()[i]);
      }
    const unsigned int nv = GeometryInfo<dim - 1>::vertices_per_cell, nf = GeometryInfo<dim - 1>::faces_per_cell;
    unsigned int n = 0;
    for (auto c = tria.begin_active(); c != tria.end(); ++c, ++n)
      {
        cells.push_back(c->material_id());
        cells.push_back(c->manifold_id());
        cells.push_back(c->level());
        cells.push_back(c->subdomain_id());
        cells.push_back(c->index());
        {
          double     path = 0;
          typename Triangulation<dim - 1, dim>::cell_iterator k = c;
          while (k->level() > 0)
            {
              auto up = k->parent();
              unsigned int w = 0;
              for (unsigned int m = 0; m < up->n_children(); ++m) if (up->child(m) == k) w = m;
              path = path * 4 + w; // finest digit is the most significant one
              k = up;
            }
          id.push_back(k->index()); id.push_back(c->level()); id.push_back(path);
        }
        for (unsigned int k = 0; k < nv; ++k) cells.push_back(c->vertex_index(k));
        for (unsigned int f = 0; f < nf; ++f)
          {
            faces.push_back(c->face(f)->at_boundary());
            faces.push_back(c->face(f)->has_children());
            faces.push_back(c->at_boundary(f) ? -1 : c->neighbor(f)->level());
            faces.push_back(c->at_boundary(f) ? -1 : c->neighbor(f)->index());
            if constexpr (dim == 3) fman.push_back(c->face(f)->manifold_id());
          }
      }
    out.put(t + "tria.v", v, {(unsigned int)tria.n_vertices(), (unsigned int)dim});
    out.put(t + "tria.used", used);
    out.put(t + "tria.cells", cells, {n, 5 + nv});
    out.put(t + "tria.faces", faces, {n, nf, 4});
    out.put(t + "tria.id", id, {n, 3});
    if (dim == 3) out.put(t + "tria.fman", fman, {n, nf});
  }
  void putset(const std::string &name, const std::vector<std::set<types::global_dof_index>> &s)
  {
    std::vector<double> p{0}, e;
    for (auto &x : s) { for (auto y : x) e.push_back(y); p.push_back(e.size()); }
    out.put(name + ".ptr", p); out.put(name + ".idx", e);
  }
  template <class T> void putv(const std::string &name, const std::vector<T> &v)
  { out.put(name, std::vector<double>(v.begin(), v.end())); }
  void dump_dofs(const std::string &t)
  {
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs();
    std::vector<Point<dim>> sp(n), vsp(b.gradient_dh.n_dofs());
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.dh, sp);
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.gradient_dh, vsp);
    out.putp(t + "dof.x", sp);
    out.putp(t + "vdof.x", vsp);
    std::vector<double> cd_, vcd, comp;
    std::vector<types::global_dof_index> l(b.fe->dofs_per_cell), vl(b.gradient_fe->dofs_per_cell);
    auto vc = b.gradient_dh.begin_active();
    unsigned int nc = 0;
    comp.assign(b.gradient_dh.n_dofs(), -1);
    for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++vc, ++nc)
      {
        c->get_dof_indices(l); vc->get_dof_indices(vl);
        cd_.insert(cd_.end(), l.begin(), l.end());
        vcd.insert(vcd.end(), vl.begin(), vl.end());
        for (unsigned int k = 0; k < vl.size(); ++k) comp[vl[k]] = b.gradient_fe->system_to_component_index(k).first;
      }
    out.put(t + "cell.dofs", cd_, {nc, (unsigned int)l.size()});
    out.put(t + "cell.vdofs", vcd, {nc, (unsigned int)vl.size()});
    out.put(t + "vdof.comp", comp);
    putv(t + "o2s", b.original_to_sub_wise); putv(t + "s2o", b.sub_wise_to_original);
    putv(t + "vo2s", b.vec_original_to_sub_wise); putv(t + "vs2o", b.vec_sub_wise_to_original);
    // ownership
    auto own = [&](const IndexSet &s, const std::string &nm) {
      std::vector<double> e; for (auto i : s) e.push_back(i);
      auto all = Utilities::MPI::gather(MPI_COMM_WORLD, e, 0);
      std::vector<double> p{0}, x;
      for (auto &a : all) { x.insert(x.end(), a.begin(), a.end()); p.push_back(x.size()); }
      out.put(t + nm + ".ptr", p); out.put(t + nm + ".idx", x);
    };
    own(b.this_cpu_set, "own"); own(b.vector_this_cpu_set, "vown"); own(b.ghosted_set, "ghost");
    putset(t + "dbl", b.double_nodes_set);
    out.put(t + "dirichlet", glob(b.dirichlet_nodes));
    out.put(t + "neumann", glob(b.neumann_nodes));
    out.put(t + "have_dirichlet", {(double)b.have_dirichlet_bc});
#ifndef PB_SKIP_MISC
    std::vector<double> e; for (auto i : b.edge_set) e.push_back(i);
    out.put(t + "edge_set", e);
#endif
  }
  void dump_sol(const std::string &t)
  {
    auto &b = bem();
    out.put(t + "phi", glob(bc().phi)); out.put(t + "dphi_dn", glob(bc().dphi_dn));
    out.put(t + "tmp_rhs", glob(bc().tmp_rhs)); out.put(t + "alpha", glob(b.alpha));
#ifndef PB_SKIP_MISC
    out.put(t + "hyp_alpha", glob(b.hyp_alpha));
    for (unsigned int i = 0; i < b.C_ij.size(); ++i) out.put(t + "C" + std::to_string(i), glob(b.C_ij[i]));
    for (unsigned int i = 0; i < b.b_i.size(); ++i) out.put(t + "b" + std::to_string(i), glob(b.b_i[i]));
#endif
    out.put(t + "sol", glob(b.sol)); out.put(t + "system_rhs", glob(b.system_rhs));
    putvec(t + "normals", b.vector_normals_solution);
    putvec(t + "surfgrad", b.vector_surface_gradients_solution);
    putvec(t + "grad", b.vector_gradients_solution);
    out.put(t + "last_step", {(double)b.solver_control.last_step(), b.solver_control.last_value()});
  }
  void dump_cons(const std::string &t)
  {
    auto &c = bem().constraints;
    std::vector<double> id, p{0}, j, w, inh;
    for (unsigned int i = 0; i < bem().dh.n_dofs(); ++i)
      if (c.is_constrained(i))
        {
          id.push_back(i);
          inh.push_back(c.get_inhomogeneity(i));
          for (auto &e : *c.get_constraint_entries(i)) { j.push_back(e.first); w.push_back(e.second); }
          p.push_back(j.size());
        }
    out.put(t + "cons.line", id); out.put(t + "cons.ptr", p); out.put(t + "cons.idx", j);
    out.put(t + "cons.w", w); out.put(t + "cons.inh", inh);
    AffineConstraints<double> hn;
    DoFTools::make_hanging_node_constraints(bem().dh, hn);
    hn.close();
    std::vector<double> hid, hp{0}, hj, hw;
    for (auto &l : hn.get_lines())
      {
        hid.push_back(l.index);
        for (auto &e : l.entries) { hj.push_back(e.first); hw.push_back(e.second); }
        hp.push_back(hj.size());
      }
    out.put(t + "hn.line", hid); out.put(t + "hn.ptr", hp); out.put(t + "hn.idx", hj); out.put(t + "hn.w", hw);
    // the other ranks must hold the same lines
    unsigned int h = 0; for (double x : id) h = h * 31 + (unsigned int)x;
    auto all = Utilities::MPI::gather(MPI_COMM_WORLD, h, 0);
    std::vector<double> same; for (auto x : all) same.push_back(x == all[0]);
    out.put(t + "cons.same", same);
  }
  // the numbering before the renumbering by process, and the rows the matrices hold on every process
  void dump_orig(const std::string &t)
  {
    auto &b = bem();
    DoFHandler<dim - 1, dim> a(cd().tria), g(cd().tria);
    a.distribute_dofs(*b.fe); g.distribute_dofs(*b.gradient_fe);
    DoFRenumbering::component_wise(g);
    std::vector<Point<dim>> x(a.n_dofs()), gx(g.n_dofs());
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, a, x);
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, g, gx);
    out.putp(t + "orig.x", x); out.putp(t + "orig.vx", gx);
    std::vector<double> cell, vcomp(g.n_dofs(), -1.);
    std::vector<types::global_dof_index> l(b.fe->dofs_per_cell), vl(b.gradient_fe->dofs_per_cell);
    unsigned int nc = 0;
    for (auto c = a.begin_active(); c != a.end(); ++c, ++nc) { c->get_dof_indices(l); cell.insert(cell.end(), l.begin(), l.end()); }
    for (auto c = g.begin_active(); c != g.end(); ++c) { c->get_dof_indices(vl); for (unsigned int k = 0; k < vl.size(); ++k) vcomp[vl[k]] = b.gradient_fe->system_to_component_index(k).first; }
    out.put(t + "orig.cell", cell, {nc, (unsigned int)l.size()}); out.put(t + "orig.vcomp", vcomp);
    auto rows = [&](const std::string &nm, const IndexSet &s) {
      std::vector<double> e; for (auto i : s) e.push_back(i);
      auto all = Utilities::MPI::gather(MPI_COMM_WORLD, e, 0);
      std::vector<double> q{0}, y;
      for (auto &v : all) { y.insert(y.end(), v.begin(), v.end()); q.push_back(y.size()); }
      out.put(t + nm + ".ptr", q); out.put(t + nm + ".idx", y);
    };
    if (b.solution_method == "Direct") { rows("rowsN", b.neumann_matrix.locally_owned_range_indices()); rows("rowsD", b.dirichlet_matrix.locally_owned_range_indices()); }
    rows("rowsS", b.sol.locally_owned_elements()); rows("rowsP", bc().phi.locally_owned_elements());
  }
  void dump_mat(const std::string &t)
  {
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs();
    std::vector<double> N(n * n), D(n * n);
    auto fill = [&](std::vector<double> &M, const TrilinosWrappers::SparseMatrix &A) {
      for (auto i : b.this_cpu_set) for (auto e = A.begin(i); e != A.end(i); ++e) M[i * n + e->column()] += e->value();
      Utilities::MPI::sum(M, MPI_COMM_WORLD, M);
    };
    fill(N, b.neumann_matrix); fill(D, b.dirichlet_matrix);
    out.put(t + "N", N, {n, n}); out.put(t + "D", D, {n, n});
  }
  // geometry as seen through the program's own mapping
  void dump_geom(const std::string &t, unsigned int nq, bool sp = false)
  {
    auto &b = bem();
    Quadrature<dim - 1> q;
    if (sp) q = Quadrature<dim - 1>(b.fe->get_unit_support_points());
    else if (nq == 0) q = *b.quadrature;
    else q = QGauss<dim - 1>(nq);
    FEValues<dim - 1, dim> fv(*b.mapping, *b.fe, q, update_values | update_quadrature_points | update_normal_vectors | update_JxW_values);
    std::vector<double> x, nn, w, s;
    unsigned int nc = 0;
    for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++nc)
      {
        fv.reinit(c);
        for (unsigned int k = 0; k < q.size(); ++k)
          {
            for (unsigned int d = 0; d < dim; ++d) { x.push_back(fv.quadrature_point(k)[d]); nn.push_back(fv.normal_vector(k)[d]); }
            w.push_back(fv.JxW(k));
            for (unsigned int j = 0; j < b.fe->dofs_per_cell; ++j) s.push_back(fv.shape_value(j, k));
          }
      }
    out.put(t + "geom.x", x, {nc, (unsigned int)q.size(), (unsigned int)dim});
    out.put(t + "geom.n", nn, {nc, (unsigned int)q.size(), (unsigned int)dim});
    out.put(t + "geom.w", w, {nc, (unsigned int)q.size()});
    out.put(t + "geom.s", s, {nc, (unsigned int)q.size(), b.fe->dofs_per_cell});
  }
  // points of a lattice (or Gauss points): positions, weights, reference shape values of both elements
  void dump_at(const std::string &t, unsigned int n, bool gauss)
  {
    auto &b = bem();
    Quadrature<dim - 1> q;
    if (gauss) q = QGauss<dim - 1>(n);
    else
      {
        std::vector<Point<1>> l;
        for (unsigned int k = 0; k <= n; ++k) l.push_back(Point<1>(double(k) / n));
        q = Quadrature<dim - 1>(Quadrature<1>(l, std::vector<double>(n + 1, 1.)));
      }
    FEValues<dim - 1, dim> fv(*b.mapping, *b.fe, q, update_quadrature_points | update_JxW_values);
    std::vector<double> x, w, s, vs;
    unsigned int nc = 0;
    for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++nc)
      {
        fv.reinit(c);
        for (unsigned int k = 0; k < q.size(); ++k)
          {
            for (unsigned int d = 0; d < dim; ++d) x.push_back(fv.quadrature_point(k)[d]);
            w.push_back(fv.JxW(k));
          }
      }
    const auto &gf = b.gradient_dh.get_fe();
    for (unsigned int k = 0; k < q.size(); ++k)
      {
        for (unsigned int j = 0; j < b.fe->dofs_per_cell; ++j) s.push_back(b.fe->shape_value(j, q.point(k)));
        for (unsigned int j = 0; j < gf.dofs_per_cell; ++j) vs.push_back(gf.shape_value(j, q.point(k)));
      }
    out.put(t + "at.x", x, {nc, (unsigned int)q.size(), (unsigned int)dim});
    out.put(t + "at.w", w, {nc, (unsigned int)q.size()});
    out.put(t + "at.s", s, {(unsigned int)q.size(), b.fe->dofs_per_cell});
    out.put(t + "at.vs", vs, {(unsigned int)q.size(), gf.dofs_per_cell});
  }
  // tangential gradients of the shape functions at the points of the configured rule
  void dump_shapegrad(const std::string &t)
  {
    auto &b = bem();
    FEValues<dim - 1, dim> fv(*b.mapping, *b.fe, *b.quadrature, update_gradients);
    std::vector<double> g;
    unsigned int nc = 0;
    for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c, ++nc)
      {
        fv.reinit(c);
        for (unsigned int k = 0; k < b.quadrature->size(); ++k)
          for (unsigned int j = 0; j < b.fe->dofs_per_cell; ++j)
            for (unsigned int d = 0; d < dim; ++d) g.push_back(fv.shape_grad(j, k)[d]);
      }
    out.put(t + "geom.g", g, {nc, (unsigned int)b.quadrature->size(), b.fe->dofs_per_cell, (unsigned int)dim});
  }
  // own Green kernels
  static void green(const Tensor<1, dim> &R, const Tensor<1, dim> &n, double &s, double &dn)
  {
    const double r = R.norm();
    if (dim == 3) { s = 1 / (4 * M_PI * r); dn = -(R * n) / (4 * M_PI * r * r * r); }
    else { s = -std::log(r) / (2 * M_PI); dn = -(R * n) / (2 * M_PI * r * r); }
  }
  Quadrature<dim - 1> singular_rule(int kind, const Point<dim - 1> &p, unsigned int order);
  Quadrature<dim - 1> regular_hi(unsigned int n) { return QGauss<dim - 1>(n); }
  // Reference operators.  mode 0: configured rules, Duffy singular; 1: configured rules, Telles singular; 2: high accuracy
  void refops(const std::string &t, int mode, const std::string &qt, int qo, int so)
  {
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs(), m = b.fe->dofs_per_cell;
    std::vector<double> N(n * n), D(n * n);
    std::vector<Point<dim>> sp(n);
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.dh, sp);
    const unsigned int fl = update_values | update_quadrature_points | update_normal_vectors | update_JxW_values;
    std::unique_ptr<Quadrature<dim - 1>> qr(qt.empty() ? new Quadrature<dim - 1>(*b.quadrature) : new QuadratureSelector<dim - 1>(qt, qo));
    FEValues<dim - 1, dim> fr(*b.mapping, *b.fe, *qr, (UpdateFlags)fl);
    FEValues<dim - 1, dim> f1(*b.mapping, *b.fe, regular_hi(8), (UpdateFlags)fl), f2(*b.mapping, *b.fe, regular_hi(20), (UpdateFlags)fl), f3(*b.mapping, *b.fe, regular_hi(dim == 2 ? 200 : 48), (UpdateFlags)fl);
    std::vector<std::unique_ptr<FEValues<dim - 1, dim>>> fs(m);
    for (unsigned int j = 0; j < m; ++j)
      fs[j].reset(new FEValues<dim - 1, dim>(*b.mapping, *b.fe, singular_rule(mode, b.fe->get_unit_support_points()[j], mode == 2 ? 24 : so > 0 ? so : b.singular_quadrature_order), (UpdateFlags)fl));
    std::vector<types::global_dof_index> l(m);
    for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c)
      {
        c->get_dof_indices(l);
        if (mode == 2) { f1.reinit(c); f2.reinit(c); f3.reinit(c); } else fr.reinit(c);
        for (auto &f : fs) f->reinit(c);
        const double diam = c->diameter();
        const Point<dim> cen = c->center();
        for (unsigned int i = 0; i < n; ++i)
          {
            // the point lies on the cell iff it coincides with one of the cell's nodes
            int sing = -1;
            for (unsigned int j = 0; j < m && sing < 0; ++j) if (sp[i].distance(sp[l[j]]) < 1e-9 * diam) sing = j;
            FEValues<dim - 1, dim> *f = &fr;
            if (sing >= 0) f = fs[sing].get();
            else if (mode == 2) { const double d = sp[i].distance(cen) / diam; f = d > 3 ? &f1 : d > 1.2 ? &f2 : &f3; }
            for (unsigned int q = 0; q < f->n_quadrature_points; ++q)
              {
                double s, dn;
                green(f->quadrature_point(q) - sp[i], f->normal_vector(q), s, dn);
                s *= f->JxW(q); dn *= f->JxW(q);
                for (unsigned int j = 0; j < m; ++j) { N[i * n + l[j]] += dn * f->shape_value(j, q); D[i * n + l[j]] += s * f->shape_value(j, q); }
              }
          }
      }
    out.put(t + "refN", N, {n, n}); out.put(t + "refD", D, {n, n});
  }
  // reproducible nodal data depending on position and patch only
  void field(TrilinosWrappers::MPI::Vector &v, unsigned int k)
  {
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs();
    std::vector<Point<dim>> sp(n);
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.dh, sp);
    std::vector<int> mat(n, 1 << 20);
    std::vector<types::global_dof_index> l(b.fe->dofs_per_cell);
    for (auto c = b.dh.begin_active(); c != b.dh.end(); ++c)
      { c->get_dof_indices(l); for (auto i : l) mat[i] = std::min(mat[i], (int)c->material_id()); }
    v.reinit(b.this_cpu_set, MPI_COMM_WORLD);
    for (auto i : b.this_cpu_set)
      {
        double a = 0; for (unsigned int d = 0; d < dim; ++d) a += (13.7 - 5.1 * d + 1.3 * k) * sp[i][d];
        v(i) = std::cos(a + k) + 0.3 * std::sin(1. + mat[i] + 2 * k);
      }
    v.compress(VectorOperation::insert);
  }
  void fma_setup() { fma().generate_octree_blocking(); fma().direct_integrals(); fma().multipole_integrals(); }
  void fma_prod(const std::string &t, unsigned int nk)
  {
    auto &b = bem();
    for (unsigned int k = 0; k < nk; ++k)
      {
        TrilinosWrappers::MPI::Vector p, d, pn(b.this_cpu_set, MPI_COMM_WORLD), pd(b.this_cpu_set, MPI_COMM_WORLD);
        field(p, k); field(d, k + 50);
        fma().generate_multipole_expansions(p, d);
        fma().multipole_matr_vect_products(p, d, pn, pd);
        const std::string s = std::to_string(k);
        out.put(t + "fin.p" + s, glob(p)); out.put(t + "fin.d" + s, glob(d));
        out.put(t + "fout.N" + s, glob(pn)); out.put(t + "fout.D" + s, glob(pd));
      }
  }
  // products of combinations, of one density alone, of nothing, and of the first pair again
  void fma_lin(const std::string &t)
  {
    auto &b = bem();
    TrilinosWrappers::MPI::Vector p0, d0, p1, d1, z(b.this_cpu_set, MPI_COMM_WORLD), pc, dc, pt, dt;
    field(p0, 0); field(d0, 50); field(p1, 1); field(d1, 51);
    pc = p0; pc.sadd(2., -3., p1); dc = d0; dc.sadd(2., -3., d1); pt = p0; pt *= 1e-12; dt = d0; dt *= 1e-12;
    std::vector<std::pair<TrilinosWrappers::MPI::Vector *, TrilinosWrappers::MPI::Vector *>> L = {{&p0, &d0}, {&p1, &d1}, {&pc, &dc}, {&p0, &z}, {&z, &d0}, {&z, &z}, {&p0, &d0}, {&pt, &dt}};
    for (unsigned int k = 0; k < L.size(); ++k)
      {
        TrilinosWrappers::MPI::Vector pn(b.this_cpu_set, MPI_COMM_WORLD), pd(b.this_cpu_set, MPI_COMM_WORLD);
        fma().generate_multipole_expansions(*L[k].first, *L[k].second);
        fma().multipole_matr_vect_products(*L[k].first, *L[k].second, pn, pd);
        out.put(t + "flin.N" + std::to_string(k), glob(pn)); out.put(t + "flin.D" + std::to_string(k), glob(pd));
      }
  }
  // columns of the accelerated operators, by products with unit densities
  void fma_probe(const std::string &t, unsigned int stride, unsigned int first)
  {
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs();
    std::vector<double> N, D, J;
    for (unsigned int j = first; j < n; j += stride)
      {
        TrilinosWrappers::MPI::Vector p(b.this_cpu_set, MPI_COMM_WORLD), pn(b.this_cpu_set, MPI_COMM_WORLD), pd(b.this_cpu_set, MPI_COMM_WORLD);
        if (b.this_cpu_set.is_element(j)) p(j) = 1;
        p.compress(VectorOperation::insert);
        fma().generate_multipole_expansions(p, p);
        fma().multipole_matr_vect_products(p, p, pn, pd);
        auto a = glob(pn), c = glob(pd);
        N.insert(N.end(), a.begin(), a.end()); D.insert(D.end(), c.begin(), c.end()); J.push_back(j);
      }
    out.put(t + "probe.j", J);
    out.put(t + "probe.N", N, {(unsigned int)J.size(), n}); out.put(t + "probe.D", D, {(unsigned int)J.size(), n});
  }
  void near(const std::string &t)
  {
#ifndef PB_SKIP_NEAR
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs();
    std::vector<double> N(n * n), D(n * n);
    auto fill = [&](std::vector<double> &M, const TrilinosWrappers::SparseMatrix &A) {
      for (auto i : b.this_cpu_set) for (auto e = A.begin(i); e != A.end(i); ++e) M[i * n + e->column()] += e->value();
      Utilities::MPI::sum(M, MPI_COMM_WORLD, M);
    };
    fill(N, fma().prec_neumann_matrix); fill(D, fma().prec_dirichlet_matrix);
    out.put(t + "nearN", N, {n, n}); out.put(t + "nearD", D, {n, n});
#endif
  }
  void octree(const std::string &t);
  void prec(const std::string &t)
  {
#ifndef PB_SKIP_PREC
    // action of the accelerated preconditioner's matrix
    auto &b = bem();
    const unsigned int n = b.dh.n_dofs();
    std::vector<double> M(n * n);
    auto &A = fma().final_preconditioner;
    for (auto i : b.this_cpu_set) for (auto e = A.begin(i); e != A.end(i); ++e) M[i * n + e->column()] += e->value();
    out.put(t + "prec", M, {n, n});
#endif
  }
  // the system operator: products with sums and multiples
  void linop(const std::string &t)
  {
    auto &b = bem();
    TrilinosWrappers::MPI::Vector x, y, z, ax(b.this_cpu_set, MPI_COMM_WORLD), ay(ax), az(ax), r(ax);
    field(x, 1); field(y, 2); z = x; z.sadd(2., -3., y);
    b.vmult(ax, x); b.vmult(ay, y); b.vmult(az, z);
    b.compute_rhs(r, x);
    out.put(t + "lin.x", glob(x)); out.put(t + "lin.ax", glob(ax)); out.put(t + "lin.ay", glob(ay));
    out.put(t + "lin.y", glob(y)); out.put(t + "lin.az", glob(az)); out.put(t + "lin.rhs", glob(r));
    ConstrainedOperator<TrilinosWrappers::MPI::Vector, BEMProblem<dim>> cc(b, b.constraints, b.constr_cpu_set, MPI_COMM_WORLD);
    cc.vmult(az, x); cc.distribute_rhs(r);
    out.put(t + "lin.cx", glob(az)); out.put(t + "lin.crhs", glob(r));
    cc.vmult(az, b.sol); out.put(t + "lin.csol", glob(az));
  }
  void params(const std::string &t)
  {
#ifndef PB_SKIP_PARAMS
    auto &b = bem(); auto &c = cd();
    out.put(t + "par.num", {(double)c.n_cycles, (double)c.pre_global_refinements, c.max_element_aspect_ratio, (double)b.quadrature_order,
       (double)b.singular_quadrature_order, (double)b.mapping_degree, (double)b.continuos_gradient, (double)b.scalar_fe_order,
       (double)b.vector_fe_order, b.coarsening_threshold, b.refinement_threshold, (double)b.solver_control.max_steps(), b.solver_control.tolerance(),
       (double)fma().trunc_order, (double)fma().tbb_granularity, (double)fma().num_octree_levels, (double)fma().max_num_nodes_per_block,
       (double)drv->global_refinement, (double)c.spheroid_bool, c.spheroid_x_axis, c.spheroid_y_axis, c.spheroid_z_axis,
       (double)b.quadrature->size(), (double)c.use_cad_surface_and_curves, (double)c.surface_curvature_refinement, c.cells_per_circle,
       (double)c.max_curvature_ref_cycles, c.cad_to_projectors_tolerance_ratio});
    std::vector<double> d(c.dirichlet_boundary_ids.begin(), c.dirichlet_boundary_ids.end()), e(c.neumann_boundary_ids.begin(), c.neumann_boundary_ids.end());
    out.put(t + "par.did", d); out.put(t + "par.nid", e);
    out.put(t + "par.qx0", {b.quadrature->point(0)[0], b.quadrature->weight(0)});
    if (rank == 0)
      {
        std::cout << "PBSTR " << c.input_grid_name << "|" << c.input_grid_format << "|" << c.input_cad_path << "|" << b.preconditioner_type << "|" << b.mapping_type << "|"
                  << b.solution_method << "|" << b.scalar_fe_type << "|" << b.vector_fe_type << "|" << bc().output_file_name << std::endl;
        Point<dim> p; for (unsigned int d = 0; d < dim; ++d) p[d] = 0.3 + 0.2 * d;
        Vector<double> w(dim); bc().wind.vector_value(p, w);
        std::vector<double> a(w.begin(), w.end()); a.push_back(bc().potential.value(p));
        out.put(t + "par.fun", a);
      }
#endif
  }
  // one nodal field given by expressions: phi (scalar) and its flux from a gradient
  void setfield(const std::string &expr, TrilinosWrappers::MPI::Vector &v)
  {
    auto &b = bem();
    FunctionParser<dim> f(1);
    f.initialize(FunctionParser<dim>::default_variable_names(), expr, {{"pi", numbers::PI}});
    std::vector<Point<dim>> sp(b.dh.n_dofs());
    DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.dh, sp);
    v.reinit(b.this_cpu_set, MPI_COMM_WORLD);
    for (auto i : b.this_cpu_set) v(i) = f.value(sp[i]);
    v.compress(VectorOperation::insert);
  }
  void set_band(unsigned int k)
  {
#ifndef PB_SKIP_BAND
    bem().preconditioner_band = k;
#else
    (void)k;
#endif
  }
  // the vectors a solve starts from hold something else
  void junk(unsigned int which = 63)
  {
    TrilinosWrappers::MPI::Vector v;
    field(v, 7); v *= 1e3;
    TrilinosWrappers::MPI::Vector *w[] = {&bem().sol, &bem().alpha, &bem().system_rhs, &bc().phi, &bc().dphi_dn, &bc().tmp_rhs};
    for (unsigned int k = 0; k < 6; ++k) if (which >> k & 1) { if (w[k]->size() != v.size()) w[k]->reinit(bem().this_cpu_set, MPI_COMM_WORLD); w[k]->sadd(0., 1., v); }
  }
  void initbc()
  { // what a solve does before handing data to the solver
    bc().this_cpu_set.clear(); bc().this_cpu_set = bem().this_cpu_set; bc().this_cpu_set.compress();
    bc().phi.reinit(bem().this_cpu_set, MPI_COMM_WORLD); bc().dphi_dn.reinit(bem().this_cpu_set, MPI_COMM_WORLD);
    bc().tmp_rhs.reinit(bem().this_cpu_set, MPI_COMM_WORLD);
  }
  /// The library's indicators on the geometry of the run, for the field of the expression, cell by cell in the order of the triangulation.
  void kelly(const std::string &t, const std::string &expr)
  {
    TrilinosWrappers::MPI::Vector v; setfield(expr, v);
    const Vector<double> h(v); Vector<float> e(bem().comp_dom.tria.n_active_cells());
    KellyErrorEstimator<dim - 1, dim>::estimate(*bem().mapping, bem().dh, QGauss<dim - 2>(4), {}, h, e);
    out.put(t + ".kelly", std::vector<double>(e.begin(), e.end()));
  }
  void op(const std::string &o)
  {
    auto a = split(o, ':');
    const std::string &n = a[0];
    const std::string t = a.size() > 1 ? a[1] + "." : "";
    auto num = [&](unsigned int k, int d) { return a.size() > k ? atoi(a[k].c_str()) : d; };
    if (n == "run") drv->run();
    else if (n == "read") cd().read_domain();
    else if (n == "initial") cd().create_initial_mesh();
    else if (n == "refine") cd().refine_and_resize(a.size() > 1 ? num(1, 0) : cd().n_cycles);
    else if (n == "condrefine") cd().conditional_refine_and_resize(num(1, 1));
    else if (n == "update") cd().update_triangulation();
    else if (n == "conform") cd().make_edges_conformal(num(1, 1), num(2, 0));
    else if (n == "vcache") cd().compute_double_vertex_cache();
    else if (n == "reinit") bem().reinit();
    else if (n == "solve") bc().solve_problem();
    else if (n == "errors") bc().compute_errors();
    else if (n == "output") bc().output_results(a.size() > 1 ? a[1] : bc().output_file_name);
    else if (n == "adapt") bem().adaptive_refinement(bc().get_phi());
    else if (n == "adaptf") { TrilinosWrappers::MPI::Vector v; setfield(a[1], v); bem().adaptive_refinement(v); }
    else if (n == "kelly") kelly(a[1], a[2]);
    else if (n == "assemble") bem().assemble_system();
    else if (n == "alpha") bem().compute_alpha();
    else if (n == "normals") bem().compute_normals();
    else if (n == "initbc") initbc();
    else if (n == "prep") bc().prepare_bem_vectors();
    else if (n == "surfgrad") { TrilinosWrappers::MPI::Vector v; setfield(a[1], v); bem().compute_surface_gradients(v); }
    else if (n == "gradf") { TrilinosWrappers::MPI::Vector v, w; setfield(a[1], v); setfield(a[2], w); bem().compute_gradients(v, w); }
    else if (n == "grad") bem().compute_gradients(bc().phi, bc().dphi_dn);
    else if (n == "hypgrad") bem().compute_gradients_hypersingular(bc().phi, bc().dphi_dn);
    else if (n == "hypcoef") bem().compute_hypersingular_free_coeffs();
    else if (n == "cons") bem().compute_constraints(bem().constr_cpu_set, bem().constraints, bc().tmp_rhs);
    else if (n == "fma") fma_setup();
    else if (n == "fmaoct") fma().generate_octree_blocking();
    else if (n == "fmaprec") fma().FMA_preconditioner(bem().alpha, bem().constraints);
    else if (n == "fmaprod") fma_prod(t, num(2, 2));
    else if (n == "fmaprobe") fma_probe(t, num(2, 1), num(3, 0));
    else if (n == "fmalin") fma_lin(t);
    else if (n == "near") near(t);
    else if (n == "octree") octree(t);
    else if (n == "prec") prec(t);
    else if (n == "linop") linop(t);
    else if (n == "band") set_band(num(1, 100));
    else if (n == "junk") junk(num(1, 63));
    else if (n == "params") params(t);
    else if (n == "tria") dump_tria(t);
    else if (n == "dofs") dump_dofs(t);
    else if (n == "sol") dump_sol(t);
    else if (n == "orig") dump_orig(t);
    else if (n == "dcons") dump_cons(t);
    else if (n == "mat") dump_mat(t);
    else if (n == "geom") dump_geom(t, num(2, 0));
    else if (n == "lattice") dump_at(t, num(2, 1), false);
    else if (n == "gauss") dump_at(t, num(2, 4), true);
    else if (n == "geomg") dump_shapegrad(t);
    else if (n == "geomsp") dump_geom(t, 0, true);
    else if (n == "refops") refops(t, num(2, 0), a.size() > 3 ? a[3] : "", num(4, 0), num(5, 0));
    else if (n == "fresh") { if (a.size() > 1) prm = a[1]; fresh(); }
    else if (n == "prm") { ParameterAcceptor::initialize(a[1], out.path + ".used2.prm"); }
    else if (n == "try") { try { op(o.substr(4)); } catch (std::exception &e) { if (rank == 0) std::cout << "PBTRY " << o.substr(4) << " threw" << std::endl; out.put("threw", {1.}); } }
    else { std::cerr << "PB-BADOP " << o << std::endl; exit(4); }
  }
};

template <>
Quadrature<2> Run<3>::singular_rule(int kind, const Point<2> &p, unsigned int order)
{
  if (kind == 1) return QTelles<2>(order, p);
  return QSplit<2>(QDuffy(order, 1.), p);
}
template <>
Quadrature<1> Run<2>::singular_rule(int kind, const Point<1> &p, unsigned int order)
{
  if (kind != 2) return QTelles<1>(order, p);
  // graded rule on both sides of the point: x = p + L s^6
  QGauss<1> g(40);
  std::vector<Point<1>> x; std::vector<double> w;
  for (int side = 0; side < 2; ++side)
    {
      const double L = side ? 1 - p[0] : -p[0];
      if (std::abs(L) < 1e-14) continue;
      for (unsigned int k = 0; k < g.size(); ++k)
        { const double s = g.point(k)[0]; x.push_back(Point<1>(p[0] + L * std::pow(s, 4))); w.push_back(std::abs(L) * 4 * std::pow(s, 3) * g.weight(k)); }
    }
  return Quadrature<1>(x, w);
}

template <>
void Run<2>::octree(const std::string &) {}
template <>
void Run<3>::octree(const std::string &t)
{
#ifndef PB_SKIP_OCT
  auto &f = fma();
  std::map<cell_it, unsigned int> cid;
  unsigned int nc = 0;
  for (auto c = bem().dh.begin_active(); c != bem().dh.end(); ++c) cid[c] = nc++;
  std::vector<double> B, np{0}, ni, qp{0}, qi;
  std::vector<double> lists; // rows: kind(0 near,1 int,2 nonint) block sublevel other
  unsigned int nb = f.num_blocks;
  for (unsigned int k = 0; k < nb; ++k)
    {
      auto *b = f.blocks[k];
      B.push_back(b->level); B.push_back(b->parentId); B.push_back(b->numChildren); B.push_back(b->delta);
      for (int d = 0; d < 3; ++d) B.push_back(b->pMin[d]);
      for (unsigned int c = 0; c < 8; ++c) B.push_back(c < b->numChildren ? b->childrenId[c] : -1.);
      for (auto x : b->nodesId) ni.push_back(x);
      np.push_back(ni.size());
      for (auto &x : b->quadPointsId) for (auto q : x.second) { qi.push_back(cid[x.first]); qi.push_back(q); }
      qp.push_back(qi.size() / 2);
      for (unsigned int s = 0; s < b->nearNeigh.size(); ++s) for (auto x : b->nearNeigh[s]) for (double y : {0., (double)k, (double)s, (double)x}) lists.push_back(y);
      for (unsigned int s = 0; s < b->intList.size(); ++s) for (auto x : b->intList[s]) for (double y : {1., (double)k, (double)s, (double)x}) lists.push_back(y);
      for (unsigned int s = 0; s < b->nonIntList.size(); ++s) for (auto x : b->nonIntList[s]) for (double y : {2., (double)k, (double)s, (double)x}) lists.push_back(y);
    }
  out.put(t + "oct.blocks", B, {nb, 15});
  out.put(t + "oct.nodes.ptr", np); out.put(t + "oct.nodes.idx", ni);
  out.put(t + "oct.quads.ptr", qp); out.put(t + "oct.quads.idx", qi, {(unsigned int)(qi.size() / 2), 2});
  out.put(t + "oct.lists", lists, {(unsigned int)(lists.size() / 4), 4});
  putv(t + "oct.start", f.startLevel); putv(t + "oct.end", f.endLevel); putv(t + "oct.childless", f.childlessList);
  std::vector<double> d2b, q2b;
  for (auto &x : f.dof_to_block) for (unsigned int l = 0; l < x.second.size(); ++l) for (double y : {(double)x.first, (double)l, (double)x.second[l]}) d2b.push_back(y);
  for (auto &x : f.quad_point_to_block) for (unsigned int q = 0; q < x.second.size(); ++q) for (unsigned int l = 0; l < x.second[q].size(); ++l)
    for (double y : {(double)cid[x.first], (double)q, (double)l, (double)x.second[q][l]}) q2b.push_back(y);
  out.put(t + "oct.d2b", d2b, {(unsigned int)(d2b.size() / 3), 3});
  out.put(t + "oct.q2b", q2b, {(unsigned int)(q2b.size() / 4), 4});
  std::vector<double> qx; unsigned int nq = 0;
  for (auto c = bem().dh.begin_active(); c != bem().dh.end(); ++c) { nq = f.quadPoints[c].size(); for (auto &p : f.quadPoints[c]) for (int d = 0; d < 3; ++d) qx.push_back(p[d]); }
  out.put(t + "oct.qx", qx, {nc, nq, 3});
  std::vector<double> df, qf;
  for (unsigned int l = 0; l < f.dofs_filled_blocks.size(); ++l) for (auto x : f.dofs_filled_blocks[l]) { df.push_back(l); df.push_back(x); }
  for (unsigned int l = 0; l < f.quad_points_filled_blocks.size(); ++l) for (auto x : f.quad_points_filled_blocks[l]) { qf.push_back(l); qf.push_back(x); }
  out.put(t + "oct.dfill", df, {(unsigned int)(df.size() / 2), 2}); out.put(t + "oct.qfill", qf, {(unsigned int)(qf.size() / 2), 2});
  std::vector<double> pl;
  for (unsigned int l = 0; l < f.parentList.size(); ++l) for (auto x : f.parentList[l]) { pl.push_back(l); pl.push_back(x); }
  out.put(t + "oct.parents", pl, {(unsigned int)(pl.size() / 2), 2});
#endif
}

template <int dim>
int go(int argc, char **argv, Out &out)
{
  Run<dim> r(out, argv[2]);
  for (int k = 4; k < argc; ++k) r.op(argv[k]);
  return 0;
}

int main(int argc, char **argv)
{
  int ac = 1;
  char *av[] = {argv[0], nullptr};
  char **avp = av;
  const char *th = getenv("PB_THREADS");
  Utilities::MPI::MPI_InitFinalize mpi(ac, avp, th ? atoi(th) : 1);
  const unsigned int rank = Utilities::MPI::this_mpi_process(MPI_COMM_WORLD);
  int rc = 0;
  try
    {
      Out out(argv[3], rank);
      rc = atoi(argv[1]) == 2 ? go<2>(argc, argv, out) : go<3>(argc, argv, out);
      out.finish();
    }
  catch (std::exception &e)
    {
      std::cerr << "PB-EXC " << e.what() << std::endl;
      if (Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) > 1) { std::cerr.flush(); MPI_Abort(MPI_COMM_WORLD, 3); }
      return 3;
    }
  if (rank == 0) std::cout << "PB-DONE" << std::endl;
  return rc;
}
