#pragma once
#include <cstdio>
#include <string>
#include <vector>
#include <deal.II/base/point.h>
struct Out
{
  std::string path;
  FILE *f = nullptr;
  Out(const std::string &p, unsigned int rank) : path(p) { if (rank == 0) f = fopen(p.c_str(), "wb"); }
  void put(const std::string &name, const std::vector<double> &v, std::vector<unsigned int> shape = {})
  {
    if (!f) return;
    if (shape.empty()) shape.push_back(v.size());
    fprintf(f, "%s %zu", name.c_str(), shape.size());
    for (auto s : shape) fprintf(f, " %u", s);
    fprintf(f, "\n");
    if (v.size()) fwrite(v.data(), sizeof(double), v.size(), f);
  }
  template <int dim> void putp(const std::string &name, const std::vector<dealii::Point<dim>> &p)
  {
    std::vector<double> v;
    for (auto &x : p) for (int d = 0; d < dim; ++d) v.push_back(x[d]);
    put(name, v, {(unsigned int)p.size(), (unsigned int)dim});
  }
  void finish() { if (f) { fclose(f); f = nullptr; } }
};
