// Instantiates the inside/outside templates of decoder/inside_outside.h over real-valued weights.
#include "inside_outside.h"
#include "viterbi.h"
struct EdgeW {
  typedef double Weight;
  double operator()(const HG::Edge& e) const;
};
struct Val {  // a value type whose default is zero, as expect() requires
  double v;
  Val() : v(0) {}
  explicit Val(double x) : v(x) {}
  Val& operator+=(const Val& o) { v += o.v; return *this; }
};
inline Val operator*(const Val& a, double k) { return Val(a.v * k); }
struct Count {
  typedef Val Result;
  Val operator()(const HG::Edge& e) const;
};
double inst(const Hypergraph& hg, std::vector<double>* in, std::vector<double>* out, const EdgeW& w, const Count& c, InsideOutsides<double>& io) {
  double r = Inside<double, EdgeW>(hg, in, w);
  Outside<double, EdgeW>(hg, *in, out, w, r);
  r += io.expect<Count>(hg, c).v;
  io.compute_edge_marginals<double, EdgeW>(hg, *out, w);
  return r;
}
