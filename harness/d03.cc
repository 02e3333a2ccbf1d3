// Instantiates Viterbi over real-valued weights and an arbitrary traversal.
#include "viterbi.h"
struct EdgeW {
  typedef double Weight;
  double operator()(const HG::Edge& e) const;
};
struct EdgeT {  // any homomorphism of derivations
  typedef int Result;
  void operator()(const HG::Edge& e, const std::vector<const int*>& ants, int* result) const;
};
double inst(const Hypergraph& hg, int* r, const EdgeT& t, const EdgeW& w) { return Viterbi<EdgeT, EdgeW>(hg, r, t, w); }
void inst2(const TRule& r, const std::vector<const std::vector<WordID>*>& v, std::vector<WordID>* o) { r.ESubstitute(v, o); r.FSubstitute(v, o); }
void inst3(const HG::Edge& e, const std::vector<const int*>& a, int* r, const std::vector<const std::vector<HG::Edge const*>*>& p, std::vector<HG::Edge const*>* o) { PathLengthTraversal t; t(e, a, r); ELengthTraversal u; u(e, a, r); ViterbiPathTraversal v; v(e, p, o); }
