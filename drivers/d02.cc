// Searches for hypergraphs whose inside, outside, posterior or expectation values differ from a sum over enumerated derivations.
#include "hg_common.h"
struct WF { typedef double Weight; const vector<double>* w; WF(const vector<double>* w = 0) : w(w) {} double operator()(const HG::Edge& e) const { return (*w)[e.id_]; } };
struct Val { double v; Val() : v(0) {} explicit Val(double x) : v(x) {} Val& operator+=(const Val& o) { v += o.v; return *this; } };
inline Val operator*(const Val& a, double k) { return Val(a.v * k); }
struct XF { typedef Val Result; const vector<double>* x; Val operator()(const HG::Edge& e) const { return Val((*x)[e.id_]); } };
struct BF { const vector<bool>* p; bool operator()(const HG::Edge& e) const { return (*p)[e.id_]; } };
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    Hypergraph hg; vector<double> w;
    gen(hg, w, rint(0, 3) != 0);
    if (rint(0, 4) == 0) for (auto& x : w) if (rint(0, 4) == 0) x = 0;
    if (rint(0, 4) == 0) for (auto& x : w) if (rint(0, 4) == 0) x = -x;
    input(show(hg) + "weights " + vstr(w));
    vector<vector<DP>> m; int N = hg.nodes_.size();
    if (!derivs(hg, N - 1, m, 300, false)) continue;
    vector<double> in, out; WF wf(&w);
    if (rint(0, 1)) in.assign(rint(0, 9), 5.0);
    double r = Inside<double, WF>(hg, &in, wf);
    check((int)in.size() == N, "Inside: one score per node");
    for (int v = 0; v < N; ++v) { double s = 0; for (auto& d : m[v]) s += weight(d, w); check(close(in[v], s), "Inside: score of node " + str(v) + " is " + str(in[v]) + ", its derivations sum to " + str(s)); }
    check(close(r, in[N - 1]), "Inside: returned goal score");
    check(close((Inside<double, WF>(hg, NULL, wf)), r), "Inside: without a result vector");
    double np = m[N - 1].size(); check(close(hg.NumberOfPaths(), np), "NumberOfPaths " + str(hg.NumberOfPaths()) + " but " + str(np) + " derivations");
    double sc = rint(0, 1) ? 1.0 : 0.25 + rreal();
    if (rint(0, 1)) out.assign(rint(0, 9), 3.0);
    Outside<double, WF>(hg, in, &out, wf, sc);
    check((int)out.size() == N, "Outside: one score per node");
    vector<double> nt(N, 0), et(w.size(), 0); double xt = 0; vector<double> x; for (size_t i = 0; i < w.size(); ++i) x.push_back(rint(-4, 4));
    for (auto& d : m[N - 1]) { vector<int> c(N), e(w.size()); count_nodes(hg, d, N - 1, c); count_edges(d, e); double p = weight(d, w); for (int v = 0; v < N; ++v) nt[v] += p * c[v]; }
    for (int v = 0; v < N; ++v) check(close(out[v] * in[v], nt[v] * sc), "Outside: node " + str(v) + " outside*inside=" + str(out[v] * in[v]) + ", derivations through it sum to " + str(nt[v] * sc));
    // contexts directly: set one node's score to a fresh weight through an edge of its own
    {
      vector<double> o2(N, 0); o2[N - 1] = sc;
      for (int v = N - 1; v >= 0; --v) for (auto& e : hg.edges_) if (e.head_node_ == v) for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) { double p = w[e.id_] * o2[v]; for (unsigned l = 0; l < e.tail_nodes_.size(); ++l) if (l != k) p *= in[e.tail_nodes_[l]]; o2[e.tail_nodes_[k]] += p; }
      for (int v = 0; v < N; ++v) check(close(out[v], o2[v]), "Outside: node " + str(v) + " is " + str(out[v]) + " expected " + str(o2[v]));
    }
    for (auto& d : m[N - 1]) { vector<int> e(w.size()); count_edges(d, e); double p = weight(d, w); for (size_t i = 0; i < w.size(); ++i) { et[i] += p * e[i]; xt += p * e[i] * x[i]; } }
    InsideOutsides<double> io; io.compute(hg, wf);
    check(close(io.root_inside(), r), "compute: inside score of the goal");
    XF xf; xf.x = &x;
    // the value functions see count * value; edge weights enter through the value, as in the callers
    vector<double> xw; for (size_t i = 0; i < w.size(); ++i) xw.push_back(x[i] * w[i]); XF xwf; xwf.x = &xw;
    check(close(io.expect<XF>(hg, xwf).v, xt, 1e-5), "expect: " + str(io.expect<XF>(hg, xwf).v) + ", derivations sum to " + str(xt));
    Val res(7); double ri = InsideOutside<double, WF, Val, XF>(hg, &res, wf, xwf); check(close(ri, r) && close(res.v, xt, 1e-5), "InsideOutside: value " + str(res.v) + " expected " + str(xt));
    vector<double> mg; if (rint(0, 1)) mg.assign(rint(0, 5), 2.0);
    io.compute_edge_marginals(hg, mg, wf);
    check(mg.size() == w.size(), "compute_edge_marginals: one value per edge");
    for (size_t i = 0; i < w.size(); ++i) check(close(mg[i], et[i]), "compute_edge_marginals: edge " + str(i) + " is " + str(mg[i]) + ", derivations through it sum to " + str(et[i]));
    if (r > 1e-9) { InsideOutsides<double> i2; i2.compute(hg, OutsideNormalize<double>(), wf); i2.compute_edge_marginals(hg, mg, wf); for (size_t i = 0; i < w.size(); ++i) check(close(mg[i], et[i] / r, 1e-5), "normalised marginal of edge " + str(i)); }
    vector<bool> keep; for (size_t i = 0; i < w.size(); ++i) keep.push_back(rint(0, 3) != 0);
    { BF b; b.p = &keep; vector<Boolean> rb; bool any = false; Boolean g = Inside<Boolean, BF>(hg, &rb, b); for (int v = 0; v < N; ++v) { any = false; for (auto& d : m[v]) { vector<int> e(w.size()); count_edges(d, e); bool ok = true; for (size_t i = 0; i < e.size(); ++i) if (e[i] && !keep[i]) ok = false; any |= ok; } check((bool)rb[v] == any, "Inside over booleans: node " + str(v)); } check((bool)g == any, "Inside over booleans: goal"); }
    if (np > 0) {
      double scale = rint(0, 1) ? 1.0 : 0.5 + rreal(); vector<double> ps; vector<prob_t> post; vector<double> ws;
      for (auto& e : hg.edges_) ws.push_back(pow(e.edge_prob_.as_float(), scale));
      double z = hg.ComputeEdgePosteriors(scale, &post).as_float(), zz = 0; vector<double> pe(w.size(), 0), be(w.size(), 0); double best = 0; vector<double> w1; for (auto& e : hg.edges_) w1.push_back(e.edge_prob_.as_float());
      for (auto& d : m[N - 1]) { vector<int> e(w.size()); count_edges(d, e); double p = weight(d, ws), q = weight(d, w1); zz += p; best = max(best, q); for (size_t i = 0; i < e.size(); ++i) { pe[i] += p * e[i]; if (e[i]) be[i] = max(be[i], q); } }
      check(close(z / zz, 1, 1e-6), "ComputeEdgePosteriors: normaliser " + str(z) + " expected " + str(zz));
      for (size_t i = 0; i < pe.size(); ++i) check(close(post[i].as_float() / zz, pe[i] / zz, 1e-6), "ComputeEdgePosteriors: edge " + str(i) + " is " + str(post[i].as_float()) + " expected " + str(pe[i]));
      vector<prob_t> bp; double bz = hg.ComputeBestPathThroughEdges(&bp).as_float();
      check(close(bz / best, 1), "ComputeBestPathThroughEdges: best derivation " + str(bz) + " expected " + str(best));
      for (size_t i = 0; i < be.size(); ++i) check(close(bp[i].as_float() / best, be[i] / best), "ComputeBestPathThroughEdges: edge " + str(i) + " is " + str(bp[i].as_float()) + " expected " + str(be[i]));
    }
  }
  return done();
}
