// Searches for hypergraphs on which building, sorting, pruning, subsetting or merging keeps something other than the intended derivations.
#include "hg_common.h"
#include "hg_union.h"
#include "verbose.h"
typedef vector<bool> M;
static string mstr(const M& m) { string s; for (bool b : m) s += b ? '1' : '0'; return s; }
// ids are positions, incoming and outgoing lists mirror heads and tails
static void consistent(const Hypergraph& g, const string& w) {
  int n = g.nodes_.size(), m = g.edges_.size();
  vector<vector<int>> in(n), out(n);
  for (int i = 0; i < m; ++i) { auto& e = g.edges_[i]; check(e.id_ == i, w + ": id of edge " + str(i) + " is " + str(e.id_)); check(e.head_node_ >= 0 && e.head_node_ < n, w + ": head of edge " + str(i)); in[e.head_node_].push_back(i); for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) { check(e.tail_nodes_[k] < (unsigned)n, w + ": tail of edge " + str(i)); out[e.tail_nodes_[k]].push_back(i); } }
  for (int i = 0; i < n; ++i) {
    auto& v = g.nodes_[i]; check(v.id_ == i, w + ": id of node " + str(i) + " is " + str(v.id_));
    vector<int> a = v.in_edges_, b = v.out_edges_; sort(a.begin(), a.end()); sort(b.begin(), b.end());
    check(a == in[i], w + ": incoming edges of node " + str(i) + " are " + vstr(v.in_edges_)); check(b == out[i], w + ": outgoing edges of node " + str(i) + " are " + vstr(v.out_edges_));
  }
}
static void topological(const Hypergraph& g, const string& w) { for (auto& e : g.edges_) for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) check((int)e.tail_nodes_[k] < e.head_node_, w + ": edge " + str(e.id_) + " uses a node after its head"); }
static bool feq(const SparseVector<double>& a, const SparseVector<double>& b) { for (int f = 1; f < 6; ++f) if (a.value(f) != b.value(f)) return false; return true; }
// the edges of g as indices of the original forest (every edge has a rule of its own); contents must be those of the original
static vector<int> origin(const Hypergraph& o, const Hypergraph& g, const string& w, bool heads = true, bool prob = true) {
  map<const TRule*, int> id; for (auto& e : o.edges_) id[e.rule_.get()] = e.id_;
  vector<int> r;
  for (auto& e : g.edges_) {
    check(e.rule_ && id.count(e.rule_.get()), w + ": rule of edge " + str(e.id_)); int x = id[e.rule_.get()]; auto& a = o.edges_[x]; r.push_back(x);
    check(feq(a.feature_values_, e.feature_values_) && a.i_ == e.i_ && a.j_ == e.j_ && a.prev_i_ == e.prev_i_ && a.prev_j_ == e.prev_j_, w + ": features or spans of edge " + str(e.id_));
    if (prob) check(a.edge_prob_ == e.edge_prob_, w + ": weight of edge " + str(e.id_));
    if (heads) check(g.nodes_[e.head_node_].node_hash == o.nodes_[a.head_node_].node_hash && g.nodes_[e.head_node_].cat_ == o.nodes_[a.head_node_].cat_, w + ": head of edge " + str(e.id_));
    check(a.tail_nodes_.size() == e.tail_nodes_.size(), w + ": number of tails");
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) check(g.nodes_[e.tail_nodes_[k]].node_hash == o.nodes_[a.tail_nodes_[k]].node_hash && g.nodes_[e.tail_nodes_[k]].cat_ == o.nodes_[a.tail_nodes_[k]].cat_, w + ": tails of edge " + str(e.id_));
  }
  return r;
}
// edges reachable from a node when only some edges are allowed
static set<int> below(const Hypergraph& o, int goal, const M& ok, set<int>* nodes = 0) {
  set<int> r, seen; vector<int> st(1, goal); seen.insert(goal);
  while (!st.empty()) { int v = st.back(); st.pop_back(); for (int e : o.nodes_[v].in_edges_) if (ok[e]) { r.insert(e); for (unsigned k = 0; k < o.edges_[e].tail_nodes_.size(); ++k) if (seen.insert(o.edges_[e].tail_nodes_[k]).second) st.push_back(o.edges_[e].tail_nodes_[k]); } }
  if (nodes) *nodes = seen; return r;
}
static void same(const vector<int>& got, const set<int>& want, const string& w) { vector<int> a = got; sort(a.begin(), a.end()); check(a == vector<int>(want.begin(), want.end()), w + ": edges kept are " + vstr(a) + " instead of " + vstr(vector<int>(want.begin(), want.end()))); }
static void samenodes(const Hypergraph& o, const Hypergraph& g, const set<int>& want, const string& w) { multiset<size_t> a, b; for (int x : want) a.insert(o.nodes_[x].node_hash); for (auto& v : g.nodes_) b.insert(v.node_hash); check(a == b, w + ": nodes kept"); }
static string sig(const Hypergraph& g, const DP& d) { if (d->edge < 0) return "*"; string s = "(" + str(g.edges_[d->edge].rule_.get()); for (auto& x : d->sub) s += sig(g, x); return s + ")"; }
static bool sigs(const Hypergraph& g, multiset<string>& out, bool leaf1) { vector<vector<DP>> m; if (g.nodes_.empty()) return true; if (!derivs(g, g.nodes_.size() - 1, m, 3000, leaf1)) return false; for (auto& d : m.back()) out.insert(sig(g, d)); return true; }
static M rmask(size_t n, int p) { M m(n); for (size_t i = 0; i < n; ++i) m[i] = rint(0, 9) < p; return m; }
static string csig(const Hypergraph& g, int e) { auto& x = g.edges_[e]; string s = str(g.nodes_[x.head_node_].node_hash) + "<"; for (unsigned k = 0; k < x.tail_nodes_.size(); ++k) s += str(g.nodes_[x.tail_nodes_[k]].node_hash) + " "; s += "|"; for (int y : x.rule_->e_) s += str(y) + " "; s += "|"; for (int y : x.rule_->f_) s += str(y) + " "; s += "|"; for (int f = 1; f < 6; ++f) s += str(x.feature_values_.value(f)) + " "; return s; }
int main(int argc, char** argv) {
  init(argc, argv); SetSilent(true);
  while (more()) {
    Hypergraph hg; vector<double> w; bool full = rint(0, 2) > 0; gen(hg, w, full);
    string d = show(hg); int n = hg.nodes_.size(), m = hg.edges_.size(), goal = n - 1;
    input("operation: build\n" + d); consistent(hg, "building");
    { // sorting renumbered nodes, with or without edges to remove, towards any goal
      vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i); if (rint(0, 3)) for (int i = n - 1; i > 0; --i) swap(p[i], p[rint(0, i)]);
      Hypergraph g; g.ResizeNodes(n);
      for (int i = 0; i < n; ++i) { auto& v = g.nodes_[p[i]]; v.cat_ = hg.nodes_[i].cat_; v.node_hash = hg.nodes_[i].node_hash; }
      for (auto& e : hg.edges_) { TailNodeVector t(e.tail_nodes_.size(), 0); for (unsigned k = 0; k < t.size(); ++k) t[k] = p[e.tail_nodes_[k]]; HG::Edge* x = rint(0, 1) ? g.AddEdge(e, t) : g.AddEdge(e.rule_, t); x->copy_fixed(e); if (rint(0, 1)) g.ConnectEdgeToHeadNode(x, p[e.head_node_]); else g.ConnectEdgeToHeadNode(x->id_, p[e.head_node_]); }
      Hypergraph before = g; int gl = rint(0, 3) ? goal : rint(0, n - 1); M pr = rmask(m, rint(0, 5)); bool usep = rint(0, 1);
      input("operation: sort towards node " + str(p[gl]) + (usep ? " removing " + mstr(pr) : "") + "\n" + show(g)); consistent(g, "building");
      if (usep) g.TopologicallySortNodesAndEdges(p[gl], &pr); else if (rint(0, 1)) g.TopologicallySortNodesAndEdges(p[gl]); else g.PruneUnreachable(p[gl]);
      consistent(g, "sorting"); topological(g, "sorting"); M ok(m, true); if (usep) for (int i = 0; i < m; ++i) ok[i] = !pr[i];
      set<int> nodes; set<int> want = below(hg, gl, ok, &nodes); same(origin(hg, g, "sorting"), want, "sorting"); samenodes(hg, g, nodes, "sorting"); check(g.nodes_.back().node_hash == hg.nodes_[gl].node_hash, "sorting: goal node");
    }
    { // pruning edges
      Hypergraph g = hg; M pr = rmask(m, rint(0, 6)); bool inside = rint(0, 2) > 0; input("operation: prune edges " + mstr(pr) + " inside=" + str(inside) + "\n" + d);
      M ok(m); for (int i = 0; i < m; ++i) ok[i] = !pr[i];
      multiset<string> all, got; bool cnt = false;
      if (inside) {
        vector<bool> r(n); for (int v = 0; v < n; ++v) { r[v] = false; for (int e : hg.nodes_[v].in_edges_) { bool t = !pr[e]; for (unsigned k = 0; k < hg.edges_[e].tail_nodes_.size(); ++k) t = t && r[hg.edges_[e].tail_nodes_[k]]; if (t) r[v] = true; if (!t) ok[e] = false; } }
        vector<vector<DP>> mm; if (derivs(hg, goal, mm, 3000, false)) { cnt = true; for (auto& x : mm[goal]) { vector<int> c(m, 0); count_edges(x, c); bool keep = true; for (int i = 0; i < m; ++i) if (c[i] && pr[i]) keep = false; if (keep) all.insert(sig(hg, x)); } }
        g.PruneEdges(pr, true);
        if (!r[goal]) { check(g.edges_.empty(), "pruning everything"); goto next; }
      } else g.PruneEdges(pr);
      consistent(g, "pruning"); topological(g, "pruning"); { set<int> nodes; set<int> want = below(hg, goal, ok, &nodes); same(origin(hg, g, "pruning"), want, "pruning"); samenodes(hg, g, nodes, "pruning"); check(g.nodes_.back().node_hash == hg.nodes_[goal].node_hash, "pruning: goal node"); }
      if (cnt && sigs(g, got, false)) check(all == got, "pruning: " + str(got.size()) + " derivations instead of " + str(all.size()));
    }
    next:
    { // subsets
      M ke = rmask(m, rint(4, 10)), kn, out = ke; input("operation: edge subset " + mstr(ke) + "\n" + d);
      vector<bool> r(n, false); set<int> want, nodes; for (int v = 0; v < n; ++v) { for (int e : hg.nodes_[v].in_edges_) { bool t = ke[e]; for (unsigned k = 0; k < hg.edges_[e].tail_nodes_.size(); ++k) t = t && r[hg.edges_[e].tail_nodes_[k]]; if (t) { want.insert(e); r[v] = true; } } if (r[v]) nodes.insert(v); }
      if (rint(0, 1)) kn = rmask(rint(0, 9), 5);
      HypergraphP g = hg.CreateEdgeSubset(out, kn);
      check((int)out.size() == m && (int)kn.size() == n, "edge subset: mask sizes"); for (int i = 0; i < m; ++i) check(out[i] == (want.count(i) > 0), "edge subset: edge mask " + mstr(out)); for (int i = 0; i < n; ++i) check(kn[i] == r[i], "edge subset: node mask " + mstr(kn));
      consistent(*g, "edge subset"); topological(*g, "edge subset"); same(origin(hg, *g, "edge subset"), want, "edge subset"); samenodes(hg, *g, nodes, "edge subset");
      M k2 = rmask(n, rint(5, 10)), e2 = rmask(m, rint(5, 10)), tight = e2; 
      for (int e = 0; e < m; ++e) if (!k2[hg.edges_[e].head_node_]) e2[e] = false;
      tight = e2; for (int e = 0; e < m; ++e) for (unsigned k = 0; k < hg.edges_[e].tail_nodes_.size(); ++k) if (!k2[hg.edges_[e].tail_nodes_[k]]) tight[e] = false;
      input("operation: node subset " + mstr(k2) + " edges " + mstr(e2) + "\n" + d); M ee = e2; g = hg.CreateNodeSubset(k2, ee); check(ee == tight, "node subset: edge mask " + mstr(ee));
      want.clear(); nodes.clear(); for (int e = 0; e < m; ++e) if (tight[e]) want.insert(e); for (int i = 0; i < n; ++i) if (k2[i]) nodes.insert(i);
      consistent(*g, "node subset"); same(origin(hg, *g, "node subset"), want, "node subset"); samenodes(hg, *g, nodes, "node subset");
      int t = 0; for (int i = 0; i < n; ++i) if (k2[i]) check(g->nodes_[t++].node_hash == hg.nodes_[i].node_hash, "node subset: order of nodes");
    }
    if (full) { // best derivation
      vector<vector<DP>> mm;
      if (derivs(hg, goal, mm, 3000, false)) {
        double best = 0; for (auto& x : mm[goal]) best = max(best, weight(x, w)); multiset<string> got;
        input("operation: best derivation\n" + d); HypergraphP g = hg.CreateViterbiHypergraph(); consistent(*g, "best derivation"); topological(*g, "best derivation"); vector<int> o = origin(hg, *g, "best derivation");
        vector<double> w2; for (int x : o) w2.push_back(w[x]); vector<vector<DP>> m2; check(derivs(*g, g->nodes_.size() - 1, m2, 3000, false) && m2.back().size() == 1, "best derivation: number of derivations"); check(close(weight(m2.back()[0], w2) / best, 1), "best derivation: weight " + str(weight(m2.back()[0], w2)) + " instead of " + str(best));
        // pruning relative to the best derivation
        vector<double> em(m, 0); for (auto& x : mm[goal]) { vector<int> c(m, 0); count_edges(x, c); double y = weight(x, w); for (int i = 0; i < m; ++i) if (c[i]) em[i] = max(em[i], y); }
        double alpha = rreal() * 6 + 0.01; Hypergraph h2 = hg; bool pm = rint(0, 1), safe = rint(0, 1); M keep = rmask(m, 2);
        input("operation: beam pruning alpha=" + str(alpha) + (pm ? " preserving " + mstr(keep) : "") + "\n" + d); h2.PruneInsideOutside(alpha, 0, pm ? &keep : NULL, false, 1, safe); consistent(h2, "beam"); topological(h2, "beam"); o = origin(hg, h2, "beam");
        set<int> kept(o.begin(), o.end()); for (int i = 0; i < m; ++i) { double s = log(em[i] / best); if (s > -alpha + 1e-3) check(kept.count(i), "beam: edge " + str(i) + " removed, its best derivation has relative log weight " + str(s)); if (s < -alpha - 1e-3 && !pm) check(!kept.count(i), "beam: edge " + str(i) + " kept, its best derivation has relative log weight " + str(s)); }
        if (rint(0, 1)) { // cutoff given directly
          vector<prob_t> io; for (int i = 0; i < m; ++i) io.push_back(prob_t(em[i])); Hypergraph h3 = hg; double cut = em[rint(0, m - 1)]; if (cut == 0) cut = best / 2; input("operation: margin pruning below " + str(cut) + " margins " + vstr(em) + (pm ? " preserving " + mstr(keep) : "") + "\n" + d);
          cut *= 0.99; M ok(m); for (int i = 0; i < m; ++i) ok[i] = em[i] > cut || (pm && keep[i]); bool amb = false; for (int i = 0; i < m; ++i) if (em[i] > 0 && fabs(log(em[i] / cut)) < 2e-3) amb = true;
          if (!amb) { h3.MarginPrune(io, prob_t(cut), pm ? &keep : NULL); same(origin(hg, h3, "margin"), below(hg, goal, ok), "margin"); consistent(h3, "margin"); }
        }
      }
    }
    { // merging forests under one goal
      Hypergraph a = hg, b; vector<double> wb; gen(b, wb, true); for (auto& v : b.nodes_) v.node_hash = rnd(); b.nodes_.back().node_hash = a.nodes_.back().node_hash; b.nodes_.back().cat_ = a.nodes_.back().cat_; if (rint(0, 19) == 0) a.clear(); if (rint(0, 19) == 0) b.clear();
      multiset<string> want, got; if ((a.nodes_.empty() || a.nodes_.back().in_edges_.size()) && sigs(a, want, true) && sigs(b, want, true)) {
        input("operation: union\n" + show(a) + "with\n" + show(b)); Hypergraph u = a; u.Union(b); consistent(u, "union"); topological(u, "union"); if (sigs(u, got, true)) check(got == want, "union: " + str(got.size()) + " derivations instead of " + str(want.size()));
        Hypergraph both; both.nodes_.insert(both.nodes_.end(), a.nodes_.begin(), a.nodes_.end()); both.nodes_.insert(both.nodes_.end(), b.nodes_.begin(), b.nodes_.end()); both.edges_.insert(both.edges_.end(), a.edges_.begin(), a.edges_.end()); for (auto e : b.edges_) { e.head_node_ += a.nodes_.size(); for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) e.tail_nodes_[k] += a.nodes_.size(); both.edges_.push_back(e); } both.set_ids(); origin(both, u, "union");
      }
    }
    { // merging forests whose nodes are identified by hash
      Hypergraph a = hg, b; vector<double> wb; gen(b, wb, true, n); if (rint(0, 9) == 0) a.clear(); if (rint(0, 9) == 0) b.clear();
      for (auto& v : a.nodes_) v.node_hash = 100 + v.id_; int off = n - b.nodes_.size(); for (auto& v : b.nodes_) { v.node_hash = 100 + v.id_ + off; v.cat_ = hg.nodes_[v.id_ + off].cat_; if (rint(0, 4) == 0 && v.id_ + 1 < (int)b.nodes_.size()) v.node_hash += 1000; }
      if (off == 0 && b.nodes_.size() && a.nodes_.size() && rint(0, 1)) { for (auto& e : a.edges_) if (rint(0, 1)) { TailNodeVector t = e.tail_nodes_; bool okk = true; for (unsigned k = 0; k < t.size(); ++k) if (b.nodes_[t[k]].node_hash >= 1000) okk = false; if (okk) { auto* x = b.AddEdge(e, t); b.ConnectEdgeToHeadNode(x, e.head_node_); x->edge_prob_ = e.edge_prob_; if (rint(0, 1) == 0) { int k1 = rint(1, 3), dd = rint(-3, 3); x->feature_values_.set_value(k1, x->feature_values_.value(k1) + dd); if (rint(0, 1)) { int k2 = rint(1, 3); x->feature_values_.set_value(k2, x->feature_values_.value(k2) - dd); } } } } }
      if (a.nodes_.empty() || b.nodes_.empty() || a.nodes_.back().node_hash == b.nodes_.back().node_hash) {
        input("operation: union by hash\n" + show(a) + "with\n" + show(b)); Hypergraph u = a; HG::Union(b, &u); consistent(u, "union by hash"); 
        struct E { size_t h; vector<size_t> t; int n; }; map<string, E> all; auto add = [&](const Hypergraph& g, bool second) { map<string, int> c; for (auto& e : g.edges_) c[csig(g, e.id_)]++; for (auto& e : g.edges_) { string k = csig(g, e.id_); if (all.count(k)) continue; E x; x.h = g.nodes_[e.head_node_].node_hash; for (unsigned q = 0; q < e.tail_nodes_.size(); ++q) x.t.push_back(g.nodes_[e.tail_nodes_[q]].node_hash); x.n = second ? 1 : c[k]; all[k] = x; } };
        add(a, false); add(b, a.nodes_.size() > 0); map<string, int> sa, su; for (auto& e : u.edges_) su[csig(u, e.id_)]++;
        if (a.nodes_.size() && b.nodes_.size()) { set<size_t> seen; seen.insert(a.nodes_.back().node_hash); for (bool ch = true; ch;) { ch = false; for (auto& x : all) if (seen.count(x.second.h)) for (size_t t : x.second.t) if (seen.insert(t).second) ch = true; } for (auto& x : all) if (seen.count(x.second.h)) sa[x.first] = x.second.n; } else for (auto& x : all) sa[x.first] = x.second.n;
        check(sa == su, "union by hash: wrong edges"); if (a.nodes_.size() && b.nodes_.size()) topological(u, "union by hash");
        map<size_t, WordID> cats; for (auto& v : a.nodes_) cats[v.node_hash] = v.cat_; for (auto& v : b.nodes_) cats[v.node_hash] = v.cat_; for (auto& v : u.nodes_) check(cats.count(v.node_hash) && cats[v.node_hash] == v.cat_, "union by hash: categories");
      }
    }
  }
  return done();
}
