// random hypergraphs with an independent enumeration of their derivations
#include "common.h"
#include "hg.h"
#include "viterbi.h"
#include "inside_outside.h"
#include "rule_lexer.h"
using namespace std; using namespace drv;
void RuleLexer::ReadRules(std::istream*, RuleCallback, const std::string&, void*) { abort(); }  // the drivers build rules directly
void RuleLexer::ReadRule(const std::string&, RuleCallback, bool, void*) { abort(); }
struct Deriv { int edge; vector<shared_ptr<Deriv>> sub; };
typedef shared_ptr<Deriv> DP;
struct RHG { Hypergraph hg; string desc; vector<double> w; bool tied; };
inline TRulePtr mkrule(const vector<int>& e, const vector<int>& f, int lhs, int arity) {
  TRulePtr r(new TRule); r->e_ = e; r->f_ = f; r->lhs_ = lhs; r->arity_ = arity; return r;
}
inline string show(const Hypergraph& hg) {
  ostringstream o; o.precision(17);
  o << "nodes " << hg.nodes_.size() << " goal=last\n";
  for (auto& e : hg.edges_) {
    o << "edge " << e.id_ << ": " << e.head_node_ << " <-"; for (unsigned i = 0; i < e.tail_nodes_.size(); ++i) o << " " << e.tail_nodes_[i];
    o << "  p=" << e.edge_prob_.as_float();
    if (e.rule_) { o << "  e=["; for (int x : e.rule_->e_) o << x << " "; o << "] f=["; for (int x : e.rule_->f_) o << x << " "; o << "]"; }
    o << "\n";
  }
  for (auto& n : hg.nodes_) { o << "node " << n.id_ << " in:"; for (int x : n.in_edges_) o << " " << x; o << " out:"; for (int x : n.out_edges_) o << " " << x; o << "\n"; }
  return o.str();
}
// every node has incoming edges when full; node i only uses lower nodes
inline void gen(Hypergraph& hg, vector<double>& w, bool full, int maxn = 6, int maxe = 4, bool ties = false) {
  hg.clear(); w.clear();
  int n = rint(1, maxn);
  hg.ResizeNodes(0);
  for (int i = 0; i < n; ++i) { hg.AddNode(-rint(1, 3)); hg.nodes_.back().node_hash = rnd(); }
  vector<pair<int, vector<int>>> es;
  int mode = rint(0, 2), maxa = rint(0, 9) == 0 ? 4 : 3;
  for (int i = 0; i < n; ++i) {
    int k = full ? rint(1, maxe) : rint(0, maxe);
    if (mode == 0) k = min(k, 2);
    for (int j = 0; j < k; ++j) { vector<int> t; if (i) for (int a = rint(i > 0 && rint(0, 2) ? 1 : 0, maxa); a; --a) t.push_back(rint(rint(0, 1) ? 0 : max(0, i - 2), i - 1)); if (rint(0, 5) == 0 && t.size() > 1) t[1] = t[0]; es.push_back({i, t}); }
  }
  for (int i = (int)es.size() - 1; i > 0; --i) swap(es[i], es[rint(0, i)]);   // edges in any order
  for (auto& p : es) {
    TailNodeVector t(p.second.size(), 0); for (size_t i = 0; i < p.second.size(); ++i) t[i] = p.second[i];
    vector<int> e, f; vector<int> perm; for (size_t i = 0; i < p.second.size(); ++i) perm.push_back(i);
    for (int i = (int)perm.size() - 1; i > 0; --i) swap(perm[i], perm[rint(0, i)]);
    for (size_t i = 0; i < p.second.size(); ++i) { while (rint(0, 2) == 0) f.push_back(rint(1, 4)); f.push_back(-rint(1, 3)); while (rint(0, 2) == 0) e.push_back(rint(1, 4)); e.push_back(-perm[i]); }
    while (rint(0, 1)) e.push_back(rint(1, 4)); while (rint(0, 1)) f.push_back(rint(1, 4));
    HG::Edge* ed = hg.AddEdge(mkrule(e, f, hg.nodes_[p.first].cat_, p.second.size()), t);
    hg.ConnectEdgeToHeadNode(ed, p.first);
    double x = ties ? pow(0.5, rint(0, 2)) : exp(-6 * rreal());
    ed->edge_prob_ = prob_t(x); w.push_back(x);
    ed->feature_values_.set_value(rint(1, 3), rint(-3, 3)); ed->feature_values_.set_value(4, log(x));
    ed->i_ = rint(0, 9); ed->j_ = rint(0, 9); ed->prev_i_ = rint(0, 9); ed->prev_j_ = rint(0, 9);
  }
}
// all derivations of a node, or false when there are more than limit; leaf1: a node without incoming edges derives the empty derivation
inline bool derivs(const Hypergraph& hg, int v, vector<vector<DP>>& memo, size_t limit, bool leaf1) {
  memo.assign(hg.nodes_.size(), {});
  for (int i = 0; i <= v; ++i) {
    auto& node = hg.nodes_[i];
    if (node.in_edges_.empty() && leaf1) { memo[i].push_back(make_shared<Deriv>(Deriv{-1, {}})); continue; }
    for (int ei : node.in_edges_) {
      auto& e = hg.edges_[ei];
      vector<DP> cur(1, make_shared<Deriv>(Deriv{ei, {}}));
      for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) {
        vector<DP> nx;
        for (auto& c : cur) for (auto& s : memo[e.tail_nodes_[k]]) { Deriv d = *c; d.sub.push_back(s); nx.push_back(make_shared<Deriv>(d)); if (nx.size() > limit) return false; }
        cur.swap(nx);
      }
      memo[i].insert(memo[i].end(), cur.begin(), cur.end());
      if (memo[i].size() > limit) return false;
    }
  }
  return true;
}
inline double weight(const DP& d, const vector<double>& w) { double r = d->edge < 0 ? 1 : w[d->edge]; for (auto& s : d->sub) r *= weight(s, w); return r; }
inline void count_edges(const DP& d, vector<int>& c) { if (d->edge >= 0) c[d->edge]++; for (auto& s : d->sub) count_edges(s, c); }
inline void count_nodes(const Hypergraph& hg, const DP& d, int v, vector<int>& c) { c[v]++; if (d->edge >= 0) for (size_t k = 0; k < d->sub.size(); ++k) count_nodes(hg, d->sub[k], hg.edges_[d->edge].tail_nodes_[k], c); }
inline vector<int> eyield(const Hypergraph& hg, const DP& d) {
  vector<int> r; if (d->edge < 0) return r;
  for (int x : hg.edges_[d->edge].rule_->e_) if (x > 0) r.push_back(x); else { auto s = eyield(hg, d->sub[-x]); r.insert(r.end(), s.begin(), s.end()); }
  return r;
}
inline vector<int> fyield(const Hypergraph& hg, const DP& d) {
  vector<int> r; if (d->edge < 0) return r; int k = 0;
  for (int x : hg.edges_[d->edge].rule_->f_) if (x > 0) r.push_back(x); else { auto s = fyield(hg, d->sub[k++]); r.insert(r.end(), s.begin(), s.end()); }
  return r;
}
