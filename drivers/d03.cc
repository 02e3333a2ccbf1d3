// Searches for forests whose best derivation, k-best list or unique k-best list differs from an enumeration of the derivations.
#include "hg_common.h"
#include "kbest.h"
struct WF { typedef double Weight; const vector<double>* w; WF(const vector<double>* w = 0) : w(w) {} double operator()(const HG::Edge& e) const { return (*w)[e.id_]; } };
static void post(const DP& d, vector<int>& o) { for (auto& s : d->sub) post(s, o); o.push_back(d->edge); }
static string ids(const vector<int>& v) { string r; for (int x : v) r += str(x) + " "; return r; }
static string pathids(const vector<HG::Edge const*>& v) { string r; for (auto* x : v) r += str(x->id_) + " "; return r; }
static int nedges(const DP& d) { if (d->edge < 0) return 0; int n = 1; for (auto& s : d->sub) n += nedges(s); return n; }
static void feats(const Hypergraph& hg, const DP& d, map<int, double>& m) { if (d->edge < 0) return; for (auto& kv : hg.edges_[d->edge].feature_values_) m[kv.first] += kv.second; for (auto& s : d->sub) feats(hg, s, m); }
static bool featsame(const SparseVector<double>& a, const map<int, double>& b) { for (auto& kv : a) { auto i = b.find(kv.first); if (!close(kv.second, i == b.end() ? 0 : i->second, 1e-5)) return false; } for (auto& kv : b) if (!close(a.value(kv.first), kv.second, 1e-5)) return false; return true; }
static string tree(const Hypergraph& hg, const DP& d, bool e) {   // (X the (X man))
  if (d->edge < 0) return ""; const TRule& r = *hg.edges_[d->edge].rule_; string o; int k = 0;
  for (int x : e ? r.e_ : r.f_) { string y = x > 0 ? TD::Convert(x) : tree(hg, d->sub[e ? -x : k++], e); if (y.size()) o += (o.size() ? " " : "") + y; }
  string c = TD::Convert(-r.lhs_); return c == "Goal" ? o : "(" + c + " " + o + ")";
}
int main(int argc, char** argv) {
  init(argc, argv);
  TD::Convert("X"); TD::Convert("Goal"); TD::Convert("Y"); TD::Convert("d");
  while (more()) {
    Hypergraph hg; vector<double> w; bool full = rint(0, 5) != 0, ties = rint(0, 3) == 0;
    gen(hg, w, full, rint(0, 2) ? 6 : 3, 4, ties);
    int N = hg.nodes_.size(), M = hg.edges_.size(); vector<vector<DP>> m;
    string d = show(hg);
    input(d);
    if (!derivs(hg, N - 1, m, 2000, true)) continue;
    auto& all = m[N - 1];
    double best = 0; set<string> bestids; for (auto& x : all) best = max(best, weight(x, w));
    vector<DP> arg; for (auto& x : all) if (close(weight(x, w) / best, 1, 1e-9)) arg.push_back(x);
    auto some = [&](function<bool(const DP&)> f) { for (auto& x : arg) if (f(x)) return true; return false; };
    { // best derivation under any weight function
      vector<HG::Edge const*> p; ViterbiPathTraversal vt; double r = Viterbi(hg, &p, vt, WF(&w)); check(close(r / best, 1, 1e-9), "best weight " + str(r) + " instead of " + str(best));
      if (full) check(some([&](const DP& x) { vector<int> o; post(x, o); return ids(o) == pathids(p); }), "best derivation " + pathids(p) + "is not the best");
      vector<double> w2; for (int i = 0; i < M; ++i) w2.push_back(rreal() * 3); double b2 = 0; for (auto& x : all) b2 = max(b2, weight(x, w2)); p.clear(); r = Viterbi(hg, &p, vt, WF(&w2)); input(d + "weights " + vstr(w2)); check(close(r / b2, 1, 1e-9), "best weight " + str(r) + " instead of " + str(b2)); input(d);
      vector<WordID> t; prob_t q = ViterbiESentence(hg, &t); check(close(log(q), log(best)), "best target sentence: weight"); check(some([&](const DP& x) { return eyield(hg, x) == t; }), "best target sentence " + vstr(t));
      t.clear(); q = ViterbiFSentence(hg, &t); check(close(log(q), log(best)), "best source sentence: weight"); check(some([&](const DP& x) { return fyield(hg, x) == t; }), "best source sentence " + vstr(t));
      if (full) {
      int n = ViterbiELength(hg); check(some([&](const DP& x) { return (int)eyield(hg, x).size() == n; }), "length of the best target sentence " + str(n));
      n = ViterbiPathLength(hg); check(some([&](const DP& x) { return nedges(x) == n; }), "number of edges of the best derivation " + str(n));
      string s = ViterbiETree(hg); check(some([&](const DP& x) { return tree(hg, x, true) == s; }), "best target tree " + s);
      s = ViterbiFTree(hg); check(some([&](const DP& x) { return tree(hg, x, false) == s; }), "best source tree " + s);
      SparseVector<double> f = ViterbiFeatures(hg); check(some([&](const DP& x) { map<int, double> mm; feats(hg, x, mm); return featsame(f, mm); }), "features of the best derivation");
      }
    }
    if (!full) continue;
    { // k-best derivations
      typedef KBest::KBestDerivations<vector<HG::Edge const*>, ViterbiPathTraversal> K; int k = rint(0, 3) ? rint(1, 12) : all.size() + rint(0, 2), n = min<int>(k, all.size());
      bool rev = rint(0, 3) == 0; input("k=" + str(k) + (rev ? " last first" : "") + "\n" + d); K kb(hg, k); vector<double> ref; map<string, DP> byid; for (auto& x : all) { ref.push_back(weight(x, w)); vector<int> o; post(x, o); byid[ids(o)] = x; } sort(ref.rbegin(), ref.rend());
      set<string> seen; const K::Derivation* last = 0; if (rev) last = kb.LazyKthBest(N - 1, n - 1);
      for (int i = 0; i < n; ++i) {
        const K::Derivation* x = kb.LazyKthBest(N - 1, i); check(x, "k-best list: only " + str(i) + " of " + str(n) + " derivations"); if (rev && i + 1 == n) check(x == last, "k-best list changed");
        check(close(log(x->score), log(ref[i]), 1e-7), "k-best list: score " + str(i) + " is " + str(x->score.as_float()) + " instead of " + str(ref[i])); string id = pathids(x->yield); check(byid.count(id), "k-best list: no such derivation: " + id); check(seen.insert(id).second, "k-best list: derivation " + id + "twice");
        check(close(log(x->score), log(weight(byid[id], w)), 1e-7), "k-best list: score of derivation " + id + "is " + str(x->score.as_float())); map<int, double> mm; feats(hg, byid[id], mm); check(featsame(x->feature_values, mm), "k-best list: features of derivation " + id);
      }
      if (k > (int)all.size()) check(!kb.LazyKthBest(N - 1, all.size()), "k-best list: more than " + str(all.size()) + " derivations");
    }
    { // k-best distinct target sentences
      typedef KBest::KBestDerivations<vector<WordID>, ESentenceTraversal, KBest::FilterUnique> K; map<vector<int>, double> by; for (auto& x : all) { double& b = by[eyield(hg, x)]; b = max(b, weight(x, w)); }
      vector<double> ref; for (auto& x : by) ref.push_back(x.second); sort(ref.rbegin(), ref.rend()); int k = rint(0, 2) ? rint(1, 10) : by.size() + rint(0, 2), n = min<int>(k, by.size()); input("distinct sentences k=" + str(k) + "\n" + d); K kb(hg, k); set<vector<int>> seen;
      for (int i = 0; i < n; ++i) {
        const K::Derivation* x = kb.LazyKthBest(N - 1, i); check(x, "distinct k-best list: only " + str(i) + " of " + str(n) + " sentences"); check(close(log(x->score), log(ref[i]), 1e-7), "distinct k-best list: score " + str(i) + " is " + str(x->score.as_float()) + " instead of " + str(ref[i]));
        check(by.count(x->yield), "distinct k-best list: no such sentence " + vstr(x->yield)); check(close(log(by[x->yield]), log(x->score), 1e-7), "distinct k-best list: score of sentence " + vstr(x->yield)); check(seen.insert(x->yield).second, "distinct k-best list: sentence twice " + vstr(x->yield));
      }
      if (k > (int)by.size()) check(!kb.LazyKthBest(N - 1, by.size()), "distinct k-best list: more than " + str(by.size()) + " sentences");
    }
  }
  return done();
}
