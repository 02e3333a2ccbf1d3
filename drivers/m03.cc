// Searches for hulls, forests and error surfaces on which the exact line search of dpmert is not exact.
#include "hg_common.h"
#include "mert_geometry.h"
#include "error_surface.h"
#include "line_optimizer.h"
#include "ces.h"
#include "ns.h"
#include "sampler.h"
#include "tdict.h"
const char *meteor_jar_path = "";
typedef boost::shared_ptr<MERTPoint> P;
struct L { double m, b; };
static double top(const vector<L>& v, double x) { double r = -1e300; for (auto& l : v) r = max(r, l.m * x + l.b); return r; }
static double at(const vector<P>& s, double x) { unsigned i = 0; while (i + 1 < s.size() && s[i + 1]->x <= x) ++i; return s[i]->m * x + s[i]->b; }
static string show(const vector<L>& v) { string s; for (auto& l : v) s += " " + str(l.m) + "x+" + str(l.b); return s; }
// a few points in every interval between the boundaries
static vector<double> probes(const vector<P>& s) {
  vector<double> r; for (int i = 0; i < 6; ++i) r.push_back(rint(-40, 40) / 8.0); r.push_back(-1000); r.push_back(1000);
  vector<double> c; for (unsigned i = 1; i < s.size(); ++i) c.push_back(s[i]->x);
  for (unsigned i = 0; i < c.size(); ++i) { r.push_back(c[i]); r.push_back(i + 1 < c.size() ? (c[i] + c[i + 1]) / 2 : c[i] + 1); if (!i) r.push_back(c[i] - 1); }
  return r;
}
static void envelope(const vector<P>& s, const vector<L>& all, const string& what) {
  check(s.empty() == all.empty(), what + ": " + str(s.size()) + " segments for " + str(all.size()) + " lines");
  if (s.empty()) return;
  for (unsigned i = 0; i < s.size(); ++i) { check(!i || (s[i - 1]->m < s[i]->m && s[i - 1]->x < s[i]->x), what + ": segments out of order"); check(i || s[i]->x < -1e300 || (s.size() == 1 && s[0]->m == 0 && s[0]->b == 0), what + ": the first segment starts at " + str(s[0]->x)); }
  for (double x : probes(s)) check(close(at(s, x), top(all, x), 1e-9), what + ": " + str(at(s, x)) + " at x=" + str(x) + " instead of " + str(top(all, x)));
}
static vector<P> pts(const vector<L>& v) { vector<P> r; for (auto& l : v) r.push_back(P(new MERTPoint(l.m, l.b))); return r; }
static vector<L> lines(int n) { vector<L> v; double sm[] = {1, 1, 1024, 1.0 / 1024}, sb[] = {1, 1, 1.0 / 1024, 1024}; int k = rint(0, 3) ? 1 : 3; for (int i = 0; i < n; ++i) v.push_back({rint(-4, 4) * sm[rint(0, k)], rint(-6, 6) * sb[rint(0, k)]}); return v; }
static vector<L> plus_(vector<L> a, const vector<L>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static vector<L> times_(const vector<L>& a, const vector<L>& b) { vector<L> r; for (auto& x : a) for (auto& y : b) r.push_back({x.m + y.m, x.b + y.b}); return r; }
static void semiring() {
  vector<L> la = lines(rint(1, 6)), lb = lines(rint(1, 6)), lc = lines(rint(1, 4));
  if (rint(0, 9) == 0) lb = {{0, 0}};
  string d = "A:" + show(la) + "\nB:" + show(lb) + "\nC:" + show(lc); input(d);
  auto mk = [&](const vector<L>& v) { return ConvexHull(pts(v)); };
  { ConvexHull a = mk(la); envelope(a.GetSortedSegs(), la, "hull of A"); }
  { ConvexHull a = mk(la), b = mk(lb); a += b; ConvexHull c = mk(lc); a += c; envelope(a.GetSortedSegs(), plus_(plus_(la, lb), lc), "A + B + C"); }
  { ConvexHull a = mk(la), b = mk(lb); a *= b; envelope(a.GetSortedSegs(), times_(la, lb), "A * B"); envelope(b.GetSortedSegs(), lb, "B after A * B"); }
  { ConvexHull a = mk(la), b = mk(lb), c = mk(lc); b += c; a *= b; envelope(a.GetSortedSegs(), times_(la, plus_(lb, lc)), "A * (B + C)"); }
  { ConvexHull a = mk(la), b = mk(lb), c = mk(lc); b += c; b *= a; envelope(b.GetSortedSegs(), times_(la, plus_(lb, lc)), "(B + C) * A"); }
  { ConvexHull z, a = mk(la); a += z; envelope(a.GetSortedSegs(), la, "A + 0"); z += a; envelope(z.GetSortedSegs(), la, "0 + A"); ConvexHull y; y *= a; check(y.size() == 0, "0 * A"); ConvexHull a2 = mk(la), w; a2 *= w; check(a2.size() == 0, "A * 0"); }
  { ConvexHull o(1), a = mk(la); a *= o; envelope(a.GetSortedSegs(), la, "A * 1"); o *= a; envelope(o.GetSortedSegs(), la, "1 * A"); }
}
static vector<int> sent(int mn) { vector<int> s; for (int n = rint(mn, 6); n > 0; --n) s.push_back(rint(1, 4)); return s; }
struct Seg { double x; SufficientStats s; };
static SufficientStats stats_at(const ErrorSurface& s, double x) { SufficientStats r; for (auto& g : s) if (g.x <= x) r += g.delta; return r; }
static bool same(const SufficientStats& a, const SufficientStats& b) { for (unsigned i = 0; i < max(a.size(), b.size()); ++i) if (!close(a[i], b[i], 1e-4)) return false; return true; }
static string ss(const SufficientStats& s) { string r; for (float f : s.fields) r += str(f) + " "; return r; }
int main(int argc, char** argv) {
  init(argc, argv); for (const char* w : {"a", "b", "c", "d", "X", "Y"}) TD::Convert(w);
  const char* ids[] = {"IBM_BLEU", "KOEHN_BLEU", "TER", "WER"};
  while (more()) {
    for (int i = 0; i < 20; ++i) semiring();
    EvaluationMetric* metric = EvaluationMetric::Instance(ids[rint(0, 2) ? rint(0, 1) : rint(2, 3)]); vector<ErrorSurface> surf; string all; vector<double> bounds; vector<vector<pair<double, SufficientStats>>> truth;
    for (int sn = rint(1, 3); sn > 0; --sn) {
      Hypergraph hg; vector<double> w; gen(hg, w, true, 4, 3); bool odd = rint(0, 3) == 0;
      if (odd) for (auto& e : hg.edges_) { TRulePtr r(new TRule(*e.rule_)); if (e.tail_nodes_.size() == 0 && rint(0, 1)) r->e_.clear(); else r->e_.erase(remove_if(r->e_.begin(), r->e_.end(), [](int x) { return x > 0 && rint(0, 2); }), r->e_.end()); e.rule_ = r; }
      for (auto& e : hg.edges_) { e.feature_values_.clear(); for (int f = 1; f <= 3; ++f) if (rint(0, 1)) e.feature_values_.set_value(f, rint(-3, 3)); }
      SparseVector<double> o, dir; double dscale = rint(0, 2) ? 1 : rint(0, 1) ? 1.0 / 8192 : 8; for (int f = 1; f <= 3; ++f) { o.set_value(f, rint(-2, 2)); if (rint(0, 3)) dir.set_value(f, rint(-2, 2) * dscale); }
      vector<vector<DP>> memo; string d = show(hg) + "origin"; for (int f = 1; f <= 3; ++f) d += " " + str(o.value(f)); d += " direction"; for (int f = 1; f <= 3; ++f) d += " " + str(dir.value(f)); d += "\n";
      for (auto& e : hg.edges_) { d += "features of " + str(e.id_) + ":"; for (int f = 1; f <= 3; ++f) d += " " + str(e.feature_values_.value(f)); d += "\n"; } input(d); all += d;
      int g = hg.nodes_.size() - 1; if (!derivs(hg, g, memo, 500, true)) continue;
      vector<L> dl; vector<vector<int>> dy; vector<set<int>> de;
      for (auto& x : memo[g]) { L l = {0, 0}; set<int> es; function<void(const DP&)> walk = [&](const DP& y) { if (y->edge < 0) return; auto& fv = hg.edges_[y->edge].feature_values_; for (int f = 1; f <= 3; ++f) { l.b += o.value(f) * fv.value(f); l.m += dir.value(f) * fv.value(f); } es.insert(y->edge); for (auto& z : y->sub) walk(z); }; walk(x); dl.push_back(l); dy.push_back(eyield(hg, x)); de.push_back(es); }
      ConvexHullWeightFunction wf(o, dir); ConvexHull h = Inside<ConvexHull, ConvexHullWeightFunction>(hg, NULL, wf); const vector<P>& s = h.GetSortedSegs();
      envelope(s, dl, "forest");
      for (unsigned i = 0; i < s.size(); ++i) {
        vector<WordID> t; s[i]->ConstructTranslation(&t); vector<bool> used(hg.edges_.size()); s[i]->CollectEdgesUsed(&used); bool ok = false, ok2 = false;
        for (unsigned k = 0; k < dl.size(); ++k) if (close(dl[k].m, s[i]->m) && close(dl[k].b, s[i]->b)) { ok |= dy[k] == t; bool e = dy[k] == t; for (unsigned j = 0; j < used.size(); ++j) e &= used[j] == (de[k].count(j) > 0); ok2 |= e; }
        check(ok, "segment " + str(i) + ": translation " + vstr(t) + " is not of a derivation on this line"); check(ok2, "segment " + str(i) + ": edges used are not those of a derivation on this line");
      }
      vector<vector<WordID>> refs; for (int r = rint(1, 2); r > 0; --r) refs.push_back(sent(odd ? 0 : 1)); boost::shared_ptr<SegmentEvaluator> ev = metric->CreateSegmentEvaluator(refs);
      ErrorSurface es; d += "metric " + metric->MetricId(); for (auto& r : refs) d += " reference " + vstr(r); all += d; input(d); ComputeErrorSurface(*ev, h, &es, metric, hg);
      check(es.size() > 0, "empty error surface"); vector<pair<double, SufficientStats>> tr;
      for (unsigned i = 0; i < s.size(); ++i) {
        vector<WordID> t; s[i]->ConstructTranslation(&t); SufficientStats st; ev->Evaluate(t, &st); tr.push_back({s[i]->x, st}); if (i) bounds.push_back(s[i]->x);
        double x = s.size() == 1 ? 0 : !i ? s[1]->x - 1 : i + 1 < s.size() ? (s[i]->x + s[i + 1]->x) / 2 : s[i]->x + 1; if (i && i + 1 < s.size() && s[i + 1]->x - s[i]->x < 1e-6 * (1 + fabs(x))) continue;
        SufficientStats acc = stats_at(es, x);
        check(same(acc, st), "statistics at x=" + str(x) + " are " + ss(acc) + "instead of " + ss(st));
      }
      string enc; es.Serialize(&enc); ErrorSurface back; back.Deserialize(enc); check(back.size() == es.size(), "size of a decoded surface"); for (unsigned i = 0; i < es.size(); ++i) check(back[i].x == es[i].x && same(back[i].delta, es[i].delta) && (es[i].delta.id_.empty() || back[i].delta.id_ == es[i].delta.id_), "decoded segment " + str(i));
      surf.push_back(es); truth.push_back(tr);
    }
    if (surf.empty()) continue;
    sort(bounds.begin(), bounds.end()); bool apart = true; vector<double> ub; for (double b : bounds) if (ub.empty() || b != ub.back()) { if (ub.size() && b - ub.back() < 1e-3) { if (b - ub.back() > 1e-9 * (1 + fabs(b))) apart = false; else continue; } ub.push_back(b); }
    if (!apart) continue;
    bool mx = rint(0, 1); float score = -7; input(all + (mx ? "\nmaximise" : "\nminimise")); double pos = LineOptimizer::LineOptimize(metric, surf, mx ? LineOptimizer::MAXIMIZE_SCORE : LineOptimizer::MINIMIZE_SCORE, &score);
    auto score_at = [&](double x) { SufficientStats a; for (auto& t : truth) { unsigned i = 0; while (i + 1 < t.size() && t[i + 1].first <= x) ++i; a += t[i].second; } return metric->ComputeScore(a); };
    vector<double> mid; if (ub.empty()) mid.push_back(0); else { mid.push_back(ub[0] - 1); for (unsigned i = 0; i < ub.size(); ++i) mid.push_back(i + 1 < ub.size() ? (ub[i] + ub[i + 1]) / 2 : ub[i] + 1); }
    double best = score_at(mid[0]); bool num = best == best; for (double x : mid) { double v = score_at(x); num &= v == v; best = mx ? max(best, v) : min(best, v); }
    if (!num) continue;
    check(close(score, best, 1e-4), "best score " + str(score) + " instead of " + str(best)); check(close(score_at(pos), best, 1e-4), "score " + str(score_at(pos)) + " at the optimum " + str(pos) + " instead of " + str(best));
    { vector<int> fs; for (int f = 1; f <= 5; ++f) if (rint(0, 1)) fs.push_back(f); if (fs.empty()) fs.push_back(2); RandomNumberGenerator<boost::mt19937> rng(rint(1, 1000)); vector<SparseVector<double>> dirs; int extra = rint(0, 2); bool orth = rint(0, 3) != 0; input("directions of " + vstr(fs)); cerr.setstate(ios::failbit);
      LineOptimizer::CreateOptimizationDirections(fs, extra, &rng, &dirs, orth); check(dirs.size() == (orth ? fs.size() : 0) + extra, "number of directions");
      for (unsigned i = 0; i < dirs.size(); ++i) { double n = 0; for (auto& kv : dirs[i]) { check(count(fs.begin(), fs.end(), (int)kv.first), "direction of another feature"); n += kv.second * kv.second; } check(close(n, 1), "direction of length " + str(sqrt(n))); if (orth && i < fs.size()) check(dirs[i].value(fs[i]) == 1, "axis " + str(i)); } }
  }
  return done();
}
