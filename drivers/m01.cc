// Searches for segments whose metric statistics differ from a direct count.
#include "common.h"
#include "ns.h"
#include "scorer.h"
#include "aer_scorer.h"
#include "tdict.h"
#include "levenshtein.h"
using namespace std; using namespace drv;
const char *meteor_jar_path = "";
typedef vector<WordID> S;
template <class V> int lev(const V &a, const V &b) {
  vector<vector<int>> d(a.size() + 1, vector<int>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); ++i) for (size_t j = 0; j <= b.size(); ++j)
    d[i][j] = !i ? (int)j : !j ? (int)i : min(min(d[i-1][j], d[i][j-1]) + 1, d[i-1][j-1] + (a[i-1] == b[j-1] ? 0 : 1));
  return d[a.size()][b.size()];
}
string show(const S &h, const vector<S> &r) {
  string o = "hyp: " + TD::GetString(h); for (auto &x : r) o += "\nref: " + TD::GetString(x); return o;
}
map<S, int> grams(const S &s, int n) { map<S, int> m; for (int i = 0; i + n <= (int)s.size(); ++i) m[S(s.begin() + i, s.begin() + i + n)]++; return m; }
void bleu(const string &id, const S &h, const vector<S> &refs, int N, vector<float> &f) {
  f.assign(2 * N + 2, 0);
  for (int n = 1; n <= N; ++n) {
    auto hm = grams(h, n); map<S, int> mx;
    for (auto &r : refs) for (auto &p : grams(r, n)) mx[p.first] = max(mx[p.first], p.second);
    for (auto &p : hm) { f[N + n - 1] += p.second; f[n - 1] += min(p.second, mx.count(p.first) ? mx[p.first] : 0); }
  }
  f[2 * N] = h.size();
  float tot = 0, sm = 1e9, best = -1; double bd = 1e9;
  for (auto &r : refs) { tot += r.size(); sm = min(sm, (float)r.size()); double d = fabs((double)r.size() - h.size()); if (d < bd) { bd = d; best = r.size(); } }
  f[2 * N + 1] = id == "NIST_BLEU" ? sm : id == "KOEHN_BLEU" ? tot / refs.size() : best;
}
double bleu_score(const vector<float> &f, int N, bool byorder) {
  double s = 0; int c = 0;
  for (int i = 0; i < N; ++i) if (f[N + i] > 0) { s += log(f[i] ? f[i] : 0.01) - log(f[N + i]); ++c; }
  s /= byorder ? N : c;
  if (f[2 * N] < f[2 * N + 1]) s += (f[2 * N] - f[2 * N + 1]) / f[2 * N];
  return exp(s);
}
vector<S> chars(const vector<S> &r) { vector<S> o; for (auto &s : r) { S c; for (size_t i = 0; i < s.size(); ++i) { if (i) c.push_back(TD::Convert(" ")); for (char ch : string(TD::Convert(s[i]))) c.push_back(TD::Convert(string(1, ch))); } o.push_back(c); } return o; }
S sent(int maxlen, int types) {
  static const char *w[] = {"a", "b", "ab", "ba", "abc", "c", "xyz", "aaaa"};
  S s; int n = rint(0, maxlen); while (n--) s.push_back(TD::Convert(w[rint(0, types - 1)])); return s;
}
int main(int argc, char **argv) {
  init(argc, argv);
  vector<string> ids = {"WER", "CER", "IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "CBLEU"};
  while (more()) {
    {  // arithmetic on statistics of any two lengths
      vector<float> a, b; for (int n = rint(0, 5); n; --n) a.push_back(rint(-3, 3)); for (int n = rint(0, 5); n; --n) b.push_back(rint(-3, 3));
      string ia = rint(0, 1) ? "A" : "", ib = rint(0, 1) ? "B" : "";
      input("statistics " + ia + vstr(a) + " and " + ib + vstr(b));
      size_t n = max(a.size(), b.size()); vector<float> x(a), y(b), sm, df; x.resize(n); y.resize(n); for (size_t i = 0; i < n; ++i) { sm.push_back(x[i] + y[i]); df.push_back(x[i] - y[i]); }
      SufficientStats A(ia, a), B(ib, b), P(A), M(A), A0(A); P += B; M -= B;
      check(P.fields == sm && (A + B).fields == sm, "sum is " + vstr(P.fields)); check(M.fields == df && (A - B).fields == df, "difference is " + vstr(M.fields));
      check(A == A0 && A.fields == a && B.fields == b, "operands of + and - unchanged");
      string id = ia.size() ? ia : ib; check(P.id_ == id && M.id_ == id, "name of the sum");
      check((A == B) == (a == b), "equality"); bool z = true; for (float q : a) if (q) z = false; check(A.IsAdditiveIdentity() == z, "IsAdditiveIdentity of " + vstr(a));
      for (size_t i = 0; i < n + 2; ++i) check(A[i] == (i < a.size() ? a[i] : 0), "reading field " + str(i));
      SufficientStats D(A); D *= 2; for (size_t i = 0; i < a.size(); ++i) check(D.fields[i] == 2 * a[i], "scaling"); D /= 4; for (size_t i = 0; i < a.size(); ++i) check(D.fields[i] == a[i] / 2, "division");
      SufficientStats S2(A); S2 += S2; for (size_t i = 0; i < a.size(); ++i) check(S2.fields[i] == 2 * a[i], "adding statistics to themselves");
      A.swap(B); check(A.fields == b && B.fields == a && A.id_ == ib && B.id_ == ia, "swap");
    }
    int types = rint(1, 8), ml = rint(1, 9);
    int nseg = rint(1, 3);
    map<string, SufficientStats> tot; map<string, vector<float>> want;
    ScoreP wsum, bsum; vector<float> bw(10, 0); int we = 0, wl = 0; bool first = true;
    for (int sg = 0; sg < nseg; ++sg) {
      S h = sent(ml, types); if (h.empty() && rint(0, 3)) h = sent(ml, types);
      vector<S> refs; for (int n = rint(1, 4); n; --n) { refs.push_back(sent(ml, types)); if (rint(0, 4) == 0) refs.back() = h; }
      if (rint(0, 3) == 0) { refs.resize(1); refs[0] = h; for (int k = rint(0, 2); k; --k) if (refs[0].size()) refs[0].erase(refs[0].begin() + rint(0, refs[0].size() - 1)); }
      input(show(h, refs));
      for (auto &id : ids) {
        EvaluationMetric *m = EvaluationMetric::Instance(id);
        auto ev = m->CreateSegmentEvaluator(refs);
        SufficientStats st; if (rint(0, 1)) { st.fields.assign(rint(1, 12), 7); st.id_ = "junk"; }
        ev->Evaluate(h, &st);
        if (rint(0, 2) == 0) { SufficientStats st2; ev->Evaluate(sent(ml, types), &st2); SufficientStats st3; ev->Evaluate(h, &st3); check(st3.fields == st.fields || st.fields.size() != st3.fields.size(), id + ": evaluating another hypothesis in between changes the statistics"); }
        vector<float> w;
        if (id == "WER" || id == "CER") {
          int b = 1 << 30; set<pair<int,int>> ok;
          for (auto &r : refs) {
            int d, L;
            if (id == "WER") { d = lev(h, r); L = r.size(); } else { string x = TD::GetString(h), y = TD::GetString(r); d = lev(x, y); L = y.size(); }
            if (d < b) { b = d; ok.clear(); } if (d == b) ok.insert({d, L});
          }
          check(st.fields.size() == 2, id + ": two statistics");
          check(ok.count({(int)st.fields[0], (int)st.fields[1]}) && st.fields[0] == (int)st.fields[0], id + ": statistics " + vstr(st.fields) + " are not the edit distance and length of a closest reference (distance " + str(b) + ")");
          w = st.fields; 
        } else {
          int N = id == "CBLEU" ? 5 : 4;
          if (id == "CBLEU") bleu("IBM_BLEU", chars(vector<S>(1, h))[0], chars(refs), N, w); else bleu(id, h, refs, N, w);
          st.fields.resize(w.size());
          check(st.fields == w, id + ": statistics " + vstr(st.fields) + " expected " + vstr(w));
          if (w[2 * N] > 0 && id != "QCRI_BLEU") check(close(m->ComputeScore(st), bleu_score(w, N, false), 1e-3), id + ": score " + str(m->ComputeScore(st)) + " expected " + str(bleu_score(w, N, false)));
        }
        SufficientStats before = tot[id];
        tot[id] += st; if (want[id].empty()) want[id].assign(w.size(), 0);
        for (size_t i = 0; i < w.size(); ++i) want[id][i] += w[i];
        for (size_t i = 0; i < w.size(); ++i) check(tot[id].fields.size() == w.size() && close(tot[id].fields[i], want[id][i], 1e-4), id + ": corpus statistics are not the sum of the segments");
        SufficientStats back = tot[id]; back -= st;
        for (size_t i = 0; i < w.size(); ++i) check(close(back[i], before[i], 1e-4), id + ": subtracting a segment does not restore the sum");
        SufficientStats tw = st; tw *= 2; tw -= st; for (size_t i = 0; i < w.size(); ++i) check(close(tw[i], st[i], 1e-4), id + ": scaling"); tw /= 2; for (size_t i = 0; i < w.size(); ++i) check(close(tw[i] * 2, w[i]), id + ": division");
        string enc; tot[id].Encode(&enc); SufficientStats dec(enc); check(dec.fields.size() == tot[id].fields.size(), id + ": encode/decode size");
        for (size_t i = 0; i < w.size(); ++i) check(close(dec.fields[i], tot[id].fields[i], 1e-4), id + ": encode/decode");
        SufficientStats z; z.fields.assign(w.size(), 0); check(z.IsAdditiveIdentity(), "zero is the additive identity");
        bool allz = true; for (float x : w) if (x) allz = false; check(st.IsAdditiveIdentity() == allz, id + ": IsAdditiveIdentity");
        if (id == "WER" && want[id][1] > 0) check(close(m->ComputeScore(tot[id]), want[id][0] / want[id][1], 1e-4), "WER score");
      }
      // the older scorer interface
      for (ScoreType t : {IBM_BLEU, NIST_BLEU, Koehn_BLEU, IBM_BLEU_3}) {
        ScorerP sc = SentenceScorer::CreateSentenceScorer(t, refs);
        sc->ScoreCandidate(sent(ml, types));
        ScoreP s = sc->ScoreCandidate(h); string e; s->Encode(&e); istringstream is(e); int n; float rl, hl; is >> n >> rl >> hl; vector<float> f(2 * n + 2);
        for (int i = 0; i < n; ++i) is >> f[i] >> f[n + i];
        f[2 * n] = hl; f[2 * n + 1] = rl;
        int N = t == IBM_BLEU_3 ? 3 : 4; vector<float> w; bleu(t == NIST_BLEU ? "NIST_BLEU" : t == Koehn_BLEU ? "KOEHN_BLEU" : "IBM_BLEU", h, refs, N, w);
        check(n == N, "BLEU order"); f[2*n+1] = w[2*n+1] == f[2*n+1] || close(w[2*n+1], f[2*n+1], 1e-4) ? w[2*n+1] : f[2*n+1];
        check(f == w, "sentence scorer BLEU type " + str(t) + ": statistics " + vstr(f) + " expected " + vstr(w));
        if (t == IBM_BLEU) {
          if (first) { bsum = s->GetZero(); check(bsum->IsAdditiveIdentity(), "zero score is additive identity"); }
          bsum->PlusEquals(*s); for (size_t i = 0; i < w.size(); ++i) bw[i] += w[i];
          if (bw[8] >= 4 && bw[7] > 0) check(close(bsum->ComputeScore(), bleu_score(bw, 4, true), 1e-3), "corpus BLEU " + str(bsum->ComputeScore()) + " expected " + str(bleu_score(bw, 4, true)));
          ScoreP d = bsum->GetZero(); bsum->Subtract(*s, d.get()); d->PlusEquals(*s); string a, b; d->Encode(&a); bsum->Encode(&b); check(a == b, "BLEU subtract then add");
          ScoreP d2 = bsum->Clone(); d2->PlusEquals(*s, 2.0f); ScoreP d3 = bsum->Clone(); d3->PlusEquals(*s); d3->PlusEquals(*s); d2->Encode(&a); d3->Encode(&b); check(a == b, "BLEU scaled add");
        }
      }
      ScorerP ws = SentenceScorer::CreateSentenceScorer(WER, refs); ScoreP s = ws->ScoreCandidate(h); string e; s->Encode(&e); istringstream is(e); int ed, ln; is >> ed >> ln;
      bool okw = false; for (auto &r : refs) if (lev(h, r) == ed && (int)r.size() == ln) { okw = true; double sc = ln ? (double)ed / ln : 0; for (auto &q : refs) if (q.size() && (double)lev(h, q) / q.size() < sc - 1e-6) okw = false; }
      check(okw, "sentence scorer WER statistics " + e + " belong to no best reference");
      if (first) wsum = s->GetZero(); wsum->PlusEquals(*s); we += ed; wl += ln; if (wl) check(close(wsum->ComputeScore(), (double)we / wl, 1e-4), "corpus WER");
      ScorerP ss = SentenceScorer::CreateSentenceScorer(SER, refs); bool any = false; for (auto &r : refs) if (r == h) any = true; check(ss->ScoreCandidate(h)->ComputeScore() == (any ? 1 : 0), "SER counts exact matches");
      // alignments
      auto al = [&](set<pair<int,int>> &l) { string o; for (int n = rint(1, 6); n; --n) { int x = rint(0, 4), y = rint(0, 4); if (!l.insert({x, y}).second) continue; if (o.size()) o += " "; o += str(x) + "-" + str(y); } return o; };
      set<pair<int,int>> ra, ha; string rs = al(ra), hs = al(ha); S rv, hv; TD::ConvertSentence(rs, &rv); TD::ConvertSentence(hs, &hv);
      input("reference links: " + rs + "\nhypothesis links: " + hs);
      AERScorer as(vector<S>(1, rv)); ScoreP asc = as.ScoreCandidate(hv); string ae; asc->Encode(&ae); const int *q = (const int *)ae.data();
      int mt = 0; for (auto &x : ra) if (ha.count(x)) ++mt;
      check(q[0] == mt && q[1] == (int)ha.size() && q[2] == (int)ra.size(), "AER counts " + str(q[0]) + " " + str(q[1]) + " " + str(q[2]) + " expected " + str(mt) + " " + str(ha.size()) + " " + str(ra.size()));
      double want_aer = mt ? 1 - 2.0 * mt / (ha.size() + ra.size()) : 1; check(close(asc->ComputeScore(), want_aer, 1e-4), "AER score " + str(asc->ComputeScore()) + " expected " + str(want_aer));
      ScoreP az = asc->GetZero(); az->PlusEquals(*asc); az->PlusEquals(*asc); az->Encode(&ae); q = (const int *)ae.data(); check(q[0] == 2 * mt && q[1] == 2 * (int)ha.size() && q[2] == 2 * (int)ra.size(), "AER adds"); 
      first = false;
    }
  }
  return done();
}
