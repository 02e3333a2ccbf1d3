#include "ext_common.h"
using namespace drv;
static int tid(const vector<int>& sym, int k) { int n = 0; for (int i = 0; i <= k; ++i) n += sym[i] < 0; return n; }
int main(int argc, char** argv) {
  init(argc, argv);
  auto voc = make_shared<Vocabulary>(), tvoc = make_shared<Vocabulary>(); auto pb = make_shared<PhraseBuilder>(voc), tpb = make_shared<PhraseBuilder>(tvoc);
  vector<string> known; map<string, int> ids;
  while (more()) {
    // vocabulary: the mapping between words and ids is one to one and never changes
    for (int r = 0; r < 5; ++r) {
      string wd = "w" + to_string(rint(0, 300)); input("vocabulary word " + wd + " after " + to_string(known.size()) + " words");
      int id = voc->GetTerminalIndex(wd);
      if (ids.count(wd)) check(ids[wd] == id, "a known word got another id"); else { check(id >= 0 && id == (int)known.size(), "new id is not fresh"); ids[wd] = id; known.push_back(wd); }
      int q = rint(0, (int)known.size() - 1); check(voc->GetTerminalValue(q) == known[q], "id names another word");
      check(voc->IsTerminal(id) && !voc->IsTerminal(voc->GetNonterminalIndex(rint(1, 5))), "terminal test is wrong");
    }
    // phrases
    for (int rep = 0; rep < 5; ++rep) {
      vector<int> sym; int n = rint(1, 8), nt = 0, prev = 0;
      for (int i = 0; i < n; ++i) { if (i && rint(0, 2) == 0) { sym.push_back(voc->GetNonterminalIndex(++nt)); prev = 1; } else { sym.push_back(rint(0, (int)known.size() - 1)); prev = 0; } } (void)prev;
      ostringstream o; o << "symbols " << vstr(sym); input(o.str());
      Phrase p = pb->Build(sym); check(p.Get() == sym && p.GetNumSymbols() == n && p.Arity() == nt, "phrase does not hold the symbols it was built from");
      vector<string> ws; vector<int> ch(1, 0); for (int x : sym) if (x < 0) ch.push_back(0); else { ++ch.back(); ws.push_back(known[x]); }
      check(p.GetWords() == ws, "phrase words differ from the terminals");
      for (size_t i = 0; i < ch.size(); ++i) check(p.GetChunkLen(i) == ch[i], "chunk length is wrong");
      for (int i = 0; i < n; ++i) check(p.GetSymbol(i) == sym[i], "symbol is wrong");
      for (int f = 0; f < 4; ++f) {
        bool sx = f & 1, ex = f & 2; ostringstream q; q << o.str() << " extended " << sx << ex; input(q.str());
        Phrase e = pb->Extend(p, sx, ex); vector<int> want; if (sx) want.push_back(-1); want.insert(want.end(), sym.begin(), sym.end()); if (ex) want.push_back(-1);
        for (size_t i = 0; i < want.size(); ++i) if (want[i] < 0) want[i] = -tid(want, i);
        check(e.Get() == want && e.Arity() == nt + sx + ex && e.GetWords() == ws, "extended phrase is wrong");
        vector<int> c2(1, 0); for (int x : want) if (x < 0) c2.push_back(0); else ++c2.back();
        for (size_t i = 0; i < c2.size(); ++i) check(e.GetChunkLen(i) == c2[i], "chunk length of the extended phrase is wrong");
      }
    }
    // target phrases of a span
    World w = world(8, rint(0, 1)); bool tight = rint(0, 1); int span = rint(0, 3) ? rint(3, 9) : rint(1, 4);
    auto help = make_shared<RuleExtractorHelper>(w.src, w.tgt, w.al, span, 5, true, true, tight);
    TargetPhraseExtractor tp(w.tgt, w.al, tpb, help, tvoc, span, tight);
    for (int rep = 0; rep < 6; ++rep) {
      vector<pair<int, int>> g; int c = rint(0, w.T - 1), d = c + 1 + rint(0, w.T - c - 1);
      if (w.tl[c] == -1 || w.tl[d - 1] == -1) continue;
      int pos = c + rint(0, 1); while (pos < d && (int)g.size() < 4) { int e = min(d, pos + rint(1, 2)); if (w.tl[pos] != -1 && w.tl[e - 1] != -1) g.push_back(make_pair(pos, e)); pos = e + rint(0, 2); }
      vector<pair<int, int>> gs = g; for (size_t i = 0; i + 1 < g.size(); ++i) swap(g[i], g[rint((int)i, (int)g.size() - 1)]);
      vector<int> label; for (auto& x : gs) label.push_back(find(g.begin(), g.end(), x) - g.begin());
      unordered_map<int, int> si; int nx = 0;
      for (auto l : w.links) { bool in = c <= l.second && l.second < d; for (auto& x : g) in &= !(x.first <= l.second && l.second < x.second); if (in && !si.count(l.first)) si[l.first] = nx++; }
      ostringstream o; o << w.desc << "\ntight " << tight << " max span " << span << " target span [" << c << "," << d << ") gaps"; for (auto x : g) o << " [" << x.first << "," << x.second << ")"; input(o.str());
      check(help->GetGapOrder(g) == label, "gaps are not ordered from left to right");
      // brute force
      int xl = c, xh = d; if (!tight) { while (xl > 0 && d - (xl - 1) <= span && w.tl[xl - 1] == -1) --xl; while (xh < w.T && (xh + 1) - c <= span && w.tl[xh] == -1) ++xh; }
      vector<pair<int, int>> rg; rg.push_back(make_pair(xl, c));
      for (auto& x : gs) { int a = x.first, b = x.second; if (!tight) { while (a > xl && w.tl[a - 1] == -1) --a; while (b < xh && w.tl[b] == -1) ++b; } rg.push_back(make_pair(a, x.first)); rg.push_back(make_pair(x.second, b)); }
      rg.push_back(make_pair(d, xh));
      multiset<pair<vector<int>, multiset<pair<int, int>>>> want, got; vector<int> sp(rg.size());
      function<void(size_t)> rec = [&](size_t k) {
        if (k == rg.size()) {
          if (sp.back() - sp.front() > span) return;
          vector<int> s; map<int, int> at; for (size_t i = 0; i * 2 < sp.size(); ++i) { for (int j = sp[2 * i]; j < sp[2 * i + 1]; ++j) { at[j] = s.size(); s.push_back(tvoc->GetTerminalIndex(w.tgt->GetWordAtIndex(w.toff + j))); } if (i < label.size()) s.push_back(-(label[i] + 1)); }
          multiset<pair<int, int>> al; for (auto l : w.links) if (at.count(l.second)) al.insert(make_pair(si[l.first], at[l.second]));
          want.insert(make_pair(s, al)); return;
        }
        for (int v = max(rg[k].first, k ? sp[k - 1] : 0); v <= rg[k].second; ++v) { sp[k] = v; rec(k + 1); }
      };
      rec(0); input(o.str());
      auto r = tp.ExtractPhrases(g, w.tl, c, d, si, sid(w));
      for (auto& x : r) got.insert(make_pair(x.first.Get(), multiset<pair<int, int>>(x.second.begin(), x.second.end())));
      if (got != want) { ostringstream q; q << "target phrases differ: expected " << want.size() << " got " << got.size(); for (auto& x : r) q << "\n  got " << x.first; for (auto& x : want) q << "\n  expected " << vstr(x.first); fail(q.str()); }
    }
  }
  return done();
}
