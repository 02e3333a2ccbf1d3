#include "ext_common.h"
using namespace drv;
static void endtoend(const World& w, const string& desc, const Extraction& E) {
  auto voc = make_shared<Vocabulary>(); auto pb = make_shared<PhraseBuilder>(voc);
  RuleExtractor rx(w.src, w.tgt, w.al, pb, shared_ptr<features::Feature>() ? shared_ptr<Scorer>() : shared_ptr<Scorer>(), voc, E.span, E.mingap, E.maxnt, E.maxsym, E.rt, E.rc, E.tight);
  for (int rep = 0; rep < 4; ++rep) {
    vector<int> m, c, sym; int pos = rint(0, rint(0, w.S - 1)), n = rint(0, 1) ? min(3, E.maxnt + 1) : rint(1, min(3, E.maxnt + 1));
    for (int i = 0; i < n && pos < w.S; ++i) {
      int len = rint(1, min(2, w.S - pos)); if ((int)sym.size() + (i ? 1 : 0) + len > E.maxsym) break;
      if (i) sym.push_back(-i);
      m.push_back(w.off + pos); c.push_back(len);
      for (int j = 0; j < len; ++j) sym.push_back(voc->GetTerminalIndex(w.src->GetWordAtIndex(w.off + pos + j)));
      pos += len + E.mingap + rint(0, 1);
    }
    if (m.empty()) continue; n = m.size();
    if (m.back() + c.back() - m[0] > E.span) continue;
    Phrase ph = pb->Build(sym);
    ostringstream p; p << desc << "\noccurrence chunks at " << vstr(m) << "lengths " << vstr(c) << "sentence start " << w.off; input(p.str());
    vector<Extract> ex = rx.ExtractAlignments(ph, m);
    int al = 0; for (int i = 0; i < n; ++i) { bool any = false; for (int j = 0; j < c[i]; ++j) any |= alignedword(w, m[i] - w.off + j); al += any; }
    if (!ex.empty()) {
      check(!E.rt || (al > 0 && (!E.rc || al == n)), "extracted although too few terminals are aligned");
      if (E.tight) for (int i = 0; i + 1 < n; ++i) check(alignedword(w, m[i] + c[i] - w.off) && alignedword(w, m[i + 1] - 1 - w.off), "extracted although a gap edge is unaligned");
    }
    map<string, double> weight;
    for (auto& e : ex) {
      weight[phrase_str(e.source_phrase)] += e.pairs_count;
      vector<int> s = e.source_phrase.Get(), t = e.target_phrase.Get();
      ostringstream q; q << p.str() << "\nextracted: " << e.source_phrase << " ||| " << e.target_phrase << " ||| links"; for (auto l : e.alignment) q << " " << l.first << "-" << l.second; input(q.str());
      bool sx = s.front() < 0, exx = s.back() < 0;
      vector<int> inner(s.begin() + sx, s.end() - exx), want = sym;
      check(inner.size() == want.size(), "source side is not the occurrence with optional outer nonterminals");
      int nt = 0, nts = 0; for (size_t i = 0; i < s.size(); ++i) if (s[i] < 0) { ++nts; check(-s[i] == nts, "source nonterminals are not numbered 1..n in order"); }
      for (size_t i = 0; i < inner.size(); ++i) check((inner[i] < 0) == (want[i] < 0) && (inner[i] < 0 || inner[i] == want[i]), "source side words changed");
      check(nts <= E.maxnt, "more nonterminals than allowed"); check((int)s.size() <= E.maxsym, "more source symbols than allowed");
      set<int> labels; vector<vector<int>> tpl; vector<int> tpos;
      for (int x : t) {
        if (x < 0) { ++nt; labels.insert(-x); tpl.push_back({1, -x}); tpos.push_back(-1); }
        else { string word = voc->GetTerminalValue(x); int p0 = -1; for (int j = 0; j < w.T; ++j) if (w.tgt->GetWordAtIndex(w.toff + j) == word) p0 = j; check(p0 >= 0, "target word not in the sentence"); tpl.push_back({0, p0}); tpos.push_back(p0); }
      }
      check(nt == nts && (int)labels.size() == nts && (labels.empty() || *labels.rbegin() == nts), "target nonterminals are not the source nonterminals, once each");
      // links between terminals
      vector<int> spos; size_t ch = 0; int off = 0;
      for (size_t i = 0; i < s.size(); ++i) { if (s[i] < 0) { spos.push_back(-1); if (i > 0 && i + 1 < s.size()) { ++ch; off = 0; } } else spos.push_back(m[ch] - w.off + off++); }
      set<pair<int, int>> got(e.alignment.begin(), e.alignment.end()), wl;
      for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < t.size(); ++j) if (spos[i] >= 0 && tpos[j] >= 0) for (auto l : w.links) if (l.first == spos[i] && l.second == tpos[j]) wl.insert(make_pair((int)i, (int)j));
      check(got == wl && e.alignment.size() == got.size(), "rule alignment is not the set of links between its terminals");
      bool okk = false; int a = m[0] - w.off, b = m.back() + c.back() - w.off;
      for (int a2 = sx ? 0 : a; a2 <= (sx ? a - 1 : a) && !okk; ++a2) for (int b2 = exx ? b + 1 : b; b2 <= (exx ? w.S : b) && !okk; ++b2) {
        if (b2 - a2 > E.span && !(a2 == a && b2 == b)) continue;
        if ((sx && a - a2 < E.mingap) || (exx && b2 - b < E.mingap)) continue;
        vector<pair<int, int>> sg; if (sx) sg.push_back(make_pair(a2, a)); for (int i = 0; i + 1 < n; ++i) sg.push_back(make_pair(m[i] + c[i] - w.off, m[i + 1] - w.off)); if (exx) sg.push_back(make_pair(b, b2));
        okk = explain(w, tpl, sg, a2, b2, E);
      }
      check(okk, "no placement of the rule in the sentence pair is consistent with the alignment and the limits");
    }
    for (auto& x : weight) check(fabs(x.second - 1) < 1e-9 || fabs(x.second - floor(x.second + 0.5)) < 1e-9, "weights of one source phrase do not add up to one");
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    bool big = rint(0, 1); World w = world(7, big);
    int span = big || rint(0, 2) ? rint(6, 9) : rint(1, 6), syms = rint(2, 6); bool rt = rint(0, 1), rc = rint(0, 1), tight = rint(0, 1);
    RuleExtractorHelper h(w.src, w.tgt, w.al, span, syms, rt, rc, tight);
    ostringstream o; o << w.desc << "\nmax_rule_span " << span << " max_rule_symbols " << syms << " aligned_terminal " << rt << " aligned_chunks " << rc << " tight " << tight;
    input(o.str());
    vector<int> sl, sh, tl, th; h.GetLinksSpans(sl, sh, tl, th, sid(w));
    check(sl == w.sl && sh == w.sh && tl == w.tl && th == w.th, "GetLinksSpans: spans are not the extremes of the links");
    { Extraction E = {span, rint(0, 2) ? 1 : 2, big ? rint(3, 4) : rint(0, 4), big ? rint(5, 9) : rint(2, 8), rt, rc, tight}; ostringstream e; e << o.str() << " min_gap_size " << E.mingap << " max_nonterminals " << E.maxnt << " max symbols " << E.maxsym; endtoend(w, e.str(), E); }
    for (int rep = 0; rep < 8; ++rep) {
      // a pattern of 1..3 chunks separated by gaps
      vector<int> m, c; int pos = rint(0, w.S - 1), n = rint(1, 3);
      for (int i = 0; i < n && pos < w.S; ++i) { int len = rint(1, min(2, w.S - pos)); m.push_back(w.off + pos); c.push_back(len); pos += len + rint(1, 2); }
      n = m.size();
      int a = m[0] - w.off, b = m.back() + c.back() - w.off;
      int mins = rint(0, 2), maxx = rint(0, 3); bool lx = rint(0, 1), rx = rint(0, 1), ex = rint(0, 1);
      ostringstream p; p << o.str() << "\nmatching " << vstr(m) << "chunks " << vstr(c) << "sentence start " << w.off << " min gap " << mins << " max_x " << maxx << " low " << lx << " high " << rx << " expand " << ex;
      input(p.str());
      int al = 0; for (int i = 0; i < n; ++i) { bool any = false; for (int j = 0; j < c[i]; ++j) any |= alignedword(w, m[i] - w.off + j); al += any; }
      check(h.CheckAlignedTerminals(m, c, sl, w.off) == (!rt || (al > 0 && (!rc || al == n))), "CheckAlignedTerminals: wrong verdict");
      bool ti = true; for (int i = 0; i + 1 < n; ++i) ti = ti && alignedword(w, m[i] + c[i] - w.off) && alignedword(w, m[i + 1] - 1 - w.off);
      check(h.CheckTightPhrases(m, c, sl, w.off) == (!tight || ti), "CheckTightPhrases: wrong verdict");
      int tlo = -1, thi = -1, sbl = rint(-1, 3), sbh = rint(-1, 3);
      if (!h.FindFixPoint(a, b, sl, sh, tlo, thi, tl, th, sbl, sbh, sid(w), mins, 0, maxx, lx, rx, ex)) continue;
      ostringstream q; q << p.str() << "\nFindFixPoint -> source [" << sbl << "," << sbh << ") target [" << tlo << "," << thi << ")";
      input(q.str());
      check(sbl <= a && b <= sbh, "FindFixPoint: the phrase is not covered");
      check(consistent(w, sbl, sbh, tlo, thi), "FindFixPoint: accepted spans are not consistent with the alignment");
      check(thi - tlo <= span, "FindFixPoint: target span wider than max_rule_span");
      check(sbh - sbl <= span || (sbl == a && sbh == b), "FindFixPoint: source span wider than max_rule_span");
      check((lx || sbl == a) && (rx || sbh == b), "FindFixPoint: extended on a forbidden side");
      check((sbl < a) + (b < sbh) <= maxx, "FindFixPoint: more nonterminals than allowed");
      check((sbl == a || a - sbl >= mins) && (sbh == b || sbh - b >= mins), "FindFixPoint: gap shorter than the minimum");
      vector<pair<int, int>> sg, tg; int ns = rint(1, 5), ns0 = ns; bool met = true;
      if (!h.GetGaps(sg, tg, m, c, sl, sh, tl, th, a, b, sbl, sbh, sid(w), w.off, ns, met)) continue;
      vector<pair<int, int>> want; if (sbl < a) want.push_back(make_pair(sbl, a));
      for (int i = 0; i + 1 < n; ++i) want.push_back(make_pair(m[i] + c[i] - w.off, m[i + 1] - w.off));
      if (b < sbh) want.push_back(make_pair(b, sbh));
      check(sg == want, "GetGaps: source gaps are not the uncovered spans");
      check(tg.size() == sg.size(), "GetGaps: number of target gaps");
      for (size_t k = 0; k < sg.size(); ++k) check(consistent(w, sg[k].first, sg[k].second, tg[k].first, tg[k].second), "GetGaps: gap pair not consistent with the alignment");
      check(ns == ns0 + (sbl < a) + (b < sbh) && ns <= max(ns0, syms), "GetGaps: symbol count");
      if (tight) {
        check(sbl == a || (alignedword(w, sbl) && alignedword(w, a - 1)), "GetGaps: leading gap not tight");
        check(sbh == b || (alignedword(w, b) && alignedword(w, sbh - 1)), "GetGaps: trailing gap not tight");
      }
      bool wm = !(tight && ((sbl == a && !alignedword(w, a)) || (sbh == b && !alignedword(w, b - 1))));
      check(met == wm, "GetGaps: constraint flag");
    }
  }
  done();
}
