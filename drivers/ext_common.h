// sentence pairs and alignments for the extractor drivers
#include "common.h"
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#define private public
#define protected public
#include "data_array.h"
#include "alignment.h"
#include "rule_extractor_helper.h"
#include "rule_extractor.h"
#include "target_phrase_extractor.h"
#include "phrase.h"
#include "phrase_builder.h"
#include "vocabulary.h"
#include "scorer.h"
#undef private
#undef protected
using namespace std;
using namespace extractor;
typedef vector<pair<int, int>> Links;
struct World {
  int S, T, off, toff; Links links;
  shared_ptr<DataArray> src, tgt; shared_ptr<Alignment> al;
  vector<int> sl, sh, tl, th;   // oracle spans
  string desc;
};
inline shared_ptr<DataArray> mkda(const vector<int>& lens, const char* pfx, bool uniq = false) {
  auto d = make_shared<DataArray>(); vector<string> lines;
  for (size_t i = 0; i < lens.size(); ++i) { string l; for (int j = 0; j < lens[i]; ++j) l += string(pfx) + (uniq ? to_string(i) + "_" + to_string(j) : string(1, char('a' + drv::rint(0, 4)))) + " "; lines.push_back(l); }
  d->CreateDataArray(lines); return d;
}
inline World world(int maxlen = 7, bool big = false) {
  World w; w.S = drv::rint(1, maxlen); w.T = drv::rint(1, maxlen); if (big) w.S = w.T = maxlen;
  int before = drv::rint(0, 1);
  vector<int> sl, tl; if (before) { sl.push_back(drv::rint(0, 3)); tl.push_back(drv::rint(0, 3)); }
  sl.push_back(w.S); tl.push_back(w.T); sl.push_back(2); tl.push_back(2);
  w.src = mkda(sl, "s"); w.tgt = mkda(tl, "t", true); w.al = make_shared<Alignment>();
  int style = big ? 4 : drv::rint(0, 4), n = drv::rint(0, w.S + w.T);
  set<pair<int, int>> seen;
  for (int i = 0; i < n; ++i) {
    int a = drv::rint(0, w.S - 1), b = style == 0 ? drv::rint(0, w.T - 1) : min(w.T - 1, max(0, a + drv::rint(-1, 1)));
    if (style == 2) b = max(0, w.T - 1 - b);
    seen.insert(make_pair(a, b));
  }
  if (style == 4) { seen.clear(); vector<int> pm; for (int i = 0; i < max(w.S, w.T); ++i) pm.push_back(i); for (size_t i = 0; i + 1 < pm.size(); ++i) swap(pm[i], pm[drv::rint((int)i, (int)pm.size() - 1)]);
    for (int i = 0; i < w.S; ++i) if (pm[i] < w.T && drv::rint(0, 9)) seen.insert(make_pair(i, pm[i])); }
  w.links.assign(seen.begin(), seen.end());
  for (size_t i = 0; i + 1 < w.links.size(); ++i) if (drv::rint(0, 2) == 0) swap(w.links[i], w.links[drv::rint(0, (int)w.links.size() - 1)]);
  w.al->alignments.assign(sl.size(), Links()); w.al->alignments[before] = w.links;
  w.off = w.src->GetSentenceStart(before); w.toff = w.tgt->GetSentenceStart(before);
  w.sl.assign(w.S, -1); w.sh = w.sl; w.tl.assign(w.T, -1); w.th = w.tl;
  for (auto l : w.links) {
    if (w.sl[l.first] == -1 || l.second < w.sl[l.first]) w.sl[l.first] = l.second;
    if (l.second + 1 > w.sh[l.first]) w.sh[l.first] = l.second + 1;
    if (w.tl[l.second] == -1 || l.first < w.tl[l.second]) w.tl[l.second] = l.first;
    if (l.first + 1 > w.th[l.second]) w.th[l.second] = l.first + 1;
  }
  ostringstream o; o << "source length " << w.S << " target length " << w.T << " sentence " << before << " links";
  for (auto l : w.links) o << " " << l.first << "-" << l.second;
  w.desc = o.str(); return w;
}
inline int sid(const World& w) { return w.src->GetSentenceId(w.off); }
// no link leaves the pair of spans, and both edges of the target span are aligned into the source span
inline bool consistent(const World& w, int a, int b, int c, int d) {
  if (!(0 <= a && a < b && b <= w.S && 0 <= c && c < d && d <= w.T)) return false;
  for (auto l : w.links) if ((a <= l.first && l.first < b) != (c <= l.second && l.second < d)) return false;
  return w.tl[c] != -1 && w.tl[d - 1] != -1;
}
inline bool alignedword(const World& w, int i) { return i >= 0 && i < w.S && w.sl[i] != -1; }

// full extraction for one occurrence; every extract must be explained by spans and gaps consistent with the alignment
struct Extraction { int span, mingap, maxnt, maxsym; bool rt, rc, tight; };
inline string phrase_str(const Phrase& p) { ostringstream o; o << p; return o.str(); }
// is there a placement of target symbols (words of the sentence at unique positions, nonterminals on non-empty spans) that is consistent?
inline bool explain(const World& w, const vector<vector<int>>& tpl, const vector<pair<int, int>>& sgap, int a, int b, const Extraction& E) {
  // tpl: sequence of {0,pos} terminal / {1,label} nonterminal
  function<bool(size_t, int, int, vector<pair<int, int>>&)> rec = [&](size_t k, int at, int c0, vector<pair<int, int>>& tg) -> bool {
    if (k == tpl.size()) {
      int d = at, c = c0; if (c < 0 || c >= d || d - c > E.span) return false;
      for (auto l : w.links) if ((a <= l.first && l.first < b) != (c <= l.second && l.second < d)) return false;
      for (size_t g = 0; g < sgap.size(); ++g) {
        bool any = false;
        for (auto l : w.links) { bool in = sgap[g].first <= l.first && l.first < sgap[g].second; any |= in; if (in != (tg[g].first <= l.second && l.second < tg[g].second)) return false; }
        if (!any) return false;
      }
      return true;
    }
    if (tpl[k][0] == 0) {
      int p = tpl[k][1];
      if (at >= 0 && p != at) return false;
      return rec(k + 1, p + 1, c0 < 0 ? p : c0, tg);
    }
    int g = tpl[k][1] - 1; if (g < 0 || g >= (int)sgap.size()) return false;
    for (int s = at >= 0 ? at : 0; s <= (at >= 0 ? at : w.T - 1); ++s) for (int e = s + 1; e <= w.T; ++e) {
      tg[g] = make_pair(s, e);
      if (rec(k + 1, e, c0 < 0 ? s : c0, tg)) return true;
    }
    return false;
  };
  vector<pair<int, int>> tg(sgap.size(), make_pair(-1, -1));
  return rec(0, -1, -1, tg);
}
