// Corpus index: suffix array, LCP, phrase lookup, gappy phrase intersection and the precomputed collocations against brute force
#include "common.h"
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/functional/hash.hpp>
#include <tuple>
#define private public
#define protected public
#include "data_array.h"
#include "suffix_array.h"
#include "phrase_location.h"
#include "matchings_finder.h"
#include "fast_intersector.h"
#include "precomputation.h"
#include "phrase.h"
#include "phrase_builder.h"
#include "vocabulary.h"
#undef private
#undef protected
using namespace std;
using namespace extractor;
struct Corpus { vector<vector<string>> sents; vector<int> d; string desc; vector<int> sid; };
int main(int argc, char** argv) {
  drv::init(argc, argv);
  ofstream nul("/dev/null"); cerr.rdbuf(nul.rdbuf());
  while (drv::more()) {
    int ns = drv::rint(1, 5), voc = drv::rint(1, 5), maxlen = drv::rint(0, 3) ? 7 : 14; if (drv::rint(0, 7) == 0) { ns = 12; voc = 8; }
    vector<string> lines; string desc; vector<vector<string>> sents;
    for (int i = 0; i < ns; ++i) {
      int L = drv::rint(0, maxlen); string l; vector<string> s; int style = drv::rint(0, 3);
      for (int j = 0; j < L; ++j) { string w(1, char('a' + (style == 0 ? j % 2 : drv::rint(0, voc - 1)))); s.push_back(w); l += w + " "; }
      if (i && style == 3) { l = lines[drv::rint(0, i - 1)]; s.clear(); istringstream is(l); string w; while (is >> w) s.push_back(w); }
      lines.push_back(l); sents.push_back(s); desc += l + "\n";
    }
    drv::input("corpus, one sentence per line:\n" + desc);
    auto da = make_shared<DataArray>(); da->CreateDataArray(lines);
    vector<int> d; vector<string> words; int pos = 0;
    // the stored corpus
    map<string, int> ids; ids["__NULL__"] = 0; ids["__END_OF_LINE__"] = 1;
    for (int i = 0; i < ns; ++i) {
      drv::check(da->GetSentenceStart(i) == pos, "sentence start"); drv::check(da->GetSentenceLength(i) == (int)sents[i].size(), "sentence length");
      for (auto& w : sents[i]) {
        if (!ids.count(w)) { int k = ids.size(); ids[w] = k; }
        drv::check(pos < da->GetSize() && da->GetWordAtIndex(pos) == w && da->GetWord(da->AtIndex(pos)) == w && da->AtIndex(pos) == da->GetWordId(w), "word at position");
        drv::check(da->GetSentenceId(pos) == i, "sentence of a position"); d.push_back(da->AtIndex(pos)); words.push_back(w); ++pos;
      }
      drv::check(pos < da->GetSize() && da->AtIndex(pos) == DataArray::END_OF_LINE && da->GetSentenceId(pos) == i, "end of line marker"); d.push_back(DataArray::END_OF_LINE); words.push_back("\n"); ++pos;
    }
    int n = pos;
    drv::check(da->GetSize() == n && da->GetNumSentences() == ns && (int)da->GetSentenceStart(ns) == n, "sizes");
    drv::check(da->GetVocabularySize() == (int)ids.size() && da->GetWordId("unseen") == -1, "vocabulary");
    if (n > 1) { int a = drv::rint(0, n - 1), k = drv::rint(0, n - a); vector<int> x = da->GetWordIds(a, k); drv::check(x == vector<int>(d.begin() + a, d.begin() + a + k), "word ids of a slice"); vector<string> y = da->GetWords(a, k); drv::check((int)y.size() == k, "words of a slice"); for (int i = 0; i < k; ++i) drv::check(y[i] == da->GetWord(d[a + i]), "words of a slice"); }
    // suffix array
    auto sa = make_shared<SuffixArray>(da);
    drv::check(sa->GetSize() == n + 1, "suffix array size");
    auto less = [&](int a, int b) { return lexicographical_compare(d.begin() + a, d.end(), d.begin() + b, d.end()); };
    vector<bool> seen(n + 1);
    for (int i = 0; i <= n; ++i) { int s = sa->GetSuffix(i); drv::check(s >= 0 && s <= n && !seen[s], "suffix array is a permutation of the positions"); seen[s] = true; if (i) drv::check(less(sa->GetSuffix(i - 1), s), "suffixes are sorted at rank " + to_string(i)); }
    vector<int> lcp = sa->BuildLCPArray();
    drv::check((int)lcp.size() == n + 1 && lcp[0] == -1, "LCP size and first entry");
    for (int i = 1; i <= n; ++i) { int a = sa->GetSuffix(i - 1), b = sa->GetSuffix(i), k = 0; while (a + k < n && b + k < n && d[a + k] == d[b + k]) ++k; drv::check(lcp[i] == k, "longest common prefix at rank " + to_string(i)); }
    // contiguous phrases
    MatchingsFinder mf(sa);
    auto brute = [&](const vector<string>& p) { vector<int> r; for (int i = 0; i + (int)p.size() <= n; ++i) { bool ok = true; for (size_t k = 0; k < p.size() && ok; ++k) ok = words[i + k] == p[k]; if (ok) r.push_back(i); } return r; };
    auto expand = [&](const PhraseLocation& l) { vector<int> r; if (l.matchings) r = *l.matchings; else for (int i = l.sa_low; i < l.sa_high; ++i) r.push_back(sa->GetSuffix(i)); return r; };
    auto find = [&](const vector<string>& p, bool chk) {
      PhraseLocation l;
      for (size_t k = 0; k < p.size(); ++k) {
        PhraseLocation m = mf.Find(l, p[k], k); l = m;
        if (chk) { vector<int> got = expand(l), want = brute(vector<string>(p.begin(), p.begin() + k + 1)); sort(got.begin(), got.end()); string s; for (auto& x : p) s += x + " ";
          drv::check(l.GetSize() == (int)want.size() && l.IsEmpty() == want.empty(), "number of occurrences of a prefix of [" + s + "]");
          drv::check(got == want, "occurrences of the first " + to_string(k + 1) + " words of [" + s + "]"); }
        if (l.IsEmpty()) break;
      }
      return l;
    };
    for (int t = 0; t < 25; ++t) { vector<string> p; int L = drv::rint(1, 5), a = n > 1 ? drv::rint(0, n - 1) : 0; for (int k = 0; k < L; ++k) { if (a + k < n && words[a + k] != "\n" && drv::rint(0, 9)) p.push_back(words[a + k]); else p.push_back(drv::rint(0, 5) ? string(1, char('a' + drv::rint(0, voc))) : "zz"); } find(p, true); }
    // gappy phrases
    auto vocab = make_shared<Vocabulary>();
    int span = drv::rint(2, 9), mingap = drv::rint(1, 2), maxsym = drv::rint(3, 6), mfpl = drv::rint(1, 4), nf = drv::rint(0, 12), nsf = drv::rint(0, nf), minf = drv::rint(1, 3);
    drv::input("max_rule_span " + to_string(span) + " min_gap_size " + to_string(mingap) + " max_rule_symbols " + to_string(maxsym) + " max_frequent_phrase_len " + to_string(mfpl) + " frequent " + to_string(nf) + " super " + to_string(nsf) + " min_frequency " + to_string(minf) + " corpus, one sentence per line:\n" + desc);
    auto pre = make_shared<Precomputation>(vocab, sa, nf, nsf, span, maxsym, mingap, mfpl, minf);
    auto empty = make_shared<Precomputation>();
    PhraseBuilder pb(vocab);
    auto bruteg = [&](const vector<vector<string>>& ch) {
      vector<vector<int>> res; vector<int> cur;
      vector<vector<int>> occ; for (auto& c : ch) occ.push_back(brute(c));
      function<void(size_t)> rec = [&](size_t k) {
        if (k == ch.size()) { res.push_back(cur); return; }
        for (int p : occ[k]) {
          if (k) { if (da->GetSentenceId(p) != da->GetSentenceId(cur[0])) continue; if (p - (cur[k - 1] + (int)ch[k - 1].size()) < mingap) continue; if (p + (int)ch[k].size() - cur[0] > span) continue; }
          cur.push_back(p); rec(k + 1); cur.pop_back();
        } };
      rec(0); sort(res.begin(), res.end()); return res; };
    auto tuples = [&](const vector<int>& m, int w) { vector<vector<int>> r; for (size_t i = 0; i + w <= m.size(); i += w) r.push_back(vector<int>(m.begin() + i, m.begin() + i + w)); sort(r.begin(), r.end()); return r; };
    // every entry of the precomputed index lists all occurrences of its pattern
    for (auto& e : pre->index) {
      vector<vector<string>> ch(1); string s;
      for (int x : e.first) { if (x < 0) ch.push_back(vector<string>()), s += "X "; else { ch.back().push_back(vocab->GetTerminalValue(x)); s += ch.back().back() + " "; } }
      drv::check(pre->Contains(e.first) && pre->GetCollocations(e.first) == e.second, "index lookup");
      drv::check(e.second.size() % ch.size() == 0 && tuples(e.second, ch.size()) == bruteg(ch), "precomputed occurrences of [" + s + "]");
      drv::check((int)e.first.size() <= maxsym, "pattern longer than the symbol limit in the index");
    }
    for (int which = 0; which < 2; ++which) {
      FastIntersector fi(sa, which ? pre : empty, vocab, span, mingap);
      function<PhraseLocation(vector<string>)> loc = [&](vector<string> p) -> PhraseLocation {
        while (p.front() == "X") p.erase(p.begin()); while (p.back() == "X") p.pop_back();
        bool gap = false; for (auto& x : p) gap |= x == "X";
        if (!gap) return find(p, false);
        PhraseLocation a = loc(vector<string>(p.begin(), p.end() - 1)), b = loc(vector<string>(p.begin() + 1, p.end()));
        vector<int> sy; int v = 0; for (auto& x : p) sy.push_back(x == "X" ? vocab->GetNonterminalIndex(++v) : vocab->GetTerminalIndex(x));
        if (a.IsEmpty() || b.IsEmpty()) return PhraseLocation(vector<int>(), v + 1);
        return fi.Intersect(a, b, pb.Build(sy)); };
      for (int t = 0; t < 12; ++t) {
        int nc = drv::rint(2, 3), at = n > 1 ? drv::rint(0, n - 1) : 0; vector<vector<string>> ch; vector<string> p; string s;
        for (int k = 0; k < nc; ++k) { vector<string> c; int L = drv::rint(1, 2); for (int i = 0; i < L; ++i, ++at) c.push_back(at < n && words[at] != "\n" && drv::rint(0, 7) ? words[at] : string(1, char('a' + drv::rint(0, voc - 1)))); at += drv::rint(mingap, mingap + 1); ch.push_back(c); if (k) p.push_back("X"); p.insert(p.end(), c.begin(), c.end()); }
        for (auto& x : p) s += x + " ";
        PhraseLocation l = loc(p); vector<vector<int>> want = bruteg(ch);
        vector<int> m = l.matchings ? *l.matchings : vector<int>();
        drv::check(l.num_subpatterns == nc && m.size() % nc == 0 && tuples(m, nc) == want, "occurrences of the gappy phrase [" + s + "]" + (which ? " with" : " without") + " the precomputed index");
        drv::check(l.IsEmpty() == want.empty(), "emptiness of [" + s + "]");
      }
    }
  }
  return drv::done();
}
