// Searches for a sequence of SmallVector operations after which its contents differ from those of a std::vector.
#include "common.h"
#include "small_vector.h"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace drv; using namespace std;
template <class T, int M> struct Test {
  typedef SmallVector<T, M> V; typedef vector<T> R;
  static void same(const V& v, const R& r, const string& what) {
    check(v.size() == r.size(), what + ": size is " + str(v.size())); check(v.empty() == r.empty(), what + ": empty");
    check((size_t)(v.end() - v.begin()) == r.size() && (size_t)(const_cast<V&>(v).end() - const_cast<V&>(v).begin()) == r.size(), what + ": range");
    for (size_t i = 0; i < r.size(); ++i) { check(v[i] == r[i], what + ": element " + str(i) + " is " + str(v[i])); check(const_cast<V&>(v)[i] == r[i] && v.begin()[i] == r[i], what + ": element by pointer"); }
    if (r.size()) check(v.front() == r.front() && v.back() == r.back() && &const_cast<V&>(v).back() == const_cast<V&>(v).begin() + r.size() - 1, what + ": ends");
  }
  static void run() {
    const int N = 3; V v[N]; R r[N]; string log = "M=" + str(M) + ":"; input(log);
    int steps = rint(1, 40);
    for (int q = 0; q < steps; ++q) {
      int a = rint(0, N - 1), b = rint(0, N - 1), op = rint(0, 17); T x = rint(-9, 9); size_t n = rint(0, 4) ? rint(0, 7) : rint(0, 40); string w;
      switch (op) {
        case 0: case 1: case 2: w = "push"; break; case 3: w = "pop"; break; case 4: w = "resize" + str(n); break; case 5: w = "assign" + str(b); break; case 6: w = "clear"; break; case 7: w = "compact"; break; case 8: w = "erase"; break; case 9: w = "swap" + str(b); break;
        case 10: w = "ctor"; break; case 11: w = "copy" + str(b); break; case 12: w = "range"; break; case 13: w = "serial" + str(b); break; case 14: w = "set"; break; case 15: w = "pushself"; break; case 16: w = "fill"; break; case 17: w = "reserve"; break;
      }
      log += " " + str(a) + "." + w + "(" + str(x) + "," + str(r[a].size()) + ")"; input(log);
      switch (op) {
        case 0: case 1: case 2: for (size_t k = 0; k <= n / 8; ++k) { v[a].push_back(x); r[a].push_back(x); } break;
        case 3: if (r[a].size()) { v[a].pop_back(); r[a].pop_back(); } break;
        case 4: { int y = x; v[a].resize(n, y); r[a].resize(n, y); break; }
        case 5: v[a] = v[b]; r[a] = R(r[b]); break;
        case 6: v[a].clear(); r[a].clear(); break;
        case 7: { if (!std::is_same<T, int>::value && r[a].size() > M) break; size_t k = rint(0, r[a].size()); v[a].compact(k); r[a].resize(k); break; }
        case 8: if (r[a].size()) { int i = rint(0, r[a].size() - 1), j = rint(i, r[a].size()); T* p = rint(0, 2) ? v[a].erase(v[a].begin() + i, v[a].begin() + j) : (j = i + 1, v[a].erase(v[a].begin() + i)); r[a].erase(r[a].begin() + i, r[a].begin() + j); check(p == v[a].begin() + i, "erase returns the place of the next element"); } break;
        case 9: if (rint(0, 1)) v[a].swap(v[b]); else swap(v[a], v[b]); r[a].swap(r[b]); break;
        case 10: { V t(n), f(n, x); same(t, R(n), "sized"); same(f, R(n, x), "filled"); if (rint(0, 1)) { v[a] = f; r[a] = R(n, x); } break; }
        case 11: { V c(v[b]); same(c, r[b], "copy"); c.push_back(x); same(v[b], r[b], "original of a copy"); v[a].swap(c); r[a] = r[b]; r[a].push_back(x); break; }
        case 12: { R s(n); for (auto& e : s) e = rint(-9, 9); V c(s.data(), s.data() + n); same(c, s, "range"); v[a] = c; r[a] = s; break; }
        case 13: { if (rint(0, 4)) break; stringstream ss; { boost::archive::text_oarchive o(ss); const V& c = v[b]; o << c; } V c; if (rint(0, 1)) c.resize(n, 1); { boost::archive::text_iarchive i(ss); i >> c; } same(c, r[b], "reloaded"); break; }
        case 14: if (r[a].size()) { size_t i = rint(0, r[a].size() - 1); v[a][i] = x; r[a][i] = x; i = rint(0, r[a].size() - 1); v[a].begin()[i] = x; r[a][i] = x; } break;
        case 15: if (r[a].size()) { size_t i = rint(0, r[a].size() - 1); T y = r[a][i]; v[a].push_back(v[a][i]); r[a].push_back(y); } break;
        case 16: { v[a] = V(n, x); r[a] = R(n, x); break; }
        case 17: if (r[a].size() > M) v[a].ensure_capacity(max<size_t>(n, M + 1)); break;
      }
      for (int k = 0; k < N; ++k) same(v[k], r[k], "vector " + str(k) + " after " + w);
      for (int k = 0; k < N; ++k) for (int j = 0; j < N; ++j) { check((v[k] == v[j]) == (r[k] == r[j]), "== of " + str(k) + " and " + str(j)); check((v[k] != v[j]) == (r[k] != r[j]), "!="); if (r[k] == r[j]) check(hash_value(v[k]) == hash_value(v[j]), "hash of equal vectors"); }
    }
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) { Test<int, 2>::run(); if (rint(0, 3) == 0) Test<int, 3>::run(); if (rint(0, 3) == 0) Test<int, 1>::run(); }
  return done();
}
