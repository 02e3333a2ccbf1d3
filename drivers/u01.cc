// Searches for FastSparseVector operations whose result differs from that of a std::map.
#include "common.h"
#include "hash.h"
#include "fast_sparse_vector.h"
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
using namespace drv; using namespace std;
typedef FastSparseVector<double> V; typedef map<unsigned, double> R;
static double g(const R& r, unsigned k) { R::const_iterator i = r.find(k); return i == r.end() ? 0 : i->second; }
static string sh(const R& r) { string s = "{"; for (auto& p : r) s += str(p.first) + ":" + str(p.second) + " "; return s + "}"; }
template <class W> static R rd(const W& v) { R r; for (typename W::const_iterator i = v.begin(), e = v.end(); i != e; ++i) { check(!r.count(i->first), "key " + str(i->first) + " enumerated twice"); r[i->first] = (*i).second; } return r; }
static bool eqv(const R& a, const R& b) { if (a.size() != b.size()) return false; for (auto& p : a) { R::const_iterator i = b.find(p.first); if (i == b.end() || !close(i->second, p.second, 1e-9)) return false; } return true; }
static void same(const V& v, const R& r, const string& w) {
  R x = rd(v); check(eqv(x, r), w + " holds " + sh(x) + " instead of " + sh(r)); check(v.size() == r.size() && v.empty() == r.empty(), w + ": size " + str(v.size()));
  for (unsigned k = 0; k < 24; ++k) { check(close(v.value(k), g(r, k)) && close(v.get(k), g(r, k)), w + ": value of " + str(k)); check(v.nonzero(k) == (g(r, k) != 0), w + ": nonzero " + str(k)); check((v.find(k) == v.end()) == !r.count(k), w + ": find " + str(k)); if (r.count(k)) check(v.find(k)->first == k && close(v.find(k)->second, g(r, k)), w + ": found entry"); }
  size_t nz = 0; double l2 = 0, p1 = 0; for (auto& p : r) { nz += p.second != 0; l2 += p.second * p.second; p1 += fabs(p.second); }
  check(v.num_nonzero() == nz, w + ": num_nonzero"); check(close(v.l2norm_sq(), l2) && close(v.l2norm(), sqrt(l2)) && close(v.pnorm(1), p1), w + ": norms");
  if (r.size() == 1) check(v.get_singleton() == r.begin()->second, w + ": singleton");
}
int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    const int N = 3; V v[N]; R r[N]; string log; int K = rint(0, 2) ? 12 : 23;
    int steps = rint(1, 40);
    for (int q = 0; q < steps; ++q) {
      int a = rint(0, N - 1), b = rint(0, N - 1), op = rint(0, 19); unsigned k = rint(1, K); double x = rint(-4, 4) * 0.5; if (rint(0, 9) == 0) k = 0;
      log += " " + str(op) + ":" + str(a) + "," + str(b) + "," + str(k) + "," + str(x); input(log);
      switch (op) {
        case 0: case 1: v[a].set_value(k, x); r[a][k] = x; break;
        case 2: { double& y = v[a].add_value(k, x); r[a][k] += x; check(close(y, r[a][k]), "add_value returns the entry"); break; }
        case 3: { v[a][k] = x; r[a][k] = x; break; }
        case 4: { double y = v[a][k]; check(close(y, g(r[a], k)), "[]"); r[a][k]; break; }
        case 5: v[a].erase(k); r[a].erase(k); break;
        case 6: if (a != b) { v[a] += v[b]; for (auto& p : r[b]) r[a][p.first] += p.second; } break;
        case 7: if (a != b) { v[a] -= v[b]; for (auto& p : r[b]) r[a][p.first] -= p.second; } break;
        case 8: if (x == 0) x = 2; v[a] *= x; for (auto& p : r[a]) p.second *= x; break;
        case 9: if (x == 0) x = 2; v[a] /= x; for (auto& p : r[a]) p.second /= x; break;
        case 10: if (a != b) { v[a].plus_eq_v_times_s(v[b], x); for (auto& p : r[b]) r[a][p.first] += p.second * x; } break;
        case 11: if (rint(0, 2) == 0) { v[a].clear(); r[a].clear(); } break;
        case 12: v[a] = v[b]; r[a] = R(r[b]); break;
        case 13: v[a].swap(v[b]); if (a != b) r[a].swap(r[b]); break;
        case 14: { V c(v[b]); same(c, r[b], "copy"); c.set_value(k, x + 1); same(v[b], r[b], "original of a copy"); R t = r[b]; t[k] = x + 1; same(c, t, "changed copy"); break; }
        case 15: { V c = v[a] + v[b]; R t = r[a]; for (auto& p : r[b]) t[p.first] += p.second; same(c, t, "sum"); c = v[a] - v[b]; t = r[a]; for (auto& p : r[b]) t[p.first] -= p.second; same(c, t, "difference"); break; }
        case 16: { double e = rint(0, 4) * 0.4; V c = v[a].erase_zeros(e); R t; for (auto& p : r[a]) if (fabs(p.second) > e) t[p.first] = p.second; same(c, t, "erase_zeros " + str(e)); break; }
        case 17: { double d = 0; for (auto& p : r[a]) d += p.second * g(r[b], p.first); check(close(v[a].dot(v[b]), d) && close(v[b].dot(v[a]), d), "dot"); int n = rint(0, 25); vector<double> w(n); double dw = 0; for (int i = 0; i < n; ++i) { w[i] = rint(-4, 4); dw += w[i] * g(r[a], i); } check(close(v[a].dot(w), dw), "dot with a dense vector"); double la = 0, lb = 0; for (auto& p : r[a]) la += p.second * p.second; for (auto& p : r[b]) lb += p.second * p.second; if (la + lb - d > 1e-3) check(close(v[a].tanimoto_coef(v[b]), d / (la + lb - d)), "tanimoto_coef");
          vector<double> iv(rint(0, 3), 7.0); if (rint(0, 1)) v[a].init_vector(iv); else v[a].init_vector(&iv); check(iv.size() == (r[a].empty() ? 0 : r[a].rbegin()->first + 1), "dense size"); for (unsigned i = 0; i < iv.size(); ++i) check(close(iv[i], g(r[a], i)), "dense element " + str(i)); break; }
        case 18: { vector<pair<unsigned, double>> ps(r[b].begin(), r[b].end()); if (ps.empty()) break; for (size_t i = ps.size() - 1; i > 0; --i) swap(ps[i], ps[rint(0, i)]); V c(ps.data(), ps.data() + ps.size()); same(c, r[b], "built from pairs"); v[a] = c; r[a] = R(r[b]); break; }
        case 19: { if (rint(0, 2)) break; R t; V c; for (auto& p : r[b]) { if (p.first == 0) continue; unsigned f = FD::Convert("f" + str(p.first)); c.set_value(f, p.second); t[f] = p.second; } stringstream ss; { boost::archive::text_oarchive o(ss); const V& d = c; o << d; } V d; if (rint(0, 1)) d.set_value(3, 4); { boost::archive::text_iarchive i(ss); i >> d; } R u = rd(d); check(eqv(u, t), "reloaded " + sh(u) + " instead of " + sh(t)); break; }
      }
      for (int i = 0; i < N; ++i) same(v[i], r[i], "vector " + str(i) + " after operation " + str(op));
      for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { if (rd(v[i]) == rd(v[j])) check(v[i] == v[j], "equal vectors compare unequal"); else if (!eqv(r[i], r[j])) check(!(v[i] == v[j]), "different vectors " + sh(r[i]) + " and " + sh(r[j]) + " compare equal"); }
    }
  }
  return done();
}
