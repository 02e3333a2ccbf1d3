// Instantiates FastSparseVector<double>, the feature and weight vectors.
#include "hash.h"
#include "fast_sparse_vector.h"
typedef FastSparseVector<double> V;
double use(V& a, const V& b, std::pair<unsigned, double>* p, std::vector<double>& w) {
  V c; V d(b); V e(p, p + 3); c = b; a += b; a -= b; a *= 2.0; a /= 3.0; a.plus_eq_v_times_s(b, 2.0); a.erase(3); a.clear(); c = a.erase_zeros(); c.swap(d); b.init_vector(w); b.init_vector(&w);
  c.set_value(1, 2); c.add_value(1, 2); c[3] = 2; c = a + b; c = a - b;
  return (a == b) + a.empty() + a.size() + a.num_nonzero() + a.nonzero(3) + a.value(3) + a.get(3) + a.get_singleton() + a.dot(b) + a.dot(w) + a.l2norm() + a.l2norm_sq() + a.pnorm(2) + (a.find(3) == a.end()) + (b.find(3) == b.end()) + a.begin()->second + b.begin()->second + a.tanimoto_coef(b);
}
