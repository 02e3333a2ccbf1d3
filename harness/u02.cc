// Instantiates SmallVector<int,2> (SmallVectorInt, the tails of hyperedges).
#include <streambuf>
#include <algorithm>
#include "small_vector.h"
typedef SmallVector<int, 2> V;
int use(V& a, const V& b, const int* p, const int* q, size_t n) {
  V c; V d(n); V e(n, 3); V f(p, q); V g(b);
  a = b; a.push_back(1); a.pop_back(); a.resize(n, 4); a.clear(); a.compact(2); a.compact();
  a.erase(a.begin()); a.erase(a.begin(), a.end());
  a.back() = b.back(); a.front() = b.front(); a[0] = b[1];
  a.ensure_capacity(9);
  swap(a, c);
  return (a == b) + (a != b) + a.empty() + a.size() + (b.end() - b.begin()) + (a.end() - a.begin());
}
