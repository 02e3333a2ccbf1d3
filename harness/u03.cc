// Instantiates LogVal<double> and its operators.
#include "logval.h"
typedef LogVal<double> L;
template class LogVal<double>;
struct U {
  static L f(L a, const L& b, double x) {
    a += b; a -= b; a *= b; a /= b;
    L r = (a + b) * (a - b) / b;
    bool t = a == b; t = t ^ (a != b); t = t ^ (a < b); t = t ^ (a <= b); t = t ^ (a > b); t = t ^ (a >= b);
    r = abs(r); r = -r; r = L(x) + L(log(a), false) + L(init_1()) + L(init_0()) + L(init_minus_1()) + L(x, init_lnx()); r = x; r += pow(a, x); r += a.root(x); r += a.inverse();
    t = t ^ a.is_1() ^ a.gt(b);
    return t ? r : L(hash_value(a)) * L(a.as_float());
  }
};
#include "exp_semiring.h"
typedef PRPair<double, double> P;
template struct PRPair<double, double>;
P g(const P& a, const P& b) { P r = a + b; r = r * a; return r; }
