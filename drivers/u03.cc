// Searches for LogVal and PRPair values whose arithmetic, order, equality or hash differs from that of the numbers they stand for.
#include "common.h"
#include "logval.h"
#include "exp_semiring.h"
using namespace drv; using namespace std;
typedef LogVal<double> L; typedef PRPair<double, double> P;
static double gen() {
  switch (rint(0, 9)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return -0.0; case 4: return rint(-4, 4); case 5: return rint(-4, 4) * 0.25; case 6: return pow(10, rint(-30, 30)) * (rint(0, 1) ? 1 : -1); default: return (rreal() - 0.5) * pow(10, rint(-3, 4)); }
}
static bool cl(double a, double b, double scale) { return a == b || fabs(a - b) <= 1e-9 * scale; }
static string sh(const L& x) { return str(x.as_float()) + (x.s_ ? "(-)" : ""); }
struct V { L l; double d; };   // a LogVal and the number it stands for
static V mk(double d) {
  V v; v.d = d;
  switch (rint(0, 5)) { case 0: v.l = L(fabs(d)); if (d < 0) v.l.negate(); break; case 1: v.l = L(log(fabs(d)), d < 0); break; case 2: { L t; t = d; v.l = t; break; } case 3: v.l = d == 0 ? L(1) * L() : L(d); break; case 4: if (d == 0) v.l = rint(0, 1) ? L(3) - L(3) : L(-1) * L(0); else v.l = L(d); break; default: v.l = L(d); }
  if (d >= 0 && rint(0, 5) == 0) v.l = L::exp(log(d));
  if (d >= 0 && rint(0, 5) == 0) { v.l.logeq(log(d)); }
  if (d >= 0 && rint(0, 5) == 0) v.l = L(log(d), init_lnx());
  return v;
}
int main(int argc, char** argv) {
  init(argc, argv);
  check(L(init_0()).as_float() == 0 && L(init_1()).as_float() == 1 && L(init_minus_1()).as_float() == -1 && L::One().as_float() == 1 && L::Zero().as_float() == 0 && L().as_float() == 0 && close(L::e().as_float(), exp(1)), "constants");
  while (more()) {
    double x = gen(), y = rint(0, 3) ? gen() : x; if (rint(0, 9) == 0) y = -x;
    V a = mk(x), b = mk(y);
    input("a=" + str(x) + " b=" + str(y) + " as " + sh(a.l) + " " + sh(b.l));
    double s = max(fabs(x), fabs(y));
    check(cl(a.l.as_float(), x, fabs(x)), "value");
    check(cl((a.l + b.l).as_float(), x + y, s), "a+b is " + sh(a.l + b.l)); check(cl((a.l - b.l).as_float(), x - y, s), "a-b is " + sh(a.l - b.l));
    check(cl((a.l * b.l).as_float(), x * y, fabs(x * y)), "a*b is " + sh(a.l * b.l)); if (y != 0) check(cl((a.l / b.l).as_float(), x / y, fabs(x / y)), "a/b is " + sh(a.l / b.l));
    { L t = a.l; t += b.l; check(t == a.l + b.l || std::isnan(t.v_), "+="); t = a.l; t -= b.l; check(cl(t.as_float(), x - y, s), "-="); t = a.l; t *= b.l; check(cl(t.as_float(), x * y, fabs(x * y)), "*="); if (y != 0) { t = a.l; t /= b.l; check(cl(t.as_float(), x / y, fabs(x / y)), "/="); } t = a.l; t += t; check(cl(t.as_float(), 2 * x, s), "a+=a"); t = a.l; t *= t; check(cl(t.as_float(), x * x, x * x), "a*=a"); t = a.l; t.negate(); check(cl(t.as_float(), -x, s), "negate"); }
    check(cl((-a.l).as_float(), -x, s), "-a"); check(cl(abs(a.l).as_float(), fabs(x), s), "abs is " + sh(abs(a.l)));
    if (x != 0) { check(cl(a.l.inverse().as_float(), 1 / x, fabs(1 / x)), "inverse is " + sh(a.l.inverse())); check(signbit(a.l) == (x < 0) && a.l.signbit() == (x < 0), "signbit"); }
    check(a.l.is_0() == (x == 0), "is_0"); check(a.l.is_1() == (x == 1), "is_1");
    // order: only numbers that are equal or clearly apart (rounding of the logarithm)
    if (x == y || fabs(x - y) > 1e-9 * s) {
      if (x != y || a.l.v_ == b.l.v_) {
        check((a.l == b.l) == (x == y), "=="); check((a.l != b.l) == (x != y), "!="); check((a.l < b.l) == (x < y), "<"); check((a.l <= b.l) == (x <= y), "<="); check((a.l > b.l) == (x > y), ">"); check((a.l >= b.l) == (x >= y), ">="); check(a.l.lt(b.l) == (x < y), "lt"); check(a.l.gt(b.l) == (x > y), "gt");
        if (a.l == b.l) check(hash_value(a.l) == hash_value(b.l), "hash of equal values");
      }
    }
    if (x > 0) { double e = rint(-3, 3) * 0.5; check(cl(pow(a.l, e).as_float(), pow(x, e), pow(x, e) * 10) && cl(a.l.pow(e).as_float(), pow(x, e), pow(x, e) * 10), "pow " + str(e)); L t = a.l; t.poweq(e); check(t == a.l.pow(e), "poweq"); check(cl(a.l.root(2).as_float(), sqrt(x), sqrt(x) * 10), "root"); check(close(log(a.l), log(x)), "log"); }
    if (x > 0 && x < 0.999) check(cl(star(a.l).as_float(), 1 / (1 - x), 10 / (1 - x)), "star is " + sh(star(a.l)));
    P p(x, y), q(gen(), gen()); P r = p + q; check(r.p == x + q.p && r.r == y + q.r, "pair sum"); r = p * q; check(close(r.p, x * q.p) && close(r.r, x * q.r + y * q.p), "pair product"); r = p; r *= r; check(close(r.p, x * x) && close(r.r, 2 * x * y), "pair square"); r = p; r += r; check(r.p == 2 * x && r.r == 2 * y, "pair doubled");
    check(P(x).p == x && P(x).r == 0 && P().p == 0 && P().r == 0, "pair construction");
    if (fabs(x) < 0.999 && x != 0) { r = star(p); check(close(r.p, 1 / (1 - x)) && close(r.r, y / (1 - x) / (1 - x)), "pair star"); }
  }
  return done();
}
