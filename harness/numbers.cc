// P01: extended numbers against extended arithmetic computed in long double / __int128.
#include "h.hh"
#include "Number.hh"
#include "CommonDefs.hh"
using namespace EUROPA;
typedef long double LD;
static LD INF_;
struct X { LD v; bool thr; bool skip; };
static X sem(char op, LD a, LD b, bool real) {
  X r{0, false, false};
  bool ai = a >= INF_, am = a <= -INF_, bi = b >= INF_, bm = b <= -INF_;
  LD raw = 0;
  if (op == '+' || op == '-') {
    bool pi = op == '+' ? bi : bm, mi = op == '+' ? bm : bi;
    if ((ai && mi) || (am && pi)) { r.skip = true; return r; }
    if (ai || pi) { r.v = INF_; return r; }
    if (am || mi) { r.v = -INF_; return r; }
    raw = op == '+' ? a + b : a - b;
  } else if (op == '*') {
    if (a == 0 || b == 0) { r.v = 0; return r; }
    if (ai || am || bi || bm) { r.v = (a > 0) == (b > 0) ? INF_ : -INF_; return r; }
    raw = a * b;
  } else if (op == '/') {
    if (b == 0) { r.skip = true; return r; }
    bool ainf = ai || am, binf = bi || bm;
    if (ainf && binf) { r.skip = true; return r; }
    if (ainf) { r.v = (a > 0) == (b > 0) ? INF_ : -INF_; return r; }
    if (binf) { r.v = 0; return r; }
    raw = real ? (LD)((double)a / (double)b) : std::trunc(a / b);
  } else { // %
    if (b == 0) { r.skip = true; return r; }
    if (ai || am) { r.v = 0; return r; }
    if (bi) { r.v = a; return r; }
    if (bm) { r.v = -a; return r; }
    r.v = a - b * std::trunc(a / b); return r;
  }
  if (real) raw = op == '+' ? (double)a + (double)b : op == '-' ? (double)a - (double)b : op == '*' ? (double)a * (double)b : raw;
  if (raw > INF_ || raw < -INF_) { r.thr = true; if (std::fabs(raw) > 9e18L) r.skip = true; }
  r.v = raw; return r;
}
template <class T> static LD val(T x) { return (LD)x; }
template <> LD val<edouble>(edouble x) { return (LD)cast_double(x); }
template <> LD val<eint>(eint x) { return (LD)cast_long(x); }
template <class T> struct nm { static const char* n() { return "long"; } };
template <> struct nm<edouble> { static const char* n() { return "edouble"; } };
template <> struct nm<eint> { static const char* n() { return "eint"; } };
template <> struct nm<double> { static const char* n() { return "double"; } };
template <> struct nm<int> { static const char* n() { return "int"; } };
template <> struct nm<unsigned long> { static const char* n() { return "unsigned long"; } };
template <class T> struct isr { enum { v = 0 }; };
template <> struct isr<edouble> { enum { v = 1 }; };

template <class A, class B, class F> static void bin(char op, A a, B b, F f) {
  std::ostringstream o; o << nm<A>::n() << "(" << (double)val(a) << ") " << op << " " << nm<B>::n() << "(" << (double)val(b) << ")";
  H::at(o.str()); H::count(true);
  std::string sig = std::string(nm<A>::n()) + op + nm<B>::n();
  try {
    auto r = f(a, b);
    X x = sem(op, val(a), val(b), isr<decltype(r)>::v);
    if (x.skip) return;
    if (x.thr) { CHECK("P01", sig + ".overflow", false, o.str() << " = " << (double)val(r) << " but is out of range"); return; }
    CHECK("P01", sig, val(r) == x.v, o.str() << " = " << (double)val(r) << " expected " << (double)x.v);
  } catch (std::exception& e) {
    X x = sem(op, val(a), val(b), isr<decltype(f(a, b))>::v);
    if (x.skip) return;
    CHECK("P01", sig + ".exception", x.thr, o.str() << " raised " << e.what() << " expected " << (double)x.v);
  }
}
template <class A, class B> static void cmp(A a, B b) {
  std::ostringstream o; o << nm<A>::n() << "(" << (double)val(a) << ") cmp " << nm<B>::n() << "(" << (double)val(b) << ")";
  H::at(o.str()); H::count(true); LD x = val(a), y = val(b);
  CHECK("P01", std::string(nm<A>::n()) + "cmp" + nm<B>::n(), (a < b) == (x < y) && (a <= b) == (x <= y) && (a == b) == (x == y) && (a >= b) == (x >= y) && (a > b) == (x > y) && (a != b) == (x != y), o.str());
}
template <class A, class B> static void arith(A a, B b) {
  bin('+', a, b, [](A p, B q) { return p + q; }); bin('-', a, b, [](A p, B q) { return p - q; }); bin('*', a, b, [](A p, B q) { return p * q; });
  if (val(b) != 0) bin('/', a, b, [](A p, B q) { return p / q; });
}
template <class A, class B> static void comp(A a, B b) {
  bin('+', a, b, [](A p, B q) { p += q; return p; }); bin('-', a, b, [](A p, B q) { p -= q; return p; }); bin('*', a, b, [](A p, B q) { p *= q; return p; });
  if (val(b) != 0) bin('/', a, b, [](A p, B q) { p /= q; return p; });
  bin('+', a, b, [](A p, B q) { A c = p; return A(c += q); }); bin('-', a, b, [](A p, B q) { A c = p; return A(c -= q); });
  bin('*', a, b, [](A p, B q) { A c = p; return A(c *= q); });
}
template <class A> static void un(A a) {
  LD x = val(a); std::ostringstream o; o << nm<A>::n() << "(" << (double)x << ")"; std::string s = nm<A>::n(); H::at(o.str()); H::count(true);
  bool inf = x >= INF_ || x <= -INF_; LD up = inf ? x : isr<A>::v ? (LD)((double)x + 1.0) : x + 1, dn = inf ? x : isr<A>::v ? (LD)((double)x - 1.0) : x - 1;
  CHECK("P01", s + ".neg", val(-a) == -x && val(+a) == x && (!a) == (x == 0), o.str());
  A b = a; A c = ++b; CHECK("P01", s + ".preinc", val(b) == up && val(c) == up, o.str());
  b = a; c = b++; CHECK("P01", s + ".postinc", val(b) == up && val(c) == x, o.str() << " became " << (double)val(b) << " returned " << (double)val(c));
  b = a; c = --b; CHECK("P01", s + ".predec", val(b) == dn && val(c) == dn, o.str());
  b = a; c = b--; CHECK("P01", s + ".postdec", val(b) == dn && val(c) == x, o.str());
  CHECK("P01", s + ".casts", cast_long(a) == (long)x && cast_double(a) == (double)x && cast_int(a) == (long)x && cast_ldouble(a) == x && cast_llong(a) == (long long)x, o.str());
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  INF_ = (LD)cast_long(PLUS_INFINITY);
  long I = cast_long(PLUS_INFINITY);
  std::vector<long> iv = { 0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 1000, -4096, 1L << 31, -(1L << 31), I / 2, -I / 2, I / 2 + 1, I - 1, 1 - I, I, -I };
  std::vector<double> dv = { 0, 1, -1, .5, -.5, 1.25, -2.75, 3, -7, 1e-5, -1e-5, 1e6, -12345.678, 1e12, -1e15, I / 2 + 1.0, -I / 2 - 1.0, I - 1.0, 1.0 - I, (double)I, -(double)I };
  for (double e : H::extra) { if (std::fabs(e) <= I) dv.push_back(e); if (std::fabs(e) <= I && e == std::floor(e)) iv.push_back((long)e); }
  if (H::thorough()) for (int i = 0; i < 150; i++) { long r = (long)(H::rnd() % (2UL * I)) - I; int sh = H::rnd(52); iv.push_back(r >> sh); dv.push_back((double)(r >> sh) / (double)(1 + H::rnd(1000))); }
  for (long a : iv) {
    un(eint(a));
    for (long b : iv) {
      eint x(a), y(b);
      arith(x, y); comp(x, y); cmp(x, y);
      arith(x, b); arith(a, y); cmp(x, b); cmp(a, y); comp(x, b);
      if (b >= -(1L << 31) && b < (1L << 31)) { arith(x, (int)b); cmp(x, (int)b); }
      if (b >= 0) arith(x, (unsigned long)b);
      if (b != 0) { bin('%', x, y, [](eint p, eint q) { return p % q; }); bin('%', x, b, [](eint p, long q) { return p % q; }); bin('%', a, y, [](long p, eint q) { return p % q; });
        bin('%', x, y, [](eint p, eint q) { p %= q; return p; }); }
    }
    for (double b : dv) { eint x(a); edouble y(b); arith(x, y); arith(x, b); cmp(x, y); cmp(x, b); arith(y, x); cmp(y, x); }
  }
  for (double a : dv) {
    un(edouble(a)); edouble e(a);
    CHECK("P01", "edouble.floor", cast_double(std::floor(e)) == std::floor(a) && cast_double(std::ceil(e)) == std::ceil(a) && cast_double(std::abs(e)) == std::fabs(a), "floor/ceil/abs of " << a);
    CHECK("P01", "edouble.eint", cast_long((eint)e) == (long)a, "eint of " << a);
    for (double b : dv) { edouble x(a), y(b); arith(x, y); comp(x, y); cmp(x, y); arith(x, b); arith(a, y); cmp(x, b); cmp(a, y);
      CHECK("P01", "edouble.minmax", cast_double(std::min(x, y)) == std::min(a, b) && cast_double(std::max(x, y)) == std::max(a, b), "min/max of " << a << "," << b); }
  }
  return H::done();
}
