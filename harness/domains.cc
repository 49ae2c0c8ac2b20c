// P02/P03/P04: every operation of interval and enumerated domains over a small universe, against a model.
#include "h.hh"
#include "Domains.hh"
#include "DomainListener.hh"
#include "DataTypes.hh"
#include "LabelStr.hh"
#include "Error.hh"
using namespace EUROPA;
typedef double D;
static const D INFV = cast_double(PLUS_INFINITY);
static const D EPS = 1e-5;

struct L : public DomainListener { std::vector<int> ev; void notifyChange(const ChangeType& c) { ev.push_back(c); } };
enum { R, I, B, EN, EI, SY, ST };
static const char* KN[] = { "real-interval", "int-interval", "bool", "float-enum", "int-enum", "symbol-enum", "string-enum" };

struct M {                      // the model: an interval or a finite set
  int k; bool closed; D lb, ub; std::set<D> s;
  bool isI() const { return k <= B; }
  D delta() const { return k == R || k == EN ? EPS : (k >= SY ? EPS : 1); }
  bool empty() const { return isI() ? lb > ub : s.empty(); }
  bool single() const { return isI() ? lb == ub : s.size() == 1; }
  bool mem(D v) const {
    if (isI()) { if (k != R && v != std::floor(v) && std::fabs(v) < INFV) return false; return lb <= v && v <= ub; }
    return s.count(v) > 0;
  }
  D lo() const { return isI() ? lb : *s.begin(); }
  D hi() const { return isI() ? ub : *s.rbegin(); }
  void mkempty() { if (isI()) { lb = 1; ub = 0; } else s.clear(); }
  std::string str() const {
    std::ostringstream o; o << KN[k] << (closed ? "" : "(open)");
    if (isI()) { if (lb > ub) o << "[empty]"; else o << "[" << lb << "," << ub << "]"; }
    else { o << "{"; bool f = true; for (D x : s) { if (!f) o << ","; f = false; o << x; } o << "}"; }
    return o.str();
  }
};
static std::vector<D> labels, strs;
static DataTypeId dtof(int k) {
  switch (k) { case R: case EN: return FloatDT::instance(); case I: case EI: return IntDT::instance(); case B: return BoolDT::instance();
    case SY: return SymbolDT::instance(); default: return StringDT::instance(); }
}
static Domain* mk(const M& m) {
  std::list<edouble> l; for (D x : m.s) l.push_back(x);
  Domain* d = 0;
  switch (m.k) {
    case R: d = m.empty() ? (Domain*)new IntervalDomain(0.0, 1.0) : new IntervalDomain(m.lb, m.ub); if (m.empty()) d->empty(); return d;
    case I: d = m.empty() ? new IntervalIntDomain(0L, 1L) : new IntervalIntDomain(eint(edouble(m.lb)), eint(edouble(m.ub))); if (m.empty()) d->empty(); return d;
    case B: d = new BoolDomain(); if (m.empty()) d->empty(); else if (m.lb == m.ub) d->set(m.lb); return d;
    case EN: if (m.s.size() == 1 && m.closed) return new NumericDomain(*m.s.begin(), FloatDT::instance()); d = new EnumeratedDomain(dtof(m.k)); break;
    case EI: d = new EnumeratedDomain(dtof(m.k)); break;
    case SY: d = new SymbolDomain(); break;
    default: d = new StringDomain(); break;
  }
  for (edouble x : l) d->insert(x);
  if (m.closed) d->close();
  return d;
}
static D tod(edouble e) { return cast_double(e); }
// read the domain back through bounds/values into a model
static M readback(const M& shape, Domain* d) {
  M m = shape; m.closed = d->isClosed();
  if (m.isI()) { if (d->isEmpty()) m.mkempty(); else { m.lb = tod(d->getLowerBound()); m.ub = tod(d->getUpperBound()); } }
  else { m.s.clear(); std::list<edouble> l; d->getValues(l); for (edouble x : l) m.s.insert(tod(x)); }
  return m;
}
static bool close_(D a, D b) { return a == b || std::fabs(a - b) < 2.5 * EPS; }
static bool same(const M& a, const M& b) {
  if (a.closed != b.closed) return false;
  if (a.isI()) return a.empty() == b.empty() && (a.empty() || (close_(a.lb, b.lb) && close_(a.ub, b.ub)));
  return a.s == b.s;
}
static std::vector<M> intervals, bools, ints, enums, syms, strsM;
static std::vector<D> rv, iv;
static std::vector<M> all;
static std::string P(const M& m) { return m.isI() ? "P02" : "P03"; }
static bool wants(const std::string& p) { return H::prop == p || H::prop == "all"; }

static void build() {
  rv = { -INFV, -3, -1.5, 0, 0.5, 2, INFV }; iv = { -INFV, -2, -1, 0, 1, 2, 4, INFV };
  if (H::thorough()) { rv = { -INFV, -1e6, -3, -1.5, 0, 0.5, 0.75, 2, 2.25, 1e6, INFV }; iv = { -INFV, -100000, -2, -1, 0, 1, 2, 3, 4, 100000, INFV }; }
  int n = 0;
  for (D x : H::extra) if (std::fabs(x) < 1e8 && n++ < 3) {
    D r = std::floor(x * 64 + .5) / 64; if (std::find(rv.begin(), rv.end(), r) == rv.end()) rv.push_back(r);
    D i = std::floor(x + .5); if (std::find(iv.begin(), iv.end(), i) == iv.end()) iv.push_back(i);
  }
  std::sort(rv.begin(), rv.end()); std::sort(iv.begin(), iv.end());
  for (D a : rv) for (D b : rv) if (a <= b && !(a == b && std::fabs(a) >= INFV)) intervals.push_back(M{ R, true, a, b, {} });
  intervals.push_back(M{ R, true, 1, 0, {} });
  for (D a : iv) for (D b : iv) if (a <= b && !(a == b && std::fabs(a) >= INFV)) ints.push_back(M{ I, true, a, b, {} });
  ints.push_back(M{ I, true, 1, 0, {} });
  bools = { M{B,true,0,0,{}}, M{B,true,1,1,{}}, M{B,true,0,1,{}}, M{B,true,1,0,{}} };
  const char* nm[] = { "alpha", "beta", "gamma", "delta" };
  for (auto x : nm) labels.push_back(tod(LabelStr(x).getKey()));
  std::sort(labels.begin(), labels.end());
  auto subsets = [&](int k, std::vector<D> v, std::vector<M>& o) {
    for (unsigned b = 0; b < (1u << v.size()); b++) for (int c = 0; c < 2; c++) {
      M m{ k, c == 0, 0, 0, {} }; for (size_t i = 0; i < v.size(); i++) if (b >> i & 1) m.s.insert(v[i]); o.push_back(m); } };
  subsets(EN, H::thorough() ? std::vector<D>{ -1.5, 0, 0.5, 2, 3 } : std::vector<D>{ -1.5, 0, 0.5, 2 }, enums);
  std::vector<M> ei; subsets(EI, H::thorough() ? std::vector<D>{ -2, 0, 1, 2, 4 } : std::vector<D>{ -2, 0, 1, 4 }, ei);
  enums.insert(enums.end(), ei.begin(), ei.end());
  subsets(SY, labels, syms); subsets(ST, labels, strsM);
  for (auto* v : { &intervals, &ints, &bools, &enums, &syms, &strsM }) all.insert(all.end(), v->begin(), v->end());
}
static std::vector<D> probes(const M& m) {
  std::vector<D> o;
  if (m.k >= SY) { o = labels; return o; }
  if (m.k == I || m.k == B || m.k == EI) { o = iv; o.push_back(1); o.push_back(3); }
  else { o = rv; o.push_back(0.25); o.push_back(1.0); }
  return o;
}
// last event expected when a restriction leaves r
static int evs(const M& m, const M& r, int plain) { return r.empty() ? DomainListener::EMPTIED : r.single() ? DomainListener::RESTRICT_TO_SINGLETON : plain; }
static int plainI(const M& a, const M& r) {
  bool l = !close_(a.lb, r.lb), u = !close_(a.ub, r.ub);
  return l && u ? DomainListener::BOUNDS_RESTRICTED : l ? DomainListener::LOWER_BOUND_INCREASED : DomainListener::UPPER_BOUND_DECREASED;
}
static std::string evstr(const std::vector<int>& v) { std::string s = "["; for (int e : v) s += DomainListener::toString((DomainListener::ChangeType)e) + " "; return s + "]"; }

template <class F> static bool guard(F f, std::string& err) {
  try { f(); return true; } catch (Error& e) { err = e.getMsg(); return false; } catch (const char* c) { err = c; return false; }
  catch (std::exception& e) { err = e.what(); return false; }
}
// run a mutator on a fresh copy; compare with the expected model and expected events
// expev: -1 = not checked, -2 = none, else exactly one event of this kind (extra leading kinds in pre)
static void mut(const char* op, const M& a, const std::string& arg, const std::function<int(Domain*)>& f, const M& want, int ret, int expev, const std::vector<int>& pre = {}) {
  std::string what = a.str() + "." + op + "(" + arg + ")";
  H::at(what); H::sample(what);
  Domain* d = mk(a); L lis; d->setListener(lis.getId()); lis.ev.clear();
  int got = -1; std::string err;
  bool ok = guard([&] { got = f(d); }, err);
  bool changed = !same(a, want);
  H::count(changed);
  if (wants(P(a)) || !ok) {
    CHECK(wants(P(a)) ? P(a) : H::prop, std::string(KN[a.k]) + "." + op + ".error", ok, what << " raised: " << err.substr(0, 120));
    if (ok && wants(P(a))) {
      M r = readback(a, d);
      CHECK(P(a), std::string(KN[a.k]) + "." + op + ".result", same(r, want), what << " gave " << r.str() << " expected " << want.str());
      if (ret >= 0) CHECK(P(a), std::string(KN[a.k]) + "." + op + ".return", got == ret, what << " returned " << got << " expected " << ret);
    }
  }
  if (ok && wants("P04") && expev != -1) {
    std::vector<int> e = pre; if (expev >= 0) e.push_back(expev);
    CHECK("P04", std::string(KN[a.k]) + "." + op + ".events", lis.ev == e, what << " notified " << evstr(lis.ev) << " expected " << evstr(e));
  }
  delete d;
}
static void queries(const M& a) {
  Domain* d = mk(a); std::string pp = P(a), kn = KN[a.k];
  if (!wants(pp)) { delete d; return; }
  H::at(a.str() + " queries"); H::count(true);
  std::string err;
  bool ok = guard([&] {
    CHECK(pp, kn + ".isEmpty", d->isEmpty() == a.empty(), a.str() << ".isEmpty() = " << d->isEmpty());
    CHECK(pp, kn + ".isSingleton", d->isSingleton() == a.single(), a.str() << ".isSingleton() = " << d->isSingleton());
    CHECK(pp, kn + ".isClosed", d->isClosed() == a.closed, a.str());
    bool fin = !a.isI() || a.k == B || (a.k == I ? a.lb > -INFV && a.ub < INFV : (a.empty() || (a.single() && std::fabs(a.lb) < INFV)));
    CHECK(pp, kn + ".isFinite", d->isFinite() == fin, a.str() << ".isFinite() = " << d->isFinite());
    if (!a.empty()) {
      CHECK(pp, kn + ".bounds", tod(d->getLowerBound()) == a.lo() && tod(d->getUpperBound()) == a.hi(), a.str() << " bounds " << d->getLowerBound() << "," << d->getUpperBound());
      edouble l, u; bool inf = d->getBounds(l, u);
      CHECK(pp, kn + ".getBounds", tod(l) == a.lo() && tod(u) == a.hi(), a.str() << " getBounds " << l << "," << u);
      CHECK(pp, kn + ".getBounds.infinite", inf == (a.k >= SY || a.lo() <= -INFV || a.hi() >= INFV), a.str() << " getBounds returned " << inf);
    }
    if (fin) {
      if (!a.isI()) CHECK(pp, kn + ".getSize", d->getSize() == a.s.size(), a.str() << ".getSize() = " << d->getSize());
      else CHECK(pp, kn + ".getSize", (D)d->getSize() == (a.empty() ? 0 : a.k == R ? 1 : a.ub - a.lb + 1), a.str() << ".getSize() = " << d->getSize());
      if (!(a.k == R && !a.single()) && !(a.k == B && a.empty()) && !(a.isI() && a.ub - a.lb > 1000)) {
        std::list<edouble> l; d->getValues(l); std::set<D> g; for (edouble x : l) g.insert(tod(x));
        std::set<D> w = a.s; if (a.isI()) for (D x = a.lb; x <= a.ub; x++) w.insert(x);
        CHECK(pp, kn + ".getValues", g == w && l.size() == w.size(), a.str() << ".getValues() = " << H::list(l));
      }
    }
    if (a.single()) CHECK(pp, kn + ".getSingletonValue", tod(d->getSingletonValue()) == a.lo(), a.str() << " singleton value " << d->getSingletonValue());
    for (D v : probes(a)) if (!(a.k == ST && !a.closed)) {
      CHECK(pp, kn + ".isMember", d->isMember(v) == a.mem(v), a.str() << ".isMember(" << v << ") = " << d->isMember(v)); H::cases++;
      if ((a.k == R || a.k == EN) && std::fabs(v) < 1e8) for (D t : { -0.4 * EPS, 0.4 * EPS, -2 * EPS, 2 * EPS }) {
        bool w = a.mem(v + t) || (std::fabs(t) < EPS && a.mem(v));
        CHECK(pp, kn + ".isMember.tolerance", d->isMember(v + t) == w, a.str() << ".isMember(" << v << (t > 0 ? "+" : "") << t << ") = " << d->isMember(v + t)); H::cases++;
      }
      if ((a.k == I || a.k == B) && std::fabs(v) < 1e8) CHECK(pp, kn + ".isMember.fraction", !d->isMember(v + 0.5), a.str() << ".isMember(" << v + 0.5 << ")");
    }
    Domain* c = d->copy(); M r = readback(a, c);
    CHECK(pp, kn + ".copy", same(r, a), a.str() << ".copy() = " << r.str()); delete c;
  }, err);
  CHECK(pp, kn + ".queries.error", ok, a.str() << " raised " << err.substr(0, 120));
  delete d;
}
// operands of different resolution (integers against reals) are compared only where the result is exact
static bool gran(const M& a) { return a.k == R || a.k == EN; }
static bool coarse(const M& m) { if (!gran(m)) return true; if (m.isI()) return m.empty() || ((std::floor(m.lb) == m.lb || m.lb <= -INFV) && (std::floor(m.ub) == m.ub || m.ub >= INFV)); for (D x : m.s) if (std::floor(x) != x) return false; return true; }
static bool comparable(const M& a, const M& b) { bool na = a.k < SY, nb = b.k < SY; return na == nb && (na || a.k == b.k); }
static M setI(const M& a, D l, D u) { M w = a; if (l > u) w.mkempty(); else { w.lb = l; w.ub = u; } return w; }
// the values of b that a domain of the kind of a can hold, intersected with a
static M meet(const M& a, const M& b) {
  M w = a;
  if (a.empty()) return w;
  if (a.isI()) {
    if (b.empty()) { w.mkempty(); return w; }
    D l = std::max(a.lb, b.lo()), u = std::min(a.ub, b.hi());
    if (a.k != R) { l = std::max(a.lb, b.lo() <= -INFV ? b.lo() : std::ceil(b.lo())); u = std::min(a.ub, b.hi() >= INFV ? b.hi() : std::floor(b.hi())); }
    return setI(a, l, u);
  }
  w.s.clear(); for (D x : a.s) if (b.mem(x)) w.s.insert(x);
  return w;
}
static void attach(const M& a) {
  if (!wants("P04")) return;
  Domain* d = mk(a); L l; d->setListener(l.getId()); std::vector<int> e;
  H::at(a.str() + ".setListener"); H::count(a.closed);
  if (a.closed) { e.push_back(DomainListener::CLOSED); if (a.empty()) e.push_back(DomainListener::EMPTIED); }
  CHECK("P04", std::string(KN[a.k]) + ".setListener.events", l.ev == e, "attaching a listener to " << a.str() << " notified " << evstr(l.ev) << " expected " << evstr(e));
  l.ev.clear(); std::string err; bool ok = guard([&] { d->touch(); }, err);
  int want = a.single() ? DomainListener::RESTRICT_TO_SINGLETON : DomainListener::BOUNDS_RESTRICTED;
  CHECK("P04", std::string(KN[a.k]) + ".touch.events", ok && l.ev == std::vector<int>(1, want), a.str() << ".touch() notified " << evstr(l.ev));
  delete d;
}
static void unary(const M& a) {
  std::vector<D> pv = probes(a);
  for (D v : pv) {
    std::string vs = H::str(v);
    bool fin = std::fabs(v) < INFV;
    if ((a.k == B) && v != 0 && v != 1) continue;
    // set
    if (fin && !(a.k == ST && !a.closed) && !(a.k == ST && !a.mem(v))) {
      M w = a; w.closed = true; if (a.mem(v)) { if (a.isI()) w = setI(a, v, v); else { w.s = { v }; } } else w.mkempty();
      std::vector<int> pre; if (!a.closed) { pre.push_back(DomainListener::CLOSED); if (a.empty()) pre.push_back(DomainListener::EMPTIED); }
      mut("set", a, vs, [&](Domain* d) { d->set(v); return -1; }, w, -1, a.mem(v) ? DomainListener::SET_TO_SINGLETON : DomainListener::EMPTIED, pre);
    }
    // remove
    if (fin && (!a.isI() || !a.mem(v) || a.lb == v || a.ub == v)) {
      M w = a; int ev = -2;
      if (a.mem(v)) {
        if (a.isI()) { D e = a.k == R ? EPS : 1; if (a.lb == v) w.lb += e; else w.ub -= e; if (w.lb > w.ub || a.lb == a.ub) { w.mkempty(); } ev = w.empty() ? DomainListener::EMPTIED : w.single() ? DomainListener::RESTRICT_TO_SINGLETON : a.lb == v ? DomainListener::LOWER_BOUND_INCREASED : DomainListener::UPPER_BOUND_DECREASED; }
        else { w.s.erase(v); ev = w.single() ? DomainListener::RESTRICT_TO_SINGLETON : (!w.empty() || !w.closed) ? DomainListener::VALUE_REMOVED : DomainListener::EMPTIED; }
      }
      if (!(a.k == R && a.lb == a.ub && a.mem(v)))
        mut("remove", a, vs, [&](Domain* d) { d->remove(v); return -1; }, w, -1, ev);
    }
    // insert
    if (fin && !a.closed) { M w = a; w.s.insert(v); mut("insert", a, vs, [&](Domain* d) { d->insert(v); return -1; }, w, -1, -2); }
    if (fin && (a.k == I)) {
      M w = a; bool can = true; int ev = DomainListener::RELAXED;
      if (a.empty()) w = setI(a, v, v); else if (a.mem(v)) ev = -2; else if (v == a.lb - 1) w.lb = v; else if (v == a.ub + 1) w.ub = v; else can = false;
      if (can) mut("insert", a, vs, [&](Domain* d) { d->insert(v); return -1; }, w, -1, ev);
    }
    // relax to a value
    if (fin && (a.empty() || (a.single() && a.mem(v)))) { M w = a; if (a.isI()) w = setI(a, v, v); else w.s = { v };
      mut("relax(value)", a, vs, [&](Domain* d) { d->relax(edouble(v)); return -1; }, w, -1, a.empty() ? DomainListener::RELAXED : -2); }
    // bounds intersection
    if (a.k < SY && (a.isI() || a.closed)) for (D u : (a.k == R || a.k == EN ? probes(a) : pv)) {
      std::vector<std::pair<D, D>> bs = { { v, u } };
      if (a.k == I && std::fabs(v) < 1e6 && std::fabs(u) < 1e6) { bs.push_back({ v - 0.5, u }); bs.push_back({ v, u + 0.25 }); }
      for (auto& b : bs) {
        M w = a; int ev = -2; bool ch;
        if (a.isI()) {
          D l = b.first, h = b.second; if (a.k != R) { if (std::fabs(l) < INFV) l = std::ceil(l); if (std::fabs(h) < INFV) h = std::floor(h); }
          if (a.empty()) continue;
          w = setI(a, std::max(a.lb, l), std::min(a.ub, h)); if (l > h) w.mkempty();
        } else { w.s.clear(); for (D x : a.s) if (b.first <= x && x <= b.second) w.s.insert(x); if (a.empty()) continue; }
        ch = !same(a, w); if (ch) ev = evs(a, w, a.isI() ? plainI(a, w) : (int)DomainListener::VALUE_REMOVED);
        if (!a.isI() && b.first > b.second) ev = DomainListener::EMPTIED, ch = true;
        mut("intersect(bounds)", a, H::str(b.first) + "," + H::str(b.second), [&](Domain* d) { return (int)d->intersect(edouble(b.first), edouble(b.second)); }, w, ch, ev);
      }
    }
  }
  { M w = a; w.mkempty(); mut("empty", a, "", [&](Domain* d) { d->empty(); return -1; }, w, -1, DomainListener::EMPTIED); }
  { M w = a; w.closed = true; std::vector<int> pre; int ev = a.closed ? -2 : (int)DomainListener::CLOSED; if (!a.closed && a.empty()) { pre.push_back(DomainListener::CLOSED); ev = DomainListener::EMPTIED; }
    mut("close", a, "", [&](Domain* d) { d->close(); return -1; }, w, -1, ev, pre); }
  if (a.closed && !a.isI()) { M w = a; w.closed = false; mut("open", a, "", [&](Domain* d) { d->open(); return -1; }, w, -1, DomainListener::OPENED); }
}
static void binary(const M& a, const M& b) {
  std::string pp = P(a), kn = KN[a.k], bs = b.str();
  std::string kb = std::string(KN[b.k]);
  if (gran(a) != gran(b) && (a.isI() == b.isI() ? !a.isI() : true) && !(coarse(a) && coarse(b))) return;
  Domain* db = mk(b);
  // intersect
  if (a.closed && b.closed && !(a.isI() && (a.empty() || b.empty()))) {
    M w = meet(a, b); bool ch = !same(a, w); int ev = ch ? evs(a, w, a.isI() ? plainI(a, w) : (int)DomainListener::VALUE_REMOVED) : -2;
    mut("intersect", a, bs, [&](Domain* d) { return (int)d->intersect(*db); }, w, ch, ev);
  } else if (!a.isI() && !b.isI() && !a.closed && b.closed) {
    M w = a; w.closed = true; w.s = b.s;
    mut("intersect", a, bs, [&](Domain* d) { return (int)d->intersect(*db); }, w, 1, -1);
  } else if (!b.closed && !a.isI())
    mut("intersect", a, bs, [&](Domain* d) { return (int)d->intersect(*db); }, a, 0, -2);
  // difference
  if (!b.empty() && b.closed && !(a.isI() && (a.empty() || !a.closed))) {
    M w = a; bool can = true; int ev = -2, rch = -1, rev = -2;
    if (!a.isI()) { w.s.clear(); for (D x : a.s) if (!b.mem(x)) w.s.insert(x); }
    else if (!b.isI() && gran(a) == gran(b)) {   // only the members leave; they have to be at the ends
      D e = a.k == R ? EPS : 1; bool low = false, high = false;
      while (w.lb <= w.ub && b.mem(w.lb)) { w.lb += e; low = true; }
      while (w.lb <= w.ub && b.mem(w.ub)) { w.ub -= e; high = true; }
      if (w.lb > w.ub) w.mkempty();
      else for (D x : b.s) if ((a.k == R || std::floor(x) == x) && w.lb <= x && x <= w.ub) can = false;
      if (a.k == R && a.lb == a.ub) can = false;
      if (a.k == R) rch = low || high; rev = low && high ? (int)DomainListener::BOUNDS_RESTRICTED : low ? (int)DomainListener::LOWER_BOUND_INCREASED : (int)DomainListener::UPPER_BOUND_DECREASED;
      if (a.k == R && !w.empty() && w.ub - w.lb < 2 * EPS) can = false;
    }
    else if (b.isI() && a.k != R && b.k == R && !b.empty()) {   // the integers between the bounds leave
      D l = std::fabs(b.lb) < INFV ? std::ceil(b.lb) : b.lb, u = std::fabs(b.ub) < INFV ? std::floor(b.ub) : b.ub;
      if (l > u || u < a.lb || a.ub < l) {}
      else if (a.lb < l && u < a.ub) can = false;
      else if (l <= a.lb && a.ub <= u) w.mkempty();
      else if (l <= a.lb) w.lb = u + 1;
      else w.ub = l - 1;
    }
    else if (!b.isI() || gran(a) != gran(b)) can = false;
    else if (a.lb < b.lb && b.ub < a.ub) can = false;
    else if (b.ub < a.lb || a.ub < b.lb) {}
    else if (b.lb <= a.lb && a.ub <= b.ub) w.mkempty();
    else if (b.lb <= a.lb) { D e = a.k == R ? EPS : 1; if (a.k != R && b.k == R) can = false; w.lb = b.ub + e; }
    else { D e = a.k == R ? EPS : 1; if (a.k != R && b.k == R) can = false; w.ub = b.lb - e; }
    if (a.isI() && !w.empty() && w.lb > w.ub) can = false;
    bool ch = !same(a, w); if (ch) ev = evs(a, w, a.isI() ? plainI(a, w) : (int)DomainListener::VALUE_REMOVED);
    if (a.empty()) ev = -1;
    if (rch >= 0) { ch = rch; ev = !ch ? -2 : w.empty() ? (int)DomainListener::EMPTIED : rev; }
    else if (a.k == R && ch) { ch = !w.empty() ? (std::fabs(w.lb - a.lb) > 1e-9 || std::fabs(w.ub - a.ub) > 1e-9) : true; if (!w.empty()) ev = b.lb <= a.lb ? (int)DomainListener::LOWER_BOUND_INCREASED : (int)DomainListener::UPPER_BOUND_DECREASED; if (!w.empty() && w.ub - w.lb < 2 * EPS) can = false; }
    if (rch < 0 && a.k == R && !ch && !w.empty() && !(b.ub < a.lb || a.ub < b.lb)) can = false;   // touches at one end: within resolution
    if (can && !a.isI()) { if (w.single() && ch) ev = DomainListener::RESTRICT_TO_SINGLETON; }
    if (can) mut("difference", a, bs, [&](Domain* d) { return (int)d->difference(*db); }, w, ch, ev);
  }
  // relax / reset: the argument includes this domain (or this domain is empty)
  {
    bool sub = a.empty();
    if (!sub && a.isI() && b.isI()) sub = b.k == a.k && b.lb <= a.lb && a.ub <= b.ub;
    if (!sub && !a.isI() && !b.isI() && b.k == a.k) { sub = true; for (D x : a.s) if (!b.s.count(x)) sub = false; if (!b.closed) sub = true; if (!a.closed && b.closed) sub = false; }
    if (sub && a.k == b.k && !(b.empty()) && (a.closed || !b.closed) && a.closed == b.closed) {
      M w = b; bool ch = !same(a, b);
      mut("relax", a, bs, [&](Domain* d) { d->relax(*db); return -1; }, w, -1, a.isI() && !ch ? -2 : (int)DomainListener::RELAXED);
      std::vector<int> pre; if (ch) pre.push_back(DomainListener::RELAXED);
      if (!(a.k == ST && (!a.closed || !b.closed)))
      mut("reset", a, bs, [&](Domain* d) { d->reset(*db); return -1; }, w, -1, ch ? (int)DomainListener::RESET : -2, pre);
    }
  }
  // queries
  std::string err;
  Domain* da = mk(a);
  H::at(a.str() + " vs " + bs); H::cases += 4;
  if (wants(pp)) {
    bool ok = guard([&] {
      if (a.k == b.k && !(a.k == ST && (!a.closed || !b.closed))) {
        bool eq = same(a, b);
        CHECK(pp, kn + ".operator==", (*da == *db) == eq, a.str() << " == " << bs << " gave " << (*da == *db));
        CHECK(pp, kn + ".operator!=", (*da != *db) == !eq, a.str() << " != " << bs << " gave " << (*da != *db));
      }
      if (a.closed && b.closed && !b.empty() && !a.empty()) {
        M w = meet(a, b);
        if (a.isI() && !b.isI()) { w = b; w.s.clear(); for (D x : b.s) if (a.mem(x)) w.s.insert(x); }
        if (a.isI() && b.isI() && gran(a) != gran(b)) { D l = std::max(a.lb, b.lb), u = std::min(a.ub, b.ub); w = setI(a, std::fabs(l) < INFV ? std::ceil(l) : l, std::fabs(u) < INFV ? std::floor(u) : u); }
        CHECK(pp, kn + ".intersects(" + kb + ")", da->intersects(*db) == !w.empty(), a.str() << ".intersects(" << bs << ") = " << da->intersects(*db));
        bool sub = true;
        if (!a.isI()) { for (D x : a.s) if (!b.mem(x)) sub = false; }
        else if (b.isI()) sub = b.lb <= a.lb && a.ub <= b.ub && (b.k == R || a.k != R || (a.lb == a.ub && a.lb == std::floor(a.lb)));
        else if (a.k == R) sub = a.lb == a.ub && b.mem(a.lb);
        else { if (a.ub - a.lb > 1000) sub = false; else for (D x = a.lb; x <= a.ub; x++) if (!b.mem(x)) sub = false; }
        if (!(a.k == R && b.isI() && b.k != R && a.lb != a.ub))
        CHECK(pp, kn + ".isSubsetOf(" + kb + ")", da->isSubsetOf(*db) == sub, a.str() << ".isSubsetOf(" << bs << ") = " << da->isSubsetOf(*db));
      }
      CHECK(pp, kn + ".query changed operand", same(readback(a, da), a) && same(readback(b, db), b), a.str() << " vs " << bs);
    }, err);
    CHECK(pp, kn + ".binary.error", ok, a.str() << " vs " << bs << " raised " << err.substr(0, 120));
  }
  delete da; delete db;
  // equate: both become their common values
  if (a.closed && b.closed && !a.empty() && !b.empty() && !(a.isI() && b.isI() && a.k != b.k)) {
    std::string what = a.str() + ".equate(" + bs + ")"; H::at(what);
    Domain* x = mk(a); Domain* y = mk(b); L lx, ly; x->setListener(lx.getId()); y->setListener(ly.getId()); lx.ev.clear(); ly.ev.clear();
    M wa = meet(a, b), wb = meet(b, a);
    if (a.isI() != b.isI()) { const M& e = a.isI() ? b : a; const M& i = a.isI() ? a : b; M w = e; w.s.clear(); for (D v : e.s) if (i.mem(v)) w.s.insert(v);
      M wi = i; if (w.empty()) wi.mkempty(); else wi = setI(i, std::max(i.lb, w.lo()), std::min(i.ub, w.hi())); (a.isI() ? wb : wa) = w; (a.isI() ? wa : wb) = wi; }
    bool r = false; bool ok = guard([&] { r = x->equate(*y); }, err);
    H::count(!same(wa, a) || !same(wb, b));
    if (wants(pp)) {
      CHECK(pp, kn + ".equate.error", ok, what << " raised " << err.substr(0, 120));
      if (ok) {
        M ra = readback(a, x), rb = readback(b, y);
        if (wa.empty() || wb.empty()) CHECK(pp, kn + ".equate.result", ra.empty() || rb.empty(), what << " gave " << ra.str() << " / " << rb.str() << " expected an empty domain");
        else CHECK(pp, kn + ".equate.result", same(ra, wa) && same(rb, wb), what << " gave " << ra.str() << " / " << rb.str() << " expected " << wa.str());
        CHECK(pp, kn + ".equate.return", r == (!same(ra, a) || !same(rb, b)), what << " returned " << r);
      }
    }
    if (ok && wants("P04")) {
      for (int q = 0; q < 2; q++) {
        M before = q ? b : a, after = q ? readback(b, y) : readback(a, x); const std::vector<int>& ev = q ? ly.ev : lx.ev;
        bool ch = !same(before, after);
        CHECK("P04", kn + ".equate.events", ev.empty() == !ch, what << (q ? " right" : " left") << " notified " << evstr(ev));
        if (ch && !ev.empty()) { int last = ev.back();
          int w = after.empty() ? (int)DomainListener::EMPTIED : after.single() ? (int)DomainListener::RESTRICT_TO_SINGLETON : -1;
          CHECK("P04", kn + ".equate.lastevent", w < 0 ? last < (int)DomainListener::RESTRICT_TO_SINGLETON : last == w, what << (q ? " right" : " left") << " notified " << evstr(ev)); }
      }
    }
    delete x; delete y;
  }
  // assignment
  if (a.k == b.k && wants(pp) && !(b.empty() && b.isI())) {
    Domain* x = mk(a); Domain* y = mk(b); std::string what = a.str() + " = " + bs; H::at(what);
    bool ok = guard([&] { *x = *y; }, err); M r = readback(a, x); M w = b; if (!a.isI()) w.closed = a.closed;
    CHECK(pp, kn + ".operator=", ok && same(r, w), what << " gave " << r.str() << " " << err);
    delete x; delete y;
  }
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  FloatDT::instance(); IntDT::instance(); BoolDT::instance(); StringDT::instance(); SymbolDT::instance();
  Error::doThrowExceptions(); Error::doNotDisplayErrors();
  build();
  for (const M& a : all) { queries(a); attach(a); unary(a); }
  for (const M& a : all) for (const M& b : all) if (comparable(a, b)) binary(a, b);
  return H::done();
}
