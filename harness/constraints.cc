// P05/P06: every library constraint over small domains against its defining predicate.
#include "ce.hh"
typedef std::vector<D> T;
struct C { std::string name; std::vector<std::vector<int>> shapes; std::function<bool(const T&)> pred; bool complete; int cost; };
static std::map<int, std::vector<Dm>> U;      // universes by letter
static bool eqv(D a, D b) { return a == b || std::fabs(a - b) < 1e-12 * (1 + std::fabs(a)) ; }
static bool near(D a, D b) { return std::fabs(a - b) <= 2e-5; }
static CEng* eng;
static bool wants(const std::string& p) { return H::prop == p || H::prop == "all"; }

static void run(const C& c, const std::vector<Dm>& ds) {
  std::ostringstream o; o << c.name << "("; for (auto& d : ds) o << d.str() << " "; o << ")"; std::string lab = o.str(); H::at(lab);
  ConstraintEngineId ce = eng->ce();
  ce->setAutoPropagation(false);
  std::vector<ConstrainedVariableId> vs;
  for (auto& d : ds) vs.push_back(d.var(ce));
  // solutions over the sample grid
  std::vector<std::vector<D>> s; bool allsing = true; long prod = 1;
  for (auto& d : ds) { s.push_back(d.samples()); if (!(d.interval() ? d.lb == d.ub : d.vals.size() == 1)) allsing = false; prod *= s.back().size(); }
  std::vector<T> sols;
  if (prod <= 20000) {
    T t(ds.size()); std::vector<size_t> ix(ds.size(), 0); bool any = true; for (auto& x : s) if (x.empty()) any = false;
    while (any) {
      for (size_t i = 0; i < ds.size(); i++) t[i] = s[i][ix[i]];
      if (c.pred(t)) sols.push_back(t);
      size_t i = 0; for (; i < ds.size(); i++) { if (++ix[i] < s[i].size()) break; ix[i] = 0; }
      if (i == ds.size()) break;
    }
  }
  ConstraintId con;
  bool ok = true;
  try {
    con = ce->createConstraint(c.name, vs);
    ok = ce->propagate();
  } catch (Error& e) {
    if (wants("P05")) H::fail("P05", c.name + ".error", lab + " raised an error: " + e.getMsg());
    H::count(true);
    delete eng; eng = new CEng(); return;      // abandon the state of the failed case
  } catch (std::string& e) { printf("%s", e.c_str()); delete eng; eng = new CEng(); return; }
  std::string res; for (auto& v : vs) res += " " + domstr(v->lastDomain());
  H::count(!sols.empty());
  if (H::cases % 5003 == 1) H::sample(lab + " ->" + (ok ? res : " inconsistent"));
  if (wants("P05")) {
    if (!ok) { if (!sols.empty()) H::fail("P05", c.name + ".inconsistent", lab + " reported inconsistent although " + H::list(sols[0]) + " satisfies it"); }
    else for (auto& t : sols) { bool bad = false;
      for (size_t i = 0; i < vs.size(); i++) if (!vs[i]->lastDomain().isMember(t[i])) { H::fail("P05", c.name + ".pruned", lab + " ->" + res + " lost the solution " + H::list(t)); bad = true; break; }
      if (bad) break; }
    // never grows
    if (ok) for (size_t i = 0; i < vs.size(); i++) if (!vs[i]->lastDomain().isSubsetOf(vs[i]->baseDomain())) H::fail("P05", c.name + ".grew", lab + " ->" + res);
  }
  if (wants("P06")) {
    if (ok && c.complete) {
      bool sing = true; T t; for (auto& v : vs) { if (!v->lastDomain().isSingleton()) { sing = false; break; } t.push_back(cast_double(v->lastDomain().getSingletonValue())); }
      if (sing && !c.pred(t)) H::fail("P06", c.name + ".accepted", lab + " ->" + res + " accepted although the values violate the constraint");
    }
    if (allsing && !ok && !sols.empty()) H::fail("P06", c.name + ".rejected", lab + " rejected although the values satisfy the constraint");
  }
  // incremental: fix the variables one after the other to a solution / a non-solution, in a rotating order
  if (ok && !allsing && c.complete && prod <= 20000) {
    for (int mode = 0; mode < 2; mode++) {
      T t;
      if (mode == 0) { if (sols.empty()) continue; t = sols[H::rnd(sols.size())]; }
      else { bool nn = true; for (auto& x : s) { if (x.empty()) { nn = false; break; } t.push_back(x[H::rnd(x.size())]); } if (!nn || c.pred(t)) continue; }
      size_t off = H::rnd(vs.size()); bool good = true; std::ostringstream how; std::vector<size_t> done;
      try {
        for (size_t q = 0; q < vs.size() && good; q++) {
          size_t i = (q + off) % vs.size();
          if (vs[i]->isSpecified()) continue;
          if (!vs[i]->lastDomain().isMember(t[i])) { good = false; break; }
          how << " v" << i << "=" << t[i]; vs[i]->specify(t[i]); done.push_back(i); good = ce->propagate();
        }
        bool sing = good; T got; if (good) for (auto& v : vs) { if (!v->lastDomain().isSingleton()) { sing = false; break; } got.push_back(cast_double(v->lastDomain().getSingletonValue())); }
        if (mode == 0 && !good && wants("P05")) H::fail("P05", c.name + ".steps", lab + how.str() + " rejected although " + H::list(t) + " satisfies it");
        if (mode == 0 && !good && wants("P06")) H::fail("P06", c.name + ".rejected", lab + how.str() + " rejected although " + H::list(t) + " satisfies it");
        if (sing && !c.pred(got) && wants("P06")) H::fail("P06", c.name + ".accepted", lab + how.str() + " accepted although the values violate the constraint");
        for (size_t i : done) vs[i]->reset();
        bool ok2 = ce->propagate();
        std::string res2; for (auto& v : vs) res2 += " " + domstr(v->lastDomain());
        if (wants("P05") && (!ok2)) H::fail("P05", c.name + ".reset", lab + how.str() + " then reset: inconsistent");
      } catch (Error& e) { if (wants("P05")) H::fail("P05", c.name + ".error", lab + how.str() + " raised an error: " + e.getMsg()); delete eng; eng = new CEng(); return; }
    }
  }
  try {
    delete static_cast<Constraint*>(con);
    for (auto& v : vs) delete static_cast<ConstrainedVariable*>(v);
    ce->propagate();
  } catch (Error& e) { delete eng; eng = new CEng(); }
}

static int cnt0(const T& t, size_t from) { int n = 0; for (size_t i = from; i < t.size(); i++) n += t[i] == 0; return n; }
static bool alldiff(const T& t, size_t from) { for (size_t i = from; i < t.size(); i++) for (size_t j = i + 1; j < t.size(); j++) if (t[i] == t[j]) return false; return true; }
static bool allsame(const T& t, size_t from) { for (size_t i = from + 1; i < t.size(); i++) if (t[i] != t[from]) return false; return true; }

int main(int argc, char** argv) {
  H::init(argc, argv);
  Error::doThrowExceptions(); Error::doNotDisplayErrors();
  eng = new CEng();
  // letters: i ints, r reals, m mixed, b bools, e enums, I large/infinite ints, R infinite reals, s small ints, y symbols
  U['b'] = { dB(0, 0), dB(1, 1), dB(0, 1) };
  U['i'] = { dI(0, 0), dI(1, 1), dI(-2, -2), dI(-2, 1), dI(0, 3), dI(1, 4), dI(-3, -1), dI(2, 2), dI(-1, 5), dI(0, 1) };
  U['r'] = { dR(0, 0), dR(.5, .5), dR(-1.5, 1), dR(0, 2.5), dR(1, 3), dR(-3, -.5), dR(2, 2), dR(0.01, 0.99), dR(-1, 0) };
  U['s'] = { dI(0, 0), dI(1, 1), dI(0, 1), dI(1, 3), dI(-1, 0), dI(0, 2), dI(3, 3) };
  U['I'] = { dI(-INFV, INFV), dI(0, INFV), dI(-INFV, 2), dI(-2, 3), dI(1, 1), dI(0, 0) };
  U['R'] = { dR(-INFV, INFV), dR(0, INFV), dR(-INFV, 2.5), dR(-2, 3), dR(1, 1), dR(0, 0), dR(-INFV, -1) };
  U['e'] = { dE({ 0 }), dE({ 1 }), dE({ 0, 1 }), dE({ 1, 3 }), dE({ -1, 0, 2 }), dE({ 2, 3, 4 }), dE({ 0, 4 }) };
  U['y'] = {}; { D a = cast_double(edouble(LabelStr("alpha"))), b = cast_double(edouble(LabelStr("beta"))), c = cast_double(edouble(LabelStr("gamma"))); U['y'] = { dS({ a }), dS({ b }), dS({ a, b }), dS({ b, c }), dS({ a, b, c }), dS({ c }) }; }
  U['m'] = { dI(-2, 1), dI(0, 3), dI(1, 1), dR(-1.5, 1), dR(0, 2.5), dR(.5, .5), dR(2, 2), dR(0.01, 0.99), dI(0, 0) };
  U['q'] = { dI(0, 0), dI(1, 2), dI(0, 2), dI(-1, 1) };
  U['2'] = { dI(0, 0), dI(1, 1), dI(2, 2), dI(0, 2), dI(3, 3) };
  U['3'] = { dI(1, 1), dI(2, 2), dI(1, 3), dI(3, 3) };
  U['1'] = { dE({ 1 }), dE({ 2 }) };
  U['p'] = { dI(0, 0), dI(1, 4), dI(4, 4), dI(9, 9), dI(16, 16), dI(0, 9), dR(2.25, 2.25), dR(0, 1) };
  U['f'] = { dI(0, 0), dI(3, 3), dI(4, 4), dR(0, 3), dI(0, 4), dR(-INFV, INFV) };
  U['h'] = { dI(5, 5), dI(0, 9), dR(-1, 1), dR(0, 0), dR(5, 5), dR(-1, 0.5), dR(0, 2), dI(0, 1), dR(0.5, 0.5) };
  U['a'] = { dI(0, 0), dI(90, 90), dI(-90, -90), dI(-120, 40), dI(0, 90), dR(30, 45.5), dR(-180, 180), dI(-45, 100) };
  if (H::thorough()) {
    for (int a = -3; a <= 4; a++) for (int b = a; b <= 4; b++) { if ((a + b) % 2 == 0) U['i'].push_back(dI(a, b)); U['r'].push_back(dR(a / 2.0, b / 2.0)); if (a >= -1 && b <= 2) U['s'].push_back(dI(a, b)); }
    for (int a = -2; a <= 2; a++) U['I'].push_back(dI(a, INFV)), U['I'].push_back(dI(-INFV, a)), U['R'].push_back(dR(a + .5, INFV)), U['R'].push_back(dR(-INFV, a + .5));
  }
  int n = 0;
  // multiples of 1/2: values closer than the resolution count as equal
  for (D x0 : H::extra) { D x = std::floor(2 * x0) / 2; if (std::fabs(x) <= 5 && n++ < 3) { U['i'].push_back(dI(std::floor(x), std::floor(x))); U['r'].push_back(dR(x, x)); U['i'].push_back(dI(std::floor(x), 5)); U['r'].push_back(dR(x, 5)); U['m'].push_back(dR(x, x)); } }
  typedef std::vector<std::vector<int>> S;
  auto EQ = [](const T& t) { return eqv(t[0], t[1]); };
  std::vector<C> cs = {
    { "addEq", S{ { 'e', 'e', 'i' }, { 'e', 'i', 'i' }, { 'i', 'e', 'e' }, { 'e', 'e', 'e' }, { 'i', 'i', 'i' }, { 'r', 'r', 'r' }, { 'm', 'm', 'm' }, { 'I', 'I', 'I' }, { 'R', 'R', 'R' } }, [](const T& t) { return eqv(t[0] + t[1], t[2]); }, true, 1 },
    { "multEq", S{ { 'i', 'i', 'i' }, { 'r', 'r', 'r' }, { 'I', 'I', 'I' }, { 'R', 'R', 'R' } }, [](const T& t) { return eqv(t[0] * t[1], t[2]); }, true, 1 },
    { "divEq", S{ { 'i', 'i', 'i' }, { 'r', 'r', 'r' } }, [](const T& t) { return t[1] != 0 && eqv(t[0], t[1] * t[2]); }, false, 1 },
    { "eq", S{ { 'i', 'i' }, { 'r', 'r' }, { 'b', 'b' }, { 'e', 'e' }, { 'y', 'y' }, { 'I', 'I' }, { 'R', 'R' }, { 'e', 'i' }, { 'i', 'e' } }, EQ, true, 1 },
    { "eq", S{ { 's', 's', 's' }, { 'e', 'e', 'e' }, { 'y', 'y', 'y' }, { 'q', 'q', 'q', 'q' } }, [](const T& t) { return allsame(t, 0); }, true, 1 },
    { "neq", S{ { 'i', 'i' }, { 'r', 'r' }, { 'm', 'm' }, { 'b', 'b' }, { 'e', 'e' }, { 'y', 'y' }, { 'e', 'i' } }, [](const T& t) { return t[0] != t[1]; }, true, 1 },
    { "lt", S{ { 'i', 'i' }, { 'r', 'r' }, { 'm', 'm' }, { 'R', 'R' }, { 'I', 'I' } }, [](const T& t) { return t[0] < t[1]; }, true, 1 },
    { "leq", S{ { 'i', 'i' }, { 'r', 'r' }, { 'm', 'm' }, { 'I', 'I' }, { 'R', 'R' }, { 'e', 'e' }, { 'e', 'i' } }, [](const T& t) { return t[0] <= t[1]; }, true, 1 },
    { "eqSum", S{ { 'i', 'i', 'i' }, { 'q', 'q', 'q', 'q' }, { 'q', 'q', 'q', 'q', 'q' } }, [](const T& t) { D s = 0; for (size_t i = 1; i < t.size(); i++) s += t[i]; return t[0] == s; }, true, 1 },
    { "eqProduct", S{ { 'i', 'i', 'i' }, { 'q', 'q', 'q', 'q' } }, [](const T& t) { D s = 1; for (size_t i = 1; i < t.size(); i++) s *= t[i]; return t[0] == s; }, true, 1 },
    { "eqMaximum", S{ { 'i', 'i' }, { 'i', 'i', 'i' }, { 'q', 'q', 'q', 'q' } }, [](const T& t) { return t[0] == *std::max_element(t.begin() + 1, t.end()); }, true, 1 },
    { "eqMinimum", S{ { 'i', 'i' }, { 'i', 'i', 'i' }, { 'q', 'q', 'q', 'q' } }, [](const T& t) { return t[0] == *std::min_element(t.begin() + 1, t.end()); }, true, 1 },
    { "max", S{ { 's', 's', 's' } }, [](const T& t) { return t.back() == *std::max_element(t.begin(), t.end() - 1); }, true, 1 },
    { "min", S{ { 's', 's', 's' } }, [](const T& t) { return t.back() == *std::min_element(t.begin(), t.end() - 1); }, true, 1 },
    { "neg", S{ { 'i', 'i' }, { 'r', 'r' } }, [](const T& t) { return t[0] == -t[1]; }, true, 1 },
    { "absVal", S{ { 'i', 'i' }, { 'r', 'r' }, { 'm', 'm' }, { 'r', 'i' }, { 'i', 'r' } }, [](const T& t) { return t[0] == std::fabs(t[1]); }, true, 1 },
    { "withinBounds", S{ { 'm', 'm', 'm' }, { 'i', 'i', 'i' }, { 'r', 'r', 'r' } }, [](const T& t) { return t[1] <= t[0] && t[0] <= t[2]; }, true, 1 },
    { "allDiff", S{ { 's', 's' }, { 's', 's', 's' }, { 'e', 'e', 'e' }, { 'y', 'y', 'y' } }, [](const T& t) { return alldiff(t, 0); }, true, 1 },
    { "condAllDiff", S{ { 'b', 's', 's' }, { 'b', 's', 's', 's' }, { 'b', 'e', 'e', 'e' } }, [](const T& t) { return (t[0] != 0) == alldiff(t, 1); }, true, 1 },
    { "condEq", S{ { 'b', 's', 's' }, { 'b', 's', 's', 's' }, { 'b', 'e', 'e' }, { 'b', 'y', 'y' } }, [](const T& t) { return (t[0] != 0) == allsame(t, 1); }, true, 1 },
    { "countZeroes", S{ { 's', 's', 's' }, { 's', 's', 's', 's' }, { 's', 'e', 'e', 'e' }, { 's', 'b', 'b', 'b' } }, [](const T& t) { return t[0] == cnt0(t, 1); }, true, 1 },
    { "countNonZeroes", S{ { 's', 's', 's' }, { 's', 's', 's', 's' }, { 's', 'b', 'b', 'b' } }, [](const T& t) { return t[0] == (int)t.size() - 1 - cnt0(t, 1); }, true, 1 },
    { "or", S{ { 'b', 'b' }, { 'b', 'b', 'b' }, { 's', 's' } }, [](const T& t) { return cnt0(t, 0) < (int)t.size(); }, true, 1 },
    { "testEq", S{ { 'b', 'r', 'r' }, { 'b', 'b', 'b' }, { 'b', 'i', 'i' }, { 'b', 'e', 'e' }, { 'b', 'y', 'y' } }, [](const T& t) { return (t[0] != 0) == (t[1] == t[2]); }, true, 1 },
    { "testNeq", S{ { 'b', 'r', 'r' }, { 'b', 'b', 'b' }, { 'b', 'i', 'i' }, { 'b', 'e', 'e' }, { 'b', 'y', 'y' } }, [](const T& t) { return (t[0] != 0) == (t[1] != t[2]); }, true, 1 },
    { "testLessThan", S{ { 'b', 'r', 'r' }, { 'b', 'm', 'm' }, { 'b', 'i', 'i' } }, [](const T& t) { return (t[0] != 0) == (t[1] < t[2]); }, true, 1 },
    { "testLeq", S{ { 'b', 'r', 'r' }, { 'b', 'm', 'm' }, { 'b', 'i', 'i' } }, [](const T& t) { return (t[0] != 0) == (t[1] <= t[2]); }, true, 1 },
    { "testAnd", S{ { 'b', 'b', 'b' } }, [](const T& t) { return (t[0] != 0) == (t[1] != 0 && t[2] != 0); }, true, 1 },
    { "testOr", S{ { 'b', 'b', 'b' } }, [](const T& t) { return (t[0] != 0) == (t[1] != 0 || t[2] != 0); }, true, 1 },
    { "maxf", S{ { 'i', 'i', 'i' } }, [](const T& t) { return t[0] == std::max(t[1], t[2]); }, true, 1 },
    { "minf", S{ { 'i', 'i', 'i' } }, [](const T& t) { return t[0] == std::min(t[1], t[2]); }, true, 1 },
    { "abs", S{ { 'i', 'i' } }, [](const T& t) { return t[0] == std::fabs(t[1]); }, true, 1 },
    { "floor", S{ { 'r', 'r' }, { 'i', 'r' } }, [](const T& t) { return t[0] == std::floor(t[1]); }, true, 1 },
    { "ceil", S{ { 'r', 'r' }, { 'i', 'r' } }, [](const T& t) { return t[0] == std::ceil(t[1]); }, true, 1 },
    { "diffSquare", S{ { 'i', 'i', 'i' }, { 'r', 'r', 'r' }, { 'm', 'm', 'm' } }, [](const T& t) { return near(t[2], (t[0] - t[1]) * (t[0] - t[1])); }, true, 1 },
    { "distanceSquares", S{ { 'p', 'p', 'i' }, { 'p', 'p', 'r' } }, [](const T& t) { return near(t[2], std::sqrt(t[0] + t[1])); }, true, 1 },
    { "calcDistance", S{ { 'h', 'q', 'q', 'q', 'q' }, { 'h', 'f', 'f', 'f', 'f' } }, [](const T& t) { return near(t[0], std::sqrt((t[1] - t[3]) * (t[1] - t[3]) + (t[2] - t[4]) * (t[2] - t[4]))); }, true, 1 },
    { "sin", S{ { 'r', 'a' }, { 'h', 'a' } }, [](const T& t) { return t[1] >= -90 && t[1] <= 90 && near(t[0], std::sin(t[1] * 3.141592 / 180)); }, true, 1 },
    { "pow", S{ { 'i', 'i', '2' } }, [](const T& t) { return near(t[0], std::pow(t[1], t[2])); }, true, 1 },
    { "sqrt", S{ { 'i', 'p' }, { 'r', 'p' } }, [](const T& t) { return near(t[0], std::sqrt(t[1])); }, true, 1 },
    { "mod", S{ { 'i', 'i', '3' } }, [](const T& t) { return t[2] != 0 && near(t[0], std::fmod(t[1], t[2])); }, true, 1 },
    { "subsetOf", S{ { 'i', 'i' }, { 'e', 'e' }, { 'y', 'y' }, { 'b', 'b' } }, [](const T& t) { return t[0] == t[1]; }, true, 1 },
    { "memberImply", S{ { 'e', 'e', '1', '1' } }, [](const T& t) { return t[1] != t[2] || t[0] == t[3]; }, true, 1 },
  };
  const char* only = getenv("ONLY");
  for (auto& c : cs) {
    if (only && c.name != only) continue;
    for (auto& sh : c.shapes) {
      long total = 1; for (int l : sh) total *= U[l].size();
      long cap = H::thorough() ? 6000 : 1200, step = total <= cap ? 1 : total / cap + 1;
      std::vector<Dm> ds(sh.size());
      for (long x = step > 1 ? H::rnd(step) : 0; x < total; x += step > 1 ? 1 + H::rnd(2 * step - 1) : 1) {
        long y = x; for (size_t i = 0; i < sh.size(); i++) { auto& u = U[sh[i]]; ds[i] = u[y % u.size()]; y /= u.size(); }
        run(c, ds);
      }
    }
  }
  return H::done();
}
