// P07/P08: histories of edits to a constraint network against a freshly built network in the same state.
#include "ce.hh"
static bool wants(const std::string& p) { return H::prop == p || H::prop == "all"; }
struct MV { Dm base; bool spec; D val; };                       // model of a variable
struct MC { std::string name; std::vector<int> sc; int off; bool dead; };
struct Hist {
  std::vector<Dm> initial; std::vector<std::string> log;
  std::vector<ConstrainedVariableId> v; std::vector<ConstraintId> c; std::vector<MC> mc;
  std::vector<int> voff; std::vector<std::set<D>> base; std::vector<int> spec; std::vector<D> val;
};
static std::vector<D> vals(const Domain& d, bool en) {
  std::vector<D> r; std::list<edouble> l; if (d.isEmpty()) return r;
  if (en) { d.getValues(l); for (edouble x : l) r.push_back(cast_double(x)); }
  else for (D x = cast_double(d.getLowerBound()); x <= cast_double(d.getUpperBound()); x += 1) r.push_back(x);
  return r;
}
static std::string show(Hist& h) { std::ostringstream o; for (size_t i = 0; i < h.v.size(); i++) o << "v" << i << (h.spec[i] ? "*" : "") << "=" << domstr(h.v[i]->lastDomain()) << "/" << domstr(h.v[i]->baseDomain()) << " "; return o.str(); }
static std::string logs(Hist& h) { std::string s; for (auto& d : h.initial) s += d.str() + " "; s += ":"; for (auto& l : h.log) s += " " + l + ";"; return s; }
static const struct { const char* n; int ar; const char* kinds; bool (*pred)(const D*); } CN[] = {
  { "leq", 2, "n", [](const D* t) { return t[0] <= t[1]; } }, { "lt", 2, "i", [](const D* t) { return t[0] < t[1]; } },
  { "neq", 2, "e", [](const D* t) { return t[0] != t[1]; } }, { "eq", 2, "n", [](const D* t) { return t[0] == t[1]; } },
  { "addEq", 3, "i", [](const D* t) { return t[0] + t[1] == t[2]; } },
  { "withinBounds", 3, "i", [](const D* t) { return t[1] <= t[0] && t[0] <= t[2]; } },
  { "testLeq", 3, "b", [](const D* t) { return (t[0] != 0) == (t[1] <= t[2]); } }, { "testEq", 3, "b", [](const D* t) { return (t[0] != 0) == (t[1] == t[2]); } },
  { "eq", 3, "i", [](const D* t) { return t[0] == t[1] && t[1] == t[2]; } } };
static ConstrainedVariableId mk(ConstraintEngineId ce, Kind k, const std::set<D>& b) {
  std::vector<D> v(b.begin(), b.end());
  if (k == ENUMK) return dE(v).var(ce);
  if (k == BOOLK) return dB(v.front(), v.back()).var(ce);
  return dI(v.front(), v.back()).var(ce);
}
// the same network, built from scratch
static std::string fresh(Hist& h, bool& ok, std::string& err) {
  CEng e; ConstraintEngineId ce = e.ce(); ce->setAutoPropagation(false);
  std::vector<ConstrainedVariableId> v;
  std::vector<ConstraintId> cs;
  std::ostringstream o;
  try {
    for (size_t i = 0; i < h.v.size(); i++) v.push_back(mk(ce, h.initial[i].k, h.base[i]));
    for (size_t i = 0; i < h.mc.size(); i++) if (!h.mc[i].dead) {
      bool act = h.mc[i].off == 0; for (int s : h.mc[i].sc) if (h.voff[s]) act = false;
      if (!act) continue;
      std::vector<ConstrainedVariableId> sc; for (int s : h.mc[i].sc) sc.push_back(v[s]);
      cs.push_back(ce->createConstraint(h.mc[i].name, sc));
    }
    for (size_t i = 0; i < v.size(); i++) if (h.spec[i] && !v[i]->isSpecified()) v[i]->specify(h.val[i]);
    ok = ce->propagate();
    for (size_t i = 0; i < v.size(); i++) o << domstr(v[i]->lastDomain()) << " ";
  } catch (Error& x) { err = x.getMsg(); } catch (const std::string& x) { err = x; }
  for (auto& c : cs) delete static_cast<Constraint*>(c);
  for (auto& x : v) delete static_cast<ConstrainedVariable*>(x);
  return o.str();
}
static void history(bool violations, int len) {
  Hist h; CEng* e = new CEng(); ConstraintEngineId ce = e->ce();
  bool autop = H::rnd(2); ce->setAutoPropagation(autop);
  if (violations) ce->setAllowViolations(true);
  int n = 3 + H::rnd(3);
  for (int i = 0; i < n; i++) {
    Kind k = H::rnd(5) == 0 ? BOOLK : (H::rnd(4) == 0 ? ENUMK : INT); Dm d; 
    if (k == BOOLK) d = dB(0, 1); else { D a = (D)H::rnd(5) - 1; if (k == INT) d = dI(a, a + 1 + H::rnd(6)); else { std::vector<D> vs; for (int x = 0; x < 7; x++) if (H::rnd(2)) vs.push_back(x); if (vs.size() < 2) vs = { 1, 3 }; d = dE(vs); } }
    h.initial.push_back(d); h.v.push_back(d.var(ce)); h.voff.push_back(0); h.spec.push_back(0); h.val.push_back(0);
    std::set<D> b; for (D x : vals(h.v[i]->baseDomain(), k == ENUMK)) b.insert(x); h.base.push_back(b);
  }
  bool consistent = true;
  std::string err;
  // the history runs in a child so that an abandoned state cannot disturb later ones
  for (int s = 0; s < len && err.empty(); s++) {
    int op = H::rnd(20), i = H::rnd(n); if (H::rnd(2)) for (auto& m : h.mc) if (!m.dead && m.off && op < 14) op = 14 + H::rnd(2); std::ostringstream o;
    try {
      if (op < 5) {                                   // new constraint
        int k = H::rnd(sizeof CN / sizeof *CN); std::vector<int> sc; if (violations && !strcmp(CN[k].n, "withinBounds")) continue; bool good = true;
        for (int a = 0; a < CN[k].ar; a++) {
          int x = H::rnd(n), tries = 0;
          auto okv = [&](int y) { if (std::find(sc.begin(), sc.end(), y) != sc.end()) return false; Kind kd = h.initial[y].k; char q = CN[k].kinds[0]; if (q == 'b' && a == 0) return kd == BOOLK; if (q == 'e') return kd == ENUMK; if (q == 'n') return kd == INT || kd == ENUMK; return kd == INT; };
          while (!okv(x) && tries++ < 12) x = H::rnd(n);
          if (!okv(x)) { good = false; break; } sc.push_back(x);
        }
        if (!good) continue;
        o << CN[k].n << "("; for (int x : sc) o << "v" << x << " "; o << ")"; h.log.push_back(o.str()); H::at(logs(h));
        std::vector<ConstrainedVariableId> args; for (int x : sc) args.push_back(h.v[x]);
        h.mc.push_back(MC{ CN[k].n, sc, 0, false });
        h.c.push_back(ce->createConstraint(CN[k].n, args));
      } else if (op < 7) {                            // delete a constraint
        if (h.c.empty()) continue; int k = H::rnd(h.c.size()); if (h.mc[k].dead) continue;
        o << "delete c" << k; h.log.push_back(o.str()); H::at(logs(h));
        h.mc[k].dead = true; ce->deleteConstraint(h.c[k]);
      } else if (op < 11) {                           // specify
        if (h.voff[i] || h.base[i].empty()) continue;
        std::vector<D> b(h.base[i].begin(), h.base[i].end()); D x = b[H::rnd(b.size())];
        o << "v" << i << ":=" << x; h.log.push_back(o.str()); H::at(logs(h));
        h.spec[i] = 1; h.val[i] = x; h.v[i]->specify(x);
        if (wants("P08") && !(h.v[i]->isSpecified() && h.v[i]->getSpecifiedValue() == x)) H::fail("P08", "specify", logs(h) + " does not record the value");
        if (wants("P08") && !(h.v[i]->lastDomain().isEmpty() || (h.v[i]->lastDomain().isSingleton() && h.v[i]->lastDomain().getSingletonValue() == x))) H::fail("P08", "specify-domain", logs(h) + " -> " + show(h));
      } else if (op < 14) {                           // reset
        if (h.voff[i] || h.base[i].size() < 2) continue;
        o << "reset v" << i; h.log.push_back(o.str()); H::at(logs(h));
        h.spec[i] = 0; h.v[i]->reset();
        if (wants("P08") && h.v[i]->isSpecified()) H::fail("P08", "reset", logs(h) + " leaves the variable specified");
      } else if (op < 15) {                           // restrict the base domain
        bool pin = false; if (!h.mc.empty() && H::rnd(2)) { int k = H::rnd(h.mc.size()); if (!h.mc[k].dead && h.mc[k].off) { i = h.mc[k].sc[H::rnd(h.mc[k].sc.size())]; pin = H::rnd(4); } }
        if (h.base[i].size() < 2 || h.spec[i] || h.voff[i]) continue;
        std::set<D> b = h.base[i]; D mn = *b.begin(), mx = *b.rbegin(); 
        D lo = mn + H::rnd(2), hi = mx - H::rnd(2); if (pin || !H::rnd(4)) { lo = mn + H::rnd((int)(mx - mn) + 1); hi = lo; }
        std::set<D> nb; for (D x : b) if (x >= lo && x <= hi) nb.insert(x);
        if (nb.empty()) continue;
        o << "base v" << i << " [" << lo << "," << hi << "]"; h.log.push_back(o.str()); H::at(logs(h));
        h.base[i] = nb; IntervalIntDomain r((eint(edouble(lo))), eint(edouble(hi)));
        if (h.initial[i].k == ENUMK) { NumericDomain q(IntDT::instance()); for (D x : nb) q.insert(x); q.close(); h.v[i]->restrictBaseDomain(q); } else h.v[i]->restrictBaseDomain(r);
      } else if (op < 16) {                           // deactivate / reactivate a constraint
        if (h.c.empty()) continue; int k = H::rnd(h.c.size()); if (h.mc[k].dead || violations || h.mc[k].name == "withinBounds") continue;   // (a composed constraint has members of its own)
        o << (h.mc[k].off ? "on c" : "off c") << k; h.log.push_back(o.str()); H::at(logs(h));
        if (h.mc[k].off) { h.mc[k].off = 0; h.c[k]->undoDeactivation(); }
        else {
          h.mc[k].off = 1; h.c[k]->deactivate();
          // the engine does not relax on deactivation: clients relax the scope, as the plan database does
          for (int x : h.mc[k].sc) if (!h.spec[x]) { if (h.base[x].size() > 1) h.v[x]->reset(); else h.v[x]->relax(); }
          for (int x : h.mc[k].sc) if (h.spec[x]) { D w = h.val[x]; if (h.base[x].size() > 1) { h.v[x]->reset(); h.v[x]->specify(w); } else h.v[x]->relax(); }
        }
      } else if (op < 17) {                           // switch propagation mode
        autop = !autop; o << "auto " << autop; h.log.push_back(o.str()); H::at(logs(h)); ce->setAutoPropagation(autop);
      } else { h.log.push_back("propagate"); H::at(logs(h)); }
      if (op < 17 && H::rnd(3)) continue;             // several edits between propagations
      h.log.back() += " !"; consistent = ce->propagate();
    } catch (Error& x) { err = x.getMsg() + " [" + x.getCondition() + " at " + x.getFile() + ":" + H::str(x.getLine()) + "]"; break; } catch (const std::string& x) { err = x; break; }
    H::count(true);
    if (wants("P08")) for (size_t k = 0; k < h.v.size(); k++) {
      std::vector<D> b = vals(h.v[k]->baseDomain(), h.initial[k].k == ENUMK);
      if (std::set<D>(b.begin(), b.end()) != h.base[k]) H::fail("P08", "base", logs(h) + " -> base domain " + domstr(h.v[k]->baseDomain()));
      if ((bool)h.v[k]->isSpecified() != (bool)(h.spec[k] || h.base[k].size() == 1)) H::fail("P08", "specified", logs(h) + " -> specified flag of v" + H::str(k));
      if (!h.v[k]->lastDomain().isEmpty() && !h.v[k]->lastDomain().isSubsetOf(h.v[k]->baseDomain())) H::fail("P08", "outside", logs(h) + " -> " + show(h));
    }
    if (wants("P07")) {
      bool anyempty = false; for (auto& x : h.v) if (x->lastDomain().isEmpty()) anyempty = true;
      if (!violations) {
        if (consistent == anyempty) H::fail("P07", "verdict", logs(h) + " -> " + show(h) + (consistent ? " reported consistent" : " reported inconsistent"));
        bool ok2 = false; std::string e2, f = fresh(h, ok2, e2), g;
        if (!e2.empty()) { H::fail("P07", "fresh-error", logs(h) + ": " + e2); break; }
        if (ok2 != consistent) H::fail("P07", "consistency", logs(h) + (consistent ? " is reported consistent" : " is reported inconsistent") + ", the same network built afresh is not: " + f);
        else if (consistent) { for (auto& x : h.v) g += domstr(x->lastDomain()) + " "; if (f != g) H::fail("P07", "domains", logs(h) + " -> " + g + "; the same network built afresh has " + f); }
        if (consistent && (ce->pending() || !ce->constraintConsistent() || ce->provenInconsistent())) H::fail("P07", "status", logs(h) + ": pending work reported after propagation");
        if (!consistent && !ce->provenInconsistent()) H::fail("P07", "status", logs(h) + ": inconsistency forgotten");
      } else {
        if (!consistent || anyempty) H::fail("P07", "violation-mode", logs(h) + " -> " + show(h) + " left empty");
        double nv = 0; for (size_t k = 0; k < h.c.size(); k++) if (!h.mc[k].dead) {
          bool vio = ce->isViolated(h.c[k]); if (vio) nv++;
          D t[3]; bool sing = true; for (size_t a = 0; a < h.mc[k].sc.size(); a++) { auto& d = h.v[h.mc[k].sc[a]]->lastDomain(); if (!d.isSingleton()) sing = false; else t[a] = cast_double(d.getSingletonValue()); }
          const bool (*dummy)(const D*) = 0; (void)dummy; bool holds = true;
          if (sing) for (auto& cn : CN) if (cn.n == h.mc[k].name && cn.ar == (int)h.mc[k].sc.size()) holds = cn.pred(t);
          if (sing && !vio && !holds) H::fail("P07", "violation-missed", logs(h) + " -> " + show(h) + " constraint " + H::str(k) + " fails but is not reported violated");
          if (h.c[k]->getViolation() != (vio ? 1.0 : 0.0)) H::fail("P07", "violation-value", logs(h));
        }
        if (ce->getViolation() != nv) H::fail("P07", "violation-total", logs(h) + " -> total violation " + H::str(ce->getViolation()) + " with " + H::str(nv) + " violated constraints");
      }
    }
  }
  if (!err.empty()) { H::fail(H::prop == "all" ? "P07" : H::prop, violations ? "error-violations" : "error", logs(h) + " raised an error: " + err); }
  if (err.empty()) {
    try {
      for (size_t k = 0; k < h.c.size(); k++) if (!h.mc[k].dead) delete static_cast<Constraint*>(h.c[k]);
      for (auto& x : h.v) delete static_cast<ConstrainedVariable*>(x);
      delete e;
    } catch (Error& x) { H::fail(H::prop == "all" ? "P07" : H::prop, "teardown", logs(h) + " raised an error on deletion: " + x.getMsg()); }
  }
  if (H::cases % 997 < 3) H::sample(logs(h));
}
// composed constraints: switched off they restrict nothing, switched on again they restrict as before
static void composed() {
  static const struct { const char* n; int ar; bool b; int fix[2][2]; } C[] = {
    { "withinBounds", 3, false, { { 1, 4 }, { -1, 0 } } }, { "eqSum", 3, false, { { 1, 2 }, { 2, 3 } } }, { "eqSum", 5, false, { { 0, 0 }, { -1, 0 } } }, { "eqProduct", 3, false, { { 1, 2 }, { 2, 3 } } },
    { "eqMaximum", 3, false, { { 0, 3 }, { -1, 0 } } }, { "eqMinimum", 3, false, { { 0, 3 }, { -1, 0 } } }, { "allDiff", 3, false, { { 0, 0 }, { -1, 0 } } }, { "addEq", 3, false, { { 0, 2 }, { 1, 3 } } },
    { "countZeroes", 3, false, { { 0, 2 }, { -1, 0 } } }, { "countNonZeroes", 3, false, { { 0, 2 }, { -1, 0 } } }, { "or", 2, true, { { 0, 0 }, { -1, 0 } } }, { "eq", 4, false, { { 0, 2 }, { -1, 0 } } } };
  for (auto& t : C) {
    std::ostringstream o; o << t.n << " over " << t.ar << " variables"; H::at(o.str());
    CEng e; ConstraintEngineId ce = e.ce(); std::vector<ConstrainedVariableId> v;
    try {
      for (int i = 0; i < t.ar; i++) v.push_back(t.b ? dB(0, 1).var(ce) : dI(0, 6).var(ce));
      ConstraintId c = ce->createConstraint(t.n, v); ce->propagate();
      auto text = [&] { std::ostringstream q; for (auto x : v) q << " " << domstr(x->lastDomain()); return q.str(); };
      for (auto& f : t.fix) if (f[0] >= 0) v[f[0]]->specify(f[1]);
      bool on = ce->propagate(); std::string with = text();
      c->deactivate(); for (auto& f : t.fix) if (f[0] >= 0) { v[f[0]]->reset(); v[f[0]]->specify(f[1]); }
      for (size_t k = 0; k < v.size(); k++) if (!v[k]->isSpecified()) v[k]->reset();
      ce->propagate();
      bool free = true; for (auto x : v) if (!x->isSpecified() && x->lastDomain() != x->baseDomain()) free = false;
      if (!free) H::fail("P07", std::string("composed constraint switched off: ") + t.n, o.str() + " is deactivated and leaves" + text());
      c->undoDeactivation(); bool on2 = ce->propagate();
      if (on != on2 || with != text()) H::fail("P07", std::string("composed constraint switched on: ") + t.n, o.str() + " is activated again and leaves" + text() + ", before" + with);
    } catch (Error& x) { H::fail("P07", "error", o.str() + " raised " + x.getMsg()); }
    H::count(true);
  }
}
int main(int argc, char** argv) {
  H::init(argc, argv); Error::doThrowExceptions(); Error::doNotDisplayErrors();
  int N = getenv("N") ? atoi(getenv("N")) : H::thorough() ? 20000 : 2500;
  if (wants("P07")) composed();
  for (int r = 0; r < N; r++) history(r % 4 == 3, 8 + H::rnd(r % 2 ? 12 : 30));
  return H::done();
}
