// P12: histories of tokens being activated, merged, rejected, cancelled and deleted against a network in which merged tokens are one.
#include "h.hh"
#include "Error.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "ConstraintType.hh"
#include "Constraints.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "PlanDatabase.hh"
#include "Schema.hh"
#include "Object.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "TokenType.hh"
#include "ObjectType.hh"
#include "CESchema.hh"
#include <boost/cast.hpp>
#include <algorithm>
#include <iterator>
using namespace EUROPA;
typedef std::vector<ConstrainedVariableId> Scope;
template <class C> static void sys(CESchema* ces, const char* name) { REGISTER_SYSTEM_CONSTRAINT(ces, C, name, "Default"); }
struct TT : public TokenType {
  TT(const ObjectTypeId ot, const char* n) : TokenType(ot, n) { addArg(IntDT::instance(), "p"); addArg(FloatDT::instance(), "q"); }
  TokenId createInstance(const PlanDatabaseId db, const std::string& name, bool rejectable = false, bool fact = false) const { return (new IntervalToken(db, name, rejectable, fact))->getId(); }
  TokenId createInstance(const TokenId master, const std::string& name, const std::string& relation) const { return (new IntervalToken(master, relation, name))->getId(); }
};
struct TEng : public EngineBase {
  PlanDatabase* db; ConstraintEngine* ce;
  TEng() {
    addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); addModule((new ModulePlanDatabase())->getId());
    doStart();
    Schema* schema = boost::polymorphic_cast<Schema*>(getComponent("Schema"));
    ObjectType* ot = new ObjectType("Obj", schema->getObjectType(Schema::rootObject()));
    ot->addTokenType((new TT(ot->getId(), "Obj.P"))->getId()); ot->addTokenType((new TT(ot->getId(), "Obj.Q"))->getId());
    schema->registerObjectType(ot->getId());
    CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
    sys<EqualConstraint>(ces, "concurrent"); sys<LessThanEqualConstraint>(ces, "precedes"); sys<AddEqualConstraint>(ces, "temporaldistance"); sys<AddEqualConstraint>(ces, "temporalDistance");
    db = boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); ce = boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"));
  }
  virtual ~TEng() { doShutdown(); }
};
enum { OBJ, DUR, START, END, PP, QQ, NV };
static const char* VN[] = { "object", "duration", "start", "end", "p", "q" };
typedef PSTokenState St;
struct Tok {
  IntervalToken* t; int pred; bool rejectable; St st; int into, master; bool alive;
  std::vector<std::vector<double> > base; // values of each variable; all domains are small and finite
  bool spec[NV]; double val[NV];
};
struct Con { ConstraintId c; std::string type; std::vector<std::pair<int, int> > scope; bool alive; };
static const char* TYPES[] = { "concurrent", "precedes", "neq", "leq", "addEq" };

static std::vector<double> vals(const Domain& d) {
  std::vector<double> r; if (d.isEmpty()) return r;
  if (d.isEnumerated()) { std::list<edouble> s; d.getValues(s); for (std::list<edouble>::iterator i = s.begin(); i != s.end(); ++i) r.push_back(cast_double(*i)); }
  else { double a = cast_double(d.getLowerBound()), b = cast_double(d.getUpperBound()); for (double x = a; x <= b && r.size() < 500; x++) r.push_back(x); }
  return r;
}
static std::string show(const std::vector<double>& v) { std::ostringstream o; o << "{"; for (size_t i = 0; i < v.size(); i++) { o << (i ? "," : "") << v[i]; if (i == 3 && v.size() > 6) { o << ",.." << v.back(); break; } } o << "}"; return o.str(); }
static std::vector<double> range(int a, int b) { std::vector<double> r; for (int i = a; i <= b; i++) r.push_back(i); return r; }

struct World {
  TEng eng; std::vector<Tok> ts; std::vector<Con> cs; std::vector<Object*> objs; std::ostringstream log;
  World() {}
  ConstrainedVariableId var(int t, int v) { return ts[t].t->getVariables()[v + 1]; }
  int root(int t) { return ts[t].st == MERGED ? ts[t].into : t; }
  // the network in which a merged token and its active token are one
  bool expected(std::vector<std::vector<std::vector<double> > >& out) {
    TEng e2; ConstraintEngine& ce = *e2.ce; std::vector<std::vector<ConstrainedVariableId> > vs(ts.size()); std::vector<ConstraintId> made; bool ok = true;
    for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive && ts[i].st != MERGED) {
      for (int v = 0; v < NV; v++) {
        std::vector<double> b = ts[i].base[v]; bool sp = ts[i].spec[v]; double x = ts[i].val[v]; bool clash = false;
        for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].st == MERGED && ts[j].into == (int)i) {
          std::vector<double> b2; std::set_intersection(b.begin(), b.end(), ts[j].base[v].begin(), ts[j].base[v].end(), std::back_inserter(b2)); b = b2;
          if (ts[j].spec[v]) { if (sp && x != ts[j].val[v]) clash = true; sp = true; x = ts[j].val[v]; }
        }
        if (b.empty() || clash) { H::fail("P12", "harness", log.str() + " merged tokens share no value"); ok = false; b.push_back(0); }
        ConstrainedVariableId id;
        if (v == OBJ || v == QQ) { EnumeratedDomain d(FloatDT::instance()); for (size_t k = 0; k < b.size(); k++) d.insert(b[k]); d.close(); id = (new Variable<EnumeratedDomain>(ce.getId(), d))->getId(); }
        else id = (new Variable<IntervalIntDomain>(ce.getId(), IntervalIntDomain(eint((int)b[0]), eint((int)b.back()))))->getId();
        if (sp) id->specify(x);
        vs[i].push_back(id);
      }
      Scope s; s.push_back(vs[i][START]); s.push_back(vs[i][DUR]); s.push_back(vs[i][END]); made.push_back(ce.createConstraint("temporalDistance", s));
    }
    for (size_t k = 0; k < cs.size(); k++) if (cs[k].alive) { Scope s; for (auto& p : cs[k].scope) s.push_back(vs[root(p.first)][p.second]); made.push_back(ce.createConstraint(cs[k].type, s)); }
    bool r = ce.propagate();
    out.assign(ts.size(), std::vector<std::vector<double> >());
    if (r) for (size_t i = 0; i < ts.size(); i++) for (size_t v = 0; v < vs[i].size(); v++) out[i].push_back(vals(vs[i][v]->lastDomain()));
    for (size_t k = made.size(); k-- > 0;) delete static_cast<Constraint*>(made[k]);
    for (size_t i = 0; i < ts.size(); i++) for (size_t v = 0; v < vs[i].size(); v++) delete static_cast<ConstrainedVariable*>(vs[i][v]);
    return r && ok;
  }
  std::string name(int t, int v) { std::ostringstream o; o << "t" << t << "." << VN[v]; return o.str(); }
  // is everything as expected?
  bool check() {
    std::vector<std::vector<std::vector<double> > > want; bool r = expected(want), got = eng.ce->propagate();
    if (H::fails > 30) return false;
    if (r != got) { H::fail("P12", "consistent", log.str() + (got ? " : propagation finds no inconsistency" : " : propagation finds an inconsistency that is not there")); return false; }
    for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive) {
      Tok& t = ts[i]; std::ostringstream d;
      St st = t.t->isInactive() ? INACTIVE : t.t->isActive() ? ACTIVE : t.t->isMerged() ? MERGED : t.t->isRejected() ? REJECTED : (St)9;
      if (st != t.st || t.t->isActive() + t.t->isMerged() + t.t->isRejected() + t.t->isInactive() + t.t->isIncomplete() != 1) { d << " : t" << i << " is in state " << st << " expected " << t.st; H::fail("P12", "state", log.str() + d.str()); return false; }
      if (t.st == MERGED ? t.t->getActiveToken() != ts[t.into].t->getId() : !t.t->getActiveToken().isNoId()) { d << " : wrong active token of t" << i; H::fail("P12", "state", log.str() + d.str()); return false; }
      size_t n = 0; for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].st == MERGED && ts[j].into == (int)i) { n++; if (t.t->getMergedTokens().find(ts[j].t->getId()) == t.t->getMergedTokens().end()) n += 1000; }
      if (n != t.t->getMergedTokens().size()) { d << " : wrong merged tokens of t" << i; H::fail("P12", "state", log.str() + d.str()); return false; }
      n = 0; for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].master == (int)i) { n++; if (t.t->slaves().find(ts[j].t->getId()) == t.t->slaves().end()) n += 1000; }
      if (n != t.t->slaves().size() || (t.master < 0 ? !t.t->master().isNoId() : t.t->master() != ts[t.master].t->getId())) { d << " : wrong master or slaves of t" << i; H::fail("P12", "state", log.str() + d.str()); return false; }
      if (!got || t.st == MERGED) continue;
      for (int v = 0; v < NV; v++) if (vals(var(i, v)->lastDomain()) != want[i][v]) { d << " : " << name(i, v) << " is " << show(vals(var(i, v)->lastDomain())) << " expected " << show(want[i][v]); H::fail("P12", "domain", log.str() + d.str()); return false; }
    }
    const TokenSet& all = eng.db->getTokens(); size_t n = 0;
    for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive) { n++; if (all.find(ts[i].t->getId()) == all.end()) n += 1000; }
    if (n != all.size()) { H::fail("P12", "state", log.str() + " : wrong set of tokens"); return false; }
    return true;
  }
  // the token is gone, with its constraints
  void gone(int i) {
    unmerge(i); ts[i].alive = false;
    for (size_t k = 0; k < cs.size(); k++) for (auto& p : cs[k].scope) if (p.first == i) cs[k].alive = false;
    if (ts[i].master >= 0) ts[i].master = -1;
  }
  // constraints of a token have to be deleted before the token is
  void clear(int i, bool cancel) {
    std::vector<Tok> t0 = ts; std::vector<Con> c0 = cs; if (cancel) unmerge(i); else gone(i);
    std::vector<Con> c1 = cs; ts = t0; cs = c0;
    for (size_t k = 0; k < cs.size(); k++) if (cs[k].alive && !c1[k].alive) { log << " delete c" << k; cs[k].alive = false; delete static_cast<Constraint*>(cs[k].c); }
  }
  // what cancelling does to the others
  void unmerge(int i) {
    if (ts[i].st == ACTIVE) {
      for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].st == MERGED && ts[j].into == i) ts[j].st = INACTIVE;
      ts[i].st = INACTIVE;
      for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].master == i) {
        bool used = false; for (size_t k = 0; k < ts.size(); k++) used |= ts[k].alive && ts[k].st == MERGED && ts[k].into == (int)j;
        ts[j].master = -1; if (!used) gone(j);
      }
    }
    ts[i].st = INACTIVE;
  }
  int pick(bool f(World&, int)) { std::vector<int> c; for (size_t i = 0; i < ts.size(); i++) if (ts[i].alive && f(*this, i)) c.push_back(i); return c.empty() ? -1 : c[H::rnd(c.size())]; }
  void make(int master) {
    Tok t; t.pred = H::rnd(4) == 0; t.st = INACTIVE; t.into = -1; t.master = master; t.alive = true; t.rejectable = master < 0 && H::rnd(2);
    int a = H::rnd(4), b = a + 3 + H::rnd(6), c = a + H::rnd(3), d = b + H::rnd(4), e = 1 + H::rnd(2), f = e + 2 + H::rnd(5), p = H::rnd(3), q = p + 1 + H::rnd(4);
    bool one = H::rnd(3) == 0; int o = H::rnd(objs.size());
    const char* pn = t.pred ? "Obj.Q" : "Obj.P"; std::string on = one ? (o ? "o1" : "o0") : std::string(Token::noObject());
    IntervalIntDomain S(a, b), E(c, d), D(e, f);
    t.t = master < 0 ? new IntervalToken(eng.db->getId(), pn, t.rejectable, false, S, E, D, on, false) : new IntervalToken(ts[master].t->getId(), "any", pn, S, E, D, on, false);
    t.t->addParameter(IntervalIntDomain(p, q), "p");
    EnumeratedDomain Q(FloatDT::instance()); std::vector<double> qv; for (int i = 0; i < 5; i++) if (i == 2 || H::rnd(2)) { Q.insert(i); qv.push_back(i); } Q.close();
    t.t->addParameter(Q, "q"); t.t->close();
    std::vector<double> ov; for (size_t i = 0; i < objs.size(); i++) if (!one || (int)i == o) ov.push_back(cast_double(edouble(objs[i]->getKey())));
    t.base.resize(NV); t.base[OBJ] = ov; t.base[DUR] = range(e, f); t.base[START] = range(a, b); t.base[END] = range(c, d); t.base[PP] = range(p, q); t.base[QQ] = qv;
    for (int v = 0; v < NV; v++) t.spec[v] = false;
    log << " t" << ts.size() << "=" << pn << "(start[" << a << "," << b << "] end[" << c << "," << d << "] dur[" << e << "," << f << "] p[" << p << "," << q << "] q" << show(qv) << (one ? on : "") << (t.rejectable ? " rejectable" : "");
    if (master >= 0) log << " slave of t" << master;
    log << ")"; ts.push_back(t);
  }
};
static void history(int steps) {
  World w; std::ostringstream& log = w.log;
  for (int i = 0; i < 2; i++) { std::ostringstream n; n << "o" << i; w.objs.push_back(new Object(w.eng.db->getId(), "Obj", n.str(), false)); }
  w.eng.db->close();
  bool nt = false, consistent = true; int nact = 0;
  std::vector<Tok>& ts = w.ts;
  for (int s = 0; s < steps; s++) {
    H::at(log.str());
    try {
      int op = H::rnd(20); size_t alive = 0; for (Tok& t : ts) alive += t.alive;
      if (w.eng.ce->provenInconsistent()) consistent = false;
      if (!consistent && op < 12) op = 12 + H::rnd(8);
      if (alive < 2 || (op < 3 && alive < 7)) { w.make(-1); }
      else if (op < 4) { int m = w.pick([](World& w, int i) { return w.ts[i].st == ACTIVE; }); if (m >= 0) w.make(m); }
      else if (op < 6) { int i = w.pick([](World& w, int i) { return w.ts[i].st == INACTIVE; }); if (i >= 0) { log << " activate t" << i; ts[i].t->activate(); ts[i].st = ACTIVE; nact++; } }
      else if (op < 10) {
        int i = w.pick([](World& w, int i) { if (w.ts[i].st != INACTIVE) return false; for (size_t j = 0; j < w.ts.size(); j++) if (w.ts[j].alive && w.ts[j].st == MERGED && w.ts[j].into == i) return false; return true; });
        if (i >= 0) {
          log << " propagate"; consistent = w.eng.ce->propagate(); if (!consistent) { if (!w.check()) return; continue; }
          std::vector<TokenId> got; w.eng.db->getCompatibleTokens(ts[i].t->getId(), got, 100, true);
          std::vector<int> want; for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].st == ACTIVE && ts[j].pred == ts[i].pred) {
            bool ok = true; for (int v = 0; v < NV; v++) { std::vector<double> a = vals(w.var(i, v)->lastDomain()), b = vals(w.var(j, v)->lastDomain()), c; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c)); ok &= !c.empty(); }
            if (ok) want.push_back(j); }
          bool same = got.size() == want.size(); for (int j : want) same &= std::find(got.begin(), got.end(), ts[j].t->getId()) != got.end();
          if (!same) { std::ostringstream d; d << " : t" << i << " has " << got.size() << " compatible tokens, expected " << want.size(); H::fail("P12", "compatible", log.str() + d.str()); return; }
          if (!want.empty()) { int j = want[H::rnd(want.size())]; log << " merge t" << i << "->t" << j; ts[i].t->doMerge(ts[j].t->getId()); ts[i].st = MERGED; ts[i].into = j; nt = true; }
        }
      }
      else if (op < 11) { int i = w.pick([](World& w, int i) { return w.ts[i].st == INACTIVE && w.ts[i].rejectable; }); if (i >= 0) { log << " reject t" << i; ts[i].t->reject(); ts[i].st = REJECTED; } }
      else if (op < 12) { // restrict a base domain
        int i = w.pick([](World& w, int i) { return w.ts[i].st != MERGED; }); int v = 1 + H::rnd(4); if (i >= 0) {
          for (size_t j = 0; j < ts.size(); j++) if (ts[j].alive && ts[j].st == MERGED && ts[j].into == i) i = -1;
          if (i >= 0 && !w.var(i, v)->isSpecified() && w.eng.ce->propagate()) {
            std::vector<double> d = vals(w.var(i, v)->lastDomain()), b; int a = H::rnd(d.size()), c = a + H::rnd(d.size() - a);
            log << " " << w.name(i, v) << "&[" << d[a] << "," << d[c] << "]"; IntervalIntDomain r(eint((int)d[a]), eint((int)d[c])); w.var(i, v)->restrictBaseDomain(r);
            for (double x : ts[i].base[v]) if (x >= d[a] && x <= d[c]) b.push_back(x); ts[i].base[v] = b;
          } } }
      else if (op < 14) { // a constraint
        Con c; c.type = TYPES[H::rnd(5)]; c.alive = true; int n = c.type == "addEq" ? 3 : 2;
        for (int k = 0; k < n; k++) { int i = w.pick([](World&, int) { return true; }); int v = H::rnd(5) ? 1 + H::rnd(4) : (int)OBJ; c.scope.push_back(std::make_pair(i, v)); }
        bool ok = true; for (int k = 0; k < n; k++) { for (int l = 0; l < k; l++) if (c.scope[k] == c.scope[l] || (w.root(c.scope[k].first) == w.root(c.scope[l].first) && c.scope[k].second == c.scope[l].second)) ok = false; if ((c.scope[k].second == OBJ) != (c.scope[0].second == OBJ) || (c.scope[k].second == OBJ && c.type != "concurrent" && c.type != "neq") || (c.scope[k].second != OBJ && c.type == "neq")) ok = false; } // neq does not prune intervals to a unique result
        if (ok) {
          Scope sc; log << " c" << w.cs.size() << "=" << c.type << "("; for (auto& p : c.scope) { sc.push_back(w.var(p.first, p.second)); log << (sc.size() > 1 ? "," : "") << w.name(p.first, p.second); } log << ")";
          c.c = w.eng.ce->createConstraint(c.type, sc); w.cs.push_back(c);
        }
      }
      else if (op < 15) { std::vector<int> a; for (size_t k = 0; k < w.cs.size(); k++) if (w.cs[k].alive) a.push_back(k); if (!a.empty()) { int k = a[H::rnd(a.size())]; log << " delete c" << k; delete static_cast<Constraint*>(w.cs[k].c); w.cs[k].alive = false; } }
      else if (op < 17) { // specify or reset
        int i = w.pick([](World& w, int i) { return w.ts[i].st != MERGED; }); int v = H::rnd(NV); if (i >= 0) {
          if (w.var(i, v)->isSpecified()) { if (ts[i].spec[v]) { log << " reset " << w.name(i, v); w.var(i, v)->reset(); ts[i].spec[v] = false; } }
          else if (consistent && w.eng.ce->propagate()) { std::vector<double> d = vals(w.var(i, v)->lastDomain()); double x = d[H::rnd(d.size())]; log << " " << w.name(i, v) << "=" << x; w.var(i, v)->specify(x); ts[i].spec[v] = true; ts[i].val[v] = x; }
        } }
      else if (op < 19) { int i = w.pick([](World& w, int i) { return w.ts[i].st != INACTIVE; }); if (i >= 0) { w.clear(i, true); log << " cancel t" << i; ts[i].t->cancel(); w.unmerge(i); nt = true; } }
      else { int i = w.pick([](World&, int) { return true; }); w.clear(i, false); log << " delete t" << i; IntervalToken* t = ts[i].t; w.gone(i); delete t; }
      if (H::rnd(3)) continue;
      log << " ?"; if (!w.check()) return; consistent = w.eng.ce->constraintConsistent();
    } catch (Error& e) { H::fail("P12", "error", log.str() + " raised " + e.getMsg()); return; }
  }
  H::count(nt);
  if (H::cases % 97 == 1) H::sample(log.str());
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  Error::doThrowExceptions(); Error::doNotDisplayErrors();
  int N = H::thorough() ? 30000 : 1500; if (getenv("N")) N = atoi(getenv("N"));
  for (int i = 0; i < N && H::fails < 40; i++) history(5 + H::rnd(40));
  return H::done();
}
