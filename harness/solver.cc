// P13: the chronological backtracking solver against exhaustive enumeration, over random constraint problems.
#include "h.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleSolvers.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "PlanDatabase.hh"
#include "Schema.hh"
#include "Solver.hh"
#include "Object.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "TokenType.hh"
#include "ObjectType.hh"
#include "CESchema.hh"
#include "Constraints.hh"
#include "tinyxml.h"
#include "XMLUtils.hh"
#include <boost/cast.hpp>
using namespace EUROPA;
typedef std::vector<ConstrainedVariableId> Scope;
struct SEng : public EngineBase {
  PlanDatabase* db; ConstraintEngine* ce;
  SEng() {
    addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); addModule((new ModulePlanDatabase())->getId()); addModule((new ModuleSolvers())->getId());
    doStart();
    db = boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); ce = boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"));
    db->close();
  }
  virtual ~SEng() { doShutdown(); }
};
struct Con { int type; std::vector<int> s; };
static const char* TYPES[] = { "leq", "lt", "eq", "neq", "addEq" };
static bool holds(const Con& c, const std::vector<int>& v) {
  switch (c.type) { case 0: return v[c.s[0]] <= v[c.s[1]]; case 1: return v[c.s[0]] < v[c.s[1]]; case 2: return v[c.s[0]] == v[c.s[1]]; case 3: return v[c.s[0]] != v[c.s[1]]; default: return v[c.s[0]] + v[c.s[1]] == v[c.s[2]]; }
}
static std::string show(const std::vector<int>& v) { std::ostringstream o; o << "("; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << ")"; return o.str(); }
static std::string doms(const std::vector<ConstrainedVariableId>& vs) { std::ostringstream o; for (size_t i = 0; i < vs.size(); i++) { const Domain& d = vs[i]->lastDomain(); o << " "; if (d.isEmpty()) { o << "{}"; continue; } std::list<edouble> l; d.getValues(l); for (std::list<edouble>::iterator k = l.begin(); k != l.end(); ++k) o << cast_double(*k) << ","; o << (vs[i]->isSpecified() ? "!" : ""); } return o.str(); }

static void problem() {
  std::ostringstream log;
  int n = 1 + H::rnd(5), m = H::rnd(2 * n); bool nt = false;
  std::vector<std::vector<int> > dom(n); std::vector<Con> cs;
  for (int i = 0; i < n; i++) { int k = 1 + H::rnd(4); std::set<int> s; while ((int)s.size() < k) s.insert(H::rnd(5)); dom[i].assign(s.begin(), s.end()); log << " v" << i << show(dom[i]); }
  for (int i = 0; i < m; i++) { Con c; c.type = H::rnd(5); int k = c.type == 4 ? 3 : 2; if (n < k) continue; while ((int)c.s.size() < k) { int x = H::rnd(n); if (std::find(c.s.begin(), c.s.end(), x) == c.s.end()) c.s.push_back(x); } cs.push_back(c); log << " " << TYPES[c.type] << show(c.s); }
  std::set<std::vector<int> > want, got;
  std::vector<size_t> ix(n, 0);
  for (;;) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = dom[i][ix[i]]; bool ok = true; for (Con& c : cs) if (!holds(c, v)) ok = false; if (ok) want.insert(v); int i = 0; while (i < n && ++ix[i] == dom[i].size()) ix[i++] = 0; if (i == n) break; }
  std::ostringstream x; x << "<Solver name=\"S\"><UnboundVariableManager defaultPriority=\"" << H::rnd(3) * 50 << "\">";
  for (int i = 0; i < n; i++) if (H::rnd(3) == 0) x << "<FlawHandler var-match=\"v" << i << "\" component=\"" << (H::rnd(2) ? "Min" : H::rnd(2) ? "Max" : "Random") << "\" priority=\"" << H::rnd(4) * 10 << "\"/>";
  x << "<FlawHandler component=\"" << (H::rnd(2) ? "Min" : H::rnd(2) ? "Max" : "Random") << "\"/></UnboundVariableManager></Solver>";
  int depth = H::rnd(3) ? 1000 : n + (int)H::rnd(2); int chunk = H::rnd(2) ? 100000 : 1 + H::rnd(6);
  log << " chunk=" << chunk << " depth=" << depth << " " << x.str();
  H::at(log.str());
  SEng eng; std::vector<ConstrainedVariableId> vs;
  try {
    for (int i = 0; i < n; i++) { NumericDomain d(IntDT::instance()); for (int k : dom[i]) d.insert(k); d.close(); std::ostringstream nm; nm << "v" << i; vs.push_back((new Variable<NumericDomain>(eng.ce->getId(), d, false, true, nm.str()))->getId()); }
    for (Con& c : cs) { Scope s; for (int i : c.s) s.push_back(vs[i]); eng.ce->createConstraint(TYPES[c.type], s); }
    std::string text = x.str(); TiXmlElement* xml = initXml(text);
    SOLVERS::Solver* solver = new SOLVERS::Solver(eng.db->getId(), *xml);
    bool ok0 = eng.ce->propagate(); std::string before = ok0 ? doms(vs) : "inconsistent";
    if (!ok0) { // a conflict without any decision: nothing to search
      if (!want.empty()) H::fail("P13", "consistency", log.str() + " is inconsistent although " + show(*want.begin()) + " satisfies every constraint");
      delete solver; delete xml; H::count(false); return;
    }
    for (int guard = 0; guard < 100000; guard++) {
      unsigned long d0 = solver->getDepth(); unsigned int s0 = solver->getStepCount();
      bool r = solver->solve(chunk, depth);
      unsigned int used = solver->getStepCount() - s0;
      if ((int)used > chunk) { H::fail("P13", "step limit", log.str() + " more steps than allowed"); return; }
      if (r) {
        nt = true;
        std::vector<int> v(n); bool all = eng.ce->propagate();
        for (int i = 0; i < n; i++) { if (!vs[i]->lastDomain().isSingleton()) all = false; else v[i] = (int)cast_double(vs[i]->lastDomain().getSingletonValue()); }
        if (!all) { H::fail("P13", "incomplete", log.str() + " solve() returned true with flaws left:" + doms(vs)); return; }
        if (!want.count(v)) { H::fail("P13", "not a solution", log.str() + " found " + show(v)); return; }
        if (!got.insert(v).second) { H::fail("P13", "solution repeated", log.str() + " found " + show(v) + " again"); return; }
        if (!solver->noMoreFlaws()) { H::fail("P13", "flaws", log.str() + " noMoreFlaws() is false on a solution"); return; }
        if (solver->isExhausted() || solver->isTimedOut()) { H::fail("P13", "status", log.str() + " exhausted or timed out on a solution"); return; }
        if (H::rnd(12) == 0) { // take everything back
          solver->reset(); eng.ce->propagate();
          if (doms(vs) != before || solver->getDepth() != 0) H::fail("P13", "reset", log.str() + " domains after reset" + doms(vs) + ", before" + before);
          got.clear(); delete solver; delete xml; H::count(nt); return;
        }
        if (solver->getDepth() == 0) break; // no decision was needed
        if (solver->backjump(1)) { if (solver->getDepth() != 0) { H::fail("P13", "exhausted", log.str() + " decisions left on exhaustion"); return; } break; }
      }
      else if (solver->isExhausted()) { if (solver->getDepth() != 0) { H::fail("P13", "exhausted", log.str() + " decisions left on exhaustion"); return; } break; }
      else if (!solver->isTimedOut()) { H::fail("P13", "status", log.str() + " neither solved nor exhausted nor timed out"); return; }
      else if ((int)used < chunk && (solver->getDepth() <= d0 || (int)(solver->getDepth() - d0) <= depth)) {
        std::ostringstream o; o << log.str() << " timed out after " << used << " steps at depth " << solver->getDepth() << ", starting from depth " << d0; H::fail("P13", "limit", o.str()); return; }
    }
    eng.ce->propagate();
    if (got != want) { std::ostringstream o; for (auto& v : want) if (!got.count(v)) { o << " missed " << show(v); break; } H::fail("P13", "search is not exhaustive", log.str() + o.str()); return; }
    if (doms(vs) != before) { H::fail("P13", "restored", log.str() + " after exhausting the search the domains are" + doms(vs) + ", before" + before); return; }
    delete solver; delete xml;
  } catch (Error& e) { H::fail("P13", "error", log.str() + " raised " + e.getMsg()); return; }
  H::count(nt);
  if (H::cases % 97 == 1) { std::ostringstream o; o << log.str() << " -> " << want.size() << " solutions"; H::sample(o.str()); }
}
template <class C> static void sys(CESchema* ces, const char* name) { REGISTER_SYSTEM_CONSTRAINT(ces, C, name, "Default"); }
struct TT : public TokenType {
  TT(const ObjectTypeId ot, const char* n) : TokenType(ot, n) { addArg(IntDT::instance(), "p"); }
  TokenId createInstance(const PlanDatabaseId db, const std::string& name, bool rejectable = false, bool fact = false) const { return (new IntervalToken(db, name, rejectable, fact))->getId(); }
  TokenId createInstance(const TokenId master, const std::string& name, const std::string& relation) const { return (new IntervalToken(master, relation, name))->getId(); }
};
struct TEng : public EngineBase {
  PlanDatabase* db; ConstraintEngine* ce;
  TEng() {
    addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); addModule((new ModulePlanDatabase())->getId()); addModule((new ModuleSolvers())->getId());
    doStart();
    Schema* schema = boost::polymorphic_cast<Schema*>(getComponent("Schema"));
    ObjectType* ot = new ObjectType("Obj", schema->getObjectType(Schema::rootObject()));
    ot->addTokenType((new TT(ot->getId(), "Obj.P"))->getId()); ot->addTokenType((new TT(ot->getId(), "Obj.Q"))->getId()); ot->addTokenType((new TT(ot->getId(), "Obj.R"))->getId());
    schema->registerObjectType(ot->getId());
    CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
    sys<EqualConstraint>(ces, "concurrent"); sys<LessThanEqualConstraint>(ces, "precedes"); sys<AddEqualConstraint>(ces, "temporaldistance"); sys<AddEqualConstraint>(ces, "temporalDistance");
    db = boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); ce = boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"));
    new Object(db->getId(), "Obj", "o1", false); db->close();
  }
  virtual ~TEng() { doShutdown(); }
};
/** free tokens of different kinds among active ones: activating it, merging with each compatible token, rejecting it if it may be */
static void tokens() {
  std::ostringstream log; static const char* KIND[] = { "Obj.P", "Obj.Q", "Obj.R" };
  int kinds = 1 + H::rnd(3); bool basic = H::rnd(2); int chunk = H::rnd(2) ? 100000 : 1 + H::rnd(6); bool nt = false;
  struct T { int kind, s0, s1; bool free, rej; }; std::vector<T> in;
  for (int k = 0; k < kinds; k++) { int m = H::rnd(5); for (int i = 0; i <= m; i++) { T t; t.kind = k; t.s0 = H::rnd(8); t.s1 = t.s0 + H::rnd(6); t.free = i == m; t.rej = t.free && H::rnd(2); in.push_back(t); log << " " << KIND[k] << "[" << t.s0 << "," << t.s1 << "]" << (t.free ? t.rej ? " free, rejectable" : " free" : ""); } }
  std::ostringstream x; x << "<Solver name=\"S\"><OpenConditionManager><FlawHandler component=\"" << (basic ? "Basic" : "Standard") << "OpenConditionHandler\"/></OpenConditionManager></Solver>";
  log << " chunk=" << chunk << " " << x.str(); H::at(log.str());
  TEng eng;
  try {
    std::vector<TokenId> ts; std::vector<int> fr; size_t want = 1;
    for (size_t i = 0; i < in.size(); i++) { T& t = in[i]; ts.push_back((new IntervalToken(eng.db->getId(), KIND[t.kind], t.rej, false, IntervalIntDomain(t.s0, t.s1), IntervalIntDomain(0, 100), IntervalIntDomain(3, 3), Token::noObject(), true))->getId()); if (t.free) fr.push_back(i); else ts[i]->activate(); }
    for (int b : fr) { size_t w = 1 + in[b].rej; for (T& t : in) if (!t.free && t.kind == in[b].kind && std::max(t.s0, in[b].s0) <= std::min(t.s1, in[b].s1)) w++; want *= w; }
    if (!eng.ce->propagate()) { H::fail("P13", "consistency", log.str() + " is inconsistent before any decision"); return; }
    std::string text = x.str(); TiXmlElement* xml = initXml(text);
    SOLVERS::Solver* solver = new SOLVERS::Solver(eng.db->getId(), *xml);
    std::set<std::string> got;
    for (int guard = 0; guard < 100000; guard++) {
      if (solver->solve(chunk, 1000)) {
        nt = true; std::ostringstream g;
        for (int b : fr) { if (ts[b]->isActive()) g << " active"; else if (ts[b]->isRejected()) g << " rejected"; else if (ts[b]->isMerged()) { int k = -1; for (size_t i = 0; i < ts.size(); i++) if (ts[i] == ts[b]->getActiveToken()) k = i; g << " merged:" << k; if (k < 0 || in[k].kind != in[b].kind || !ts[k]->isActive()) H::fail("P13", "merge", log.str() + " merged with a token it is not compatible with"); } else { H::fail("P13", "incomplete", log.str() + " solve() returned true with a token left open"); return; } }
        if (!got.insert(g.str()).second) { H::fail("P13", "plan repeated", log.str() + " found" + g.str() + " again"); return; }
        if (!solver->noMoreFlaws()) { H::fail("P13", "flaws", log.str() + " noMoreFlaws() is false on a plan"); return; }
        if (solver->backjump(1)) break;
      }
      else if (solver->isExhausted()) break;
      else if (!solver->isTimedOut()) { H::fail("P13", "status", log.str() + " neither solved nor exhausted nor timed out"); return; }
    }
    if (got.size() != want) { std::ostringstream o; o << log.str() << " has " << want << " plans, the search found " << got.size() << ":"; for (const std::string& g : got) o << " (" << g << ")"; H::fail("P13", "search is not exhaustive", o.str()); return; }
    for (int b : fr) if (!ts[b]->isInactive()) { H::fail("P13", "restored", log.str() + " a token is left decided after exhausting the search"); return; }
    delete solver; delete xml;
  } catch (Error& e) { H::fail("P13", "error", log.str() + " raised " + e.getMsg()); return; }
  H::count(nt);
}
int main(int argc, char** argv) {
  H::init(argc, argv);
  Error::doThrowExceptions(); Error::doNotDisplayErrors();
  int N = H::thorough() ? 100000 : 6000; if (getenv("N")) N = atoi(getenv("N"));
  for (int i = 0; i < N && H::fails < 40; i++) { if (i % 4 == 3) tokens(); else problem(); }
  return H::done();
}
