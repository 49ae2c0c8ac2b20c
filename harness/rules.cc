// P14: trees of guarded rules on tokens whose guard variables change in arbitrary histories; a rule is in force exactly while its guards hold.
#include "h.hh"
#include <malloc.h>
#include "Error.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "Constraints.hh"
#include "ConstraintType.hh"
#include "CESchema.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "PlanDatabase.hh"
#include "Schema.hh"
#include "Object.hh"
#include "IntervalToken.hh"
#include "TokenVariable.hh"
#include "TokenType.hh"
#include "ObjectType.hh"
#include "RulesEngine.hh"
#include "Rule.hh"
#include "RuleInstance.hh"
#include <boost/cast.hpp>
using namespace EUROPA;
typedef std::vector<ConstrainedVariableId> Scope;
template <class C> static void sys(CESchema* ces, const char* name) { REGISTER_SYSTEM_CONSTRAINT(ces, C, name, "Default"); }
enum Kind { ALWAYS, MEMBER, NONMEMBER, DECIDED };
struct Node { int parent; Kind kind; std::vector<int> guards; int lo, hi, slaves; bool local; };
static std::vector<Node> nodes;
static ConstrainedVariableId arg(const TokenId t, int k) { return t->parameters()[k]; }
static Scope args(const TokenId t, const std::vector<int>& g) { Scope r; for (size_t i = 0; i < g.size(); i++) r.push_back(arg(t, g[i])); return r; }
static Scope rest(const TokenId t, const std::vector<int>& g) { Scope r; for (size_t i = 1; i < g.size(); i++) r.push_back(arg(t, g[i])); return r; }
static IntervalIntDomain range(const Node& n) { return IntervalIntDomain(eint(n.lo), eint(n.hi)); }
struct RI;
static std::map<std::pair<int, int>, RI*> live; // (token, node) -> the instance
static bool twice = false;
struct RI : public RuleInstance {
  int n; std::pair<int, int> key;
  void reg() { key = std::make_pair((int)cast_double(m_token->getKey()), n); if (live.count(key)) twice = true; live[key] = this; }
  RI(const RuleId r, const TokenId t, const PlanDatabaseId db, int n) : RuleInstance(r, t, db), n(n) { reg(); }
  RI(const RuleId r, const TokenId t, const PlanDatabaseId db, int n, const Scope& g) : RuleInstance(r, t, db, g), n(n) { reg(); }
  RI(const RuleId r, const TokenId t, const PlanDatabaseId db, int n, const ConstrainedVariableId v, const Domain& d) : RuleInstance(r, t, db, v, d), n(n) { reg(); }
  RI(const RuleInstanceId p, const Scope& g, int n) : RuleInstance(p, g), n(n) { reg(); }
  RI(const RuleInstanceId p, const ConstrainedVariableId v, const Domain& d, bool pos, const Scope& more, int n) : RuleInstance(p, v, d, pos, more), n(n) { reg(); }
  ~RI() { live.erase(key); }
  void handleExecute() {
    for (int i = 0; i < nodes[n].slaves; i++) { TokenId s = addSlave(new IntervalToken(m_token, "met_by", "Obj.Q")); addConstraint("eq", makeScope(m_token->end(), s->start())); }
    if (nodes[n].local) addVariable(IntervalIntDomain(eint(0), eint(3)), true, "local");
    for (size_t k = 0; k < nodes.size(); k++) if (nodes[k].parent == n) {
      if (nodes[k].kind == ALWAYS || nodes[k].kind == DECIDED) addChildRule(new RI(m_id, args(m_token, nodes[k].guards), k));
      else addChildRule(new RI(m_id, arg(m_token, nodes[k].guards[0]), range(nodes[k]), nodes[k].kind == MEMBER, rest(m_token, nodes[k].guards), k));
    }
  }
};
struct R : public Rule {
  int n; R(int n) : Rule("Obj.P"), n(n) {}
  RuleInstanceId createInstance(const TokenId t, const PlanDatabaseId db, const RulesEngineId& re) const {
    const Node& d = nodes[n];
    RI* r = d.kind == ALWAYS ? new RI(m_id, t, db, n) : d.kind == DECIDED ? new RI(m_id, t, db, n, args(t, d.guards)) : new RI(m_id, t, db, n, arg(t, d.guards[0]), range(d));
    r->setRulesEngine(re); return r->getId();
  }
};
struct TT : public TokenType {
  TT(const ObjectTypeId ot, const char* n) : TokenType(ot, n) { for (int i = 0; i < 3; i++) addArg(IntDT::instance(), std::string(1, 'a' + i)); }
  TokenId createInstance(const PlanDatabaseId db, const std::string& name, bool rejectable = false, bool fact = false) const { return (new IntervalToken(db, name, rejectable, fact))->getId(); }
  TokenId createInstance(const TokenId master, const std::string& name, const std::string& relation) const { return (new IntervalToken(master, relation, name))->getId(); }
};
struct REng : public EngineBase {
  PlanDatabase* db; ConstraintEngine* ce; RulesEngine* re;
  REng() {
    addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); addModule((new ModulePlanDatabase())->getId()); addModule((new ModuleRulesEngine())->getId());
    doStart();
    Schema* schema = boost::polymorphic_cast<Schema*>(getComponent("Schema"));
    ObjectType* ot = new ObjectType("Obj", schema->getObjectType(Schema::rootObject()));
    ot->addTokenType((new TT(ot->getId(), "Obj.P"))->getId()); ot->addTokenType((new TT(ot->getId(), "Obj.Q"))->getId());
    schema->registerObjectType(ot->getId());
    CESchema* ces = boost::polymorphic_cast<CESchema*>(getComponent("CESchema"));
    sys<EqualConstraint>(ces, "concurrent"); sys<LessThanEqualConstraint>(ces, "precedes"); sys<AddEqualConstraint>(ces, "temporaldistance"); sys<AddEqualConstraint>(ces, "temporalDistance");
    db = boost::polymorphic_cast<PlanDatabase*>(getComponent("PlanDatabase")); ce = boost::polymorphic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")); re = boost::polymorphic_cast<RulesEngine*>(getComponent("RulesEngine"));
  }
  virtual ~REng() { doShutdown(); }
};
static bool decided(const ConstrainedVariableId v) { return v->isSpecified() || (cast_double(v->baseDomain().getLowerBound()) == cast_double(v->baseDomain().getUpperBound())); }
static bool holds(const Node& n, const TokenId t) {
  for (size_t i = n.kind == DECIDED ? 0 : 1; i < n.guards.size(); i++) if (!decided(arg(t, n.guards[i]))) return false;
  if (n.kind == ALWAYS || n.kind == DECIDED) return true;
  const Domain& d = arg(t, n.guards[0])->lastDomain(); double a = cast_double(d.getLowerBound()), b = cast_double(d.getUpperBound());
  if (n.kind == MEMBER) return a == b && a >= n.lo && a <= n.hi;
  return a > n.hi || b < n.lo;
}
static void history() {
  std::ostringstream log; nodes.clear(); live.clear(); twice = false; bool nt = false;
  int k = 1 + H::rnd(6); static const char* KN[] = { "always", "in", "out", "set" };
  for (int i = 0; i < k; i++) {
    Node n; n.parent = i && H::rnd(4) ? (int)H::rnd(i) : -1; n.kind = (Kind)H::rnd(4); if (n.parent < 0 && n.kind == NONMEMBER) n.kind = MEMBER; if (n.parent >= 0 && n.kind == ALWAYS) n.kind = DECIDED;
    n.lo = H::rnd(4); n.hi = n.lo + H::rnd(4 - n.lo); n.slaves = H::rnd(3); n.local = H::rnd(3) == 0;
    if (n.kind != ALWAYS) { int g = 1 + (n.kind == DECIDED || n.parent >= 0 ? H::rnd(3) : 0); while ((int)n.guards.size() < g) { int x = H::rnd(3); if (std::find(n.guards.begin(), n.guards.end(), x) == n.guards.end()) n.guards.push_back(x); } }
    log << " n" << i << "<" << n.parent << ":" << KN[n.kind]; for (size_t j = 0; j < n.guards.size(); j++) log << "abc"[n.guards[j]]; if (n.kind == MEMBER || n.kind == NONMEMBER) log << n.lo << "-" << n.hi; log << "*" << n.slaves;
    nodes.push_back(n);
  }
  REng eng; for (int i = 0; i < k; i++) if (nodes[i].parent < 0) eng.re->getRuleSchema()->registerRule((new R(i))->getId());
  Object* o = new Object(eng.db->getId(), "Obj", "o"); (void)o; eng.db->close();
  bool ap = H::rnd(2); eng.ce->setAutoPropagation(ap); log << (ap ? " auto" : "");
  std::vector<TokenId> ts; int nt_ = 1 + H::rnd(2);
  for (int i = 0; i < nt_; i++) {
    IntervalToken* t = new IntervalToken(eng.db->getId(), "Obj.P", false, false, IntervalIntDomain(eint(0), eint(100)), IntervalIntDomain(eint(0), eint(200)), IntervalIntDomain(eint(1), eint(10)), Token::noObject(), false);
    for (int a = 0; a < 3; a++) t->addParameter(IntervalIntDomain(eint(0), eint(H::rnd(6) ? 3 : 0)), std::string(1, 'a' + a));
    t->close(); ts.push_back(t->getId());
  }
  std::vector<ConstraintId> cs; int steps = 2 + H::rnd(14);
  for (int s = 0; s <= steps; s++) {
    int op = s == steps ? 9 : H::rnd(12); if (op > 9) op -= 8; TokenId t = ts[H::rnd(ts.size())]; int ti = t == ts[0] ? 0 : 1; int a = H::rnd(3);
    if (op == 0 || (s == 0)) { if (!t->isInactive()) continue; log << " activate t" << ti; H::at(log.str()); t->activate(); }
    else if (op == 1) { if (!t->isActive()) continue; log << " cancel t" << ti; H::at(log.str()); t->cancel(); }
    else if (op < 5) { int v = H::rnd(4); ConstrainedVariableId x = arg(t, a); if (x->isSpecified() || !x->lastDomain().isMember(v)) continue; log << " t" << ti << "." << "abc"[a] << "=" << v; H::at(log.str()); x->specify(v); }
    else if (op == 5 || op == 6) { ConstrainedVariableId x = arg(t, a); if (!x->isSpecified()) continue; log << " reset t" << ti << "." << "abc"[a]; H::at(log.str()); x->reset(); }
    else if (op == 7) { Scope sc; sc.push_back(arg(t, a)); sc.push_back(arg(ts[H::rnd(ts.size())], H::rnd(3))); if (sc[0] == sc[1]) continue; const char* ty = H::rnd(2) ? "leq" : "eq"; log << " " << ty; cs.push_back(eng.ce->createConstraint(ty, sc)); log << cs.back()->getKey(); }
    else if (op == 8) { if (cs.empty()) continue; int c = H::rnd(cs.size()); log << " delete c" << cs[c]->getKey(); H::at(log.str()); delete static_cast<Constraint*>(cs[c]); cs.erase(cs.begin() + c); }
    if (op != 9 && !ap) continue;
    log << " propagate"; H::at(log.str());
    if (!eng.ce->propagate()) { log << "(inconsistent)"; continue; }
    for (size_t i = 0; i < ts.size(); i++) {
      size_t slaves = 0; std::vector<bool> on(k, false); std::ostringstream d;
      for (int n = 0; n < k; n++) {
        bool exists = ts[i]->isActive() && (nodes[n].parent < 0 || on[nodes[n].parent]); on[n] = exists && holds(nodes[n], ts[i]); if (on[n]) slaves += nodes[n].slaves;
        std::map<std::pair<int, int>, RI*>::iterator r = live.find(std::make_pair((int)cast_double(ts[i]->getKey()), n)); bool there = r != live.end();
        if (on[n] && nodes[n].kind != ALWAYS) nt = true;
        if (there != exists) { d << " : n" << n << " of t" << i << (there ? " is there" : " is missing"); H::fail("P14", "instance", log.str() + d.str()); return; }
        if (there && r->second->isExecuted() != on[n]) { d << " : n" << n << " of t" << i << (on[n] ? " is not in force though its guards hold" : " is in force though its guards do not hold"); H::fail("P14", on[n] ? "missing" : "stale", log.str() + d.str()); return; }
        if (there && r->second->getSlaves().size() != (on[n] ? nodes[n].slaves : 0)) { d << " : n" << n << " of t" << i << " has " << r->second->getSlaves().size() << " slaves"; H::fail("P14", "slaves", log.str() + d.str()); return; }
      }
      if (ts[i]->slaves().size() != slaves) { d << " : t" << i << " has " << ts[i]->slaves().size() << " slaves expected " << slaves; H::fail("P14", "slaves", log.str() + d.str()); return; }
    }
    if (twice) { H::fail("P14", "instance", log.str() + " : two instances of a rule for one token"); return; }
  }
  H::sample(log.str()); H::count(nt);
}
int main(int argc, char** argv) {
  H::init(argc, argv); mallopt(M_PERTURB, 0x5a); /* what is deleted is overwritten */ Error::doThrowExceptions(); Error::doNotDisplayErrors();
  long n = H::thorough() ? 40000 : 4000; if (getenv("N")) n = atol(getenv("N"));
  for (long i = 0; i < n && H::fails < 10; i++) history();
  return H::done();
}
