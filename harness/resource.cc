// P11: histories of transactions on a resource against the envelope computed from the transactions themselves.
#include "h.hh"
#include "Error.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleTemporalNetwork.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleSolvers.hh"
#include "ProfilePropagator.hh"
#include "TimetableProfile.hh"
#include "GroundedProfile.hh"
#include "OpenWorldFVDetector.hh"
#include "ClosedWorldFVDetector.hh"
#include "GroundedFVDetector.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "PlanDatabase.hh"
#include "Schema.hh"
#include "Object.hh"
#include "Token.hh"
#include "Resource.hh"
#include "Profile.hh"
#include "Instant.hh"
#include "Transaction.hh"
#include "FVDetector.hh"
#include <boost/cast.hpp>
using namespace EUROPA;
// the profiles, detectors and propagator of ModuleResource (which needs the NDDL interpreter to build)
struct Mod : public Module {
  Mod() : Module("Resource") {}
  void initialize() {}
  void uninitialize() {}
  void initialize(EngineId engine) {
    ConstraintEngine* ce = boost::polymorphic_cast<ConstraintEngine*>(engine->getComponent("ConstraintEngine"));
    new ProfilePropagator("Resource", ce->getId());
    FactoryMgr* pfm = new FactoryMgr(); engine->addComponent("ProfileFactoryMgr", pfm);
    REGISTER_PROFILE(pfm, TimetableProfile, TimetableProfile); REGISTER_PROFILE(pfm, GroundedProfile, GroundedProfile);
    FactoryMgr* fvdfm = new FactoryMgr(); engine->addComponent("FVDetectorFactoryMgr", fvdfm);
    REGISTER_FVDETECTOR(fvdfm, OpenWorldFVDetector, OpenWorldFVDetector); REGISTER_FVDETECTOR(fvdfm, ClosedWorldFVDetector, ClosedWorldFVDetector); REGISTER_FVDETECTOR(fvdfm, GroundedFVDetector, GroundedFVDetector);
  }
  void uninitialize(EngineId engine) { const char* n[] = { "ProfileFactoryMgr", "FVDetectorFactoryMgr" }; for (int i = 0; i < 2; i++) delete boost::polymorphic_cast<FactoryMgr*>(engine->removeComponent(n[i])); }
};
struct REng : public EngineBase {
  REng() {
    addModule((new ModuleConstraintEngine())->getId()); addModule((new ModuleConstraintLibrary())->getId()); addModule((new ModulePlanDatabase())->getId());
    addModule((new ModuleRulesEngine())->getId()); addModule((new ModuleTemporalNetwork())->getId()); addModule((new ModuleSolvers())->getId());
    addModule((new Mod())->getId());
    doStart();
    boost::polymorphic_cast<Schema*>(getComponent("Schema"))->addObjectType("Resource");
  }
  virtual ~REng() { doShutdown(); }
};
static const double INFD = 1e15;
static double D(edouble x) { return x >= edouble(INFD) ? INFD : x <= edouble(-INFD) ? -INFD : cast_double(x); }
static edouble E(double x) { return x >= INFD ? edouble(PLUS_INFINITY) : x <= -INFD ? edouble(MINUS_INFINITY) : edouble(x); }

struct Rec : public Resource {
  std::map<long, int> bad; std::set<long> flawed;
  Rec(const PlanDatabaseId db, const std::string& name, const std::string& det, const std::string& prof, double c0, double c1, double l0, double l1, double mip, double mic, double mp, double mc)
    : Resource(db, "Resource", name, det, prof, E(c0), E(c1), E(l0), E(l1), E(mip), E(mic), E(mp), E(mc)) {}
  ~Rec() {}
  void put(const TransactionId t) { m_profile->addTransaction(t); }
  void drop(const TransactionId t) { m_profile->removeTransaction(t); }
  void addToProfile(const TokenId) {}
  void removeFromProfile(const TokenId) {}
  void createTransactions(const TokenId) {}
  void removeTransactions(const TokenId) {}
private:
  static long at(const InstantId i) { return (long)cast_double(edouble(i->getTime())); }
  void notifyViolated(const InstantId i, ProblemType p) { bad[at(i)] = p; }
  void notifyNoLongerViolated(const InstantId i) { bad.erase(at(i)); }
  void notifyFlawed(const InstantId i) { flawed.insert(at(i)); }
  void notifyNoLongerFlawed(const InstantId i) { flawed.erase(at(i)); }
  void notifyDeleted(const InstantId i) { bad.erase(at(i)); flawed.erase(at(i)); }
};

typedef Variable<IntervalIntDomain> TV; typedef Variable<IntervalDomain> QV;
struct Tr { TV* t; QV* q; Transaction* x; bool cons, in; };

static void history(int steps) {
  std::ostringstream log;
  REng eng; PlanDatabase& db = *boost::polymorphic_cast<PlanDatabase*>(eng.getComponent("PlanDatabase")); ConstraintEngine& ce = *boost::polymorphic_cast<ConstraintEngine*>(eng.getComponent("ConstraintEngine"));
  bool open = H::rnd(2), limits = H::rnd(3) != 0, allow = H::rnd(3) != 0;
  auto lim = [&](int n) { return limits && H::rnd(2) ? (double)H::rnd(n) : INFD; };
  double c0 = H::rnd(10), c1 = c0 + H::rnd(3), l0 = limits ? (double)H::rnd(4) : -INFD, l1 = limits ? 8.0 + H::rnd(8) : INFD, mp = lim(40), mc = lim(40), mip = lim(20), mic = lim(20);
  ce.setAllowViolations(allow);
  Rec* r = new Rec(db.getId(), "r", open ? "OpenWorldFVDetector" : "ClosedWorldFVDetector", "TimetableProfile", c0, c1, l0, l1, mip, mic, mp, mc);
  db.close();
  log << (open ? "open" : "closed") << (allow ? " allow" : "") << " initial [" << c0 << "," << c1 << "] limits [" << l0 << "," << l1 << "] max instant production " << mip << " consumption " << mic << " max production " << mp << " consumption " << mc << " :";
  if (mip >= INFD) mip = mp;
  if (mic >= INFD) mic = mc;
  std::map<double, std::pair<double, double> > capP, limP; capP[-INFD] = std::make_pair(c0, c1); limP[-INFD] = std::make_pair(l0, l1);
  std::vector<Tr> ts; bool nt = false, stop = false;
  auto bounds = [&](Tr& t, double& a, double& b) { a = D(t.t->lastDomain().getLowerBound()); b = D(t.t->lastDomain().getUpperBound()); };
  for (int s = 0; s < steps && !stop; s++) {
    H::at(log.str());
    try {
      int op = H::rnd(10);
      if (allow && limits && H::rnd(12) == 0) {
        int at = H::rnd(20); double a = H::rnd(10), b = a + H::rnd(4); bool cap = H::rnd(2); if (!cap) { a = H::rnd(4); b = 6.0 + H::rnd(10); }
        log << (cap ? " capacity" : " limits") << "@" << at << "=[" << a << "," << b << "]";
        if (cap) { r->setCapacity(eint(at), edouble(a), edouble(b)); capP[at] = std::make_pair(a, b); } else { r->setLimit(eint(at), edouble(a), edouble(b)); limP[at] = std::make_pair(a, b); }
        continue;
      }
      if (ts.empty() || op < 3) {
        Tr t; int a = H::rnd(12), b = a + (H::rnd(3) ? H::rnd(8) : 0); double qa = H::rnd(6), qb = qa + (H::rnd(2) ? H::rnd(5) : 0);
        t.t = new TV(ce.getId(), IntervalIntDomain(a, b)); t.q = new QV(ce.getId(), IntervalDomain(qa, qb)); t.cons = H::rnd(2); t.in = true;
        t.x = new Transaction(t.t->getId(), t.q->getId(), t.cons, EntityId::noId());
        r->put(t.x->getId()); ts.push_back(t);
        log << " " << ts.size() - 1 << "=" << (t.cons ? "-" : "+") << "[" << qa << "," << qb << "]@[" << a << "," << b << "]";
      } else {
        int i = H::rnd(ts.size()); Tr& t = ts[i]; double a, b; bounds(t, a, b);
        switch (op) {
        case 3: if (t.in) { r->drop(t.x->getId()); t.in = false; log << " drop" << i; } else if (H::rnd(2)) { r->put(t.x->getId()); t.in = true; log << " put" << i; } break;
        case 4: case 5: if (!t.t->isSpecified() && b < INFD) { int v = a + H::rnd(b - a + 1); t.t->specify(v); log << " t" << i << "=" << v; } break;
        case 6: if (t.t->isSpecified()) { t.t->reset(); log << " reset t" << i; } break;
        case 7: if (!t.t->isSpecified() && b > a) { int x = a + H::rnd(b - a + 1), y = x + H::rnd(b - x + 1); t.t->restrictBaseDomain(IntervalIntDomain(x, y)); log << " t" << i << "&[" << x << "," << y << "]"; } break;
        case 8: if (t.q->isSpecified()) { t.q->reset(); log << " reset q" << i; } else { double q = D(t.q->lastDomain().getLowerBound()); t.q->specify(q); log << " q" << i << "=" << q; } break;
        default: ce.propagate(); log << " propagate"; break;
        }
      }
      if (H::rnd(3) == 0) continue;
      log << " ?";
      if (!ce.propagate()) { H::fail("P11", "consistent", log.str() + " : propagation reports an inconsistency"); return; }
      r->getProfile()->recompute();
      // the envelope
      auto env = [&](double at, double& ll, double& lm, double& um, double& ul, double& icm, double& icM, double& ipm, double& ipM, double& ccm, double& ccM, double& cpm, double& cpM) {
        ll = lm = 0; um = ul = 0; icm = icM = ipm = ipM = ccm = ccM = cpm = cpM = 0;
        for (Tr& t : ts) if (t.in) {
          double a, b, qa = D(t.q->lastDomain().getLowerBound()), qb = D(t.q->lastDomain().getUpperBound()); bounds(t, a, b);
          if (t.cons) {
            if (a <= at) { ll -= qb; lm -= qa; ccM += qb; }
            if (b <= at) { ul -= qa; um -= qb; ccm += qa; }
            if (a <= at && at <= b) { icM += qb; if (a == b) icm += qa; }
          } else {
            if (a <= at) { ul += qb; um += qa; cpM += qb; }
            if (b <= at) { ll += qa; lm += qb; cpm += qa; }
            if (a <= at && at <= b) { ipM += qb; if (a == b) ipm += qa; }
          }
        }
      };
      std::set<double> change; for (Tr& t : ts) if (t.in) { double a, b; bounds(t, a, b); change.insert(a); change.insert(b); }
      std::map<long, int> bad; std::set<long> flawed;
      for (double at : change) {
        double ll, lm, um, ul, icm, icM, ipm, ipM, ccm, ccM, cpm, cpM; env(at, ll, lm, um, ul, icm, icM, ipm, ipM, ccm, ccM, cpm, cpM);
        double c0 = (--capP.upper_bound(at))->second.first, c1 = (--capP.upper_bound(at))->second.second, l0 = (--limP.upper_bound(at))->second.first, l1 = (--limP.upper_bound(at))->second.second;
        double vlo = ll + c0, vhi = ul + c1, flo = open ? lm + c0 : vlo, fhi = open ? um + c1 : vhi;
        if (open) { vhi = mp >= INFD ? INFD : vhi + mp - cpm; vlo = mc >= INFD ? -INFD : vlo - (mc - ccm); }
        int p = ccm > mc ? Resource::ConsumptionSumExceeded : cpm > mp ? Resource::ProductionSumExceeded : icm > mic ? Resource::ConsumptionRateExceeded : ipm > mip ? Resource::ProductionRateExceeded : vhi < l0 ? Resource::LevelTooLow : vlo > l1 ? Resource::LevelTooHigh : Resource::NoProblem;
        if (p != Resource::NoProblem) bad[(long)at] = p;
        if (ccM > mc || cpM > mp || icM > mic || ipM > mip || flo < l0 || fhi > l1) flawed.insert((long)at);
        if (!allow && p != Resource::NoProblem) break;      // the search stops at the first violation
      }
      std::ostringstream d;
      if (!allow && !bad.empty()) { long f = bad.begin()->first; auto b2 = r->bad; for (auto& x : b2) if (x.first > f) r->bad.erase(x.first); auto f2 = r->flawed; for (long x : f2) if (x > f) r->flawed.erase(x); }
      if (r->bad != bad) { d << " violations at"; for (auto& x : r->bad) d << " " << x.first << "(" << x.second << ")"; d << " expected"; for (auto& x : bad) d << " " << x.first << "(" << x.second << ")"; H::fail("P11", "violation", log.str() + " :" + d.str()); return; }
      if (r->flawed != flawed) { d << " flaws at " << H::list(r->flawed) << " expected " << H::list(flawed); H::fail("P11", "flaw", log.str() + " :" + d.str()); return; }
      for (double at : change) {
        InstantId in; bool has = r->getProfile()->getInstants().count(eint((int)at));
        if (!has) { d << " no instant at " << at; H::fail("P11", "instants", log.str() + " :" + d.str()); return; }
        in = r->getProfile()->getInstants().find(eint((int)at))->second;
        double ll, lm, um, ul, icm, icM, ipm, ipM, ccm, ccM, cpm, cpM; env(at, ll, lm, um, ul, icm, icM, ipm, ipM, ccm, ccM, cpm, cpM);
        std::set<TransactionId> span, st, en;
        for (Tr& t : ts) if (t.in) { double a, b; bounds(t, a, b); if (a <= at && at <= b) span.insert(t.x->getId()); if (a == at) st.insert(t.x->getId()); if (b == at) en.insert(t.x->getId()); }
        if (in->getTransactions() != span) { d << " the instant at " << at << " has the wrong transactions"; H::fail("P11", "transactions", log.str() + " :" + d.str()); return; }
        if (in->getStartingTransactions() != st || in->getEndingTransactions() != en) { d << " the instant at " << at << " has the wrong starting or ending transactions"; H::fail("P11", "starts-and-ends", log.str() + " :" + d.str()); return; }
        double got[12] = { D(in->getLowerLevel()), D(in->getLowerLevelMax()), D(in->getUpperLevelMin()), D(in->getUpperLevel()), D(in->getMinInstantConsumption()), D(in->getMaxInstantConsumption()), D(in->getMinInstantProduction()), D(in->getMaxInstantProduction()),
          D(in->getMinCumulativeConsumption()), D(in->getMaxCumulativeConsumption()), D(in->getMinCumulativeProduction()), D(in->getMaxCumulativeProduction()) }, want[12] = { ll, lm, um, ul, icm, icM, ipm, ipM, ccm, ccM, cpm, cpM };
        static const char* nm[12] = { "lower level", "lower level max", "upper level min", "upper level", "min instant consumption", "max instant consumption", "min instant production", "max instant production", "min cumulative consumption", "max cumulative consumption", "min cumulative production", "max cumulative production" };
        for (int k = 0; k < 12; k++) if (std::fabs(got[k] - want[k]) > 1e-6) { d << " at " << at << " the " << nm[k] << " is " << got[k] << " expected " << want[k]; H::fail("P11", "levels", log.str() + " :" + d.str()); return; }
        if (bad.count((long)at) && !allow) break;
      }
      if (allow || bad.empty()) for (int k = 0; k < 3; k++) {
        double at = (double)H::rnd(26) - 2, ll, lm, um, ul, x[8]; env(at, ll, lm, um, ul, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
        IntervalDomain lv; r->getProfile()->getLevel(eint((int)at), lv);
        if (std::fabs(D(lv.getLowerBound()) - ll) > 1e-6 || std::fabs(D(lv.getUpperBound()) - ul) > 1e-6) { d << " level at " << at << " is " << lv << " expected [" << ll << "," << ul << "]"; H::fail("P11", "level", log.str() + " :" + d.str()); return; }
      }
      if (change.size() > 2) nt = true;
    } catch (Error& e) { H::fail("P11", "error", log.str() + " raised " + e.getMsg()); return; }
  }
  for (Tr& t : ts) { if (t.in) r->drop(t.x->getId()); delete t.x; }
  for (Tr& t : ts) { t.t->getId(); }
  H::count(nt);
  if (H::cases % 97 == 1) H::sample(log.str());
  for (Tr& t : ts) { delete t.t; delete t.q; }
}

int main(int argc, char** argv) {
  H::init(argc, argv);
  Error::doThrowExceptions(); Error::doNotDisplayErrors();
  int N = H::thorough() ? 30000 : 1500; if (getenv("N")) N = atoi(getenv("N"));
  for (int i = 0; i < N && H::fails < 40; i++) history(3 + H::rnd(28));
  return H::done();
}
