// A constraint engine with the standard library, and a description of small domains.
#ifndef CE_HH
#define CE_HH
#include "h.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "Constraints.hh"
#include "ConstraintType.hh"
#include "Variable.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "CESchema.hh"
#include "Propagators.hh"
#include "Error.hh"
#include "LabelStr.hh"
using namespace EUROPA;
typedef double D;
static const D INFV = cast_double(PLUS_INFINITY);

struct CEng : public EngineBase {
  CEng() {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    doStart();
  }
  ~CEng() { doShutdown(); }
  ConstraintEngineId ce() { return (dynamic_cast<ConstraintEngine*>(getComponent("ConstraintEngine")))->getId(); }
};

enum Kind { REAL, INT, BOOLK, ENUMK, SYMK };
struct Dm {
  Kind k; D lb, ub; std::vector<D> vals;
  bool interval() const { return k <= BOOLK; }
  std::string str() const {
    std::ostringstream o; static const char* n[] = { "real", "int", "bool", "enum", "symbol" };
    o << n[k]; if (interval()) o << "[" << lb << "," << ub << "]"; else { o << "{"; for (D v : vals) o << v << " "; o << "}"; } return o.str();
  }
  bool has(D v) const { if (!interval()) return std::find(vals.begin(), vals.end(), v) != vals.end(); if (k != REAL && v != std::floor(v)) return false; return lb <= v && v <= ub; }
  // sample values: every integer, and halves for reals
  std::vector<D> samples() const {
    if (!interval()) return vals;
    std::vector<D> r; D st = k == REAL ? .5 : 1, a = std::max(lb, -6.0), b = std::min(ub, 6.0);
    for (D v = std::ceil(a / st) * st; v <= b; v += st) r.push_back(v);
    if (k == REAL) { if (lb >= -1e6 && std::find(r.begin(), r.end(), lb) == r.end()) r.push_back(lb); if (ub <= 1e6 && ub != lb && std::find(r.begin(), r.end(), ub) == r.end()) r.push_back(ub); }
    return r;
  }
  ConstrainedVariableId var(ConstraintEngineId ce, const std::string& name = "v") const {
    switch (k) {
      case REAL: return (new Variable<IntervalDomain>(ce, IntervalDomain(lb, ub), false, true, name))->getId();
      case INT: return (new Variable<IntervalIntDomain>(ce, IntervalIntDomain(eint(edouble(lb)), eint(edouble(ub))), false, true, name))->getId();
      case BOOLK: { BoolDomain b; if (lb == ub) b.set(lb); return (new Variable<BoolDomain>(ce, b, false, true, name))->getId(); }
      case ENUMK: { NumericDomain e(IntDT::instance()); for (D v : vals) e.insert(v); e.close(); return (new Variable<NumericDomain>(ce, e, false, true, name))->getId(); }
      default: { SymbolDomain e; for (D v : vals) e.insert(v); e.close(); return (new Variable<SymbolDomain>(ce, e, false, true, name))->getId(); }
    }
  }
};
inline Dm dR(D a, D b) { return Dm{ REAL, a, b, {} }; }
inline Dm dI(D a, D b) { return Dm{ INT, a, b, {} }; }
inline Dm dB(D a, D b) { return Dm{ BOOLK, a, b, {} }; }
inline Dm dE(std::vector<D> v) { return Dm{ ENUMK, 0, 0, v }; }
inline Dm dS(std::vector<D> v) { return Dm{ SYMK, 0, 0, v }; }
inline std::string domstr(const Domain& d) {
  std::ostringstream o;
  if (d.isEmpty()) return "empty";
  if (d.isEnumerated()) { std::list<edouble> l; d.getValues(l); o << "{"; for (edouble x : l) o << cast_double(x) << " "; o << "}"; }
  else o << "[" << cast_double(d.getLowerBound()) << "," << cast_double(d.getUpperBound()) << "]";
  return o.str();
}
#endif
