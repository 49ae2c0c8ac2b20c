// P09/P10: histories of edits of distance graphs and temporal networks against all-pairs shortest paths.
#include "h.hh"
#include "Error.hh"
#include "DistanceGraph.hh"
#include "TemporalNetwork.hh"
using namespace EUROPA;
typedef long L;
static const L INFL = 1L << 40;
static bool wants(const std::string& p) { return H::prop == p || H::prop == "all"; }

struct Oracle {                                   // edges as multisets of lengths
  std::map<std::pair<int, int>, std::multiset<L>> e;
  std::set<int> nodes;
  std::map<std::pair<int, int>, L> d; bool neg;
  void solve() {
    d.clear(); neg = false;
    for (int i : nodes) for (int j : nodes) d[{ i, j }] = i == j ? 0 : INFL;
    for (auto& k : e) if (!k.second.empty()) { L l = *k.second.begin(); auto& x = d[k.first]; if (l < x) x = l; }
    for (int k : nodes) for (int i : nodes) for (int j : nodes) { L a = d[{ i, k }], b = d[{ k, j }]; if (a < INFL && b < INFL && a + b < d[{ i, j }]) d[{ i, j }] = a + b; }
    for (int i : nodes) if (d[{ i, i }] < 0) neg = true;
  }
};

struct Graph : DistanceGraph {
  const std::list<Dedge*>& nogood() { return edgeNogoodList; }
  Dedge* edge(Dnode& a, Dnode& b) { return findEdge(a, b); }
  size_t size() { return nodes.size(); }
};
struct Net : TemporalNetwork {
  const std::list<Dedge*>& nogood() { return edgeNogoodList; }
  Dedge* edge(Dnode& a, Dnode& b) { return findEdge(a, b); }
};

static L rlen() { switch (H::rnd(8)) { case 0: return -(L)H::rnd(4); case 1: return 0; case 2: return (L)H::rnd(1000) - 100; default: return (L)H::rnd(14) - 4; } }

// the nogood is a cycle of current edges with negative total length
template <class G> static std::string badNogood(G& g, const std::set<Dedge*>& live) {
  const std::list<Dedge*>& c = g.nogood();
  if (c.empty()) return "empty nogood";
  L sum = 0; for (Dedge* x : c) { if (!live.count(x)) return "nogood with an edge that is not in the graph"; sum += x->length; }
  for (auto it = c.begin(); it != c.end(); ++it) { auto nx = it; ++nx; Dedge* n = nx == c.end() ? c.front() : *nx; if (&(*it)->from != &n->to) return "nogood is not a cycle"; }
  if (sum >= 0) return "nogood cycle has a nonnegative length";
  return "";
}

static void graphHistory(int steps) {
  std::ostringstream log; Oracle o; Graph g; std::map<int, DnodeId> n; int next = 0;
  auto add = [&]() { n[next] = g.createNode(); o.nodes.insert(next); log << " node" << next; next++; };
  int k = 2 + H::rnd(4); for (int i = 0; i < k; i++) add();
  bool nt = false;
  for (int s = 0; s < steps; s++) {
    H::at("graph" + log.str());
    std::vector<int> ns(o.nodes.begin(), o.nodes.end());
    int a = ns[H::rnd(ns.size())], b = ns[H::rnd(ns.size())];
    int op = H::rnd(12);
    try {
      if (op < 6) { L l = rlen(); g.addEdgeSpec(*n[a], *n[b], l); o.e[{ a, b }].insert(l); log << " +" << a << ">" << b << ":" << l; }
      else if (op < 9) {
        std::vector<std::pair<std::pair<int, int>, L>> all; for (auto& x : o.e) for (L l : x.second) all.push_back({ x.first, l });
        if (all.empty()) continue;
        auto x = all[H::rnd(all.size())]; g.removeEdgeSpec(*n[x.first.first], *n[x.first.second], x.second); auto& ms = o.e[x.first]; ms.erase(ms.find(x.second)); log << " -" << x.first.first << ">" << x.first.second << ":" << x.second;
      }
      else if (op == 9 && ns.size() < 7) add();
      else if (op == 10 && ns.size() > 2) {
        log << " delete" << a; g.deleteNode(*n[a]); n.erase(a); o.nodes.erase(a);
        for (auto it = o.e.begin(); it != o.e.end();) if (it->first.first == a || it->first.second == a) it = o.e.erase(it); else ++it;
      }
      o.solve();
      if (!wants("P09")) continue;
      std::set<Dedge*> live;
      for (int i : o.nodes) for (int j : o.nodes) {
        Dedge* e = g.edge(*n[i], *n[j]); auto it = o.e.find({ i, j }); bool has = it != o.e.end() && !it->second.empty();
        if (e) live.insert(e);
        if (has != (e != 0)) { H::fail("P09", "edge", log.str() + (has ? " : edge is missing " : " : edge remains ") + std::to_string(i) + ">" + std::to_string(j)); return; }
        if (e && (e->length != *it->second.begin() || &e->from != n[i].get() || &e->to != n[j].get())) { H::fail("P09", "length", log.str() + " : edge " + std::to_string(i) + ">" + std::to_string(j) + " has length " + std::to_string(e->length)); return; }
      }
      bool ok = g.bellmanFord();
      if (ok == o.neg) { H::fail("P09", o.neg ? "negative-cycle-missed" : "false-cycle", log.str()); return; }
      if (!ok) { std::string r = badNogood(g, live); if (!r.empty()) { H::fail("P09", "nogood", log.str() + " : " + r); return; } nt = true; continue; }
      for (int i : o.nodes) {
        int t = H::rnd(3);
        int dest = ns[H::rnd(ns.size())]; if (!n.count(dest)) dest = i;
        if (t == 0) { g.dijkstra(*n[i], n[dest].get()); L w = o.d[{ i, dest }], got = g.getDistance(*n[dest]);
          if (w >= INFL ? got < POS_INFINITY : got != w) H::fail("P09", "distance", log.str() + " : distance " + std::to_string(i) + ">" + std::to_string(dest) + " is " + std::to_string(got) + " expected " + (w >= INFL ? "infinite" : std::to_string(w))); }
        else { g.dijkstra(*n[i]);
          for (int j : o.nodes) { L w = o.d[{ i, j }], got = g.getDistance(*n[j]); if (w < INFL && j != i) nt = true;
            if (w >= INFL ? got < POS_INFINITY : got != w) H::fail("P09", "distance", log.str() + " : distance " + std::to_string(i) + ">" + std::to_string(j) + " is " + std::to_string(got) + " expected " + (w >= INFL ? "infinite" : std::to_string(w))); } }
      }
    } catch (Error& e) { H::fail(H::prop, "error", log.str() + " raised " + e.getMsg()); return; }
    if (H::fails > 40) return;
  }
  H::count(nt);
  if (H::cases % 997 == 1) H::sample("graph" + log.str());
}

static void netHistory(int steps) {
  std::ostringstream log; Oracle o; Net g; std::map<int, Timepoint*> n; n[0] = &g.getOrigin(); o.nodes.insert(0); int next = 1;
  struct C { TemporalConstraint* c; int a, b; L lb, ub; };
  std::vector<C> cs;
  auto add = [&]() { n[next] = &g.addTimepoint(); o.nodes.insert(next); log << " tp" << next; next++; };
  int k = 1 + H::rnd(5); for (int i = 0; i < k; i++) add();
  bool nt = false;
  auto ins = [&](C& c) { if (c.ub < INFL) o.e[{ c.a, c.b }].insert(c.ub); if (c.lb > -INFL) o.e[{ c.b, c.a }].insert(-c.lb); };
  auto del = [&](C& c) { if (c.ub < INFL) { auto& m = o.e[{ c.a, c.b }]; m.erase(m.find(c.ub)); } if (c.lb > -INFL) { auto& m = o.e[{ c.b, c.a }]; m.erase(m.find(-c.lb)); } };
  auto T = [](L x) -> Time { return x >= INFL ? POS_INFINITY : x <= -INFL ? NEG_INFINITY : x; };
  int flavour = H::rnd(3);                     // 0: mostly consistent, 1: loose, 2: wild
  for (int s = 0; s < steps; s++) {
    H::at("net" + log.str());
    std::vector<int> ns(o.nodes.begin(), o.nodes.end());
    int a = ns[H::rnd(ns.size())], b = ns[H::rnd(ns.size())];
    int op = H::rnd(16); bool quiet = H::rnd(4) == 0;
    try {
      if (op < 7 && a != b) {
        C c; c.a = a; c.b = b; c.lb = flavour == 2 ? (L)H::rnd(16) - 8 : flavour == 1 ? -(L)H::rnd(8) : (L)H::rnd(6) * (a < b ? 1 : -1) - (a < b ? 0 : 9); c.ub = c.lb + (H::rnd(3) ? (L)H::rnd(12) : 0);
        if (H::rnd(12) == 0) c.lb = c.ub = 0;
        else { if (H::rnd(6) == 0) c.lb = -INFL; if (H::rnd(6) == 0) c.ub = INFL; }
        log << " c" << cs.size() << "=" << a << ">" << b << "[" << (c.lb <= -INFL ? "-inf" : std::to_string(c.lb)) << "," << (c.ub >= INFL ? "inf" : std::to_string(c.ub)) << "]";
        c.c = g.addTemporalConstraint(*n[a], *n[b], T(c.lb), T(c.ub)); ins(c); cs.push_back(c);
      } else if (op < 9 && !cs.empty()) {
        int i = H::rnd(cs.size()); C& c = cs[i]; L lb = c.lb, ub = c.ub;
        if (lb > -INFL && H::rnd(2)) lb += H::rnd(3); else if (lb <= -INFL && H::rnd(2)) lb = (ub < INFL ? ub : 0) - (L)H::rnd(9);
        if (ub < INFL && H::rnd(2)) ub -= H::rnd(3); else if (ub >= INFL && H::rnd(2)) ub = (lb > -INFL ? lb : 0) + (L)H::rnd(9);
        if (lb > ub) continue;
        log << " narrow(" << c.a << ">" << c.b << " to " << (lb <= -INFL ? "-inf" : std::to_string(lb)) << "," << (ub >= INFL ? "inf" : std::to_string(ub)) << ")";
        g.narrowTemporalConstraint(*c.c, T(lb), T(ub)); del(c); c.lb = lb; c.ub = ub; ins(c);
        Time x, y; c.c->getBounds(x, y); if (wants("P10") && (x != T(lb) || y != T(ub))) H::fail("P10", "constraint-bounds", log.str());
      } else if (op < 12 && !cs.empty()) {
        int i = H::rnd(cs.size()); C c = cs[i]; log << " remove(" << c.a << ">" << c.b << ":" << c.lb << "," << c.ub << ")";
        g.removeTemporalConstraint(*c.c); del(c); cs.erase(cs.begin() + i);
      } else if (op == 12 && ns.size() < 7) add();
      else if (op == 13 && a != 0) {
        for (size_t i = 0; i < cs.size();) if (cs[i].a == a || cs[i].b == a) { g.removeTemporalConstraint(*cs[i].c); del(cs[i]); cs.erase(cs.begin() + i); } else i++;
        log << " delete" << a; g.deleteTimepoint(*n[a]); n.erase(a); o.nodes.erase(a);
      } else if (op == 14) { log << " propagate"; g.propagate(); }
      if (quiet || !wants("P10")) continue;
      o.solve();
      bool ok = g.propagate(); log << " ?";
      if (ok == o.neg) { H::fail("P10", o.neg ? "inconsistency-missed" : "false-inconsistency", log.str()); return; }
      std::set<Dedge*> live; for (int i : o.nodes) for (int j : o.nodes) { Dedge* e = g.edge(*n[i], *n[j]); if (e) live.insert(e); }
      if (!ok) { nt = true; std::string r = badNogood(g, live); if (!r.empty()) { H::fail("P10", "nogood", log.str() + " : " + r); return; } continue; }
      auto show = [](L x) { return x >= INFL ? std::string("inf") : x <= -INFL ? std::string("-inf") : std::to_string(x); };
      auto chk = [&](const char* what, int i, Time gl, Time gu, L el, L eu) {
        if ((el <= -INFL ? gl > NEG_INFINITY : gl != el) || (eu >= INFL ? gu < POS_INFINITY : gu != eu)) { H::fail("P10", what, log.str() + " : timepoint " + std::to_string(i) + " has [" + std::to_string(gl) + "," + std::to_string(gu) + "] expected [" + show(el) + "," + show(eu) + "]"); return false; }
        return true; };
      bool good = true;
      for (int i : o.nodes) { Time l, u; g.getTimepointBounds(*n[i], l, u); L eu = o.d[{ 0, i }], el = -o.d[{ i, 0 }]; if (i && eu < INFL) nt = true;
        good = good && chk("bounds", i, l, u, el, eu);
        if (good) { g.getLastTimepointBounds(*n[i], l, u); good = chk("last-bounds", i, l, u, el, eu); }
        if (good && (g.getLowerTimepointBound(*n[i]) != l || g.getUpperTimepointBound(*n[i]) != u)) H::fail("P10", "one-bound", log.str()); }
      if (!good) return;
      { a = ns[H::rnd(ns.size())]; if (!n.count(a)) a = 0; b = ns[H::rnd(ns.size())]; if (!n.count(b)) b = 0;
        Time l, u; L eu = o.d[{ a, b }], el = -o.d[{ b, a }];
        if (a != b) { g.calcDistanceBounds(*n[a], *n[b], l, u); log << " d(" << a << "," << b << ")"; if (!chk("distance", b, l, u, el, eu)) return; }
        L bound = (L)H::rnd(20) - 8;
        if (a != b && g.isDistanceLessThan(*n[a], *n[b], bound) && eu >= bound) { H::fail("P10", "distance-less-than", log.str() + " : " + std::to_string(a) + ">" + std::to_string(b) + " < " + std::to_string(bound)); return; }
        if (a != b && !g.isDistancePossiblyLessThan(*n[a], *n[b], bound) && eu < bound) { H::fail("P10", "distance-possibly-less-than", log.str() + " : " + std::to_string(a) + ">" + std::to_string(b) + " < " + std::to_string(bound)); return; }
        std::vector<Timepoint*> ts; std::vector<int> ti; for (int i : o.nodes) if (H::rnd(2)) { ts.push_back(n[i]); ti.push_back(i); }
        std::vector<Time> ls, us;
        g.calcDistanceSigns(*n[a], ts, ls, us);
        if (ls.size() != ts.size() || us.size() != ts.size()) { H::fail("P10", "signs-size", log.str()); return; }
        auto sg = [](L x) { return x < 0 ? -1 : x > 0; };
        for (size_t i = 0; i < ts.size(); i++) if (sg(us[i]) != sg(o.d[{ a, ti[i] }]) || sg(ls[i]) != sg(-o.d[{ ti[i], a }])) { H::fail("P10", "signs", log.str() + " : from " + std::to_string(a) + " to " + std::to_string(ti[i])); return; }
        if (H::rnd(2)) {
          g.calcDistanceBounds(*n[a], ts, ls, us); log << " D(" << a << ")";
          if (ls.size() != ts.size()) { H::fail("P10", "distances-size", log.str()); return; }
          for (size_t i = 0; i < ts.size(); i++) if (!chk("distances", ti[i], ls[i], us[i], -o.d[{ ti[i], a }], o.d[{ a, ti[i] }])) return;
          for (int i : o.nodes) { g.getLastTimepointBounds(*n[i], l, u); if (!chk("bounds-after-distances", i, l, u, -o.d[{ i, 0 }], o.d[{ 0, i }])) return; }
        } }
      { std::set<Timepoint*> alive; for (auto& x : n) alive.insert(x.second);
        for (auto& x : n) { if (!alive.count(g.getRingLeader(*x.second))) { H::fail("P10", "ring", log.str() + " : timepoint " + std::to_string(x.first) + " refers to a deleted timepoint"); return; }
          for (Timepoint* f : g.getRingFollowers(*x.second)) if (!alive.count(f)) { H::fail("P10", "ring", log.str() + " : the ring of timepoint " + std::to_string(x.first) + " has a deleted timepoint"); return; } } }
      for (auto& c : cs) { Timepoint *x, *y; g.getConstraintScope(*c.c, x, y); if (x != n[c.a] || y != n[c.b] || g.getConstraintLowerBound(*c.c) != T(c.lb) || g.getConstraintUpperBound(*c.c) != T(c.ub)) { H::fail("P10", "constraint", log.str()); return; } }
    } catch (Error& e) { H::fail(H::prop, "error", log.str() + " raised " + e.getMsg()); return; }
    if (H::fails > 40) return;
  }
  H::count(nt);
  if (H::cases % 997 == 1) H::sample("net" + log.str());
}

int main(int argc, char** argv) {
  H::init(argc, argv);
  Error::doThrowExceptions(); Error::doNotDisplayErrors();
  int N = H::thorough() ? 60000 : 6000; if (getenv("N")) N = atoi(getenv("N"));
  for (int i = 0; i < N && H::fails < 40; i++) {
    if (wants("P09")) graphHistory(4 + H::rnd(30));
    if (wants("P10")) netHistory(4 + H::rnd(36));
  }
  return H::done();
}
