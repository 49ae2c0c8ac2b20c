"""Shared vocabulary for variable domains and data types, plus the contracts callers use.

Denotation.  delta = minDelta of the domain's data type (0 < delta <= 1).
  interval classes   : { v : lb - delta < v < ub + delta }, integers only when delta = 1 and the
                       class is IntervalInt/Bool (then exactly lb <= v <= ub).
  enumerated classes : the set m_values (members of one enumeration are at least delta apart).
"""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT
from cv.spec import ANY
from cv import stl

TUS = ['ConstraintEngine/component/Domains.cc', 'ConstraintEngine/base/Domain.cc', 'ConstraintEngine/base/DataType.cc',
       'ConstraintEngine/component/DataTypes.cc', 'ConstraintEngine/base/DomainListener.cc']

MD = z3.Function('minDelta', IntSort(), RealSort())
NUM = z3.Function('dtNumeric', IntSort(), BoolSort())
BOOLT = z3.Function('dtBool', IntSort(), BoolSort())
STRT = z3.Function('dtString', IntSort(), BoolSort())

EPSD = z3.Const('floatResolution', RealSort())
INTV = ['IntervalDomain', 'IntervalIntDomain', 'BoolDomain']
ENUM = ['EnumeratedDomain', 'StringDomain', 'SymbolDomain', 'NumericDomain']
EV = dict(UB=0, LB=1, REFTIME=2, BOUNDS=3, VALREM=4, RSING=5, SSING=6, RESET=7, RELAXED=8, CLOSED=9, OPENED=10, EMPTIED=11)
BIGV = INF / 2

LB, UB, VALS = 'IntervalDomain.m_lb', 'IntervalDomain.m_ub', 'EnumeratedDomain.m_values'
DTY, CLOSED, ENUMF, LIS = 'Domain.m_dataType', 'Domain.m_closed', 'Domain.m_enumerated', 'Domain.m_listener'
GN, GE = 'DomainListener.$n', 'DomainListener.$last'


def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return z3.If(c, a, b)


def Implies(a, b):
    if z3.is_true(a): return b if isinstance(b, z3.ExprRef) else BoolVal(b)
    if z3.is_false(a): return T_
    return z3.Implies(a, b)


def And(*l):
    l = [BoolVal(x) if isinstance(x, bool) else x for x in l]
    if any(z3.is_false(x) for x in l): return F_
    l = [x for x in l if not z3.is_true(x)]
    return T_ if not l else l[0] if len(l) == 1 else z3.And(*l)


def Or(*l):
    l = [BoolVal(x) if isinstance(x, bool) else x for x in l]
    if any(z3.is_true(x) for x in l): return T_
    l = [x for x in l if not z3.is_false(x)]
    return F_ if not l else l[0] if len(l) == 1 else z3.Or(*l)


def Not(x):
    if z3.is_true(x): return F_
    if z3.is_false(x): return T_
    return z3.Not(x)


from cv.engine import ISI as IsInt   # 'is an integer', decided by instantiated integer lemmas


def rd(x):
    return RealVal(str(x))


def mx(a, b): return If(a >= b, a, b)
def mn(a, b): return If(a <= b, a, b)


def patok(p):
    todo = [p]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return False
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_CONST_ARRAY): return False
        todo += x.children()
    return True


def FA(xs, body, *pats):
    """ForAll with the patterns z3 accepts; a tuple is a multi-pattern"""
    ps = []
    for p in pats:
        if isinstance(p, tuple):
            if all(patok(q) for q in p): ps.append(MultiPattern(*p))
        elif patok(p) and not any(p.eq(q) for q in ps): ps.append(p)
    return ForAll(xs, body, patterns=ps) if ps else ForAll(xs, body)


class V:
    """view of a domain object in a heap"""

    def __init__(self, h, d):
        self.h = h; self.d = d
        self.lb = h(LB, d); self.ub = h(UB, d); self.dt = h(DTY, d); self.delta = MD(self.dt)
        self.closed = h(CLOSED, d); self.lis = h(LIS, d)

    @property
    def vals(self): return self.h(VALS, self.d)

    def is_int_cls(self): return Or(self.h.is_exact(self.d, 'IntervalIntDomain'), self.h.is_exact(self.d, 'BoolDomain'))
    def is_interval(self): return self.h.isa(self.d, 'IntervalDomain')
    def is_enum(self): return self.h.isa(self.d, 'EnumeratedDomain')

    # over the integers the tolerant comparisons are the exact ones (the query functions prove it)
    def lt(self, a, b): return If(self.is_int_cls(), a < b, And(Not(a == INF), Not(b == -INF), a + self.delta <= b))
    def leq(self, a, b): return If(self.is_int_cls(), a <= b, Or(a == b, a - self.delta < b))
    # the tolerant comparisons themselves (against bounds that need not be integers)
    def tlt(self, a, b): return And(Not(a == INF), Not(b == -INF), a + self.delta <= b)
    def tleq(self, a, b): return Or(a == b, a - self.delta < b)
    def near(self, a, b): return And(a - b < self.delta, b - a < self.delta)

    def iempty(self): return self.lt(self.ub, self.lb)
    def isingle(self): return If(self.is_int_cls(), self.lb == self.ub, self.near(self.lb, self.ub))

    def mem(self, v): return sel(acc(self.vals, 'mem'), v)
    def card(self): return acc(self.vals, 'card')
    def ememb(self, v):
        """enumerated membership up to delta"""
        x = fresh(RealSort(), 'm')
        return Exists([x], And(self.mem(x), self.near(x, v)))


def numok(v):
    return Or(v == INF, v == -INF, And(v >= -(INF - 1), v <= INF - 1))


def big(*vs, m=0):
    """finite values so large that a difference of two of them may leave the number range"""
    return Or(*[And(Not(v == INF), Not(v == -INF), Or(v > BIGV - m, v < m - BIGV)) for v in vs])


def dtok(dt):
    return And(dt != 0, MD(dt) > 0, MD(dt) <= 1, Implies(BOOLT(dt), And(NUM(dt), MD(dt) == 1)), Implies(STRT(dt), Not(NUM(dt))))


def inv(h, d, cls=None):
    """class invariant of a domain object"""
    v = V(h, d)
    x, y = fresh(RealSort(), 'x'), fresh(RealSort(), 'y')
    iv = [numok(v.lb), numok(v.ub), Not(h(ENUMF, d)), v.closed, NUM(v.dt)]
    # an empty real interval is unmistakably empty: no value is within delta of both bounds
    rr = [Implies(v.iempty(), v.ub + 2 * v.delta <= v.lb)]
    ii = [v.delta == 1, IsInt(v.lb), IsInt(v.ub)]
    # a bool domain is within {0,1} or is the canonical empty interval
    bb = [Or(v.iempty(), And(v.lb >= 0, v.ub <= 1))]
    m = acc(v.vals, 'mem')
    ee = [h(ENUMF, d), FA([x], Implies(sel(m, x), numok(x)), Select(m, x)),
          FA([x, y], Implies(And(sel(m, x), sel(m, y)), Or(x == y, x - y >= v.delta, y - x >= v.delta)), (Select(m, x), Select(m, y))),
          Implies(Not(NUM(v.dt)), FA([x], Implies(sel(m, x), IsInt(x)), Select(m, x)))]
    com = [dtok(v.dt), d != 0]
    # string and symbol domains hold keys, not numbers
    if cls in ENUM: ee = ee + ([Not(NUM(v.dt))] if cls in ('StringDomain', 'SymbolDomain') else [])
    else: com = com + [Implies(Or(h.is_exact(d, 'StringDomain'), h.is_exact(d, 'SymbolDomain')), Not(NUM(v.dt)))]
    if cls in INTV:
        return And(*(com + iv + (ii if cls != 'IntervalDomain' else rr) + (bb if cls == 'BoolDomain' else [])))
    if cls in ENUM: return And(*(com + ee))
    return And(*(com + [Implies(v.is_interval(), And(*iv)), Implies(v.is_int_cls(), And(*ii)), Implies(h.is_exact(d, 'IntervalDomain'), And(*rr)), Implies(h.is_exact(d, 'BoolDomain'), And(*bb)),
                        Implies(v.is_enum(), And(*ee))]))


def comparable(a, b):
    """DataType::canBeCompared"""
    return If(Or(NUM(a), NUM(b)), And(NUM(a), NUM(b)), If(Or(STRT(a), STRT(b)), And(STRT(a), STRT(b)), T_))


def sep(h, a, b):
    """members of two enumerations are equal or at least delta apart (the resolution of the type)"""
    va, vb = V(h, a), V(h, b)
    x, y = fresh(RealSort(), 'x'), fresh(RealSort(), 'y')
    return FA([x, y], Implies(And(va.mem(x), vb.mem(y)), Or(x == y, And(Or(x - y >= va.delta, y - x >= va.delta), Or(x - y >= vb.delta, y - x >= vb.delta)))),
              (Select(acc(va.vals, 'mem'), x), Select(acc(vb.vals, 'mem'), y)))


def ghosts(db):
    """ghost history: number and kind of change notifications each listener has received"""
    k = db.classes.get('EUROPA::DomainListener')
    if k is not None and '$n' not in k.fields:
        for f, s in (('$n', IntSort()), ('$last', IntSort())):
            t = type(next(iter(db.funcs.values())).rtype)()
            t.k = 'int'; t.s = 'ghost'; t.c = False; t.n = None; t.tn = None; t.bits = None; t.sg = True; t.t = None; t.a = None; t._sz = s
            k.fields[f] = t


NOTIF = lambda h, d: [(GN, h(LIS, d)), (GE, h(LIS, d))]


def notified(c, d, ev, when=True):
    """exactly one more notification, of kind ev, when `when`; none otherwise"""
    l = c.pre(LIS, d)
    n0, n1 = c.pre(GN, l), c.post(GN, l)
    return Implies(l != 0, If(when if isinstance(when, z3.ExprRef) else BoolVal(when), And(n1 == n0 + 1, c.post(GE, l) == ev), And(n1 == n0, c.post(GE, l) == c.pre(GE, l))))


def base(reg, db):
    """data types and listeners: contracts assumed by every domain function"""
    ghosts(db)
    for key, f in (('EUROPA::DataType::minDelta() const', MD), ('EUROPA::DataType::isNumeric() const', NUM), ('EUROPA::DataType::isBool() const', BOOLT),
                   ('EUROPA::DataType::isString() const', STRT)):
        reg.add(key, interface=True, trusted='data type descriptors are immutable; 0 < minDelta <= 1, 1 for bool',
                ensures=lambda c, f=f: [('r', c.r == f(c.this)), ('dt', dtok(c.this))])
    reg.add('EUROPA::DataType::isEntity() const', interface=True, trusted='data type descriptors are immutable')
    reg.add('EUROPA::DomainListener::notifyChange(const EUROPA::DomainListener::ChangeType &)', interface=True,
            trusted='the listener records the event and leaves the domains alone',
            modifies=lambda c: [(GN, c.this), (GE, c.this)],
            ensures=lambda c: [('count', c.post(GN, c.this) == c.pre(GN, c.this) + 1), ('event', c.post(GE, c.this) == c.a(0))])
    for n in ('getDataType', 'toString', 'getTypeName'):
        pass
    # text rendering only
    reg.opaque |= {'EUROPA::Domain::toString', 'EUROPA::Domain::getTypeName', 'EUROPA::EnumeratedDomain::toString', 'EUROPA::DataType::toString', 'EUROPA::DataType::getName', 'EUROPA::Domain::operator>>'}
    for t, f in (('FloatDT', lambda r: And(MD(r) == EPSD, NUM(r), Not(BOOLT(r)), Not(STRT(r)))), ('IntDT', lambda r: And(MD(r) == 1, NUM(r), Not(BOOLT(r)), Not(STRT(r)))),
                 ('BoolDT', lambda r: And(MD(r) == 1, NUM(r), BOOLT(r), Not(STRT(r))))):
        reg.add(find1(db, 'EUROPA::' + t, 'instance'), trusted='the built-in data types', ensures=lambda c, f=f: [('r', And(c.r != 0, f(c.r), dtok(c.r), EPSD == rd('1/100000')))])
    reg.add(find1(db, 'EUROPA::DataType', 'canBeCompared'), trusted='data type descriptors are immutable', interface=True,
            requires=lambda c: [('rhs', c.a(0) != 0)],
            ensures=lambda c: [('comparable', c.r == comparable(c.this, c.a(0)))])


    reg.add('EUROPA::LabelStr::isString(EUROPA::edouble)', trusted='the string table is immutable as far as domains are concerned', ensures=lambda c: [('r', c.r == ISSTR(c.a(0)))])


def find1(db, cls, short, nargs=None, sub=None):
    fs = [f for f in db.byclass.get(cls, {}).get(short, []) if (nargs is None or len(f.d['p']) == nargs) and (sub is None or sub in f.key)]
    if len(fs) != 1:
        # gone or ambiguous in this tree: a key that resolves to nothing, reported as a missing function
        MISSN[0] += 1
        return '%s::%s(?%d)' % (cls, short, MISSN[0])
    return fs[0].key


MISSN = [0]


def D(db, short, nargs=None, sub=None, cls='Domain'):
    return find1(db, 'EUROPA::' + cls, short, nargs, sub)


PI = {k: 'P02' for k in INTV}
PE = {k: 'P03' for k in ENUM}
PB = dict(PI, **PE)
SMIN = {}
CEIL = lambda x: If(Or(x == INF, x == -INF), x, -ToReal(ToInt(-x)))
FLOOR = lambda x: If(Or(x == INF, x == -INF), x, ToReal(ToInt(x)))


def smin(v): return z3.Function('setmin', v.vals.sort(), RealSort())(v.vals)
def smax(v): return z3.Function('setmax', v.vals.sort(), RealSort())(v.vals)


def minmax(v):
    """definition of the least/greatest member of a finite non-empty set"""
    x = fresh(RealSort(), 'x')
    m = acc(v.vals, 'mem')
    return And(And(*stl.setfacts(v.vals)), Implies(v.card() > 0, And(sel(m, smin(v)), sel(m, smax(v)), smin(v) <= smax(v),
                                     FA([x], Implies(sel(m, x), And(smin(v) <= x, x <= smax(v))), Select(m, x)))))


def lo(v): return If(v.is_interval(), v.lb, smin(v))
def hi(v): return If(v.is_interval(), v.ub, smax(v))
def isemp(v): return If(v.is_interval(), v.iempty(), v.card() == 0)
def issing(v): return If(v.is_interval(), v.isingle(), v.card() == 1)
def isopen(v): return Not(v.closed)


def memb(v, x):
    """membership as isMember decides it"""
    return If(v.is_interval(), And(Implies(v.is_int_cls(), IsInt(x)), v.leq(v.lb, x), v.leq(x, v.ub)),
              Or(And(v.h.is_exact(v.d, 'StringDomain'), isopen(v)), v.ememb(x)))


def maxint():
    return INF - 1


def isfin(v):
    return If(v.is_enum(), T_, If(v.h.is_exact(v.d, 'BoolDomain'), T_, If(v.h.is_exact(v.d, 'IntervalIntDomain'), And(v.lb > -maxint(), v.ub < maxint()),
              Or(And(v.isingle(), v.ub < INF, v.lb > -INF, Not(v.iempty())), v.iempty()))))


def unchanged(c, d):
    return And(c.post(LB, d) == c.pre(LB, d), c.post(UB, d) == c.pre(UB, d), c.post(VALS, d) == c.pre(VALS, d), c.post(CLOSED, d) == c.pre(CLOSED, d))


def same_lis(c, d, e):
    """two domains do not share a listener object"""
    a, b = c.pre(LIS, d), c.pre(LIS, e)
    return Or(a == 0, a != b)


def contracts(reg, db):
    base(reg, db)
    K = lambda short, nargs=None, sub=None: D(db, short, nargs, sub)
    ALLC = INTV + ENUM
    THIS = lambda c: inv(c.pre, c.this, None)
    pv = lambda c: V(c.pre, c.this)
    qv = lambda c: V(c.post, c.this)
    av = lambda c: V(c.pre, c.a(0))
    nothrow = lambda c: F_

    def invs(c): return [('this is a well-formed domain', inv(c.pre, c.this)), ('!finite set', minmax(pv(c)))]
    def inva(c): return [('the argument is a well-formed domain', inv(c.pre, c.a(0))), ('!finite set', minmax(av(c))), ('argument exists', c.a(0) != 0), ('argument is another domain', c.a(0) != c.this)]
    def keeps(c): return [('!finite set', minmax(qv(c))), ('stays a well-formed domain', inv(c.post, c.this))]

    def nonemp(c): return ('only non-empty enumerations have bounds', Or(pv(c).is_interval(), Not(isemp(pv(c)))))

    def q(key, ens, req=None, throws=nothrow, this=ALLC, **kw):
        reg.add(key, interface=True, this=this, prop=PB, requires=lambda c: invs(c) + (req(c) if req else []), ensures=ens, throws=throws, **kw)

    # ------------------------------------------------------------- queries
    q(K('isEmpty'), lambda c: [('empty exactly when no value remains', c.r == isemp(pv(c)))])
    q(K('isSingleton'), lambda c: [('singleton exactly when one value remains', c.r == issing(pv(c)))], throws=lambda c: And(pv(c).is_interval(), Not(pv(c).is_int_cls()), big(pv(c).lb, pv(c).ub)))
    q(K('isFinite'), lambda c: [('finite exactly when the values can be listed', c.r == isfin(pv(c)))], throws=lambda c: And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub)))
    q(K('getLowerBound'), lambda c: [('least value', c.r == lo(pv(c))), nonemp(c)], throws=lambda c: And(pv(c).is_enum(), isemp(pv(c))))
    q(K('getUpperBound'), lambda c: [('greatest value', c.r == hi(pv(c))), nonemp(c)], throws=lambda c: And(pv(c).is_enum(), isemp(pv(c))))
    q(K('getBounds'), lambda c: [nonemp(c), ('least value', c.ap(0) == lo(pv(c))), ('greatest value', c.ap(1) == hi(pv(c))),
                                 ('true iff unbounded', c.r == Or(And(pv(c).is_enum(), Not(NUM(pv(c).dt))), lo(pv(c)) == -INF, hi(pv(c)) == INF))],
      throws=lambda c: And(pv(c).is_enum(), isemp(pv(c))), modifies=lambda c: [('arg', 0), ('arg', 1)])
    q(K('isMember'), lambda c: [('membership to within the minimum difference', c.r == memb(pv(c), c.a(0)))],
      req=lambda c: [('value', numok(c.a(0)))], throws=lambda c: Or(big(c.a(0)), And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub)), And(pv(c).is_enum(), ebig(pv(c)))))
    q(K('getSingletonValue'), lambda c: [('the remaining value', If(pv(c).is_interval(), c.r == pv(c).ub, And(pv(c).mem(c.r), c.r == smin(pv(c)), c.r == smax(pv(c)))))],
      throws=lambda c: Or(Not(issing(pv(c))), And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub))))
    q(K('compareEqual'), lambda c: [('equal to within the minimum difference', c.r == pv(c).near(c.a(0), c.a(1)))],
      req=lambda c: [('values', And(numok(c.a(0)), numok(c.a(1))))], throws=lambda c: big(c.a(0), c.a(1)))

    q(K('translateNumber'), lambda c: [('stays a number', numok(c.r)), ('integers for integer domains', Implies(pv(c).is_int_cls(), IsInt(c.r))),
                                       ('a lower bound is rounded up, an upper bound down, by less than one', If(pv(c).is_int_cls(),
                                        If(c.a(1), And(c.r > c.a(0) - rd('1/100000'), c.r < c.a(0) + 1), And(c.r < c.a(0) + rd('1/100000'), c.r > c.a(0) - 1)), c.r == c.a(0))),
                                       ('infinities are kept', And(Implies(c.a(0) == INF, c.r == INF), Implies(c.a(0) == -INF, c.r == -INF)))],
      req=lambda c: [('value', numok(c.a(0)))], throws=lambda c: big(c.a(0)))


def ebig(v, m=0):
    x = fresh(RealSort(), 'x')
    return Exists([x], And(v.mem(x), big(x, m=m)))


# ---------------------------------------------------------------- loop invariants over sorted sets
def set_loops(predf):
    """invariant templates for loops that walk an ordered set with an iterator.  predf(ctx) yields
    (name, P, Q): P(x) holds of every element already passed, Q(st,x) of every element still there."""
    from cv.engine import Iter

    def sp(L):
        eng = L.eng; c = eng.ctx0
        its = [k for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set')]
        preds = list(predf(c))
        for k in its:
            changed = ('e', k) in L.W
            if not changed: continue
            for nm, P in preds:
                def f(st, k=k, P=P, L=L):
                    it = st.env[k]
                    cur = acc(eng.rv(it.loc, st), 'mem')
                    ent = acc(eng.rv(L.entry.env[k].loc, L.entry), 'mem')
                    x = fresh(RealSort(), 'x')
                    before = Or(it.pos[0], x < it.pos[1])
                    b = P(x, sel(cur, x), sel(ent, x), before, it)
                    if b is None: return None
                    pats = [Select(cur, x)]
                    if not cur.eq(ent): pats.append(Select(ent, x))
                    pats = [p for p in pats if patok(p)]
                    return ForAll([x], b, patterns=pats) if pats else ForAll([x], b)
                yield ('set:%s:%s' % (nm, k[1]), f)
        # a flag that records whether anything was removed
        for k in its:
            if ('e', k) not in L.W: continue
            for kb in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_bool(v), changed=True):
                def f0(st, k=k, kb=kb, L=L):
                    cur = acc(eng.rv(st.env[k].loc, st), 'mem'); ent = acc(eng.rv(L.entry.env[k].loc, L.entry), 'mem')
                    if cur.eq(ent): return T_
                    x = fresh(cur.domain(), 'x')
                    return Or(st.env[kb], FA([x], Implies(sel(ent, x), sel(cur, x)), Select(ent, x)))

                def f1(st, k=k, kb=kb, L=L):
                    cur = acc(eng.rv(st.env[k].loc, st), 'mem'); ent = acc(eng.rv(L.entry.env[k].loc, L.entry), 'mem')
                    if cur.eq(ent): return Implies(st.env[kb], L.entry.env[kb])
                    x = fresh(cur.domain(), 'x')
                    return Implies(st.env[kb], Or(L.entry.env[kb], Exists([x], And(sel(ent, x), Not(sel(cur, x))))))
                yield ('set:flag0:%s:%s' % (k[1], kb[1]), f0)
                yield ('set:flag1:%s:%s' % (k[1], kb[1]), f1)
        # two iterators walking two sets together: everything already passed in one is smaller than everything left in the other
        for k in its:
            for k2 in its:
                if k == k2 or ('e', k) not in L.W or ('e', k2) not in L.W: continue

                def f(st, k=k, k2=k2, L=L):
                    i, j = st.env[k], st.env[k2]
                    a, b = acc(eng.rv(i.loc, st), 'mem'), acc(eng.rv(j.loc, st), 'mem')
                    if a.sort() != b.sort(): return None
                    x, y = fresh(a.domain(), 'x'), fresh(a.domain(), 'y')
                    return FA([x, y], Implies(And(sel(a, x), Not(Or(i.pos[0], x < i.pos[1])), sel(b, y), Or(j.pos[0], y < j.pos[1])), y < x), (Select(a, x), Select(b, y)))
                yield ('set:cross:%s:%s' % (k[1], k2[1]), f)
    return sp


def mutators(reg, db):
    K = lambda short, nargs=None, sub=None, cls='Domain': D(db, short, nargs, sub, cls)
    ALLC = INTV + ENUM
    pv = lambda c: V(c.pre, c.this)
    qv = lambda c: V(c.post, c.this)
    av = lambda c: V(c.pre, c.a(0))
    nothrow = lambda c: F_

    def invs(c): return [('this is a well-formed domain', inv(c.pre, c.this)), ('!finite set', minmax(pv(c)))]
    def inva(c): return [('the argument is a well-formed domain', inv(c.pre, c.a(0))), ('!finite set', minmax(av(c))), ('argument exists', c.a(0) != 0), ('argument is another domain', c.a(0) != c.this)]
    def keeps(c): return [('!finite set', minmax(qv(c))), ('stays a well-formed domain', inv(c.post, c.this))]
    STATE = lambda c: [(LB, c.this), (UB, c.this), (VALS, c.this), (CLOSED, c.this)] + NOTIF(c.pre, c.this)
    ISTATE = lambda c: [(LB, c.this), (UB, c.this)] + NOTIF(c.pre, c.this)

    def m(key, ens, req=None, throws=nothrow, this=ALLC, mods=STATE, **kw):
        reg.add(key, interface=True, this=this, prop={k: v for k, v in PB.items() if k in this}, also=['P04'], modifies=mods,
                requires=lambda c: invs(c) + (req(c) if req else []), ensures=lambda c: keeps(c) + ens(c), throws=throws, **kw)

    def ntf(c, when, ev, d=None):
        d = c.this if d is None else d
        return ('@P04 listener told exactly once, with the right event', notified(c, d, ev, when))

    def pats(x, *arrs):
        out = []
        for a in arrs:
            p = Select(a, x)
            if patok(p) and not any(p.eq(q) for q in out): out.append(p)
        return out

    def setpost(c, P, d=None):
        """mem1(x) == P(x) for an enumeration"""
        d = c.this if d is None else d
        v0, v1 = V(c.pre, d), V(c.post, d)
        x = fresh(RealSort(), 'x')
        return ForAll([x], v1.mem(x) == P(x, v0.mem(x)), patterns=pats(x, acc(v1.vals, 'mem'), acc(v0.vals, 'mem')))

    def restr_ev(c, d=None, dflt=EV['VALREM']):
        v1 = V(c.post, c.this if d is None else d)
        return If(isemp(v1), EV['EMPTIED'], If(issing(v1), EV['RSING'], dflt))

    # notification primitive
    reg.add(K('notifyChange'), interface=True, this=ALLC, prop='P04', modifies=lambda c: NOTIF(c.pre, c.this), requires=lambda c: invs(c),
            throws=lambda c: And(pv(c).is_interval(), Not(pv(c).is_int_cls()), big(pv(c).lb, pv(c).ub, m=4)),
            ensures=lambda c: [('the listener receives the tightest event', notified(c, c.this, If(And(c.a(0) <= EV['SSING'] - 1, issing(pv(c))), EV['RSING'], c.a(0)), T_))])
    reg.add(K('touch'), interface=True, this=ALLC, prop='P04', modifies=lambda c: NOTIF(c.pre, c.this), requires=lambda c: invs(c),
            throws=lambda c: And(pv(c).is_interval(), Not(pv(c).is_int_cls()), big(pv(c).lb, pv(c).ub, m=4)),
            ensures=lambda c: [('the listener is told', notified(c, c.this, If(issing(pv(c)), EV['RSING'], EV['BOUNDS']), T_))])

    def setl(c):
        v = pv(c); l = c.a(0)
        n0, n1 = c.pre(GN, l), c.post(GN, l)
        return [('listener attached', c.post(LIS, c.this) == l),
                ('a closed domain reports closure, and emptiness if it is empty', Implies(l != 0, If(v.closed, If(isemp(v), And(n1 == n0 + 2, c.post(GE, l) == EV['EMPTIED']), And(n1 == n0 + 1, c.post(GE, l) == EV['CLOSED'])), n1 == n0)))]
    reg.add(K('setListener'), interface=True, this=ALLC, prop='P04', modifies=lambda c: [(LIS, c.this), (GN, c.a(0)), (GE, c.a(0))], requires=lambda c: invs(c), ensures=setl, throws=lambda c: Or(c.pre(LIS, c.this) != 0, And(pv(c).is_interval(), Not(pv(c).is_int_cls()), big(pv(c).lb, pv(c).ub, m=4))))

    # ------------------------------------------------------------- empty / close / open
    m(K('empty'), lambda c: [('no value remains', isemp(qv(c))), ('closure unchanged', qv(c).closed == pv(c).closed), ntf(c, T_, EV['EMPTIED'])])

    def closepost(c):
        v = pv(c); l = v.lis; n0, n1 = c.pre(GN, l), c.post(GN, l)
        return [('closed', qv(c).closed), ('values unchanged', And(Implies(v.is_interval(), And(qv(c).lb == v.lb, qv(c).ub == v.ub)), setpost(c, lambda x, o: o), qv(c).card() == v.card())),
                ('@P04 closing is reported once, and emptiness if it is empty', Implies(l != 0, If(v.closed, And(n1 == n0, c.post(GE, l) == c.pre(GE, l)), If(isemp(v), And(n1 == n0 + 2, c.post(GE, l) == EV['EMPTIED']), And(n1 == n0 + 1, c.post(GE, l) == EV['CLOSED'])))))]
    m(K('close'), closepost)
    m(K('open'), lambda c: [('open', isopen(qv(c))), ('values unchanged', qv(c).vals == pv(c).vals), ntf(c, T_, EV['OPENED'])],
      this=ENUM, mods=lambda c: [(CLOSED, c.this)] + NOTIF(c.pre, c.this), throws=lambda c: isopen(pv(c)))

    # ------------------------------------------------------------- set
    def setp(c):
        v, w, x = pv(c), qv(c), c.a(0)
        was = memb(v, x)
        l = v.lis
        return [('set to exactly the value when it was a member', Implies(was, If(v.is_interval(), And(w.lb == x, w.ub == x), And(setpost(c, lambda y, o: y == x), w.card() == 1)))),
                ('emptied when it was not a member', Implies(Not(was), isemp(w))), ('closed afterwards', w.closed),
                ('@P04 the listener is told', Implies(l != 0, And(c.post(GN, l) > c.pre(GN, l), Implies(v.closed, c.post(GN, l) == c.pre(GN, l) + 1), c.post(GE, l) == If(was, EV['SSING'], EV['EMPTIED']))))]
    isstr = lambda c: c.pre.is_exact(c.this, 'StringDomain')
    m(K('set', 1), setp, req=lambda c: [('value', numok(c.a(0))), ('type', Implies(Not(NUM(pv(c).dt)), IsInt(c.a(0)))),
                                        ('a closed string domain still has values', Implies(isstr(c), Or(isopen(pv(c)), Not(isemp(pv(c))))))],
      throws=lambda c: Or(big(c.a(0), m=8), And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, m=8)), And(pv(c).is_enum(), ebig(pv(c), m=8)), And(isstr(c), Or(Not(memb(pv(c), c.a(0))), Not(ISSTR(c.a(0)))))))

    # ------------------------------------------------------------- bounds intersection
    def ilb(v, L, U):
        L2 = If(v.is_int_cls(), CEIL(L), L); U2 = If(v.is_int_cls(), FLOOR(U), U)
        return L2, U2

    def intpost(c, L, U):
        v, w = pv(c), qv(c)
        L, U = ilb(v, L, U)
        em = Or(v.lt(U, L), v.lt(U, v.lb), v.lt(v.ub, L))
        ud, li = v.lt(U, v.ub), v.lt(v.lb, L)
        ch = Or(em, ud, li)
        return [('emptied exactly when the bounds do not meet the domain', If(em, isemp(w), And(w.lb == If(li, L, v.lb), w.ub == If(ud, U, v.ub)))),
                ('reports a change exactly when there is one', c.r == ch),
                ('closure unchanged', w.closed == v.closed),
                ('not emptied by overlapping bounds', Implies(And(Not(em), Not(isemp(v))), Not(isemp(w)))),
                ntf(c, ch, If(em, EV['EMPTIED'], If(issing(w), EV['RSING'], If(isemp(w), If(And(ud, li), EV['EMPTIED'], If(li, EV['LB'], EV['UB'])), If(And(ud, li), EV['BOUNDS'], If(li, EV['LB'], EV['UB']))))))]

    def eintpost(c, P, ch=None):
        v, w = pv(c), qv(c)
        x = fresh(RealSort(), 'x')
        chg = Exists([x], And(v.mem(x), Not(P(x))))
        return [('exactly the common values remain', setpost(c, lambda y, o: And(o, P(y)))),
                ('reports a change exactly when a value is removed', c.r == chg), ('closure unchanged', w.closed == v.closed),
                ntf(c, chg, restr_ev(c))]

    def both(c, i, e):
        """interval clauses or enumeration clauses depending on the class"""
        out = []
        isi = pv(c).is_interval()
        for lab, f in i: out.append((lab, Implies(isi, f)))
        for lab, f in e: out.append((lab, Implies(Not(isi), f)))
        return out

    def ii(c):
        L, U = c.a(0), c.a(1)
        v = pv(c)
        e = eintpost(c, lambda x: And(Not(L > U), v.leq(L, x), v.leq(x, U)))
        x = fresh(RealSort(), 'x')
        e[1] = (e[1][0], If(L > U, And(c.r, isemp(qv(c))), c.r == Exists([x], And(v.mem(x), Not(And(v.leq(L, x), v.leq(x, U)))))))
        e[3] = (e[3][0], notified(c, c.this, restr_ev(c), c.r))
        return both(c, intpost(c, L, U), e)
    m(K('intersect', 2), ii, req=lambda c: [('bounds', And(numok(c.a(0)), numok(c.a(1)))), ('numeric', Or(pv(c).is_interval(), NUM(pv(c).dt)))], this=INTV + ['EnumeratedDomain', 'NumericDomain'],
      throws=lambda c: Or(big(c.a(0), c.a(1), m=8), And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, m=8)), And(pv(c).is_enum(), Or(isopen(pv(c)), ebig(pv(c), m=8)))),
      mods=lambda c: STATE(c) + ['alloc'],
      loops=[set_loops(lambda c: [('kept', lambda x, cur, ent, before, it: cur == And(ent, Or(Not(before), And(pv(c).leq(c.a(0), x), pv(c).leq(x, c.a(1))))))])])

    # ------------------------------------------------------------- intersection with a domain
    def domP(c, v, a, x):
        return If(a.is_interval(), memb(a, x), a.mem(x))

    def esep(c): return Implies(And(pv(c).is_enum(), av(c).is_enum()), And(pv(c).delta == av(c).delta, sep(c.pre, c.this, c.a(0))))

    def di(c):
        v, w, a = pv(c), qv(c), av(c)
        e0 = eintpost(c, lambda x: domP(c, v, a, x))
        both_closed = And(v.closed, a.closed)
        adopt = And(isopen(v), a.closed)
        e = [(lab, Implies(both_closed, f)) for lab, f in e0]
        e += [('an open enumeration takes over the values of a closed one', Implies(adopt, And(setpost(c, lambda x, o: a.mem(x)), w.closed, c.r))),
              ('an open argument changes nothing', Implies(isopen(a), And(setpost(c, lambda x, o: o), w.closed == v.closed, Not(c.r)))),
              ('@P04 no event from an open argument', Implies(isopen(a), notified(c, c.this, 0, F_)))]
        e += [('no open enumeration meets an interval', Not(And(isopen(v), a.is_interval())))]
        return both(c, intpost(c, lo(a), hi(a)), e)
    bads = lambda c: Or(And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, m=8)), And(av(c).is_interval(), big(av(c).lb, av(c).ub, m=8)), And(pv(c).is_enum(), ebig(pv(c), m=8)), And(av(c).is_enum(), ebig(av(c), m=8)))
    ncmp = lambda c: Not(comparable(pv(c).dt, av(c).dt))
    m(K('intersect', 1), di, req=lambda c: inva(c) + [('members are at least the minimum difference apart', esep(c))],
      throws=lambda c: Or(bads(c), ncmp(c), And(pv(c).is_interval(), Or(isemp(pv(c)), isemp(av(c)))), And(pv(c).is_enum(), isopen(pv(c)), av(c).is_interval())),
      loops=[set_loops(lambda c: [('kept', lambda x, cur, ent, before, it: cur == And(ent, Or(Not(before), domP(c, pv(c), av(c), x))))])])

    # ------------------------------------------------------------- assignment
    m(K('operator=', 1), lambda c: [('takes exactly the values of the argument', If(pv(c).is_interval(), And(qv(c).lb == lo(av(c)), qv(c).ub == hi(av(c)), qv(c).closed == av(c).closed), And(setpost(c, lambda x, o: av(c).mem(x)), qv(c).closed == pv(c).closed)))],
      req=lambda c: inva(c) + [('not listened to', c.pre(LIS, c.this) == 0), ('values fit the type', And(av(c).is_interval() == pv(c).is_interval(), Implies(pv(c).is_enum(), And(pv(c).delta == av(c).delta, NUM(pv(c).dt) == NUM(av(c).dt))),
                       Implies(And(pv(c).is_interval(), pv(c).is_int_cls()), And(IsInt(lo(av(c))), IsInt(hi(av(c))))), Implies(And(pv(c).is_interval(), Not(pv(c).is_int_cls())), Not(av(c).lb > av(c).ub)), Implies(c.pre.is_exact(c.this, 'BoolDomain'), And(0 <= lo(av(c)), hi(av(c)) <= 1))))],
      throws=lambda c: ncmp(c), mods=lambda c: [(LB, c.this), (UB, c.this), (VALS, c.this), (CLOSED, c.this)])

    # ------------------------------------------------------------- comparisons with another domain
    def q(key, ens, req=None, throws=nothrow, this=ALLC, **kw):
        reg.add(key, interface=True, this=this, prop={k: v for k, v in PB.items() if k in this}, requires=lambda c: invs(c) + (req(c) if req else []), ensures=ens, throws=throws, **kw)

    def meets(c):
        """the domains have a value in common"""
        v, a = pv(c), av(c)
        x = fresh(RealSort(), 'x')
        e1 = Exists([x], And(v.mem(x), memb(a, x)))
        e2 = Exists([x], And(a.mem(x), memb(v, x)))
        E5 = rd('1/100000')
        # common values lie between the larger lower and the smaller upper bound; integers if one of the domains holds integers
        L, U = mx(v.lb, a.lb), mn(v.ub, a.ub)
        fine = And(L > -INF, L < INF, U > -INF, U < INF)
        ints = And(Implies(And(c.r, fine), CEIL(L - E5) <= FLOOR(U + E5)), Implies(And(fine, CEIL(L) <= FLOOR(U)), c.r), Implies(And(L == -INF, U > -INF), c.r), Implies(And(U == INF, L < INF), c.r))
        vi, ai = v.is_int_cls(), a.is_int_cls()
        i = If(And(vi, ai), c.r == (L <= U), If(Or(vi, ai), Implies(And(v.delta <= 1, a.delta <= 1, Or(vi, v.delta < 1)), ints), Implies(v.delta <= a.delta, c.r == Not(v.tlt(U, L)))))
        return If(v.is_interval(), If(And(a.is_enum(), a.closed), c.r == e2, If(a.is_enum(), T_, i)), c.r == Or(isopen(v), isopen(a), e1))

    q(K('intersects', 1), lambda c: [('true exactly when the domains have a common value', meets(c))], req=lambda c: inva(c),
      throws=lambda c: Or(bads(c), ncmp(c), And(pv(c).is_interval(), isemp(av(c)))),
      loops=[set_loops(lambda c: [('none passed is common', lambda x, cur, ent, before, it: Implies(And(cur, before), Not(memb(av(c), x))))])])

    def subset(c):
        v, a = pv(c), av(c)
        x = fresh(RealSort(), 'x')
        e = FA([x], Implies(v.mem(x), memb(a, x)), Select(acc(v.vals, 'mem'), x))
        E5 = rd('1/100000')
        n = fresh(RealSort(), 'n')
        every = FA([n], Implies(And(IsInt(n), v.lb <= n, n <= v.ub), And(lo(a) - E5 < n, n < hi(a) + E5)))
        # integers in a real interval; the listed fields of two intervals of the same kind
        ii = And(Implies(And(c.r, lo(a) > -INF, hi(a) < INF), every), Implies(And(lo(a) <= v.lb, v.ub <= hi(a), isfin(v)), c.r))
        same = c.r == And(Or(isfin(v), Not(isfin(a))), v.tleq(v.ub, hi(a)), v.tleq(lo(a), v.lb))
        i = If(v.is_int_cls(), If(a.is_int_cls(), c.r == And(Or(isfin(v), Not(isfin(a))), v.ub <= a.ub, a.lb <= v.lb), ii), Implies(v.delta >= a.delta, same))
        i = If(And(Not(v.is_int_cls()), a.is_int_cls(), v.delta < 1, isfin(v)), c.r == Or(isemp(v), memb(a, v.lb)), i)
        return If(v.is_interval(), i, c.r == Or(isopen(a), And(v.closed, e)))
    q(K('isSubsetOf', 1), lambda c: [('true exactly when every value belongs to the other domain', subset(c))],
      req=lambda c: inva(c)[:-1] + [('an interval is compared with an interval', Implies(pv(c).is_interval(), av(c).is_interval()))],
      throws=lambda c: Or(bads(c), ncmp(c), And(pv(c).is_interval(), isemp(av(c)))),
      loops=[set_loops(lambda c: [('all passed belong', lambda x, cur, ent, before, it: Implies(And(cur, before), memb(av(c), x)))])])

    # ------------------------------------------------------------- remove
    REM = ['IntervalIntDomain', 'BoolDomain'] + ENUM

    def rem(c):
        v, w, x = pv(c), qv(c), c.a(0)
        atl, atu, was = x == v.lb, x == v.ub, memb(v, x)
        il = [('the value leaves, at an end of the interval', If(Not(was), And(w.lb == v.lb, w.ub == v.ub), If(atl, And(w.lb == v.lb + 1, w.ub == v.ub), And(w.lb == v.lb, w.ub == v.ub - 1)))),
              ('only an end of an interval can be removed', Implies(was, Or(atl, atu))), ('closure unchanged', w.closed == v.closed),
              ntf(c, was, If(isemp(w), EV['EMPTIED'], If(issing(w), EV['RSING'], If(atl, EV['LB'], EV['UB']))))]
        y = fresh(RealSort(), 'y')
        hit = Exists([y], And(v.mem(y), v.near(x, y)))
        el = [('the value leaves, and no other', setpost(c, lambda y, o: And(o, Not(v.near(x, y))))), ('closure unchanged', w.closed == v.closed),
              ntf(c, hit, If(And(isemp(w), w.closed), EV['EMPTIED'], If(issing(w), EV['RSING'], EV['VALREM'])))]
        return both(c, il, el)
    m(K('remove', 1), rem, req=lambda c: [('value', numok(c.a(0))), ('values have the resolution of the type', Implies(pv(c).is_enum(), FA([XR], Implies(pv(c).mem(XR), Or(XR == c.a(0), XR - c.a(0) >= pv(c).delta, c.a(0) - XR >= pv(c).delta)), Select(acc(pv(c).vals, 'mem'), XR)))),
                                          ('integer domains lose integers', Implies(pv(c).is_int_cls(), IsInt(c.a(0)))), ('bounds of ordinary size', Implies(pv(c).is_interval(), And(Not(big(pv(c).lb, pv(c).ub, c.a(0), m=8)), c.a(0) < INF, c.a(0) > -INF))), ('booleans lose booleans', Implies(c.pre.is_exact(c.this, 'BoolDomain'), Or(c.a(0) == 0, c.a(0) == 1)))], this=REM,
      throws=lambda c: Or(big(c.a(0), m=8), And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, m=8)), And(pv(c).is_enum(), ebig(pv(c), m=8)),
                          And(pv(c).is_interval(), memb(pv(c), c.a(0)), Not(c.a(0) == pv(c).lb), Not(c.a(0) == pv(c).ub))),
      loops=[set_loops(lambda c: [('not found among those passed', lambda x, cur, ent, before, it: Implies(And(cur, before), Not(pv(c).near(c.a(0), x))))])])


    # ------------------------------------------------------------- equality
    def eqpost(c):
        v, a = pv(c), av(c)
        x = fresh(RealSort(), 'x')
        i = c.r == If(v.is_int_cls(), And(v.lb == a.lb, v.ub == a.ub), And(EQX(v, v.lb, a.lb), EQX(v, v.ub, a.ub), isfin(v) == isfin(a)))
        e = c.r == And(v.closed == a.closed, FA([x], Implies(v.mem(x), memb(a, x)), Select(acc(v.vals, 'mem'), x)), FA([x], Implies(a.mem(x), memb(v, x)), Select(acc(a.vals, 'mem'), x)))
        return If(v.is_interval(), i, e)
    same = lambda c: [('domains of the same kind', If(pv(c).is_interval(), DT(c.this) == DT(c.a(0)), And(av(c).is_enum(), Or(Not(c.pre.is_exact(c.this, 'StringDomain')), v2closed(c))))), ('of the same type', c.pre(DTY, c.this) == c.pre(DTY, c.a(0)))]
    v2closed = lambda c: And(pv(c).closed, av(c).closed, c.pre.is_exact(c.a(0), 'StringDomain'))
    eqthr = lambda c: Or(bads(c), ncmp(c))
    q(K('operator==', 1, sub='EUROPA::Domain &)'), lambda c: [('equal exactly when the values are', eqpost(c))], req=lambda c: inva(c) + same(c), throws=eqthr,
      loops=[set_loops(lambda c: [('all passed are members', lambda x, cur, ent, before, it: Implies(And(cur, before), And(Implies(pv(c).mem(x), memb(av(c), x)) if it.loc.ref.eq(c.this) else T_, T_ if it.loc.ref.eq(c.this) else memb(pv(c), x))))])])
    q(K('operator!=', 1, sub='EUROPA::Domain &)'), lambda c: [('different exactly when not equal', (lambda r: eqpost(type('X', (), dict(pre=c.pre, post=c.post, this=c.this, a=c.a, r=Not(r)))()))(c.r))], req=lambda c: inva(c) + same(c), throws=eqthr)

    # ------------------------------------------------------------- relaxation
    def contained(c):
        v, a = pv(c), av(c); x = fresh(RealSort(), 'x')
        return If(v.is_interval(), And(a.lb <= v.lb, v.ub <= a.ub), FA([x], Implies(v.mem(x), a.mem(x)), Select(acc(v.vals, 'mem'), x)))

    def relaxset(c):
        """what the values are after relaxing to the argument"""
        v, w, a = pv(c), qv(c), av(c); x = fresh(RealSort(), 'x')
        return If(v.is_interval(), And(w.lb == a.lb, w.ub == a.ub), FA([x], w.mem(x) == a.mem(x), Select(acc(w.vals, 'mem'), x), Select(acc(a.vals, 'mem'), x)))
    cardeq = lambda c: qv(c).card() == av(c).card()
    wider = lambda c: Or(pv(c).lt(pv(c).ub, av(c).ub), pv(c).lt(av(c).lb, pv(c).lb))
    nothing = lambda c: And(isemp(av(c)), av(c).closed)
    untouched = lambda c: And(qv(c).lb == pv(c).lb, qv(c).ub == pv(c).ub, qv(c).vals == pv(c).vals, qv(c).closed == pv(c).closed)
    epost = lambda c: And(relaxset(c), cardeq(c), qv(c).closed == If(And(isopen(av(c)), pv(c).closed), F_, pv(c).closed))
    subs = lambda c: (lambda x: Or(isopen(av(c)), And(pv(c).closed, FA([x], Implies(pv(c).mem(x), memb(av(c), x)), Select(acc(pv(c).vals, 'mem'), x)))))(fresh(RealSort(), 'x'))

    def erel(c):
        return Or(isemp(pv(c)), subs(c))

    def told(c):
        """an enumeration that has to open reports that first"""
        l = pv(c).lis; n0, n1 = c.pre(GN, l), c.post(GN, l)
        k = If(And(isopen(av(c)), pv(c).closed), 2, 1)
        return Implies(l != 0, And(n1 == n0 + k, c.post(GE, l) == EV['RELAXED']))

    def rel(c):
        i = [('the values are those of the argument when it is wider', If(wider(c), relaxset(c), untouched(c))), ('an empty domain takes all values of the argument', Implies(isemp(pv(c)), relaxset(c))),
             ('closure unchanged', qv(c).closed == pv(c).closed), ntf(c, wider(c), EV['RELAXED'])]
        e = [('an empty argument changes nothing', Implies(nothing(c), untouched(c))), ('a domain included in the argument takes its values', Implies(And(Not(nothing(c)), erel(c)), epost(c))),
             ('a domain not included is left alone', Implies(And(Not(nothing(c)), Not(erel(c))), untouched(c))),
             ('@P04 relaxation is reported', Implies(And(Not(nothing(c)), erel(c)), told(c))), ('@P04 nothing reported otherwise', Implies(Or(nothing(c), Not(erel(c))), notified(c, c.this, 0, F_)))]
        return both(c, i, e)
    nonempty_arg = lambda c: [('an interval argument has values', Implies(pv(c).is_interval(), And(Not(isemp(av(c))), av(c).lb <= av(c).ub)))]
    m(K('relax', 1, sub='EUROPA::Domain &)'), rel, req=lambda c: inva(c) + same(c) + nonempty_arg(c), throws=eqthr)

    def relv(c):
        v, w, x = pv(c), qv(c), c.a(0)
        return both(c, [('exactly the value', And(w.lb == x, w.ub == x)), ntf(c, isemp(v), EV['RELAXED'])],
                    [('exactly the value', If(isemp(v), And(setpost(c, lambda y, o: y == x), w.card() == 1), untouched(c))), ('it is the value', w.mem(x)), ntf(c, isemp(v), EV['RELAXED'])]) + [('closure unchanged', w.closed == v.closed)]
    m(K('relax', 1, sub='edouble)'), relv, req=lambda c: [('value', numok(c.a(0))), ('a value of the type', And(Implies(pv(c).is_int_cls(), IsInt(c.a(0))), Implies(c.pre.is_exact(c.this, 'BoolDomain'), Or(c.a(0) == 0, c.a(0) == 1)), Implies(Not(NUM(pv(c).dt)), IsInt(c.a(0))))),
                                                          ('empty, or already that value', Or(isemp(pv(c)), And(issing(pv(c)), Implies(pv(c).is_enum(), smin(pv(c)) == c.a(0)))))],
      throws=lambda c: Or(And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, c.a(0), m=8)), And(pv(c).is_interval(), Or(c.a(0) == INF, c.a(0) == -INF))))

    # ------------------------------------------------------------- reset
    def rst(c):
        v, w, a, l = pv(c), qv(c), av(c), pv(c).lis
        x = Const('$eqx', BoolSort())
        n0, n1 = c.pre(GN, l), c.post(GN, l)
        inc = contained(c)
        eqf = lambda r: eqpost(type('X', (), dict(pre=c.pre, post=c.post, this=c.this, a=c.a, r=r))())
        i = [('a domain included in the argument takes its values, to the resolution', Implies(inc, And(Not(w.lt(w.lb, a.lb)), Not(w.lt(a.lb, w.lb)), Not(w.lt(w.ub, a.ub)), Not(w.lt(a.ub, w.ub))))),
             ('an empty domain takes all values of the argument', Implies(isemp(v), relaxset(c))), ('closure unchanged', w.closed == v.closed),
             ('@P04 reset is reported when something changes', Implies(And(l != 0, Not(untouched(c))), And(n1 > n0, c.post(GE, l) == EV['RESET'])))]
        e = [('stays closed', Implies(And(v.closed, a.closed), w.closed)), ('a domain included in the argument takes its values', Implies(And(Or(isemp(v), inc), Implies(isopen(v), isopen(a)), Not(nothing(c))), And(relaxset(c), w.closed == a.closed))),
             ('@P04 reset is reported when something changes', Implies(And(l != 0, Not(untouched(c))), And(n1 > n0, c.post(GE, l) == EV['RESET'])))]
        return both(c, i, e)
    m(K('reset', 1), rst, req=lambda c: inva(c) + same(c) + nonempty_arg(c) + [('members are at least the minimum difference apart', Implies(pv(c).is_enum(), sep(c.pre, c.this, c.a(0))))], throws=eqthr)

    # ------------------------------------------------------------- insert
    def ins(c):
        v, w, x, l = pv(c), qv(c), c.a(0), pv(c).lis
        was = memb(v, x)
        i = [('the value joins the interval', If(isemp(v), And(w.lb == x, w.ub == x), If(was, And(w.lb == v.lb, w.ub == v.ub), If(x < v.lb, And(w.lb == x, w.ub == v.ub, x == v.lb - 1), And(w.lb == v.lb, w.ub == x, x == v.ub + 1))))),
             ntf(c, Not(was), EV['RELAXED'])]
        y = fresh(RealSort(), 'y')
        near = Exists([y], And(v.mem(y), v.near(x, y)))
        e = [('the value joins, and no other', If(near, setpost(c, lambda y, o: o), setpost(c, lambda y, o: Or(o, y == x)))), ntf(c, F_, 0)]
        return both(c, i, e) + [('closure unchanged', w.closed == v.closed)]
    m(K('insert', 1, sub='edouble)'), ins, this=['IntervalIntDomain', 'BoolDomain'] + ENUM,
      req=lambda c: [('value', numok(c.a(0))), ('a value of the type', And(Implies(pv(c).is_int_cls(), IsInt(c.a(0))), Implies(c.pre.is_exact(c.this, 'BoolDomain'), Or(c.a(0) == 0, c.a(0) == 1)), Implies(Not(NUM(pv(c).dt)), IsInt(c.a(0)))))],
      throws=lambda c: Or(And(pv(c).is_enum(), pv(c).closed), big(c.a(0), m=8), c.a(0) == INF, c.a(0) == -INF, And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, m=8)), And(pv(c).is_enum(), ebig(pv(c), m=8)),
                          And(pv(c).is_interval(), Not(isemp(pv(c))), Or(c.a(0) < pv(c).lb - 1, c.a(0) > pv(c).ub + 1))),
      loops=[set_loops(lambda c: [('passed and far from the value', lambda x, cur, ent, before, it: Implies(And(cur, before), And(Not(pv(c).near(c.a(0), x)), x < c.a(0))))])])

    # ------------------------------------------------------------- subtraction
    def dif(c):
        v, w, a = pv(c), qv(c), av(c)
        L, U = ilb(v, a.lb, a.ub)
        none = Or(v.lt(U, L), v.lt(U, v.lb), v.lt(v.ub, L))
        allg = And(v.leq(L, v.lb), v.leq(v.ub, U))
        low = v.leq(L, v.lb)
        i = [('a disjoint domain changes nothing', Implies(none, And(w.lb == v.lb, w.ub == v.ub))), ('emptied when every value is subtracted', Implies(And(Not(none), allg), isemp(w))),
             ('otherwise the values beyond the argument stay', Implies(And(Not(none), Not(allg)), If(low, And(w.lb == U + v.delta, w.ub == v.ub), And(w.ub == L - v.delta, w.lb == v.lb)))),
             ('reports whether anything was subtracted', c.r == Not(none)),
             ('never splits the interval', Or(none, allg, low, v.leq(v.ub, U))),
             ntf(c, Not(none), If(isemp(w), EV['EMPTIED'], If(issing(w), EV['RSING'], If(low, EV['LB'], EV['UB']))))]
        x = fresh(RealSort(), 'x'); chg = Exists([x], And(v.mem(x), memb(a, x)))
        e = [('exactly the values outside the argument remain', setpost(c, lambda y, o: And(o, Not(memb(a, y))))), ('reports whether anything was subtracted', c.r == chg),
             ('@P04 the listener is told', If(isemp(w), notified(c, c.this, EV['EMPTIED'], T_), notified(c, c.this, If(issing(w), EV['RSING'], EV['VALREM']), chg)))]
        return both(c, i, e) + [('closure unchanged', w.closed == v.closed)]
    m(K('difference', 1), dif, req=lambda c: inva(c) + [('an interval is subtracted from an interval; other mixes are left to the bounded check', Implies(pv(c).is_interval(), And(av(c).is_interval(), Implies(pv(c).is_int_cls(), And(IsInt(av(c).lb), IsInt(av(c).ub))), Implies(Not(pv(c).is_int_cls()), Not(av(c).is_int_cls())), pv(c).delta == av(c).delta))),
                                                        ('bounds of ordinary size', Implies(pv(c).is_interval(), And(*[Not(big(x, m=8)) for x in (pv(c).lb, pv(c).ub, av(c).lb, av(c).ub)] + [av(c).lb < INF, av(c).ub > -INF, pv(c).lb < INF, pv(c).ub > -INF])))],
      throws=lambda c: Or(bads(c), ncmp(c), And(pv(c).is_interval(), Or(isemp(pv(c)), isemp(av(c)), (lambda L, U: And(pv(c).lt(pv(c).lb, L), pv(c).lt(U, pv(c).ub)))(*ilb(pv(c), av(c).lb, av(c).ub))))),
      loops=[set_loops(lambda c: [('kept', lambda x, cur, ent, before, it: cur == And(ent, Or(Not(before), Not(memb(av(c), x)))))])])

    # ------------------------------------------------------------- assignment and size
    def asg(c):
        v, w, a = pv(c), qv(c), av(c)
        return both(c, [('takes the bounds of the argument', And(w.lb == a.lb, w.ub == a.ub))], [('takes the values of the argument', And(relaxset(c), cardeq(c))), ('closure unchanged', w.closed == v.closed)])
    q(K('getSize', 0), lambda c: [('the number of values', If(pv(c).is_interval(), And(Implies(isemp(pv(c)), c.r == 0), Implies(And(Not(isemp(pv(c))), issing(pv(c))), c.r == 1), Implies(And(pv(c).is_int_cls(), pv(c).lb > -BIGV, pv(c).ub < BIGV, Not(isemp(pv(c)))), And(ToReal(c.r) <= pv(c).ub - pv(c).lb + 1, ToReal(c.r) > pv(c).ub - pv(c).lb))),
                                                               c.r == pv(c).card()))], throws=lambda c: And(pv(c).is_interval(), big(pv(c).lb, pv(c).ub, m=8)))

    # ------------------------------------------------------------- equating two domains
    def setpost2(c, d, P):
        v0, v1 = V(c.pre, d), V(c.post, d)
        x = fresh(RealSort(), 'x')
        return ForAll([x], v1.mem(x) == P(x, v0.mem(x)), patterns=pats(x, acc(v1.vals, 'mem'), acc(v0.vals, 'mem')))

    def eqt(c):
        v, a, w, b = pv(c), av(c), qv(c), V(c.post, c.a(0))
        x = fresh(RealSort(), 'x')
        E2 = And(v.is_enum(), a.is_enum()); I2 = And(v.is_interval(), a.is_interval())
        common = Exists([x], And(v.mem(x), a.mem(x)))
        L, U = mx(v.lb, a.lb), mn(v.ub, a.ub)
        out = [('both keep exactly the common values', Implies(And(E2, common), And(setpost2(c, c.this, lambda y, o: And(o, a.mem(y))), setpost2(c, c.a(0), lambda y, o: And(o, v.mem(y)))))),
               ('one is emptied when there is no common value', Implies(And(E2, Not(common)), Or(isemp(w), isemp(b)))),
               ('no value is added', Implies(E2, And(FA([x], Implies(w.mem(x), v.mem(x)), Select(acc(w.vals, 'mem'), x)), FA([x], Implies(b.mem(x), a.mem(x)), Select(acc(b.vals, 'mem'), x))))),
               ('both intervals keep the common bounds, to the resolution', Implies(And(I2, v.is_int_cls(), a.is_int_cls()), If(L <= U, And(w.lb == L, w.ub == U, b.lb == L, b.ub == U), Or(isemp(w), isemp(b))))),
               ('both real intervals keep the common bounds, to the resolution', Implies(And(I2, Not(v.is_int_cls()), Not(a.is_int_cls())), If(v.lt(U, L), Or(isemp(w), isemp(b)),
                     And(Not(v.lt(w.lb, L)), Not(v.lt(L, w.lb)), Not(v.lt(w.ub, U)), Not(v.lt(U, w.ub)), Not(v.lt(b.lb, L)), Not(v.lt(L, b.lb)), Not(v.lt(b.ub, U)), Not(v.lt(U, b.ub)))))),
               ('reports whether one of them changed', Implies(E2, c.r == Or(Exists([x], And(v.mem(x), Not(w.mem(x)))), Exists([x], And(a.mem(x), Not(b.mem(x))))))),
               ('closure unchanged', And(w.closed == v.closed, b.closed == a.closed)), ('the other stays a well-formed domain', inv(c.post, c.a(0)))]
        return out
    m(K('equate', 1), eqt, req=lambda c: inva(c) + [('two intervals of the same kind (enumerations are left to the bounded check)', If(pv(c).is_interval(), And(av(c).is_interval(), pv(c).is_int_cls() == av(c).is_int_cls(), pv(c).delta == av(c).delta), And(av(c).is_enum(), pv(c).closed, av(c).closed))),
                                                    ('with values', And(Not(isemp(pv(c))), Not(isemp(av(c))))), ('members are at least the minimum difference apart', esep(c)), ('separate listeners', same_lis(c, c.this, c.a(0)))],
      this=INTV, mods=lambda c: STATE(c) + [(LB, c.a(0)), (UB, c.a(0)), (VALS, c.a(0))] + NOTIF(c.pre, c.a(0)), throws=lambda c: Or(bads(c), ncmp(c)),
      loops=[set_loops(lambda c: [('kept', lambda x, cur, ent, before, it: cur == And(ent, Or(Not(before), And(pv(c).mem(x), av(c).mem(x)))))])])

def EQX(v, a, b): return Or(a == b, v.near(a, b))


XR = z3.Real('xr')
ISSTR = z3.Function('isStringKey', RealSort(), BoolSort())
