"""P08: the life of a variable: specify, reset, close, open, insert, remove, restrict, relax.

VDOM(v) is the current domain object of v, BDOM(v) its base domain object (which may be the same object)."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT, ISI as IsInt
from specs.dom import (V, inv, minmax, lo, hi, isemp, issing, isopen, memb, big, numok, comparable, sep, And, Or, Not, Implies, If, FA, find1, LIS, NOTIF,
                       LB, UB, VALS, CLOSED, DTY, GN, GE, NUM, ebig, ISSTR, EV)
from specs import dom
from specs.p05_constraints import VDOM
from specs.util import ghost, walk
from cv.spec import ANY, HV
TUS = dom.TUS + ['ConstraintEngine/base/ConstrainedVariable.cc', 'ConstraintEngine/base/DataType.cc']
PROP = 'P08'
BDOM = z3.Function('baseDomain', IntSort(), IntSort())
SPEC, SVAL = 'ConstrainedVariable.m_specifiedFlag', 'ConstrainedVariable.m_specifiedValue'
CV = 'EUROPA::ConstrainedVariable'


def build(reg, db):
    dom.contracts(reg, db); dom.mutators(reg, db)
    K = lambda short, nargs=None, sub=None: find1(db, CV, short, nargs, sub)
    reg.opaque |= {CV + '::toString', 'EUROPA::Entity::toString', CV + '::toLongString', 'EUROPA::Constraint::toString'}
    own = lambda c, d: z3.Function('owner', IntSort(), IntSort())(d) == c.this
    reg.add(K('getCurrentDomain', 0), interface=True, trusted='a variable owns one current domain object for its whole life', ensures=lambda c: [('r', And(c.r == VDOM(c.this), c.r != 0))])
    for n in ('internal_baseDomain', 'baseDomain', ):
        reg.add(K(n, 0), interface=True, trusted='a variable owns one base domain object for its whole life', ensures=lambda c: [('r', And(c.r == BDOM(c.this), c.r != 0))])
    reg.add(K('lastDomain', 0), interface=True, trusted='a variable owns one current domain object for its whole life', ensures=lambda c: [('r', And(c.r == VDOM(c.this), c.r != 0))])
    reg.add(K('isValid', 0), interface=True, trusted='internal consistency test, no effect', ensures=lambda c: [('r', c.r)])
    reg.add(find1(db, 'EUROPA::ConstraintEngine', 'getAllowViolations', 0), trusted='engine flag', interface=True)
    P = lambda c: V(c.pre, VDOM(c.this)); B = lambda c: V(c.pre, BDOM(c.this))
    P1 = lambda c: V(c.post, VDOM(c.this)); B1 = lambda c: V(c.post, BDOM(c.this))
    D = lambda c: VDOM(c.this)
    BD = lambda c: BDOM(c.this)

    def wf(c):
        out = []
        for n, d in (('current', D(c)), ('base', BD(c))):
            v = V(c.pre, d)
            out += [('the %s domain is well formed' % n, inv(c.pre, d)), ('!%s finite set' % n, minmax(v)), ('%s is a domain' % n, c.pre.isa(d, 'Domain'))]
        out += [('current and base domain are separate objects of the same kind and type', And(D(c) != BD(c), DT(D(c)) == DT(BD(c)), c.pre(DTY, D(c)) == c.pre(DTY, BD(c)))),
                ('values come from the base domain', Implies(P(c).is_enum(), sep(c.pre, D(c), BD(c)))), ('the base domain has its own listener', c.pre(LIS, BD(c)) == 0)]
        return out

    def dmods(c, base=False, spec=True):
        out = []
        for d in [D(c)] + ([BD(c)] if base else []): out += [(LB, d), (UB, d), (VALS, d), (CLOSED, d)] + NOTIF(c.pre, d)
        return out + ([(SPEC, c.this), (SVAL, c.this)] if spec else []) + ['alloc']

    def just(v, x):
        """the domain is exactly {x}"""
        y = fresh(RealSort(), 'y')
        return If(v.is_interval(), And(v.lb == x, v.ub == x), And(FA([y], v.mem(y) == (y == x), Select(acc(v.vals, 'mem'), y)), v.card() == 1))

    def samevals(a, b):
        y = fresh(RealSort(), 'y')
        return If(a.is_interval(), And(a.lb == b.lb, a.ub == b.ub), FA([y], a.mem(y) == b.mem(y), Select(acc(a.vals, 'mem'), y), Select(acc(b.vals, 'mem'), y)))

    def near(a, b):
        y = fresh(RealSort(), 'y')
        return If(a.is_interval(), And(Not(a.lt(a.lb, b.lb)), Not(a.lt(b.lb, a.lb)), Not(a.lt(a.ub, b.ub)), Not(a.lt(b.ub, a.ub))), FA([y], a.mem(y) == b.mem(y), Select(acc(a.vals, 'mem'), y), Select(acc(b.vals, 'mem'), y)))

    def keep(c, v, w): return And(w.lb == v.lb, w.ub == v.ub, w.vals == v.vals, w.closed == v.closed)
    incl = lambda c: (lambda y: If(P(c).is_interval(), Or(isemp(P(c)), And(B(c).lb <= P(c).lb, P(c).ub <= B(c).ub)), FA([y], Implies(P(c).mem(y), B(c).mem(y)), Select(acc(P(c).vals, 'mem'), y))))(fresh(RealSort(), 'y'))
    bigs = lambda c, x=None: Or(*([And(v.is_interval(), big(v.lb, v.ub, m=8)) for v in (P(c), B(c))] + [And(v.is_enum(), ebig(v, m=8)) for v in (P(c), B(c))] + ([big(x, m=8)] if x is not None else [])))
    strs = lambda c: c.pre.is_exact(D(c), 'StringDomain')
    opn = lambda c: Implies(isopen(P(c)), isopen(B(c)))
    basic = lambda c: wf(c) + [('current values are base values', incl(c)), ('an open variable has an open base', opn(c))]
    boolx = lambda c, x: Implies(c.pre.is_exact(D(c), 'BoolDomain'), Or(x == 0, x == 1))
    typed = lambda c, x: And(numok(x), x < INF, x > -INF, Implies(P(c).is_int_cls(), IsInt(x)), boolx(c, x), Implies(Not(NUM(P(c).dt)), IsInt(x)))
    nostr = lambda c: ('string domains are left to the bounded check', Not(strs(c)))
    stay = lambda c: [('!', minmax(P1(c))), ('the current domain stays well formed', inv(c.post, D(c)))]

    def m(key, ens, req, throws, mods=dmods, **kw):
        reg.add(key, prop='P08', requires=lambda c: basic(c) + req(c), ensures=ens, throws=throws, modifies=mods, **kw)

    # ---- specify
    again = lambda c: And(c.pre(SPEC, c.this), c.pre(SVAL, c.this) == c.a(0))

    def spc(c):
        x = c.a(0)
        return [('remembers that it is specified and the value', And(c.post(SPEC, c.this), c.post(SVAL, c.this) == x)),
                ('specifying the value it already has changes nothing', Implies(again(c), keep(c, P(c), P1(c)))),
                ('the current domain becomes exactly the value', Implies(And(Not(again(c)), memb(P(c), x)), just(P1(c), x))),
                ('stays closed over a closed base', Implies(And(P(c).closed, B(c).closed), P1(c).closed)),
                ('a value outside the current domain leaves no value, or only that value', Implies(And(Not(again(c)), Not(memb(P(c), x))), Or(isemp(P1(c)), just(P1(c), x))))]
    spreq = lambda c: [('bounds in order', Implies(B(c).is_interval(), B(c).lb <= B(c).ub)), ('the value fits the type', typed(c, c.a(0))), nostr(c)]
    spthr = lambda c: T_
    m(K('internalSpecify', 1), lambda c: stay(c) + spc(c), spreq, spthr)
    m(K('specify', 1), lambda c: stay(c) + spc(c), spreq, spthr)

    # ---- reset
    m(K('reset', 0), lambda c: stay(c) + [('no longer specified', Not(c.post(SPEC, c.this))), ('all values of the base domain are back', Implies(Not(And(B(c).is_enum(), isemp(B(c)), B(c).closed)), near(P1(c), B(c)))), ('as open as the base domain', Implies(And(B(c).is_enum(), Not(And(isemp(B(c)), B(c).closed))), P1(c).closed == B(c).closed)), ('stays closed over a closed base', Implies(And(P(c).closed, B(c).closed), P1(c).closed))],
      lambda c: [('the base domain has values', Implies(B(c).is_interval(), And(Not(isemp(B(c))), B(c).lb <= B(c).ub))), nostr(c)], lambda c: bigs(c), mods=lambda c: dmods(c))
    # ---- relax
    m(K('relax', 0), lambda c: stay(c) + [('specification unchanged', And(c.post(SPEC, c.this) == c.pre(SPEC, c.this), c.post(SVAL, c.this) == c.pre(SVAL, c.this))),
                                          ('a specified variable keeps exactly the value', Implies(c.pre(SPEC, c.this), If(P1(c).is_interval(), just(P1(c), c.pre(SVAL, c.this)), P1(c).mem(c.pre(SVAL, c.this))))),
                                          ('an unspecified variable gets all values of the base domain', Implies(And(Not(c.pre(SPEC, c.this)), Not(And(B(c).is_enum(), isemp(B(c)), B(c).closed)), Implies(And(P(c).is_enum(), Not(isemp(P(c)))), Implies(isopen(P(c)), isopen(B(c))))), near(P1(c), B(c))))],
      lambda c: [('the specified value', Implies(c.pre(SPEC, c.this), And(typed(c, c.pre(SVAL, c.this)), Or(isemp(P(c)), And(issing(P(c)), Implies(P(c).is_enum(), lo(P(c)) == c.pre(SVAL, c.this))))))),
                 ('the base domain has values', Implies(B(c).is_interval(), And(Not(isemp(B(c))), B(c).lb <= B(c).ub))), nostr(c)], lambda c: Or(bigs(c), big(c.pre(SVAL, c.this), m=8)), mods=lambda c: dmods(c, spec=False))
    # ---- insert / remove
    m(K('insert', 1), lambda c: stay(c) + [('the value joins the base domain, and no other', (lambda y, z: FA([y], B1(c).mem(y) == Or(B(c).mem(y), And(y == c.a(0), Not(B(c).ememb(c.a(0))))), Select(acc(B1(c).vals, 'mem'), y)))(fresh(RealSort(), 'y'), fresh(RealSort(), 'z'))),
                                           ('the current values follow unless the variable is specified or closed', If(And(Not(c.pre(SPEC, c.this)), isopen(P(c))), (lambda y: FA([y], P1(c).mem(y) == Or(P(c).mem(y), And(y == c.a(0), Not(P(c).ememb(c.a(0))))), Select(acc(P1(c).vals, 'mem'), y)))(fresh(RealSort(), 'y')), keep(c, P(c), P1(c))))],
      lambda c: [('the value fits the type', typed(c, c.a(0))), ('an enumeration', P(c).is_enum()), nostr(c)], lambda c: Or(bigs(c, c.a(0)), B(c).closed), mods=lambda c: dmods(c, True, False))
    far = lambda c, v: FA([dom.XR], Implies(v.mem(dom.XR), Or(dom.XR == c.a(0), dom.XR - c.a(0) >= v.delta, c.a(0) - dom.XR >= v.delta)), Select(acc(v.vals, 'mem'), dom.XR))
    gone = lambda c, v, w: (lambda y: FA([y], w.mem(y) == And(v.mem(y), Not(v.near(c.a(0), y))), Select(acc(w.vals, 'mem'), y), Select(acc(v.vals, 'mem'), y)))(fresh(RealSort(), 'y'))
    m(K('remove', 1), lambda c: stay(c) + [('the value leaves the base domain, and no other', gone(c, B(c), B1(c))), ('the value leaves the current domain, and no other', gone(c, P(c), P1(c)))],
      lambda c: [('the value fits the type', typed(c, c.a(0))), ('an enumeration', P(c).is_enum()), ('values have the resolution of the type', And(far(c, P(c)), far(c, B(c)))), nostr(c)], lambda c: bigs(c, c.a(0)), mods=lambda c: dmods(c, True, False))
    # ---- close / open
    m(K('close', 0), lambda c: stay(c) + [('the base domain is closed', B1(c).closed), ('the current domain is closed', P1(c).closed),
                                          ('base values unchanged', samevals(B(c), B1(c))),
                                          ('current values unchanged, or the only base value', Or(samevals(P(c), P1(c)), And(issing(B(c)), Not(c.pre(SPEC, c.this)), Or(isemp(P1(c)), just(P1(c), lo(B(c)))))))],
      lambda c: [('an enumeration', P(c).is_enum()), ('values fit the type', Implies(issing(B(c)), typed(c, lo(B(c))))), nostr(c)], lambda c: T_, mods=lambda c: dmods(c, True))
    m(K('open', 0), lambda c: stay(c) + [('the base domain is open', isopen(B1(c))), ('base values unchanged', B1(c).vals == B(c).vals), ('the current domain is open', isopen(P1(c))), ('a value fixed only because the base domain had no other is withdrawn', Implies(issing(B(c)), And(Not(c.post(SPEC, c.this)), samevals(P1(c), B1(c))))),
                                         ('any other specification stays', Implies(Not(issing(B(c))), c.post(SPEC, c.this) == c.pre(SPEC, c.this)))],
      lambda c: [('an enumeration', P(c).is_enum()), nostr(c)], lambda c: Or(bigs(c), isopen(B(c))), mods=lambda c: dmods(c, True))
    # ---- restricting the base domain
    A = lambda c: V(c.pre, c.a(0))
    VD = 'EUROPA::Variable<EUROPA::Domain>'
    mx, mn = dom.mx, dom.mn
    oth = lambda c: [('the new base domain is well formed', inv(c.pre, c.a(0))), ('!finite set', minmax(A(c))), ('is a domain', c.pre.isa(c.a(0), 'Domain')), ('is another domain', And(c.a(0) != D(c), c.a(0) != BD(c), c.a(0) != 0)),
                     ('of the same kind and type', And(DT(c.a(0)) == DT(BD(c)), c.pre(DTY, c.a(0)) == c.pre(DTY, BD(c)))), ('values have the resolution of the type', Implies(P(c).is_enum(), And(sep(c.pre, D(c), c.a(0)), sep(c.pre, BD(c), c.a(0))))), nostr(c)]

    def cut(c, old, a, new):
        """new is exactly the common part of old and a (both closed)"""
        y = fresh(RealSort(), 'y')
        return If(old.is_interval(), If(Or(old.lt(a.ub, old.lb), old.lt(old.ub, a.lb)), isemp(new), And(new.lb == If(old.lt(old.lb, a.lb), a.lb, old.lb), new.ub == If(old.lt(a.ub, old.ub), a.ub, old.ub))),
                  FA([y], new.mem(y) == And(old.mem(y), a.mem(y)), Select(acc(new.vals, 'mem'), y), Select(acc(old.vals, 'mem'), y)))

    def restr(c, outer=False):
        a, b0, b1, p0, p1 = A(c), B(c), B1(c), P(c), P1(c)
        y = fresh(RealSort(), 'y')
        return [('a closed base domain keeps exactly the values common to both', Implies(And(b0.closed, a.closed), cut(c, b0, a, b1))),
                ('a closed base domain stays closed', Implies(b0.closed, b1.closed)),
                ('an open base domain takes over the values', Implies(And(isopen(b0), a.closed if outer else T_), FA([y], b1.mem(y) == a.mem(y), Select(acc(b1.vals, 'mem'), y)))),
                ('and is closed exactly when the new base domain is', Implies(isopen(b0), b1.closed == a.closed)),
                ('the base domain stays well formed', inv(c.post, BD(c))),
                ('current values are base values', Implies(And(b1.closed, Not(isemp(p0))), (lambda x: If(p0.is_interval(), Or(isemp(p1), And(Not(p1.lt(p1.lb, b1.lb)), Not(p1.lt(b1.ub, p1.ub)))), FA([x], Implies(p1.mem(x), b1.mem(x)), Select(acc(p1.vals, 'mem'), x))))(fresh(RealSort(), 'x')))),
                ('no value of the current domain that the new base domain allows is lost, unless the variable becomes specified', Implies(And(p0.is_enum(), p0.closed, Not(And(c.post(SPEC, c.this), Not(c.pre(SPEC, c.this))))), (lambda x: FA([x], Implies(And(p0.mem(x), a.mem(x)), p1.mem(x)), Select(acc(p1.vals, 'mem'), x), Select(acc(p0.vals, 'mem'), x)))(fresh(RealSort(), 'x')))),
                ('a single remaining base value specifies the variable', Implies(And(b1.closed, issing(b1), Not(issing(b0))), c.post(SPEC, c.this))),
                ('a specified variable stays as it is', Implies(c.pre(SPEC, c.this), And(c.post(SPEC, c.this), c.post(SVAL, c.this) == c.pre(SVAL, c.this)))),
                ('otherwise it is not specified', Implies(And(Not(c.pre(SPEC, c.this)), Not(issing(b1))), Not(c.post(SPEC, c.this))))]
    rk = K('handleRestrictBaseDomain', 1)
    own_ = lambda c: [('!its domains', And(c.pre(VD + '.m_derivedDomain', c.this) == D(c), c.pre(VD + '.m_baseDomain', c.this) == BD(c)))]
    bnds = lambda c: [x for d in (P(c), B(c), A(c)) for x in (d.lb, d.ub)]
    # the domain of a listener-less base is changed without events
    rreq = lambda c: basic(c) + oth(c) + [('no domain is empty', And(Implies(P(c).is_interval(), And(Not(isemp(P(c))), P(c).lb <= P(c).ub)), Implies(B(c).is_interval(), And(Not(isemp(B(c))), B(c).lb <= B(c).ub)), Implies(A(c).is_interval(), And(Not(isemp(A(c))), A(c).lb <= A(c).ub)))),
                                          ('the domains have a value in common', (lambda x: If(P(c).is_interval(), And(mx(B(c).lb, A(c).lb) <= mn(B(c).ub, A(c).ub)), Exists([x], And(B(c).mem(x), A(c).mem(x)))))(fresh(RealSort(), 'x'))),
                                          ('finite values', And(*[If(d.is_interval(), And(d.lb < INF, d.ub > -INF), And(Not(d.mem(z3.RealVal(INF))), Not(d.mem(z3.RealVal(-INF))))) for d in (B(c), A(c))])),
                                          ('bounds have the resolution of the type', Implies(P(c).is_interval(), And(*[Or(x == y, x - y >= 2 * P(c).delta, y - x >= 2 * P(c).delta) for i, x in enumerate(bnds(c)) for y in bnds(c)[:i]]))), ('moderate numbers', Not(Or(bigs(c), And(A(c).is_interval(), big(A(c).lb, A(c).ub, m=8)), And(A(c).is_enum(), ebig(A(c), m=8)))))]
    reg.add(rk, prop='P08', interface=True, this=['EUROPA::Variable<EUROPA::Domain>'], requires=lambda c: rreq(c) + own_(c), modifies=lambda c: dmods(c, True), throws=lambda c: T_, ensures=lambda c: stay(c) + restr(c))
    for n, d in (('getCurrentDomain', D), ('lastDomain', D), ('baseDomain', BD), ('internal_baseDomain', BD)):
        reg.add(find1(db, VD, n, 0), prop='P08', requires=own_, throws=lambda c: F_, ensures=lambda c, d=d: [('the domain the variable owns', c.r == d(c))])
    ghost(db, 'EUROPA::Constraint', '$base'); ghost(db, 'EUROPA::ConstrainedVariable', '$changed')
    CB, CH, CONS = 'Constraint.$base', 'ConstrainedVariable.$changed', 'ConstrainedVariable.m_constraints'
    reg.add(find1(db, 'EUROPA::ConstraintEngine', 'notify', 2), interface=True, trusted='the engine is told (P07)', modifies=lambda c: [(CH, c.a(0))], ensures=lambda c: [('told', c.post(CH, c.a(0)) == c.pre(CH, c.a(0)) + 1)])
    reg.add(find1(db, 'EUROPA::Constraint', 'notifyBaseDomainRestricted', 1), interface=True, trusted='constraints look for redundancy (P07)', modifies=lambda c: [(CB, c.this)], ensures=lambda c: [('told', c.post(CB, c.this) == c.pre(CB, c.this) + 1)])
    # nothing is done when the base domain is within the new one already
    told = lambda c: Or(c.post(CH, c.this) > c.pre(CH, c.this), And(keep(c, B(c), B1(c)), keep(c, P(c), P1(c))))
    ends = lambda c: (lambda i, s: FA([i], Implies(And(0 <= i, i < acc(s, 'len'), c.post(CH, c.this) > c.pre(CH, c.this)), c.post(CB, acc(sel(acc(s, 'arr'), i), 'first')) > c.pre(CB, acc(sel(acc(s, 'arr'), i), 'first'))), Select(acc(s, 'arr'), i)))(fresh(IntSort(), 'i'), c.pre(CONS, c.this))

    def l_base(L):
        c = L.eng.ctx0
        x = fresh(IntSort(), 'x')
        yield from walk(lambda st, e, x: HV(L.eng, st)(CB, acc(x, 'first')) > c.pre(CB, acc(x, 'first')), 'constraints told')(L)
        yield ('counts only grow', lambda st: FA([x], HV(L.eng, st)(CB, x) >= c.pre(CB, x), HV(L.eng, st)(CB, x)))
    reg.add(K('restrictBaseDomain', 1), prop='P08', requires=lambda c: rreq(c) + own_(c) + [('!entity', c.pre('ConstrainedVariable.m_id', c.this) == c.this)], modifies=lambda c: dmods(c, True) + [(CB, ANY), (CH, c.this)], loops=[l_base], throws=lambda c: T_,
            ensures=lambda c: stay(c) + restr(c, True) + [('the engine is told unless the base domain was within the new one', told(c)), ('and so is every constraint of the variable', ends(c)), ('something is done unless the base domain was within the new one', Implies(c.post(CH, c.this) == c.pre(CH, c.this), Or(isopen(A(c)), If(P(c).is_interval(), And(Not(B(c).lt(B(c).lb, A(c).lb)), Not(B(c).lt(A(c).ub, B(c).ub))), (lambda y: FA([y], Implies(B(c).mem(y), A(c).mem(y)), Select(acc(B(c).vals, 'mem'), y)))(fresh(RealSort(), 'y'))))))])
