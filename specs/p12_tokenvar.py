"""P12 (token variables): the domain of a variable of an active token takes in the base domains and specified values of the tokens merged with it, and gives them up again.

Contracts for the variables with integer interval domains (start, end, duration). I(v) is the integrated base domain of v; VDOM/BDOM are as in P08."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT, Iter, Ptr, LFld, ISI as IsInt
from cv.spec import ANY, HV
from specs.dom import V, inv, minmax, isemp, issing, memb, big, find1, NOTIF, LB, UB, VALS, CLOSED, DTY, LIS, numok, comparable
from specs import dom, p08_variable
from specs.p05_constraints import VDOM
from specs.p08_variable import BDOM, SPEC, SVAL
from specs.util import walk, FA
TUS = p08_variable.TUS + ['PlanDatabase/base/Token.cc']
PROP = 'P12'
E = 'EUROPA::'
TV = E + 'TokenVariable<EUROPA::IntervalIntDomain>'
IB, PARENT, LOCS, LOCV = [TV + '.m_' + f for f in ('integratedBaseDomain', 'parentToken', 'isLocallySpecified', 'localSpecifiedValue')]
DERIVED, BASED = [E + 'Variable<EUROPA::IntervalIntDomain>.m_' + f for f in ('derivedDomain', 'baseDomain')]
MG, VARS, ACT = 'Token.m_mergedTokens', 'Token.m_allVariables', 'Token.m_activeToken'
IDX = 'ConstrainedVariable.m_index'
mem = lambda s, x: sel(acc(s, 'mem'), x)
SAME = z3.Function('variableOf', IntSort(), IntSort(), IntSort())     # (token, position): the variable


def build(reg, db):
    p08_variable.build(reg, db)
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)
    tv = lambda n, a=None: find1(db, TV, n, a)
    for n in ('toString', 'toLongString', 'getName'): reg.opaque |= {E + 'Token::' + n, TV + '::' + n}

    def trust(key, why, **kw):
        kw.setdefault('throws', lambda c: F_)
        reg.add(key, trusted=why, interface=True, **kw)
    add = lambda key, **kw: reg.add(key, prop='P12', **kw)
    D = lambda c: VDOM(c.this)
    BD = lambda c: BDOM(c.this)
    ID = lambda c: c.pre(IB, c.this)
    pt = lambda c: c.pre(PARENT, c.this)
    var = lambda h, t, i: sel(acc(h(VARS, t), 'arr'), i)
    ONE = {}
    PD, PB, PI = [lambda c, f=f: V(c.pre, f(c)) for f in (D, BD, ID)]
    QD, QB, QI = [lambda c, f=f: V(c.post, f(c)) for f in (D, BD, ID)]

    def wfi(h, d): return And(inv(h, d, 'IntervalIntDomain'), DT(d) == ONEID[0], d != 0)
    ONEID = [None]

    def wf(c):
        out = []
        for n, d in (('current', D(c)), ('base', BD(c)), ('integrated base', ID(c))):
            out += [('the %s domain is a well formed integer interval' % n, And(inv(c.pre, d), c.pre.is_exact(d, 'IntervalIntDomain')))]
        out += [('!', And(c.pre(DERIVED, c.this) == D(c), c.pre(BASED, c.this) == BD(c), c.this != 0)),
                ('the domains are separate objects of one type', And(Distinct(D(c), BD(c), ID(c)), c.pre(DTY, D(c)) == c.pre(DTY, BD(c)), c.pre(DTY, D(c)) == c.pre(DTY, ID(c)))),
                ('only the current domain has a listener', And(c.pre(LIS, BD(c)) == 0, c.pre(LIS, ID(c)) == 0)),
                ('the base domains have values', And(PB(c).lb <= PB(c).ub, PI(c).lb <= PI(c).ub)),
                ('moderate numbers', And(*[Not(big(v.lb, v.ub, m=8)) for v in (PB(c), PI(c))]))]
        return out
    within = lambda a, b: Or(isemp(a), And(b.lb <= a.lb, a.ub <= b.ub))
    same = lambda a, b: And(a.lb == b.lb, a.ub == b.ub)
    inb = lambda c: [('current values are values of the integrated base domain', within(PD(c), PI(c))), ('the integrated base domain is within the base domain', within(PI(c), PB(c)))]
    keep = lambda c: ('the current domain stays well formed', inv(c.post, D(c)))
    bounds = lambda c, d: [(f, d) for f in (LB, UB)] + NOTIF(c.pre, d)
    allf = lambda c, d: [(f, d) for f in (LB, UB, VALS, CLOSED)] + NOTIF(c.pre, d)
    val = lambda c, x: And(numok(x), IsInt(x), x < INF, x > -INF, Not(big(x, m=8)))
    # ---- relax
    add(tv('relax', 0), requires=lambda c: wf(c) + inb(c) + [('the specified value', Implies(c.pre(SPEC, c.this), And(val(c, c.pre(SVAL, c.this)), Or(isemp(PD(c)), issing(PD(c))))))], modifies=lambda c: allf(c, D(c)) + ['alloc'], throws=lambda c: big(PD(c).lb, PD(c).ub, m=8),
        ensures=lambda c: [keep(c), ('an unspecified variable gets all values allowed by its base domain and the merged tokens', Implies(Not(c.pre(SPEC, c.this)), same(QD(c), PI(c)))),
                           ('a specified variable keeps the value', Implies(c.pre(SPEC, c.this), And(QD(c).lb == c.pre(SVAL, c.this), QD(c).ub == c.pre(SVAL, c.this))))])
    # ---- a token is merged
    arg = lambda c: V(c.pre, c.a(0))
    mx, mn = dom.mx, dom.mn
    cut = lambda a, b, r: If(mx(a.lb, b.lb) <= mn(a.ub, b.ub), And(r.lb == mx(a.lb, b.lb), r.ub == mn(a.ub, b.ub)), isemp(r))
    add(tv('handleBase', 1), requires=lambda c: wf(c) + [('a domain of the same kind', And(inv(c.pre, c.a(0)), c.pre.is_exact(c.a(0), 'IntervalIntDomain'), c.pre(DTY, c.a(0)) == c.pre(DTY, D(c)))), ('another domain', And(*[c.a(0) != d(c) for d in (D, BD, ID)]))],
        modifies=lambda c: allf(c, D(c)) + allf(c, ID(c)), throws=lambda c: T_,
        ensures=lambda c: [keep(c), ('the base domain of the merged variable is taken in', cut(PI(c), arg(c), QI(c))), ('and restricts the current values', cut(PD(c), arg(c), QD(c)))])
    # ---- the integrated base domain
    mv = lambda c, h, t: var(h, t, c.pre(IDX, c.this))
    mg = lambda c: c.pre(MG, pt(c))

    def mwf(c):
        t = fresh(IntSort(), 't'); h = c.pre
        v = mv(c, h, t)
        one = [v != 0, v != c.this]
        for d in (BDOM(v), VDOM(v)):
            w = V(h, d)
            one += [inv(h, d, 'IntervalIntDomain'), h.is_exact(d, 'IntervalIntDomain'), h(DTY, d) == h(DTY, BD(c)), *[d != f(c) for f in (D, BD, ID)], Not(big(w.lb, w.ub, m=8)), Implies(Not(isemp(w)), w.lb <= w.ub)]
        one += [V(h, BDOM(v)).lb <= V(h, BDOM(v)).ub, Implies(h(SPEC, v), issing(V(h, VDOM(v)))), acc(h(VARS, t), 'len') == acc(h(VARS, pt(c)), 'len'), h(ACT, t) == pt(c), h.isa(v, TV)]
        return [('the token', pt(c) != 0), ('position of the variable', And(c.pre(IDX, c.this) >= 0, c.pre(IDX, c.this) < acc(h(VARS, pt(c)), 'len'))),
                ('the variables of merged tokens are well formed', FA([t], Implies(mem(mg(c), t), And(t != 0, *one)), Select(acc(mg(c), 'mem'), t)))]

    def integrated(c, h, before, I, B):
        """I is exactly the part of B allowed by the base domains of the merged variables t with before(t)"""
        t = fresh(IntSort(), 't')
        M = lambda t: And(mem(mg(c), t), before(t))
        b = lambda t: V(h, BDOM(mv(c, h, t)))
        return [('within the base domain', And(B.lb <= I.lb, I.ub <= B.ub)), ('within the base domains of the merged variables', FA([t], Implies(M(t), And(b(t).lb <= I.lb, I.ub <= b(t).ub)), Select(acc(mg(c), 'mem'), t))),
                ('no smaller than that', And(Or(I.lb == B.lb, Exists([t], And(M(t), I.lb == b(t).lb))), Or(I.ub == B.ub, Exists([t], And(M(t), I.ub == b(t).ub))))), ('not empty', I.lb <= I.ub)]

    def anyspec(c, h, before):
        t = fresh(IntSort(), 't')
        return Exists([t], And(mem(mg(c), t), before(t), h(SPEC, mv(c, h, t))))

    def cl(L):
        eng = L.eng; c = L.eng.ctx0
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
            bef = lambda st, k=k: (lambda x: Or(st.env[k].pos[0], x < st.env[k].pos[1]))
            for n in range(4):
                yield ('integrated%d' % n, lambda st, n=n, bef=bef: integrated(c, HV(eng, st), bef(st), V(HV(eng, st), ID(c)), PB(c))[n][1])
            yield ('well formed', lambda st: And(inv(HV(eng, st), ID(c)), Not(big(HV(eng, st)(LB, ID(c)), HV(eng, st)(UB, ID(c)), m=8))))
            for q in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_bool(v), True):
                yield ('specified:%s' % (q[1],), lambda st, q=q, bef=bef: st.env[q] == anyspec(c, HV(eng, st), bef(st)))
    ALL = lambda x: T_
    add(tv('computeBaseDomain', 0), requires=lambda c: wf(c) + mwf(c) + [('the integrated base domain is within the base domain', within(PI(c), PB(c)))], modifies=lambda c: allf(c, ID(c)), throws=lambda c: T_, loops=[cl],
        ensures=lambda c: [('the integrated base domain is ' + n if k else n, e) for k, (n, e) in enumerate(integrated(c, c.pre, ALL, QI(c), PB(c)))] + [('well formed', inv(c.post, ID(c))), ('reports whether a merged variable is specified', c.r == anyspec(c, c.pre, ALL))])
    # ---- specified values
    from specs import p12_token as S
    unmerged = lambda c: [('the token is not merged', And(pt(c) != 0, c.pre(S.ST, pt(c)) != 0, c.pre(S.ST, pt(c)) != c.this, Not(S.merged(c.pre, pt(c)))))]
    sets = lambda c: allf(c, D(c)) + [(SPEC, c.this), (SVAL, c.this)]
    P8 = lambda c: [('current values are base values', within(PD(c), PB(c)))]
    fits = lambda c: [('the value fits the type', val(c, c.a(0)))]
    isval = lambda c, x: And(c.post(SPEC, c.this), c.post(SVAL, c.this) == x)
    only = lambda v, x: And(v.lb == x, v.ub == x)
    again = lambda c: And(c.pre(SPEC, c.this), c.pre(SVAL, c.this) == c.a(0))
    add(tv('setSpecified', 1), requires=lambda c: wf(c) + P8(c) + unmerged(c) + fits(c), modifies=lambda c: sets(c) + [(LOCS, c.this), (LOCV, c.this), 'alloc'], throws=lambda c: T_,
        ensures=lambda c: [keep(c), ('specified with the value', isval(c, c.a(0))), ('remembered as a value of this token', And(c.post(LOCS, c.this), c.post(LOCV, c.this) == c.a(0))), ('the current domain is exactly the value', Implies(And(Not(again(c)), memb(PD(c), c.a(0))), only(QD(c), c.a(0))))])
    add(tv('handleSpecified', 1), requires=lambda c: wf(c) + P8(c) + fits(c), modifies=lambda c: sets(c) + [(LOCS, c.this), (LOCV, c.this), 'alloc'], throws=lambda c: T_,
        ensures=lambda c: [keep(c), ('a variable already specified is left alone', Implies(c.pre(SPEC, c.this), And(isval(c, c.pre(SVAL, c.this)), QD(c).lb == PD(c).lb, QD(c).ub == PD(c).ub))),
                           ('otherwise it is specified with the value of the merged token', Implies(And(Not(c.pre(SPEC, c.this)), memb(PD(c), c.a(0))), And(isval(c, c.a(0)), only(QD(c), c.a(0))))),
                           ('which is not remembered as a value of its own', And(c.post(LOCS, c.this) == c.pre(LOCS, c.this), c.post(LOCV, c.this) == c.pre(LOCV, c.this)))])
    rq = lambda c: wf(c) + mwf(c) + [('the integrated base domain is within the base domain', within(PI(c), PB(c))), ('current values are base values', within(PD(c), PB(c))),
                    ('and base values of the merged variables', (lambda t: FA([t], Implies(mem(mg(c), t), within(PD(c), V(c.pre, BDOM(mv(c, c.pre, t))))), Select(acc(mg(c), 'mem'), t)))(fresh(IntSort(), 't')))]
    any0 = lambda c: anyspec(c, c.pre, ALL)
    intg = lambda c: [('the integrated base domain is ' + n if k else n, e) for k, (n, e) in enumerate(integrated(c, c.pre, ALL, QI(c), PB(c)))]
    rm = lambda c: allf(c, D(c)) + allf(c, ID(c)) + [(SPEC, c.this), (SVAL, c.this), 'alloc']
    add(tv('resetSpecified', 0), requires=lambda c: rq(c) + unmerged(c), modifies=lambda c: rm(c) + [(LOCS, c.this)], throws=lambda c: T_,
        ensures=lambda c: [keep(c), ('no value of its own remains', Not(c.post(LOCS, c.this)))] + intg(c) + [('with no value from a merged token it is reset to the integrated base domain', Implies(Not(any0(c)), And(Not(c.post(SPEC, c.this)), same(QD(c), QI(c))))),
                           ('a value from a merged token stays', Implies(any0(c), And(c.post(SPEC, c.this) == c.pre(SPEC, c.this), c.post(SVAL, c.this) == c.pre(SVAL, c.this), same(QD(c), PD(c)))))])
    add(tv('handleReset', 0), requires=rq, modifies=rm, throws=lambda c: T_,
        ensures=lambda c: [keep(c)] + intg(c) + [('with no value left it is reset to the integrated base domain', Implies(Not(Or(any0(c), c.pre(LOCS, c.this))), And(Not(c.post(SPEC, c.this)), Implies(c.pre(SPEC, c.this), same(QD(c), QI(c)))))),
                           ('an unspecified variable gets the values of the integrated base domain', Implies(Not(Or(any0(c), c.pre(LOCS, c.this), c.pre(SPEC, c.this))), same(QD(c), QI(c)))),
                           ('a value from a merged token or of its own stays', Implies(Or(any0(c), c.pre(LOCS, c.this)), And(c.post(SPEC, c.this) == c.pre(SPEC, c.this), c.post(SVAL, c.this) == c.pre(SVAL, c.this), same(QD(c), PD(c)))))])
