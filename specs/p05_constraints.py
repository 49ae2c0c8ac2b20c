"""P05/P06: what the execution of a library constraint does to the current domains of its variables.

  sound  (P05): a tuple of values, one from each domain, that satisfies the constraint is still there afterwards
  narrow (P05): no domain gains a value
  accept (P06): if every variable is left with exactly one value, the values satisfy the constraint
"""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT, ISI as IsInt
from cv.spec import ANY, HV
from specs.dom import (V, inv, minmax, lo, hi, isemp, issing, isopen, memb, big, numok, comparable, sep, And, Or, Not, Implies, If, FA, find1, LIS, NOTIF,
                       LB, UB, VALS, CLOSED, GN, GE, NUM, MD, smin, smax, BOOLT, rd)
from specs import dom
TUS = dom.TUS + ['ConstraintEngine/component/Constraints.cc', 'ConstraintEngine/base/Constraint.cc', 'ConstraintEngine/base/ConstrainedVariable.cc']
PROP = 'P05'
CT = 'EUROPA::'
VDOM = z3.Function('currentDomain', IntSort(), IntSort())


VAL = z3.Function('val', RealSort(), BoolSort())


def M(h, d, x):
    """exact membership; VAL(x) is an arbitrary predicate that only guides instantiation"""
    v = V(h, d)
    return If(v.is_interval(), And(VAL(x), v.lb <= x, x <= v.ub, Implies(v.is_int_cls(), IsInt(x)), Not(isemp(v))), And(VAL(x), v.mem(x)))


def wf(c, d, what, iv=False, nonempty=True, num=False):
    v = V(c.pre, d)
    return [('%s: the type fits the kind of domain' % what, BOOLT(v.dt) == c.pre.is_exact(d, 'BoolDomain'))] + [('%s is a domain' % what, c.pre.isa(d, 'Domain')), ('%s is a well-formed domain' % what, inv(c.pre, d)), ('!%s finite set' % what, minmax(v)), ('%s exists' % what, d != 0)] \
        + [('%s: real intervals have the resolution of float' % what, Implies(h_exact(c, d), And(v.delta == dom.EPSD, dom.EPSD == dom.rd('1/100000')))), ('%s: numbers of ordinary size' % what, tame(c.pre, d))] \
        + ([('%s has values' % what, Not(isemp(v)))] if nonempty else []) + ([('%s is an interval' % what, v.is_interval())] if iv else []) \
        + ([('%s is numeric' % what, Or(v.is_interval(), NUM(v.dt)))] if num else [])


def h_exact(c, d): return c.pre.is_exact(d, 'IntervalDomain')


LIM = RealVal(2 ** 49)


def tame(h, d):
    v = V(h, d); x = fresh(RealSort(), 'x')
    t = lambda y: Or(y == INF, y == -INF, And(y <= LIM, y >= -LIM))
    return And(Implies(v.is_interval(), And(t(v.lb), t(v.ub))), Implies(v.is_enum(), FA([x], Implies(v.mem(x), t(x)), Select(acc(v.vals, 'mem'), x))))


def kind_of(c, d, k):
    v = V(c.pre, d)
    if k in ('R', 'I', 'B'):
        n = {'R': 'IntervalDomain', 'I': 'IntervalIntDomain', 'B': 'BoolDomain'}[k]
        f = DT(d) == c.eng.cid('EUROPA::' + n)
        c.st.dt[d.get_id()] = 'EUROPA::' + n; c.eng.keep.append(d)
        return f
    return v.is_enum()


def kinds3(cls, fields, ks='RIE'):
    import itertools
    return {''.join(t): (lambda c, t=t: And(*[kind_of(c, c.pre('%s.%s' % (cls, f), c.this), k) for f, k in zip(fields, t)])) for t in itertools.product(ks, repeat=len(fields))}


def kargs(combos):
    return {t: (lambda c, t=t: And(*[kind_of(c, c.a(i), k) for i, k in enumerate(t)])) for t in combos}


def kf(cls, fields, combos):
    return {t: (lambda c, t=t: And(*[kind_of(c, c.pre('%s.%s' % (cls, f), c.this), k) for f, k in zip(fields, t)])) for t in combos}


def distinct(c, ds):
    out = []
    for i in range(len(ds)):
        for j in range(i):
            out.append(('domains are distinct %d/%d' % (j, i), ds[i] != ds[j]))
    return out


def mods(c, ds):
    out = []
    for d in ds: out += [(LB, d), (UB, d), (VALS, d), (CLOSED, d)] + NOTIF(c.pre, d)
    return out + ['alloc']


def bigd(h, d, m=8):
    v = V(h, d); x = fresh(RealSort(), 'x')
    return Or(And(v.is_interval(), big(v.lb, v.ub, m=m)), And(v.is_enum(), Exists([x], And(v.mem(x), big(x, m=m)))))


def sound(c, ds, pred, label='a combination of values that satisfies the constraint is never removed'):
    xs = [fresh(RealSort(), 'x%d' % i) for i in range(len(ds))]
    pre = And(*([M(c.pre, d, x) for d, x in zip(ds, xs)] + [And(x > -INF, x < INF) for x in xs] + [pred(*xs)]))
    return [(label + ' (argument %d)' % i, FA(xs, Implies(pre, M(c.post, d, x)), tuple(VAL(y) for y in xs))) for i, (d, x) in enumerate(zip(ds, xs))]


def narrow(c, ds):
    x = fresh(RealSort(), 'x')
    out = []
    for i, d in enumerate(ds):
        out.append(('no value is added (argument %d)' % i, FA([x], Implies(M(c.post, d, x), Or(M(c.pre, d, x), tol(c, d, x))))))
    return out


def tol(c, d, x):
    return F_


def mkp(c, ds, pred):
    import inspect
    ps = list(inspect.signature(pred).parameters)
    return pred(c, ds) if ps == ['c', 'D'] else pred


def accept(c, ds, pred):
    """when only single values remain, they satisfy the constraint"""
    ws = [V(c.post, d) for d in ds]
    xs = [fresh(RealSort(), 'x%d' % i) for i in range(len(ds))]
    pre = And(*[And(Not(isemp(w)), Not(Or(isopen(w), F_)), M(c.post, d, x), lo(w) == hi(w), x > -INF, x < INF) for w, d, x in zip(ws, ds, xs)])
    return [('@P06 single values that remain satisfy the constraint', FA(xs, Implies(pre, pred(*xs)), tuple(VAL(y) for y in xs)))]


def res(c, D, k=1):
    """how far real values may be apart and still count as equal"""
    m = RealVal(0)
    for d in D:
        v = V(c.pre, d); e = If(v.is_int_cls(), RealVal(0), If(v.is_interval(), dom.EPSD, v.delta))
        m = If(m >= e, m, e)
    return k * m


def near(a, b, r): return And(a - b <= r, b - a <= r)


def build(reg, db):
    dom.contracts(reg, db); dom.mutators(reg, db)
    K = lambda cls, short, nargs=None, sub=None: find1(db, 'EUROPA::' + cls, short, nargs, sub)
    reg.opaque |= {'EUROPA::ConstrainedVariable::toString', 'EUROPA::Constraint::toString', 'EUROPA::Entity::toString', 'EUROPA::Constraint::toLongString'}

    reg.add(K('ConstrainedVariable', 'getCurrentDomain', 0), interface=True, trusted='a variable owns one current domain object for its whole life',
            ensures=lambda c: [('r', And(c.r == VDOM(c.this), c.r != 0, z3.Function('owner', IntSort(), IntSort())(c.r) == c.this))])

    # ---- x <= y
    def leq2(key, flip=False):
        X = lambda c: c.a(0); Y = lambda c: c.a(1)
        P = lambda x, y: x <= y
        reg.add(key, prop='P05', also=['P06'],
                requires=lambda c: wf(c, X(c), 'x', num=True) + wf(c, Y(c), 'y', num=True) + distinct(c, [X(c), Y(c)]),
                ensures=lambda c: sound(c, [X(c), Y(c)], P) + accept(c, [X(c), Y(c)], lambda x, y: x <= y + res(c, [X(c), Y(c)])),
                modifies=lambda c: mods(c, [X(c), Y(c)]),
                throws=lambda c: Or(Not(comparable(V(c.pre, X(c)).dt, V(c.pre, Y(c)).dt))))
    leq2(K('LessThanEqualConstraint', 'propagate', 2))

    # ---- x < y : over the reals, values closer than the resolution count as equal
    def lt2(key):
        X = lambda c: c.a(0); Y = lambda c: c.a(1)
        dl = lambda c: If(V(c.pre, X(c)).delta <= V(c.pre, Y(c)).delta, V(c.pre, X(c)).delta, V(c.pre, Y(c)).delta)
        reg.add(key, prop='P05', also=['P06'],
                requires=lambda c: wf(c, X(c), 'x', iv=True) + wf(c, Y(c), 'y', iv=True) + distinct(c, [X(c), Y(c)]),
                ensures=lambda c: sound(c, [X(c), Y(c)], lambda x, y: x + dl(c) <= y) + accept(c, [X(c), Y(c)], lambda x, y: x < y),
                modifies=lambda c: mods(c, [X(c), Y(c)]),
                throws=lambda c: Or(Not(comparable(V(c.pre, X(c)).dt, V(c.pre, Y(c)).dt))))
    lt2(K('LessThanConstraint', 'propagate', 2))

    # ---- constraints over the current domains of their variables
    def vararg(c, i):
        return VDOM(Select(acc(c.pre('Constraint.m_variables', c.this), 'arr'), i))

    def con(cls, n, pred, acc_pred=None, fields=None, iv=False, num=False, throws=None, sep_=True, m=16, kinds=None, extra=None, **kw):
        ds = (lambda c: [c.pre('%s.%s' % (cls, f), c.this) for f in fields]) if fields else (lambda c: [vararg(c, i) for i in range(n)])

        def req(c):
            out = []
            if not fields:
                vs = c.pre('Constraint.m_variables', c.this)
                out += [('scope size', acc(vs, 'len') == n)] + [('variable %d' % i, Select(acc(vs, 'arr'), i) != 0) for i in range(n)]
            D = ds(c)
            for i, d in enumerate(D): out += wf(c, d, 'argument %d' % i, iv=iv, num=num)
            out += distinct(c, D)
            if kinds:
                for i, k in kinds.items(): out.append(('argument %d is boolean' % i, c.pre.is_exact(D[i], 'BoolDomain')))
            if sep_ and not iv:
                for i in range(n):
                    for j in range(i): out.append(('members are at least the minimum difference apart', Implies(And(V(c.pre, D[i]).is_enum(), V(c.pre, D[j]).is_enum()), And(V(c.pre, D[i]).delta == V(c.pre, D[j]).delta, sep(c.pre, D[i], D[j])))))
            return out + (extra(c, D) if extra else [])

        def thr(c):
            D = ds(c)
            return Or(*([Not(comparable(V(c.pre, D[0]).dt, V(c.pre, d).dt)) for d in D[1:]] + [F_]))
        reg.add(K(cls, 'handleExecute', 0), prop='P05', also=['P06'], requires=req,
                ensures=lambda c: sound(c, ds(c), mkp(c, ds(c), pred)) + accept(c, ds(c), mkp(c, ds(c), acc_pred or pred)),
                modifies=lambda c: mods(c, ds(c)), throws=thr if throws is None else throws, **kw)
    con('LessThanEqualConstraint', 2, lambda x, y: x <= y, lambda c, D: (lambda x, y: x <= y + res(c, D)), fields=['m_x', 'm_y'], num=True)
    con('NegateConstraint', 2, lambda x, y: x == -y, lambda c, D: (lambda x, y: near(x, -y, res(c, D, 4))), iv=True)
    con('WithinBounds', 3, lambda x, y, z: And(y <= x, x <= z), lambda c, D: (lambda x, y, z: And(y <= x + res(c, D, 2), x <= z + res(c, D, 2))), fields=['m_x', 'm_y', 'm_z'], iv=True)
    con('AbsoluteValue', 2, lambda x, y: x == If(y >= 0, y, -y), lambda c, D: (lambda x, y: near(x, If(y >= 0, y, -y), res(c, D, 4))), fields=['m_x', 'm_y'], iv=True, extra=lambda c, D: [('the first argument can be positive', V(c.pre, D[0]).ub >= 0)] + [('no boolean argument', Not(c.pre.is_exact(d, 'BoolDomain'))) for d in D], opts=dict(cases=kinds3('AbsoluteValue', ['m_x', 'm_y'], 'RI')))
    con('AddEqualConstraint', 3, lambda x, y, z: And(x + y == z, Implies(And(IsInt(x), IsInt(y)), IsInt(z))),  # the second part follows from the first
        acc_pred=lambda c, D: (lambda x, y, z: near(x + y, z, res(c, D, 4))), fields=['m_x', 'm_y', 'm_z'], iv=True, num=True, throws=True, extra=lambda c, D: [('no boolean argument', Not(c.pre.is_exact(d, 'BoolDomain'))) for d in D] + [('a real sum of two integers is left to the bounded check', Or(c.pre.is_exact(D[0], 'IntervalDomain'), c.pre.is_exact(D[1], 'IntervalDomain'), c.pre.is_exact(D[2], 'IntervalIntDomain')))],
        opts=dict(cases={k: v for k, v in kinds3('AddEqualConstraint', ['m_x', 'm_y', 'm_z'], 'RI').items() if k != 'IIR'}))

    # ---- x != y (reals closer than the resolution count as equal)
    def dmin(c, a, b): return If(V(c.pre, a).delta <= V(c.pre, b).delta, V(c.pre, a).delta, V(c.pre, b).delta)
    def apart(c, a, b): return lambda x, y: If(And(V(c.pre, a).is_int_cls(), V(c.pre, b).is_int_cls()), x != y, Or(x - y >= 3 * dmin(c, a, b), y - x >= 3 * dmin(c, a, b)))

    def cr(c):
        dx, dy = c.a(0), c.a(1)
        x, y = fresh(RealSort(), 'x'), fresh(RealSort(), 'y')
        pre = And(M(c.pre, dx, x), M(c.pre, dy, y), apart(c, dx, dy)(x, y), x > -INF, x < INF, y > -INF, y < INF)
        return [('a value that differs from a value of the other variable is never removed', FA([x, y], Implies(pre, M(c.post, dy, y)), (VAL(x), VAL(y))))]
    ivnum = lambda c, d, n: wf(c, d, n, iv=True)
    reg.add(K('NotEqualConstraint', 'checkAndRemove', 2), prop='P05', also=['P06'],
            requires=lambda c: ivnum(c, c.a(0), 'x') + ivnum(c, c.a(1), 'y') + distinct(c, [c.a(0), c.a(1)]) + [('booleans are compared with booleans', c.pre.is_exact(c.a(0), 'BoolDomain') == c.pre.is_exact(c.a(1), 'BoolDomain'))],
            ensures=lambda c: cr(c) + [('reports false only when nothing was removed', Implies(Not(c.r), dom.unchanged(c, c.a(1)))), ('@P06 two single values that are left differ', FA([XQ, YQ], Implies(And(issing(V(c.pre, c.a(0))), M(c.pre, c.a(0), XQ), M(c.post, c.a(1), YQ), lo(V(c.pre, c.a(0))) == hi(V(c.pre, c.a(0))), lo(V(c.post, c.a(1))) == hi(V(c.post, c.a(1)))), XQ != YQ), (VAL(XQ), VAL(YQ))))],
            modifies=lambda c: mods(c, [c.a(1)]), throws=lambda c: Or(Not(comparable(V(c.pre, c.a(0)).dt, V(c.pre, c.a(1)).dt)), bigd(c.pre, c.a(0)), bigd(c.pre, c.a(1))), opts=dict(cases=kargs(['RR', 'II', 'RI', 'IR', 'BB'])))

    # ---- x == y
    def eq2(c, a, b):
        x = fresh(RealSort(), 'x'); A, B, A1, B1 = V(c.pre, a), V(c.pre, b), V(c.post, a), V(c.post, b)
        both = And(M(c.pre, a, x), M(c.pre, b, x), x > -INF, x < INF)
        whole = Or(A.is_enum(), A.is_int_cls())
        r = dom.EPSD
        return [('a common value is never removed (argument %d)' % i, FA([x], Implies(And(both, whole), M(c.post, d, x)), (VAL(x),))) for i, d in ((0, a), (1, b))] + \
            [('a common real value stays within the bounds, up to the resolution (argument %d)' % i, FA([x], Implies(And(both, Not(whole)), And(Not(isemp(w)), w.lb - r <= x, x <= w.ub + r)), (VAL(x),))) for i, w in ((0, A1), (1, B1))] + \
            accept(c, [a, b], lambda x, y: near(x, y, res(c, [a, b], 4)))
    eqreq = lambda c, a, b: wf(c, a, 'x') + wf(c, b, 'y') + distinct(c, [a, b]) + [('two intervals of the same kind or two closed enumerations', If(V(c.pre, a).is_interval(), And(V(c.pre, b).is_interval(), V(c.pre, a).is_int_cls() == V(c.pre, b).is_int_cls(), V(c.pre, a).delta == V(c.pre, b).delta), And(V(c.pre, b).is_enum(), V(c.pre, a).closed, V(c.pre, b).closed, V(c.pre, a).delta == V(c.pre, b).delta, sep(c.pre, a, b)))), ('booleans with booleans', c.pre.is_exact(a, 'BoolDomain') == c.pre.is_exact(b, 'BoolDomain')), ('closed intervals', And(V(c.pre, a).closed, V(c.pre, b).closed)), ('separate listeners', dom.same_lis(c, a, b))]
    EQK = ['EE', 'RR', 'II', 'BB']
    va = lambda c, i: vararg(c, i)
    reg.add(K('EqualConstraint', 'equate', 3), prop='P05', also=['P06'],
            requires=lambda c: [('variables', And(c.a(0) > 0, c.a(1) > 0)), ('not yet empty', Not(c.a(2)))] + eqreq(c, VDOM(c.a(0)), VDOM(c.a(1))),
            ensures=lambda c: eq2(c, VDOM(c.a(0)), VDOM(c.a(1))) + [('tells whether one of them is empty', Implies(c.ap(2), Or(isemp(V(c.post, VDOM(c.a(0)))), isemp(V(c.post, VDOM(c.a(1)))))))],
            modifies=lambda c: mods(c, [VDOM(c.a(0)), VDOM(c.a(1))]) + [('arg', 2)], throws=lambda c: T_, opts=dict(cases={t: (lambda c, t=t: And(*[kind_of(c, VDOM(c.a(i)), k) for i, k in enumerate(t)])) for t in EQK}))

    def eqloop(L):
        c0 = L.eng.ctx0; a, b = vararg(c0, 0), vararg(c0, 1)

        class X: pre = c0.pre; eng = c0.eng; st = c0.st
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v), changed=True):
            def g(st, k=k):
                i = st.env[k]; x = X(); x.post = HV(L.eng, st)
                same = And(*[x.post(fl, d) == x.pre(fl, d) for fl in (LB, UB, VALS, CLOSED) for d in (a, b)])
                return And(i >= 1, i <= 2, Implies(i == 1, same), Implies(i == 2, And(*[q for _, q in eq2(x, a, b)])))
            yield ('equated:%s' % (k,), g)
    ev = lambda c: (vararg(c, 0), vararg(c, 1))
    reg.add(K('EqualConstraint', 'handleExecute', 0), prop='P05', also=['P06'],
            requires=lambda c: [('two variables', And(acc(c.pre('Constraint.m_variables', c.this), 'len') == 2, c.pre('EqualConstraint.m_argCount', c.this) == 2))] + [('variable %d' % i, Select(acc(c.pre('Constraint.m_variables', c.this), 'arr'), i) > 0) for i in (0, 1)] + eqreq(c, *ev(c)),
            ensures=lambda c: eq2(c, *ev(c)), modifies=lambda c: mods(c, list(ev(c))), throws=lambda c: T_, loops=[eqloop], opts=dict(cases={t: (lambda c, t=t: And(*[kind_of(c, d, k) for d, k in zip(ev(c), t)])) for t in EQK}))
    C2 = ['RR', 'II', 'RI', 'IR', 'BB']
    va = lambda c, i: vararg(c, i)
    vk = lambda combos: {t: (lambda c, t=t: And(*[kind_of(c, va(c, i), k) for i, k in enumerate(t)])) for t in combos}
    samebool = lambda c, D: [('booleans are compared with booleans', c.pre.is_exact(D[-2], 'BoolDomain') == c.pre.is_exact(D[-1], 'BoolDomain'))]
    nobig = lambda c, D: [('numbers of ordinary size', Not(Or(*[bigd(c.pre, d) for d in D])))]
    con('NotEqualConstraint', 2, lambda c, D: apart(c, D[0], D[1]), lambda x, y: x != y, iv=True, extra=samebool, opts=dict(cases=vk(C2)))

    # ---- boolean tests: t tells whether the relation holds
    F3 = ['m_test', 'm_arg1', 'm_arg2']
    TC = lambda cls: dict(cases=kf(cls, F3, ['B' + t for t in C2]))
    tb = {0: 'B'}
    bt = lambda c, D: samebool(c, D)
    con('TestEQ', 3, lambda c, D: (lambda t, x, y: Or(And(t == 1, x == y), And(t == 0, apart(c, D[1], D[2])(x, y)))), lambda c, D: (lambda t, x, y: Or(And(t == 1, near(x, y, res(c, D[1:], 3))), And(t == 0, x != y))), fields=F3, iv=True, kinds=tb, extra=bt, throws=lambda c: big3(c, 'TestEQ'), opts=TC('TestEQ'))
    con('TestNEQ', 3, lambda c, D: (lambda t, x, y: Or(And(t == 0, x == y), And(t == 1, apart(c, D[1], D[2])(x, y)))), lambda c, D: (lambda t, x, y: Or(And(t == 0, near(x, y, res(c, D[1:], 3))), And(t == 1, x != y))), fields=F3, iv=True, kinds=tb, extra=bt, throws=lambda c: big3(c, 'TestNEQ'), opts=TC('TestNEQ'))
    con('TestLessThan', 3, lambda c, D: (lambda t, x, y: Or(And(t == 1, x + dmin(c, D[1], D[2]) <= y), And(t == 0, y <= x))), lambda c, D: (lambda t, x, y: Or(And(t == 1, x < y), And(t == 0, y <= x + res(c, D[1:], 3)))), fields=F3, iv=True, kinds=tb, extra=bt, throws=lambda c: big3(c, 'TestLessThan'), opts=TC('TestLessThan'))
    con('TestLEQ', 3, lambda c, D: (lambda t, x, y: Or(And(t == 1, x <= y), And(t == 0, y + dmin(c, D[1], D[2]) <= x))), lambda c, D: (lambda t, x, y: Or(And(t == 1, x <= y + res(c, D[1:], 3)), And(t == 0, y < x))), fields=F3, iv=True, kinds=tb, extra=bt, throws=lambda c: big3(c, 'TestLEQ'), opts=TC('TestLEQ'))
    con('TestOr', 3, lambda t, x, y: (t == 1) == Or(x == 1, y == 1), fields=F3, iv=True, kinds={0: 'B', 1: 'B', 2: 'B'}, opts=dict(cases=kf('TestOr', F3, ['BBB'])))
    con('TestAnd', 3, lambda t, x, y: (t == 1) == And(x == 1, y == 1), fields=F3, iv=True, kinds={0: 'B', 1: 'B', 2: 'B'}, opts=dict(cases=kf('TestAnd', F3, ['BBB'])))

    MX = lambda a, b: If(a >= b, a, b)
    nobool = lambda c, D: [('no boolean argument', Not(c.pre.is_exact(d, 'BoolDomain'))) for d in D]
    exact1 = lambda c, D: nobool(c, D) + [('a single real operand is exactly one number', Implies(issing(V(c.pre, d)), lo(V(c.pre, d)) == hi(V(c.pre, d)))) for d in D[1:]]
    def fn3(cls, f):
        con(cls, 3, lambda z, x, y: z == f(x, y), lambda c, D: (lambda z, x, y: near(z, f(x, y), res(c, D, 4))), iv=True, throws=True, extra=exact1, opts=dict(cases=vk([a + b + d for a in 'RI' for b in 'RI' for d in 'RI'])))
    fn3('MaxConstraint', MX)
    fn3('MinConstraint', lambda a, b: -MX(-a, -b))
    con('AbsConstraint', 2, lambda z, x: z == MX(x, -x), lambda c, D: (lambda z, x: near(z, MX(x, -x), res(c, D, 4))), iv=True, throws=True, extra=exact1, opts=dict(cases=vk(['RR', 'II', 'RI', 'IR'])))

    def big3(c, cls):
        D = [c.pre('%s.%s' % (cls, f), c.this) for f in F3[1:]]
        return Or(Not(comparable(V(c.pre, D[0]).dt, V(c.pre, D[1]).dt)), *[bigd(c.pre, d) for d in D])

    # ---- x within a given domain, x within the domain of another variable
    def within(cls, x, s):
        reg.add(K(cls, 'handleExecute', 0), prop='P05', also=['P06'], requires=lambda c: wf(c, x(c), 'the argument') + wf(c, s(c), 'the set') + distinct(c, [x(c), s(c)]) + [('intervals with intervals, enumerations with enumerations', V(c.pre, x(c)).is_interval() == V(c.pre, s(c)).is_interval())] +
                [('members are at least the minimum difference apart', Implies(V(c.pre, x(c)).is_enum(), And(V(c.pre, x(c)).delta == V(c.pre, s(c)).delta, sep(c.pre, x(c), s(c)))))],
                ensures=lambda c: within_post(c, x(c), s(c)), modifies=lambda c: mods(c, [x(c)]), throws=True)

    def within_post(c, x, s):
        v = fresh(RealSort(), 'v')
        w = V(c.post, x)
        return [('a value of both is kept', FA([v], Implies(And(M(c.pre, x, v), M(c.pre, s, v), V(c.pre, s).closed), M(c.post, x, v)))),
                ('@P06 a single value that remains belongs to the set', FA([v], Implies(And(M(c.post, x, v), V(c.pre, s).closed, V(c.pre, s).is_enum()), M(c.pre, s, v))))]
    within('SubsetOfConstraint', lambda c: c.pre('SubsetOfConstraint.m_currentDomain', c.this), lambda c: c.pre('SubsetOfConstraint.m_superSetDomain', c.this))
    within('UnaryConstraint', lambda c: c.pre('UnaryConstraint.m_y', c.this), lambda c: c.pre('UnaryConstraint.m_x', c.this))


XQ, YQ = z3.Real('xq'), z3.Real('yq')
