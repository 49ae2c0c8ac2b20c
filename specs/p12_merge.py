"""P12 (constraints and variables of merged tokens): what MergeMemento moves to the active token and takes back.

Ghost state per variable: $reset, $on, $off (number of resets, activations and deactivations asked for), $base, $value (what was last taken in); Constraint.$source."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, Iter
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import ghost, index, FA
TUS = ['PlanDatabase/base/MergeMemento.cc', 'PlanDatabase/base/UnifyMemento.cc', 'PlanDatabase/base/Token.cc', 'ConstraintEngine/base/ConstrainedVariable.cc', 'ConstraintEngine/base/Constraint.cc']
PROP = 'P12'
E = 'EUROPA::'
M = lambda f: 'MergeMemento.m_' + f
ACTIVE, INACTIVE, DEACT, NEW, UNDO = [M(f) for f in ('activeToken', 'inactiveToken', 'deactivatedConstraints', 'newConstraints', 'undoing')]
VARS, TERM, STD = ['Token.m_' + f for f in ('allVariables', 'terminated', 'standardConstraints')]
SCOPE, SRC = 'Constraint.m_variables', 'Constraint.$source'
HAND = 'Constraint.$handed'
IDX, SPEC = 'ConstrainedVariable.m_index', 'ConstrainedVariable.m_specifiedFlag'
RES, ON, OFF, BASE, VAL, NVAL = ['ConstrainedVariable.$' + f for f in ('reset', 'on', 'off', 'base', 'value', 'nvalue')]
PAR = z3.Function('parentOf', IntSort(), IntSort())
BD = z3.Function('baseDomainOf', IntSort(), IntSort())
CD = z3.Function('currentDomainOf', IntSort(), IntSort())
ONE = z3.Function('onlyValue', IntSort(), RealSort())
mem = lambda s, x: sel(acc(s, 'mem'), x)
at = lambda s, i: sel(acc(s, 'arr'), i)
ln = lambda s: acc(s, 'len')


def build(reg, db):
    ghost(db, E + 'ConstrainedVariable', '$reset', '$on', '$off', '$base', '$nvalue', ('$value', RealSort())); ghost(db, E + 'Constraint', '$source', '$handed')
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)
    for cls in ('Entity', 'ConstrainedVariable', 'Constraint', 'Token'):
        for n in ('toString', 'toLongString', 'getEntityName'): reg.opaque.add('%s%s::%s' % (E, cls, n))

    def trust(key, why, **kw):
        kw.setdefault('throws', lambda c: F_)
        reg.add(key, trusted=why, interface=True, **kw)
    cv = lambda n, a=None: F('ConstrainedVariable', n, a)
    mm = lambda n, a=None: F('MergeMemento', n, a)
    G = 'recorded here; what it does is proved for TokenVariable (p12_tokenvar) and P07'
    bump = lambda f: dict(modifies=lambda c: [(f, c.this)], ensures=lambda c: [('n', c.post(f, c.this) == c.pre(f, c.this) + 1)])
    trust(cv('handleReset', 0), G, **bump(RES)); trust(cv('undoDeactivation', 0), G, **bump(ON)); trust(cv('deactivate', 0), G, **bump(OFF))
    trust(cv('handleBase', 1), G, modifies=lambda c: [(BASE, c.this)], ensures=lambda c: [('b', c.post(BASE, c.this) == c.a(0))])
    trust(cv('handleSpecified', 1), G, modifies=lambda c: [(VAL, c.this), (NVAL, c.this)], ensures=lambda c: [('v', And(c.post(VAL, c.this) == c.a(0), c.post(NVAL, c.this) == c.pre(NVAL, c.this) + 1))])
    trust(cv('parent', 0), 'a variable keeps its parent', ensures=lambda c: [('r', c.r == PAR(c.this))])
    trust(cv('baseDomain', 0), 'its base domain object', ensures=lambda c: [('r', And(c.r == BD(c.this), c.r != 0))])
    trust(cv('lastDomain', 0), 'its current domain object', ensures=lambda c: [('r', And(c.r == CD(c.this), c.r != 0))])
    trust(F('Domain', 'getSingletonValue', 0), 'proved for P02', ensures=lambda c: [('r', c.r == ONE(c.this))])
    trust(F('Domain', 'isSingleton', 0), 'a specified variable has one value', ensures=lambda c: [('r', c.r)])
    trust(F('Token', 'isActive', 0), 'proved in p12_token', ensures=lambda c: [('r', c.r)])
    trust(F('Token', 'getPlanDatabase', 0), 'the plan database', ensures=lambda c: [('r', c.r != 0)])
    trust(F('PlanDatabase', 'getConstraintEngine', 0), 'the constraint engine', ensures=lambda c: [('r', c.r != 0)])
    trust(F('Constraint', 'setSource', 1), 'hands data of the merged constraint over', modifies=lambda c: [(SRC, c.this), (HAND, c.a(0))], ensures=lambda c: [('s', And(c.post(SRC, c.this) == c.a(0), c.post(HAND, c.a(0)) == c.pre(HAND, c.a(0)) + 1))])
    trust(F('Entity', 'getKey', 0), 'entities have keys of their own')
    iv, av = (lambda c: c.pre(VARS, c.pre(INACTIVE, c.this))), (lambda c: c.pre(VARS, c.pre(ACTIVE, c.this)))
    distinct = lambda s: (lambda i, j: FA([i, j], Implies(And(0 <= i, i < ln(s), 0 <= j, j < ln(s), i != j), at(s, i) != at(s, j)), (Select(acc(s, 'arr'), i), Select(acc(s, 'arr'), j))))(fresh(IntSort(), 'i'), fresh(IntSort(), 'j'))
    nonull = lambda s: (lambda i: FA([i], Implies(And(0 <= i, i < ln(s)), at(s, i) > 0), Select(acc(s, 'arr'), i)))(fresh(IntSort(), 'i'))
    apart = lambda s, t: (lambda i, j: FA([i, j], Implies(And(0 <= i, i < ln(s), 0 <= j, j < ln(t)), at(s, i) != at(t, j)), (Select(acc(s, 'arr'), i), Select(acc(t, 'arr'), j))))(fresh(IntSort(), 'i'), fresh(IntSort(), 'j'))
    toks = lambda c, I, A: [('two tokens', And(I != 0, A != 0, I != A)), ('with the same number of variables', ln(c.pre(VARS, I)) == ln(c.pre(VARS, A))), ('variables of their own', And(*[f(c.pre(VARS, t)) for t in (I, A) for f in (distinct, nonull)], apart(c.pre(VARS, I), c.pre(VARS, A))))]
    mine = lambda c: toks(c, c.pre(INACTIVE, c.this), c.pre(ACTIVE, c.this))
    each = lambda s, P, lo=1: (lambda i: FA([i], Implies(And(lo <= i, i < ln(s)), P(at(s, i), i)), Select(acc(s, 'arr'), i)))(fresh(IntSort(), 'i'))
    inc = lambda c, f, by: (lambda v, i: c.post(f, v) == c.pre(f, v) + by)
    appended = lambda c, f, x: (lambda o, n: And(ln(n) == ln(o) + 1, at(n, ln(o)) == x, (lambda i: FA([i], Implies(And(0 <= i, i < ln(o)), at(n, i) == at(o, i)), Select(acc(n, 'arr'), i)))(fresh(IntSort(), 'i'))))(c.pre(f, c.this), c.post(f, c.this))
    # ---- undo

    def ul(L):
        c = L.eng.ctx0
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v), changed=True):
            for nm, s, fs in (('active', av(c), (RES,)), ('inactive', iv(c), (RES, ON))):
                for f in fs:
                    def g(st, k=k, s=s, f=f):
                        j = fresh(IntSort(), 'j'); i = st.env[k]; h = HV(L.eng, st)
                        return And(i >= 1, FA([j], Implies(And(0 <= j, j < ln(s)), h(f, at(s, j)) == c.pre(f, at(s, j)) + If(And(1 <= j, j < i), 1, 0)), Select(acc(s, 'arr'), j)))
                    yield ('%s %s %s' % (nm, f, k[1]), g)

            def same(st, k=k):
                j = fresh(IntSort(), 'j'); h = HV(L.eng, st); s = iv(c)
                return FA([j], Implies(And(0 <= j, j < ln(s)), h(RES, at(s, j)) == c.pre(RES, at(s, j))), Select(acc(s, 'arr'), j))
            yield ('inactive same', same)

            def done(st, k=k):
                j = fresh(IntSort(), 'j'); h = HV(L.eng, st); s = av(c); d = c.a(0)
                return FA([j], Implies(And(0 <= j, j < ln(s)), h(RES, at(s, j)) == c.pre(RES, at(s, j)) + If(And(1 <= j, Not(d)), 1, 0)), Select(acc(s, 'arr'), j))
            yield ('active done', done)
    reg.add(mm('undo', 1), prop='P12', requires=lambda c: mine(c), modifies=lambda c: [(RES, ANY), (ON, ANY), (DEACT, c.this), (NEW, c.this), (UNDO, c.this)] + ['alloc'], throws=lambda c: F_, loops=[ul],
        ensures=lambda c: [('every variable of the active token except its state is recomputed', Implies(Not(Or(c.pre(TERM, c.pre(INACTIVE, c.this)), c.a(0))), each(av(c), inc(c, RES, 1)))),
                           ('every variable of the merged token except its state is activated again', Implies(Not(c.pre(TERM, c.pre(INACTIVE, c.this))), each(iv(c), inc(c, ON, 1)))),
                           ('and recomputed', Implies(Not(c.pre(TERM, c.pre(INACTIVE, c.this))), each(iv(c), inc(c, RES, 1)))),
                           ('no migrated constraint is left', Implies(Not(c.pre(TERM, c.pre(INACTIVE, c.this))), And(ln(c.post(NEW, c.this)) == 0, ln(c.post(DEACT, c.this)) == 0)))])
    # ---- migrateConstraint
    STDC = lambda c, x: mem(c.pre(STD, c.pre(INACTIVE, c.this)), x)
    trust(F('ConstraintEngine', 'createConstraint', 3), 'a new constraint of the given scope', modifies=lambda c: ['alloc', (SCOPE, lambda r: r >= c.pre.alloc)],
        ensures=lambda c: [('new', And(c.r > 0, c.r >= c.pre.alloc, c.post(SCOPE, c.r) == c.a(1)))])
    trust(F('Constraint', 'getName', 0), 'its name')
    sub = lambda c, v: If(PAR(v) == c.pre(INACTIVE, c.this), at(av(c), c.pre(IDX, v)), v)
    isco = lambda c: [('the constraint', And(c.a(0) > 0, c.a(0) < c.pre.alloc)), ('over fewer than 2^31 variables', ln(c.pre(SCOPE, c.a(0))) < 2 ** 31), ('!a size', ln(c.pre(SCOPE, c.a(0))) >= 0), ('over variables with an index in their token', (lambda s: each(s, lambda v, i: And(v > 0, Implies(PAR(v) == c.pre(INACTIVE, c.this), And(c.pre(IDX, v) >= 0, c.pre(IDX, v) < ln(av(c))))), 0))(c.pre(SCOPE, c.a(0))))]

    def ml(L):
        c = L.eng.ctx0; s = c.pre(SCOPE, c.a(0))
        for w in L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort() == s.sort(), changed=True):
            for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v), changed=True):
                def g(st, w=w, k=k):
                    n = st.env[w]; i = st.env[k]
                    return And(i >= 0, ln(n) == i, (lambda j: FA([j], Implies(And(0 <= j, j < i), at(n, j) == sub(c, at(s, j))), Select(acc(n, 'arr'), j)))(fresh(IntSort(), 'j')))
                yield ('within %s' % k[1], lambda st, k=k: And(st.env[k] >= 0, st.env[k] <= ln(s)))
                yield ('replaced up to %s' % k[1], g)
    reg.add(mm('migrateConstraint', 1), prop='P12', requires=lambda c: mine(c) + isco(c) + [('not one of the token itself', Not(STDC(c, c.a(0)))), ('parallel lists', ln(c.pre(NEW, c.this)) == ln(c.pre(DEACT, c.this)))],
        modifies=lambda c: [(DEACT, c.this), (NEW, c.this), (SCOPE, lambda r: r >= c.pre.alloc), (SRC, ANY), (HAND, c.a(0)), 'alloc'], throws=lambda c: F_, loops=[ml],
        ensures=lambda c: [('it is handed over once', c.post(HAND, c.a(0)) == c.pre(HAND, c.a(0)) + 1), ('the constraint is kept for later', appended(c, DEACT, c.a(0))), ('with its replacement beside it', appended(c, NEW, at(c.post(NEW, c.this), ln(c.pre(NEW, c.this))))),
                           ('of the same arity', ln(c.post(SCOPE, at(c.post(NEW, c.this), ln(c.pre(NEW, c.this))))) == ln(c.pre(SCOPE, c.a(0)))),
                           ('over the variables of the active token', (lambda s, n: each(s, lambda v, i: at(n, i) == sub(c, v), 0))(c.pre(SCOPE, c.a(0)), c.post(SCOPE, at(c.post(NEW, c.this), ln(c.pre(NEW, c.this))))))])
    reg.add(mm('handleAdditionOfInactiveConstraint', 1), prop='P12', requires=lambda c: mine(c) + isco(c) + [('not one of the token itself', Not(STDC(c, c.a(0)))), ('parallel lists', ln(c.pre(NEW, c.this)) == ln(c.pre(DEACT, c.this)))],
        modifies=lambda c: [(DEACT, c.this), (NEW, c.this), (SCOPE, lambda r: r >= c.pre.alloc), (SRC, ANY), (HAND, c.a(0)), 'alloc'], throws=lambda c: F_,
        ensures=lambda c: [('the constraint is kept for later', appended(c, DEACT, c.a(0))), ('with a replacement of the same arity beside it', And(appended(c, NEW, at(c.post(NEW, c.this), ln(c.pre(NEW, c.this)))), ln(c.post(SCOPE, at(c.post(NEW, c.this), ln(c.pre(NEW, c.this))))) == ln(c.pre(SCOPE, c.a(0)))))])
    # ---- a constraint of the merged token goes
    trust(find1(db, E + 'Constraint', '~Constraint', 0), 'removing a constraint from the network (P07)')
    def cut(o, n, p):
        i = fresh(IntSort(), 'i')
        return And(ln(n) == ln(o) - 1, FA([i], Implies(And(0 <= i, i < ln(n)), at(n, i) == at(o, If(i < p, i, i + 1))), Select(acc(n, 'arr'), i)))

    def hl(L):
        c = L.eng.ctx0; d = c.pre(DEACT, c.this)
        its = L.locals(lambda v: isinstance(v, Iter), changed=True)
        for k in its:
            def g(st, k=k):
                j = fresh(IntSort(), 'j'); p = st.env[k].pos[0]
                return And(p >= 0, p <= ln(d), FA([j], Implies(And(0 <= j, j < p), at(d, j) != c.a(0)), Select(acc(d, 'arr'), j)))
            yield ('not before %s' % k[1], g)
            for m in its:
                if m != k: yield ('together %s %s' % (k[1], m[1]), lambda st, k=k, m=m: st.env[k].pos[0] == st.env[m].pos[0])

    def gone(c):
        p = fresh(IntSort(), 'p'); d, n = c.pre(DEACT, c.this), c.pre(NEW, c.this); i = fresh(IntSort(), 'i')
        inn = Exists([i], And(0 <= i, i < ln(d), at(d, i) == c.a(0)))
        one = Exists([p], And(0 <= p, p < ln(d), at(d, p) == c.a(0), cut(d, c.post(DEACT, c.this), p), cut(n, c.post(NEW, c.this), p)))
        return [('while undoing nothing is taken back', Implies(c.pre(UNDO, c.this), And(c.post(DEACT, c.this) == d, c.post(NEW, c.this) == n))),
                ('a removed constraint goes together with its replacement', Implies(And(Not(c.pre(UNDO, c.this)), inn), one)), ('another one changes nothing', Implies(Not(inn), And(c.post(DEACT, c.this) == d, c.post(NEW, c.this) == n)))]
    reg.add(mm('handleRemovalOfInactiveConstraint', 1), prop='P12', requires=lambda c: mine(c) + [('the constraint', c.a(0) > 0), ('parallel lists', ln(c.pre(NEW, c.this)) == ln(c.pre(DEACT, c.this)))],
        modifies=lambda c: [(DEACT, c.this), (NEW, c.this), 'alloc'], throws=lambda c: T_, loops=[hl], ensures=gone)
    # ---- merging: values, base domains and constraints move over
    KON = z3.Function('constrains', IntSort(), IntSort(), BoolSort())
    def kons(c):
        x = fresh(IntSort(), 'x')
        return [('k', FA([x], mem(c.ap(0), x) == Or(mem(c.a(0), x), KON(x, c.this)), Select(acc(c.ap(0), 'mem'), x), Select(acc(c.a(0), 'mem'), x), KON(x, c.this)))]
    for f in db.byclass.get(E + 'ConstrainedVariable', {}).get('constraints', []):
        trust(f.key, 'its constraints', modifies=lambda c: [('arg', 0)], ensures=kons)
    trust(F('ConstrainedVariable', 'isSpecified', 0), 'the flag', ensures=lambda c: [('r', c.r == c.pre(SPEC, c.this))])
    J = lambda: fresh(IntSort(), 'j')

    def taken(c, h, i, s, t):
        j = J(); upto = lambda v, P: FA([v], Implies(And(0 <= v, v < ln(s)), P(v, And(1 <= v, v < i))), Select(acc(s, 'arr'), v))
        upt = lambda v, P: FA([v], Implies(And(0 <= v, v < ln(t)), P(v, And(1 <= v, v < i))), Select(acc(t, 'arr'), v))
        return [('base', upt(j, lambda v, d: Implies(d, h(BASE, at(t, v)) == BD(at(s, v))))),
                ('value', upt(j, lambda v, d: h(NVAL, at(t, v)) == c.pre(NVAL, at(t, v)) + If(And(d, c.pre(SPEC, at(s, v))), 1, 0))),
                ('value is', upt(j, lambda v, d: Implies(And(d, c.pre(SPEC, at(s, v))), h(VAL, at(t, v)) == ONE(CD(at(s, v)))))),
                ('off', upto(j, lambda v, d: h(OFF, at(s, v)) == c.pre(OFF, at(s, v)) + If(d, 1, 0)))]

    def okc(c, x):
        s = c.pre(SCOPE, x); I, A = c.a(0), c.a(1)
        return And(x > 0, x < c.pre.alloc, ln(s) >= 0, ln(s) < 2 ** 31, each(s, lambda v, i: And(v > 0, Implies(PAR(v) == I, And(c.pre(IDX, v) >= 0, c.pre(IDX, v) < ln(c.pre(VARS, A))))), 0))

    def onvar(c, P):
        x, j = fresh(IntSort(), 'x'), J(); s = c.pre(VARS, c.a(0))
        return FA([x, j], Implies(And(1 <= j, j < ln(s), KON(x, at(s, j))), P(x)), KON(x, at(s, j)))
    isset = lambda v: isinstance(v, z3.ExprRef) and 'mem' in [v.sort().accessor(0, q).name().split('@')[-1] for q in range(v.sort().constructor(0).arity())] if isinstance(v, z3.ExprRef) and isinstance(v.sort(), z3.DatatypeSortRef) else False

    def cl1(L):
        c = L.eng.ctx0; s, t = c.pre(VARS, c.a(0)), c.pre(VARS, c.a(1))
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v), changed=True):
            yield ('from 1 %s' % k[1], lambda st, k=k: st.env[k] >= 1)
            for n in range(4): yield ('taken %d' % n, lambda st, k=k, n=n: taken(c, HV(L.eng, st), st.env[k], s, t)[n][1])
            for w in L.locals(isset, changed=True):
                def g(st, k=k, w=w):
                    x, j = fresh(IntSort(), 'x'), J()
                    return FA([x, j], Implies(And(1 <= j, j < st.env[k], j < ln(s), KON(x, at(s, j))), mem(st.env[w], x)), KON(x, at(s, j)))
                yield ('collected %s' % w[1], g)

                def q(st, k=k, w=w):
                    x = fresh(IntSort(), 'x'); return FA([x], Implies(mem(st.env[w], x), okc(c, x)), Select(acc(st.env[w], 'mem'), x))
                yield ('known %s' % w[1], q)

    def cl2(L):
        c = L.eng.ctx0
        yield ('parallel', lambda st: (lambda h: ln(h(NEW, c.this)) == ln(h(DEACT, c.this)))(HV(L.eng, st)))
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
            for w in L.locals(isset):
                def g(st, k=k, w=w):
                    it = st.env[k]; x = fresh(IntSort(), 'x'); h = HV(L.eng, st)
                    return FA([x], Implies(mem(st.env[w], x), h(HAND, x) == c.pre(HAND, x) + If(And(Or(it.pos[0], x < it.pos[1]), Not(mem(c.pre(STD, c.a(0)), x))), 1, 0)), Select(acc(st.env[w], 'mem'), x))
                yield ('handed %s' % w[1], g)

                def sc(st, w=w):
                    x = fresh(IntSort(), 'x'); h = HV(L.eng, st); return FA([x], Implies(mem(st.env[w], x), And(h(SCOPE, x) == c.pre(SCOPE, x), st.alloc >= c.pre.alloc)), Select(acc(st.env[w], 'mem'), x))
                yield ('scopes %s' % w[1], sc)
    ci = lambda c: toks(c, c.a(0), c.a(1)) + [('constraints of its variables', onvar(c, lambda x: okc(c, x)))]
    for f in [g for g in db.byclass.get(E + 'MergeMemento', {}).get('MergeMemento', []) if len(g.d['p']) == 2]:
        reg.add(f.key, prop='P12', requires=ci, modifies=lambda c: [(x, ANY) for x in (OFF, BASE, VAL, NVAL, SRC, HAND, SCOPE)] + [(x, c.this) for x in (ACTIVE, INACTIVE, DEACT, NEW, UNDO)] + ['alloc'], throws=lambda c: T_, loops=[cl1, cl2],
            ensures=lambda c: (lambda s, t, tk: [('it remembers both tokens', And(c.post(INACTIVE, c.this) == c.a(0), c.post(ACTIVE, c.this) == c.a(1))),
                ('every base domain is taken in', tk[0][1]), ('every value is taken in, once', And(tk[1][1], tk[2][1])), ('every variable but the state is deactivated', tk[3][1]), ('every constraint that is not standard is handed over once', onvar(c, lambda x: c.post(HAND, x) == c.pre(HAND, x) + If(mem(c.pre(STD, c.a(0)), x), 0, 1)))])(c.pre(VARS, c.a(0)), c.pre(VARS, c.a(1)), taken(c, c.post, ln(c.pre(VARS, c.a(0))), c.pre(VARS, c.a(0)), c.pre(VARS, c.a(1)))))
