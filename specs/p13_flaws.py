"""P13 (flaws): a flaw manager reports that it has no flaw only if every candidate of its iteration is excluded or below the priority asked for."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import ghost, FA
TUS = ['Solvers/base/FlawManager.cc']
PROP = 'P13'
E = 'EUROPA::'
S = E + 'SOLVERS::'
f = lambda c, n: S + c + '.' + n
POS, ITM = E + 'Iterator.$pos', E + 'Iterator.$manager'
CPOS = f('FlawIterator', '$candidate')
I_ = IntSort()
NF = z3.Function('flawCount', I_, I_); FLAW = z3.Function('flawAt', I_, I_, I_)             # of a manager
NC = z3.Function('candidateCount', I_, I_); CAND = z3.Function('candidateAt', I_, I_, I_)   # of an iterator
PRI = z3.Function('priorityOf', I_, I_, RealSort())
EXCL = z3.Function('excludes', I_, I_, BoolSort())
DPOF = z3.Function('resolves', I_, I_)
EPS = z3.Q(1, 100000)
DONE, CUR, MAN = [f('FlawIterator', 'm_' + n) for n in ('done', 'flaw', 'manager')]


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, cls, short, nargs, sub)
    for n in ('toString', 'toShortString', 'toLongString', 'getEntityName', 'getName', 'getKey'):
        for cls in ('Entity', 'SOLVERS::DecisionPoint', 'SOLVERS::FlawManager', 'Token', 'Object', 'ConstrainedVariable'): reg.opaque.add('%s%s::%s' % (E, cls, n))
    ghost(db, E + 'Iterator', '$pos', '$manager'); ghost(db, S + 'FlawIterator', '$candidate')

    def trust(key, why, **kw): reg.add(key, trusted=why, interface=True, throws=lambda c: F_, **kw)
    add = lambda key, **kw: reg.add(key, prop='P13', **kw)
    fm = lambda n, a=None: F(S + 'FlawManager', n, a)
    key = lambda e: z3.Function('entityKey', I_, I_)(e)
    best = z3.Function('bestCasePriority', I_, RealSort())
    trust(F(E + 'Iterator', 'done', 0), 'the iteration has passed every flaw', ensures=lambda c: [('r', c.r == (c.pre(POS, c.this) >= NF(c.pre(ITM, c.this))))])
    trust(F(E + 'Iterator', 'next', 0), 'the next flaw', modifies=lambda c: [(POS, c.this)], ensures=lambda c: [('r', And(c.r == FLAW(c.pre(ITM, c.this), c.pre(POS, c.this)), c.r != 0, c.post(POS, c.this) == c.pre(POS, c.this) + 1))])
    trust(fm('createIterator', 0), 'a new iteration over the flaws of the manager (see FlawIterator)', modifies=lambda c: ['alloc'], ensures=lambda c: [('r', And(c.r >= c.pre.alloc, c.r != 0, c.post(POS, c.r) == 0, c.post(ITM, c.r) == c.this, NF(c.this) >= 0))])
    trust(F(E + 'Iterator', '~Iterator', 0), 'the iteration is gone')
    trust(fm('getPriority', 1), 'the priority of a flaw', ensures=lambda c: [('r', c.r == PRI(c.this, c.a(0)))])
    trust(fm('dynamicMatch', 1), 'filters exclude it', ensures=lambda c: [('r', c.r == EXCL(c.this, c.a(0)))])
    trust(fm('isValid', 0), 'internal consistency test', ensures=lambda c: [('r', c.r)])
    trust(fm('synchronize', 0), 'takes note of the cycle'); trust(fm('inSynch', 0), 'the cycle has not changed')
    trust(fm('allocateDecisionPoint', 2), 'a new decision point for the flaw', modifies=lambda c: ['alloc'], ensures=lambda c: [('r', And(c.r >= c.pre.alloc, c.r != 0, DPOF(c.r) == c.a(0)))])
    trust(fm('betterThan', 3), 'chooses between two flaws of the same priority', modifies=lambda c: [('arg', 2)])
    fl = lambda c, i: FLAW(c.this, i)
    best = lambda c: z3.Real('Sval@sl_bestCasePriority@EUROPA::SOLVERS::bestCasePriority()')

    def l_next(L):
        c = L.eng.ctx0
        its = L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort().eq(I_))
        reals = L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort().eq(RealSort()), True)
        i = fresh(I_, 'i')
        for k in its:
            yield ('position:%s' % (k[1],), lambda st, k=k: And(HV(L.eng, st)(ITM, st.env[k]) == c.this, HV(L.eng, st)(POS, st.env[k]) >= 0, st.env[k] != 0))
            for b in L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort().eq(I_), True):
                for r in reals:
                    yield ('none passed:%s:%s:%s' % (k[1], b[1], r[1]), lambda st, k=k, b=b, r=r: If(st.env[b] == 0,
                        And(st.env[r] == c.a(0) - 2 * EPS, FA([i], Implies(And(i >= 0, i < HV(L.eng, st)(POS, st.env[k])), PRI(c.this, fl(c, i)) >= st.env[r] - EPS), fl(c, i))),
                        And(Exists([i], And(i >= 0, i < NF(c.this), st.env[b] == fl(c, i))), st.env[r] == PRI(c.this, st.env[b]))))
    i = z3.Int('i!flaw')
    add(fm('next', 1), modifies=lambda c: ['alloc', ('arg', 0), (POS, ANY)], throws=lambda c: T_, loops=[l_next],
        ensures=lambda c: [('no flaw is reported only if there is no better one than asked for', Implies(c.r == 0, And(c.ap(0) == c.a(0), Or(c.a(0) == best(c), FA([i], Implies(And(i >= 0, i < NF(c.this)), PRI(c.this, fl(c, i)) >= c.a(0) - 3 * EPS), fl(c, i)))))),
                           ('otherwise a new decision for one of its flaws, with its priority', Implies(c.r != 0, And(c.r >= c.pre.alloc, Exists([i], And(i >= 0, i < NF(c.this), DPOF(c.r) == fl(c, i))), c.ap(0) == PRI(c.this, DPOF(c.r)))))])
    # ---- the iteration of a manager
    trust(F(S + 'FlawIterator', 'nextCandidate', 0), 'the next candidate, or none', modifies=lambda c: [(CPOS, c.this)], ensures=lambda c: [('r', And(c.r == If(c.pre(CPOS, c.this) < NC(c.this), CAND(c.this, c.pre(CPOS, c.this)), 0), Implies(c.pre(CPOS, c.this) < NC(c.this), CAND(c.this, c.pre(CPOS, c.this)) != 0), c.post(CPOS, c.this) == c.pre(CPOS, c.this) + 1))])
    man = lambda c: c.pre(MAN, c.this)
    j = z3.Int('j!cand')
    out = lambda c, a, b: FA([j], Implies(And(j >= a, j < b), EXCL(man(c), CAND(c.this, j))), CAND(c.this, j))

    def found(c):
        n0, n1 = c.pre(CPOS, c.this), c.post(CPOS, c.this)
        return [('it ends only when every candidate left is excluded', Implies(c.post(DONE, c.this), And(out(c, n0, NC(c.this)), n1 > NC(c.this)))),
                ('otherwise it stops at the first candidate that is not excluded', Implies(Not(c.post(DONE, c.this)), And(n1 > n0, n1 <= NC(c.this), c.post(CUR, c.this) == CAND(c.this, n1 - 1), Not(EXCL(man(c), CAND(c.this, n1 - 1))), out(c, n0, n1 - 1))))]

    def l_adv(L):
        c = L.eng.ctx0
        H = lambda st: HV(L.eng, st)
        n = lambda st: H(st)(CPOS, c.this)
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort().eq(I_), True):
            yield ('excluded so far:%s' % (k[1],), lambda st, k=k: And(n(st) > c.pre(CPOS, c.this), out(c, c.pre(CPOS, c.this), n(st) - 1), If(st.env[k] == 0, n(st) - 1 >= NC(c.this), And(n(st) <= NC(c.this), st.env[k] == CAND(c.this, n(st) - 1)))))
        yield ('not done', lambda st: Not(H(st)(DONE, c.this)))
    pre = lambda c: [('count', And(c.pre(CPOS, c.this) >= 0, c.pre(CPOS, c.this) <= NC(c.this))), ('not at the end', Not(c.pre(DONE, c.this))), ('its manager', man(c) != 0)]
    mods = lambda c: [(CPOS, c.this), (DONE, c.this), (CUR, c.this)]
    add(F(S + 'FlawIterator', 'advance', 0), requires=pre, modifies=mods, throws=lambda c: F_, loops=[l_adv], ensures=found)
    add(F(S + 'FlawIterator', 'done', 0), throws=lambda c: F_, ensures=lambda c: [('r', c.r == c.pre(DONE, c.this))])
    add(F(S + 'FlawIterator', 'next', 0), requires=pre, modifies=lambda c: mods(c) + [(f('FlawIterator', 'm_visited'), c.this)], throws=lambda c: T_, ensures=lambda c: [('returns the present one and moves on', c.r == c.pre(CUR, c.this))] + found(c))
