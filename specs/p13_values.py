"""P13 (the alternatives of a decision): the values of a variable in their order, the open states of a token, its tokens to merge with and its orderings."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, Iter
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import ghost, FA
TUS = ['Solvers/component/HSTSDecisionPoints.cc', 'Solvers/component/ValueSource.cc', 'Solvers/component/OpenConditionDecisionPoint.cc', 'Solvers/component/ThreatDecisionPoint.cc']
PROP = 'P13'
E = 'EUROPA::'
S = E + 'SOLVERS::'
f = lambda c, n: S + c + '.' + n
at = lambda s, i: sel(acc(s, 'arr'), i)
ln = lambda s: acc(s, 'len')
LBI, UBI = [z3.Function(n, IntSort(), IntSort()) for n in ('lowerBoundOf', 'upperBoundOf')]
LB, UB = [lambda d, g=g: ToReal(g(d)) for g in (LBI, UBI)]
WHOLE = z3.Function('isWhole', IntSort(), BoolSort())
SIZE = z3.Function('sizeOf', IntSort(), IntSort())
VALS = z3.Function('valueOf', IntSort(), IntSort(), RealSort())
CNT = f('ValueSource', 'm_count')
L, U, ST = [f('IntervalValueSource', 'm_' + n) for n in ('lb', 'ub', 'step')]
EV = f('EnumValueSource', 'm_values')
lab = lambda k: z3.Int('Gc@EUROPA::Token::' + k)


def copied(L):
    """loops over a list: the values passed have been appended to the vector in their order"""
    c0 = L.eng.ctx0
    for k in L.locals(lambda v: isinstance(v, Iter)):
        def g(st, k=k):
            it = st.env[k]; s = L.eng.rv(it.loc, st); pos = it.pos[0]; v = HV(L.eng, st)(EV, c0.this)
            i = fresh(IntSort(), 'i')
            return And(ln(v) == pos, FA([i], Implies(And(i >= 0, i < pos), at(v, i) == at(s, i)), Select(acc(v, 'arr'), i)))
        yield ('copied:%s' % (k[1],), g)


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, cls, short, nargs, sub)
    for n in ('toString', 'toShortString', 'toLongString', 'getEntityName', 'getName', 'getPredicateName', 'getKey'):
        for cls in ('Entity', 'SOLVERS::DecisionPoint', 'Token', 'Object', 'ConstrainedVariable', 'LabelStr'): reg.opaque.add('%s%s::%s' % (E, cls, n))

    def trust(key, why, **kw):
        kw.setdefault('throws', lambda c: F_)
        reg.add(key, trusted=why, interface=True, **kw)
    D = E + 'Domain'
    DT = 'the domain answers according to its values (P02, P03)'
    trust(F(D, 'getLowerBound', 0), DT, requires=lambda c: [('integers or booleans', WHOLE(c.this))], ensures=lambda c: [('r', c.r == LB(c.this))])
    trust(F(D, 'getUpperBound', 0), DT, requires=lambda c: [('integers or booleans', WHOLE(c.this))], ensures=lambda c: [('r', c.r == UB(c.this))])
    trust(F(D, 'minDelta', 0), 'the resolution of integers and booleans is 1 (data types)', requires=lambda c: [('integers or booleans', WHOLE(c.this))], ensures=lambda c: [('r', c.r == 1)])
    trust(F(D, 'getSize', 0), DT, ensures=lambda c: [('r', And(c.r == SIZE(c.this), c.r >= 0))])
    trust(F(D, 'getValues', 1), DT, modifies=lambda c: [('arg', 0)], ensures=lambda c: [('r', (lambda i: And(ln(c.ap(0)) == ln(c.a(0)) + SIZE(c.this), FA([i], Implies(And(i >= 0, i < SIZE(c.this)), at(c.ap(0), ln(c.a(0)) + i) == VALS(c.this, i)), Select(acc(c.ap(0), 'arr'), ln(c.a(0)) + i)), Implies(ln(c.a(0)) == 0, FA([i], Implies(And(i >= 0, i < SIZE(c.this)), at(c.ap(0), i) == VALS(c.this, i)), Select(acc(c.ap(0), 'arr'), i)))))(fresh(IntSort(), 'i')))])
    add = lambda k, **kw: reg.add(k, prop='P13', throws=kw.pop('throws', lambda c: F_), **kw)
    ints = lambda c, d: [('a finite interval of integers or a boolean one', And(WHOLE(d), LBI(d) <= UBI(d), LBI(d) > -INF, UBI(d) < INF, UBI(d) - LBI(d) < 2 ** 31 - 1))]
    ctor = lambda cls, n: [g for g in db.byclass.get(S + cls, {}).get(cls, []) if len(g.d['p']) == n and 'ValueSource &' not in g.key.split('(')[1]][0].key
    IV = 'IntervalValueSource'
    add(F(S + IV, 'calculateSize', 1), requires=lambda c: ints(c, c.a(0)), ensures=lambda c: [('as many as there are values', c.r == UBI(c.a(0)) - LBI(c.a(0)) + 1)])
    add(ctor(IV, 1), requires=lambda c: ints(c, c.a(0)), modifies=lambda c: [(x, c.this) for x in (CNT, L, U, ST)], ensures=lambda c: [('it counts the values and starts at the least', And(c.post(CNT, c.this) == UBI(c.a(0)) - LBI(c.a(0)) + 1, c.post(L, c.this) == LB(c.a(0)), c.post(U, c.this) == UB(c.a(0)), c.post(ST, c.this) == 1))])
    add(F(S + IV, 'getValue', 1), requires=lambda c: [('a position', And(c.a(0) >= 0, c.a(0) < c.pre(CNT, c.this), c.pre(CNT, c.this) < 2 ** 31)), ('integers', And(c.pre(ST, c.this) == 1, IsInt(c.pre(L, c.this)), c.pre(CNT, c.this) == c.pre(U, c.this) - c.pre(L, c.this) + 1, c.pre(U, c.this) < INF, c.pre(L, c.this) > -INF))],
        ensures=lambda c: [('the value at this position, counted from the least', c.r == c.pre(L, c.this) + c.a(0)), ('within the bounds', And(c.r >= c.pre(L, c.this), c.r <= c.pre(U, c.this)))])
    add(F(S + 'ValueSource', 'getCount', 0), ensures=lambda c: [('the number of values', c.r == c.pre(CNT, c.this))])
    EN = 'EnumValueSource'
    add(ctor(EN, 2), modifies=lambda c: [(x, c.this) for x in (CNT, EV)] + ['alloc'], loops=[copied],
        ensures=lambda c: [('it counts the values', And(c.post(CNT, c.this) == SIZE(c.a(1)), ln(c.post(EV, c.this)) == SIZE(c.a(1)))), ('and lists each of them', (lambda i: FA([i], Implies(And(i >= 0, i < SIZE(c.a(1))), at(c.post(EV, c.this), i) == VALS(c.a(1), i)), Select(acc(c.post(EV, c.this), 'arr'), i)))(fresh(IntSort(), 'i')))])
    add(F(S + EN, 'getValue', 1), requires=lambda c: [('a position', And(c.a(0) >= 0, c.a(0) < ln(c.pre(EV, c.this))))], ensures=lambda c: [('the value at this position', c.r == at(c.pre(EV, c.this), c.a(0)))])
    # ---- the states and merges of a token
    O = 'OpenConditionDecisionPoint'
    FT, CS, CT, MC, CC, MX, CX = [f(O, 'm_' + x) for x in ('flawedToken', 'choices', 'compatibleTokens', 'mergeCount', 'choiceCount', 'mergeIndex', 'choiceIndex')]
    MEM = z3.Function('isMemberOf', IntSort(), RealSort(), BoolSort())
    STATE = z3.Function('stateOf', IntSort(), IntSort()); LASTD = z3.Function('lastDomainOf', IntSort(), IntSort())
    KEYV = ToReal  # the numeric key of a label
    for k, g in list(db.funcs.items()):
        if g.short == 'isMember' and g.cls in (E + 'Domain', E + 'EnumeratedDomain', E + 'StateDomain') and 'edouble' in k: trust(k, 'a value is a member (P03)', ensures=lambda c: [('r', c.r == MEM(c.this, c.a(0)))])
        if g.short == 'lastDomain' and g.cls and g.cls.startswith((E + 'ConstrainedVariable', E + 'Variable<', E + 'TokenVariable<')): trust(k, 'the current domain', ensures=lambda c: [('r', And(c.r == LASTD(c.this), c.r > 0))])
        if g.short == 'StateDomain' and 'const EUROPA::Domain &' in k: trust(k, 'a copy has the same members (P03)', modifies=lambda c: ['alloc'], ensures=lambda c: [('r', (lambda x: FA([x], MEM(c.this, x) == MEM(c.a(0), x), MEM(c.this, x)))(fresh(RealSort(), 'x')))])
    trust(F(E + 'Token', 'getState', 0), 'its state variable', ensures=lambda c: [('r', And(c.r == STATE(c.this), c.r > 0))])
    trust(F(E + 'Token', 'getPlanDatabase', 0), 'the plan database', ensures=lambda c: [('r', c.r > 0)])
    COMP = z3.Function('compatibleCount', IntSort(), IntSort()); COMPA = z3.Function('compatibleWith', IntSort(), IntSort(), IntSort())
    trust(F(E + 'PlanDatabase', 'getCompatibleTokens', 4), 'the compatible active tokens', modifies=lambda c: [('arg', 1), 'alloc'], requires=lambda c: [('none collected before', ln(c.a(1)) == 0), ('all of them, exactly tested', And(c.a(2) == 2 ** 32 - 1, c.a(3)))],
        ensures=lambda c: [('r', And(ln(c.ap(1)) == COMP(c.a(0)), COMP(c.a(0)) >= 0, (lambda i: FA([i], Implies(And(i >= 0, i < COMP(c.a(0))), at(c.ap(1), i) == COMPA(c.a(0), i)), Select(acc(c.ap(1), 'arr'), i)))(fresh(IntSort(), 'i'))))])
    tok = lambda c: c.pre(FT, c.this)
    can = lambda c, k: MEM(LASTD(STATE(tok(c))), KEYV(lab(k)))

    def choices(c):
        m = And(can(c, 'MERGED'), COMP(tok(c)) > 0); s = c.post(CS, c.this)
        want = [(m, 'MERGED'), (can(c, 'ACTIVE'), 'ACTIVE'), (can(c, 'REJECTED'), 'REJECTED')]
        n = IntVal(0); out = []
        for p, k in want:
            out.append(Implies(p, at(s, n) == lab(k))); n = n + If(p, 1, 0)
        i = fresh(IntSort(), 'i')
        return [('every open state is a choice, merging first, then activation, then rejection', And(ln(s) == n, *out)), ('all of them count', c.post(CC, c.this) == n),
                ('merging is tried with every compatible token', Implies(can(c, 'MERGED'), And(c.post(MC, c.this) == COMP(tok(c)), ln(c.post(CT, c.this)) == COMP(tok(c)), FA([i], Implies(And(i >= 0, i < COMP(tok(c))), at(c.post(CT, c.this), i) == COMPA(tok(c), i)), Select(acc(c.post(CT, c.this), 'arr'), i)))))]
    add(F(S + O, 'handleInitialize', 0), requires=lambda c: [('a token', tok(c) > 0), ('nothing collected before', And(ln(c.pre(CS, c.this)) == 0, ln(c.pre(CT, c.this)) == 0, c.pre(MC, c.this) == 0)), ('distinct labels', Distinct(*[lab(k) for k in ('ACTIVE', 'MERGED', 'REJECTED')]))],
        modifies=lambda c: [(x, c.this) for x in (CS, CT, MC, CC)] + ['alloc'], ensures=choices)
    # the configurable variant: the order of the choices, and leaving some out, is what the configuration asks for
    H_ = 'HSTS::OpenConditionDecisionPoint'; ACTION = f(H_, 'm_action')
    HASO = z3.Function('hasOrdering', IntSort(), BoolSort())
    trust(F(E + 'PlanDatabase', 'hasOrderingChoice', 1), 'an ordering of the token is left', ensures=lambda c: [('r', c.r == HASO(c.a(0)))])

    def hchoices(c):
        a = c.pre(ACTION, c.this); AF, MF, AO, MO = 0, 1, 2, 3; s = c.post(CS, c.this)
        act = And(can(c, 'ACTIVE'), HASO(tok(c))); m = And(a != AO, can(c, 'MERGED'), COMP(tok(c)) > 0)
        want = [(And(act, Or(a == AF, a == AO)), 'ACTIVE'), (m, 'MERGED'), (And(act, a == MF), 'ACTIVE'), (can(c, 'REJECTED'), 'REJECTED')]
        n = IntVal(0); out = []
        for p, k in want:
            out.append(Implies(p, at(s, n) == lab(k))); n = n + If(p, 1, 0)
        i, j = fresh(IntSort(), 'i'), fresh(IntSort(), 'j'); N = COMP(tok(c)); ct = c.post(CT, c.this)
        tried = And(ln(ct) == N, c.post(MC, c.this) == N, FA([i], Implies(And(i >= 0, i < N), Exists([j], And(j >= 0, j < N, at(ct, i) == COMPA(tok(c), j)))), Select(acc(ct, 'arr'), i)), FA([j], Implies(And(j >= 0, j < N), Exists([i], And(i >= 0, i < N, at(ct, i) == COMPA(tok(c), j)))), COMPA(tok(c), j)))
        return [('every open state the configuration allows is a choice, in the order it asks for', And(ln(s) == n, *out)), ('all of them count', c.post(CC, c.this) == n), ('merging is tried with every compatible token', Implies(m, tried))]
    add(F(S + H_, 'handleInitialize', 0), requires=lambda c: [('a token', tok(c) > 0), ('an action', And(c.pre(ACTION, c.this) >= 0, c.pre(ACTION, c.this) <= 3)), ('nothing collected before', And(ln(c.pre(CS, c.this)) == 0, ln(c.pre(CT, c.this)) == 0, c.pre(MC, c.this) == 0)), ('distinct labels', Distinct(*[lab(k) for k in ('ACTIVE', 'MERGED', 'REJECTED')]))],
        modifies=lambda c: [(x, c.this) for x in (CS, CT, MC, CC)] + ['alloc'], ensures=hchoices)
    T = 'ThreatDecisionPoint'
    CHO, TCN, TOK = [f(T, 'm_' + x) for x in ('choices', 'choiceCount', 'tokenToOrder')]
    ORD = [z3.Function('ordering' + n, IntSort(), IntSort(), IntSort()) for n in ('Object', 'First', 'Second')]
    parts = lambda p: (acc(p, 'first'), acc(acc(p, 'second'), 'first'), acc(acc(p, 'second'), 'second'))
    OC = z3.Function('orderingCount', IntSort(), IntSort())
    trust(F(E + 'PlanDatabase', 'getOrderingChoices', 3), 'the orderings of the token that resolve the conflict', modifies=lambda c: [('arg', 1), 'alloc'], requires=lambda c: [('none collected before', ln(c.a(1)) == 0), ('all of them', c.a(2) >= 2 ** 31 - 1)], ensures=lambda c: [('r', (lambda j: And(ln(c.ap(1)) == OC(c.a(0)), OC(c.a(0)) >= 0, FA([j], Implies(And(0 <= j, j < OC(c.a(0))), And(*[x == o(c.a(0), j) for x, o in zip(parts(at(c.ap(1), j)), ORD)])), Select(acc(c.ap(1), 'arr'), j))))(fresh(IntSort(), 'j')))])

    def listed(c):
        s = c.post(CHO, c.this); tk = c.pre(TOK, c.this); i, j = fresh(IntSort(), 'i'), fresh(IntSort(), 'j'); n = OC(tk)
        same = lambda x, k: And(*[v == o(tk, k) for v, o in zip(parts(x), ORD)])
        return And(FA([j], Implies(And(0 <= j, j < n), Exists([i], And(0 <= i, i < n, same(at(s, i), j)))), ORD[0](tk, j)), FA([i], Implies(And(0 <= i, i < n), Exists([j], And(0 <= j, j < n, same(at(s, i), j)))), Select(acc(s, 'arr'), i)))
    add(F(S + T, 'handleInitialize', 0), requires=lambda c: [('a token', c.pre(TOK, c.this) > 0), ('nothing collected before', ln(c.pre(CHO, c.this)) == 0)], modifies=lambda c: [(x, c.this) for x in (CHO, TCN)] + ['alloc'],
        ensures=lambda c: [('every ordering is a choice', And(ln(c.post(CHO, c.this)) == OC(c.pre(TOK, c.this)), c.post(TCN, c.this) == OC(c.pre(TOK, c.this)))), ('and none is lost or invented', listed(c))])
    HT = 'HSTS::ThreatDecisionPoint'
    add(F(S + HT, 'handleInitialize', 0), requires=lambda c: [('a token', c.pre(TOK, c.this) > 0), ('nothing collected before', ln(c.pre(CHO, c.this)) == 0)], modifies=lambda c: [(x, c.this) for x in (CHO, TCN)] + ['alloc'],
        ensures=lambda c: [('every ordering is a choice', And(ln(c.post(CHO, c.this)) == OC(c.pre(TOK, c.this)), c.post(TCN, c.this) == OC(c.pre(TOK, c.this)))), ('and none is lost or invented', listed(c))])
