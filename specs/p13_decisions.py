"""P13 (decision points of the library): each alternative is applied once, retracted as it was applied, and then left behind.

Ghost state of the database client: what the last call asked for ($op: 1 constrain, 2 free, 3 activate, 4 merge, 5 reject, 6 cancel, 7 specify, 8 reset; its arguments $a, $b, $c, $v) and the number of calls ($calls)."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import ghost, FA
TUS = ['Solvers/component/HSTSDecisionPoints.cc', 'Solvers/component/ThreatDecisionPoint.cc', 'Solvers/component/OpenConditionDecisionPoint.cc', 'Solvers/component/UnboundVariableDecisionPoint.cc', 'PlanDatabase/base/DbClient.cc']
PROP = 'P13'
E = 'EUROPA::'
S = E + 'SOLVERS::'
f = lambda c, n: S + c + '.' + n
CLI = 'EUROPA::SOLVERS::DecisionPoint.m_client'
G = {n: 'DbClient.$' + n for n in ('op', 'a', 'b', 'c', 'calls')}
GV = 'DbClient.$v'
COUNT = z3.Function('valueCount', IntSort(), IntSort())
VALUE = z3.Function('valueAt', IntSort(), IntSort(), RealSort())
at = lambda s, i: sel(acc(s, 'arr'), i)
ln = lambda s: acc(s, 'len')
lab = lambda k: z3.Int('Gc@EUROPA::Token::' + k)
OPS = dict(constrain=1, free=2, activate=3, merge=4, reject=5, cancel=6, specify=7, reset=8)


def build(reg, db):
    ghost(db, E + 'DbClient', '$op', '$a', '$b', '$c', '$calls', ('$v', RealSort()))
    F = lambda cls, short, nargs=None, sub=None: find1(db, cls, short, nargs, sub)
    for n in ('toString', 'toShortString', 'toLongString', 'getEntityName', 'getName', 'getPredicateName', 'getKey'):
        for cls in ('Entity', 'SOLVERS::DecisionPoint', 'Token', 'Object', 'ConstrainedVariable', 'LabelStr'): reg.opaque.add('%s%s::%s' % (E, cls, n))
    GM = lambda c: [(x, c.this) for x in G.values()] + [(GV, c.this), 'alloc']

    def asked(c, h, cl, op, *a):
        n = [x for x in a if not z3.is_real(x)]; v = [x for x in a if z3.is_real(x)]
        return And(h(G['op'], cl) == OPS[op], h(G['calls'], cl) == c.pre(G['calls'], cl) + 1, *([h(G[k], cl) == x for k, x in zip('abc', n)] + [h(GV, cl) == x for x in v]))
    for op, n in (('constrain', 3), ('free', 3), ('activate', 1), ('merge', 2), ('reject', 1), ('cancel', 1), ('reset', 1)):
        k = [fn for fn in db.byclass.get(E + 'DbClient', {}).get(op, []) if len(fn.d['p']) == n]
        if k: reg.add(k[0].key, trusted='changes the plan database as told (P12)', interface=True, throws=lambda c: F_, modifies=GM, ensures=lambda c, op=op, n=n: [('asked', asked(c, c.post, c.this, op, *[c.a(i) for i in range(n)]))])
    for fn in db.byclass.get(E + 'DbClient', {}).get('specify', []):
        if len(fn.d['p']) == 2 and 'edouble' in fn.key: reg.add(fn.key, trusted='changes the plan database as told (P08)', interface=True, throws=lambda c: F_, modifies=GM, ensures=lambda c: [('asked', asked(c, c.post, c.this, 'specify', c.a(0), c.a(1)))])
    me = lambda *fs: (lambda c: [(x, c.this) for x in fs] + [(x, c.pre(CLI, c.this)) for x in G.values()] + [(GV, c.pre(CLI, c.this)), 'alloc'])
    cl = lambda c: c.pre(CLI, c.this)
    client = lambda c: [('a client', cl(c) > 0)]
    add = lambda cls, n, a, **kw: reg.add(F(S + cls, n, a), prop='P13', throws=kw.pop('throws', lambda c: F_), **kw)
    # ---- values of a variable
    reg.add(F(S + 'ValueSource', 'getCount', 0), trusted='the number of values', interface=True, throws=lambda c: F_, ensures=lambda c: [('r', And(c.r == COUNT(c.this), c.r >= 0))])
    reg.add(F(S + 'ValueSource', 'getValue', 1), trusted='the value at a position', interface=True, throws=lambda c: F_, requires=lambda c: [('a position', And(c.a(0) >= 0, c.a(0) < COUNT(c.this)))], ensures=lambda c: [('r', c.r == VALUE(c.this, c.a(0)))])
    U = 'UnboundVariableDecisionPoint'
    VAR, SRC = f(U, 'm_flawedVariable'), f(U, 'm_choices')
    NEXT = z3.Function('nextValue', IntSort(), RealSort())
    MI, XI = f('MinValue', 'm_choiceIndex'), f('MaxValue', 'm_choiceIndex')
    src = lambda c: [('its values', c.pre(SRC, c.this) > 0)]
    n = lambda c: COUNT(c.pre(SRC, c.this))
    add('MinValue', 'hasNext', 0, requires=lambda c: src(c), ensures=lambda c: [('a value not tried yet', c.r == (c.pre(MI, c.this) < n(c)))])
    add('MinValue', 'getNext', 0, requires=lambda c: src(c) + [('a value left', And(c.pre(MI, c.this) >= 0, c.pre(MI, c.this) < n(c)))], modifies=lambda c: [(MI, c.this)], ensures=lambda c: [('the lowest value not tried yet', And(c.r == VALUE(c.pre(SRC, c.this), c.pre(MI, c.this)), c.post(MI, c.this) == c.pre(MI, c.this) + 1))])
    add('MaxValue', 'hasNext', 0, requires=lambda c: src(c) + [('!a position', c.pre(XI, c.this) >= 0)], ensures=lambda c: [('a value not tried yet', c.r == (c.pre(XI, c.this) > 0))])
    add('MaxValue', 'getNext', 0, requires=lambda c: src(c) + [('a value left', And(c.pre(XI, c.this) > 0, c.pre(XI, c.this) <= n(c)))], modifies=lambda c: [(XI, c.this)], ensures=lambda c: [('the highest value not tried yet', And(c.r == VALUE(c.pre(SRC, c.this), c.pre(XI, c.this) - 1), c.post(XI, c.this) == c.pre(XI, c.this) - 1))])
    EI = f('HSTS::ValueEnum', 'm_choiceIndex'); USED = f('RandomValue', 'm_usedIndices')
    mem = lambda v, x: sel(acc(v, 'mem'), x)
    reg.add('rand()', trusted='some number that is not negative', throws=lambda c: F_, ensures=lambda c: [('r', c.r >= 0)])
    add('HSTS::ValueEnum', 'hasNext', 0, requires=lambda c: src(c), ensures=lambda c: [('a value not tried yet', c.r == (c.pre(EI, c.this) < n(c)))])
    add('HSTS::ValueEnum', 'getNext', 0, requires=lambda c: src(c) + [('a value left', And(c.pre(EI, c.this) >= 0, c.pre(EI, c.this) < n(c)))], modifies=lambda c: [(EI, c.this)], ensures=lambda c: [('the next value of the order asked for', And(c.r == VALUE(c.pre(SRC, c.this), c.pre(EI, c.this)), c.post(EI, c.this) == c.pre(EI, c.this) + 1))])
    add('RandomValue', 'hasNext', 0, requires=lambda c: src(c), ensures=lambda c: [('a value not tried yet', c.r == (acc(c.pre(USED, c.this), 'card') < n(c)))])

    def l_rand(L):
        c = L.eng.ctx0
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort().eq(z3.IntSort()), True):
            yield ('a position:%s' % (k[1],), lambda st, k=k: And(st.env[k] >= 0, st.env[k] < n(c)))
    k = z3.Int('k!pos')
    add('RandomValue', 'getNext', 0, requires=lambda c: src(c) + [('a value left', acc(c.pre(USED, c.this), 'card') < n(c)), ('!a size', acc(c.pre(USED, c.this), 'card') >= 0)], modifies=lambda c: [(USED, c.this)], loops=[l_rand],
        ensures=lambda c: [('one of the values not tried yet', Exists([k], And(k >= 0, k < n(c), c.r == VALUE(c.pre(SRC, c.this), k), Not(mem(c.pre(USED, c.this), k)), mem(c.post(USED, c.this), k), acc(c.post(USED, c.this), 'card') == acc(c.pre(USED, c.this), 'card') + 1))),
                           ('what was tried stays tried', z3.ForAll([k], Implies(mem(c.pre(USED, c.this), k), mem(c.post(USED, c.this), k))))])
    reg.add(F(S + U, 'getNext', 0), trusted='the next value (proved for the four kinds of decision)', interface=True, throws=lambda c: F_, modifies=lambda c: [(x, c.this) for x in (MI, XI, EI, USED)], ensures=lambda c: [('r', c.r == NEXT(c.this))])
    add(U, 'handleExecute', 0, requires=client, modifies=me(MI, XI, EI, USED), ensures=lambda c: [('the variable takes the next value', asked(c, c.post, cl(c), 'specify', c.pre(VAR, c.this), NEXT(c.this)))])
    add(U, 'handleUndo', 0, requires=lambda c: client(c) + src(c), modifies=me(), ensures=lambda c: [('the variable is released', asked(c, c.post, cl(c), 'reset', c.pre(VAR, c.this)))])
    # ---- orderings
    T = 'ThreatDecisionPoint'
    CHO, CNT, IX, TOK = [f(T, 'm_' + x) for x in ('choices', 'choiceCount', 'index', 'tokenToOrder')]
    ch = lambda c: at(c.pre(CHO, c.this), c.pre(IX, c.this))
    parts = lambda p: (acc(p, 'first'), acc(acc(p, 'second'), 'first'), acc(acc(p, 'second'), 'second'))
    tinv = lambda c: client(c) + [('an ordering left', And(c.pre(IX, c.this) >= 0, c.pre(IX, c.this) < c.pre(CNT, c.this), c.pre(CNT, c.this) == ln(c.pre(CHO, c.this)))), ('of the token', (lambda o, p, s: And(o > 0, p > 0, s > 0, c.pre(TOK, c.this) > 0, Or(p == c.pre(TOK, c.this), s == c.pre(TOK, c.this))))(*parts(ch(c))))]
    add(T, 'hasNext', 0, ensures=lambda c: [('an ordering not tried yet', c.r == (c.pre(IX, c.this) < c.pre(CNT, c.this)))])
    add(T, 'handleExecute', 0, requires=tinv, modifies=me(), ensures=lambda c: [('the ordering is imposed', asked(c, c.post, cl(c), 'constrain', *parts(ch(c))))])
    add(T, 'handleUndo', 0, requires=tinv, modifies=me(IX), ensures=lambda c: [('the same ordering is withdrawn', asked(c, c.post, cl(c), 'free', *parts(ch(c)))), ('the next one is up', c.post(IX, c.this) == c.pre(IX, c.this) + 1)])
    # ---- open conditions
    O = 'OpenConditionDecisionPoint'
    FT, CS, CT, MC, CC, MX, CX = [f(O, 'm_' + x) for x in ('flawedToken', 'choices', 'compatibleTokens', 'mergeCount', 'choiceCount', 'mergeIndex', 'choiceIndex')]
    cur = lambda c: at(c.pre(CS, c.this), c.pre(CX, c.this))
    lv = lambda c, k: cur(c) == lab(k)
    oinv = lambda c: client(c) + [('a token', c.pre(FT, c.this) > 0), ('a choice left', And(c.pre(CX, c.this) >= 0, c.pre(CX, c.this) < c.pre(CC, c.this), c.pre(CC, c.this) == ln(c.pre(CS, c.this)))), ('of three kinds', And(Or(*[lv(c, k) for k in ('ACTIVE', 'MERGED', 'REJECTED')]), Distinct(*[lab(k) for k in ('ACTIVE', 'MERGED', 'REJECTED')]))),
        ('a token to merge with', Implies(lv(c, 'MERGED'), And(c.pre(MX, c.this) >= 0, c.pre(MX, c.this) < c.pre(MC, c.this), c.pre(MC, c.this) == ln(c.pre(CT, c.this)), at(c.pre(CT, c.this), c.pre(MX, c.this)) > 0)))]
    add(O, 'hasNext', 0, ensures=lambda c: [('a choice not tried yet', c.r == (c.pre(CX, c.this) < c.pre(CC, c.this)))])
    add(O, 'handleExecute', 0, requires=oinv, modifies=me(), ensures=lambda c: [('the token is activated, merged with the next compatible one, or rejected', And(Implies(lv(c, 'ACTIVE'), asked(c, c.post, cl(c), 'activate', c.pre(FT, c.this))), Implies(lv(c, 'REJECTED'), asked(c, c.post, cl(c), 'reject', c.pre(FT, c.this))),
        Implies(lv(c, 'MERGED'), asked(c, c.post, cl(c), 'merge', c.pre(FT, c.this), at(c.pre(CT, c.this), c.pre(MX, c.this))))))])
    last = lambda c: Or(Not(lv(c, 'MERGED')), c.pre(MX, c.this) + 1 == c.pre(MC, c.this))
    add(O, 'handleUndo', 0, requires=oinv, modifies=me(MX, CX), ensures=lambda c: [('the token is free again', asked(c, c.post, cl(c), 'cancel', c.pre(FT, c.this))), ('the next choice is up: every compatible token is tried before another state', And(c.post(CX, c.this) == c.pre(CX, c.this) + If(last(c), 1, 0), c.post(MX, c.this) == c.pre(MX, c.this) + If(lv(c, 'MERGED'), 1, 0)))])
    # ---- supported open conditions: the single steps
    K = 'ChangeTokenState'
    KC, KT, KE = [f(K, 'm_' + x) for x in ('dbClient', 'token', 'isExecuted')]
    kcl = lambda c: c.pre(KC, c.this)
    kreq = lambda c: [('a client and a token', And(kcl(c) > 0, c.pre(KT, c.this) > 0))]
    kme = lambda *fs: (lambda c: [(x, c.this) for x in fs] + [(x, kcl(c)) for x in G.values()] + [(GV, kcl(c)), 'alloc'])
    add(K, 'hasNext', 0, ensures=lambda c: [('until it is done', c.r == Not(c.pre(KE, c.this)))])
    add(K, 'undo', 0, requires=kreq, modifies=kme(), ensures=lambda c: [('the token is free again', asked(c, c.post, kcl(c), 'cancel', c.pre(KT, c.this)))])
    for cls, op in (('ActivateToken', 'activate'), ('RejectToken', 'reject')):
        add(cls, 'execute', 0, requires=kreq, modifies=kme(KE), ensures=lambda c, op=op: [('the token changes its state once', And(asked(c, c.post, kcl(c), op, c.pre(KT, c.this)), c.post(KE, c.this)))])
    MT, MCH = f('MergeToken', 'm_compatibleTokens'), f('MergeToken', 'm_currentChoice')
    add('MergeToken', 'execute', 0, requires=lambda c: kreq(c) + [('a compatible token left', And(c.pre(MCH, c.this) >= 0, c.pre(MCH, c.this) < ln(c.pre(MT, c.this)))), ('!fewer than 2^31', ln(c.pre(MT, c.this)) < 2 ** 31)], modifies=kme(KE, MCH),
        ensures=lambda c: [('it is merged with the next compatible token', And(asked(c, c.post, kcl(c), 'merge', c.pre(KT, c.this), at(c.pre(MT, c.this), c.pre(MCH, c.this))), c.post(MCH, c.this) == c.pre(MCH, c.this) + 1)), ('and done after the last', c.post(KE, c.this) == (c.pre(MCH, c.this) + 1 == ln(c.pre(MT, c.this))))])
    P = 'SupportedOCDecisionPoint'
    PC, PX = f(P, 'm_choices'), f(P, 'm_currentChoice')
    add(P, 'hasNext', 0, ensures=lambda c: [('a choice not tried yet', c.r == (c.pre(PX, c.this) < ln(c.pre(PC, c.this))))])
    OCN = f('OCDecision', '$left')
    ghost(db, S + 'OCDecision', '$left', '$done', '$undone')
    OD, OU = f('OCDecision', '$done'), f('OCDecision', '$undone')
    reg.add(F(S + 'OCDecision', 'hasNext', 0), trusted='an alternative of this choice is left', interface=True, throws=lambda c: F_, ensures=lambda c: [('r', c.r == (c.pre(OCN, c.this) > 0))])
    reg.add(F(S + 'OCDecision', 'execute', 0), trusted='applies the choice', interface=True, throws=lambda c: F_, modifies=lambda c: [(x, ANY) for x in list(G.values()) + [GV]] + [(OCN, c.this), (OD, c.this), 'alloc'], ensures=lambda c: [('r', c.post(OD, c.this) == c.pre(OD, c.this) + 1)])
    reg.add(F(S + 'OCDecision', 'undo', 0), trusted='retracts the choice', interface=True, throws=lambda c: F_, modifies=lambda c: [(x, ANY) for x in list(G.values()) + [GV]] + [(OCN, c.this), (OU, c.this), 'alloc'], ensures=lambda c: [('r', c.post(OU, c.this) == c.pre(OU, c.this) + 1)])
    pinv = lambda c: [('a choice left', And(c.pre(PX, c.this) >= 0, c.pre(PX, c.this) < ln(c.pre(PC, c.this)), at(c.pre(PC, c.this), c.pre(PX, c.this)) > 0)), ('!fewer than 2^31', ln(c.pre(PC, c.this)) < 2 ** 31)]
    pc = lambda c: at(c.pre(PC, c.this), c.pre(PX, c.this))
    pm = lambda *fs: (lambda c: [(x, ANY) for x in list(G.values()) + [GV]] + [(OCN, pc(c)), (OD, pc(c)), (OU, pc(c)), 'alloc'] + [(x, c.this) for x in fs])
    add(P, 'handleExecute', 0, requires=pinv, modifies=pm(), ensures=lambda c: [('the choice at hand is applied', c.post(OD, pc(c)) == c.pre(OD, pc(c)) + 1)])
    add(P, 'handleUndo', 0, requires=pinv, modifies=pm(PX), ensures=lambda c: [('the choice at hand is retracted', c.post(OU, pc(c)) == c.pre(OU, pc(c)) + 1), ('and left behind once its alternatives are used up', c.post(PX, c.this) == c.pre(PX, c.this) + If(c.post(OCN, pc(c)) > 0, 0, 1))])
