"""P13: chronological backtracking search (Solvers/base/Solver.cc, SolverDecisionPoint.cc).

Ghost state: DecisionPoint.$choice (the alternative to be tried next), $choices (how many there are), $deleted, $applied and $retracted
(calls of handleExecute and handleUndo), ConstraintEngine.$violation, FlawManager.$none (it last answered that there is no flaw)."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, Iter
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import ghost, index, FA
TUS = ['Solvers/base/Solver.cc', 'Solvers/base/SolverDecisionPoint.cc']
PROP = 'P13'
E = 'EUROPA::'
S = E + 'SOLVERS::'
f = lambda c, n: S + c + '.' + n
STACK, ACT, STEP, SFLOOR, DFLOOR, NOFLAW, EXH, TIMED, MAXS, MAXD, FMS, BASE, DB_ = [f('Solver', 'm_' + n) for n in ('decisionStack', 'activeDecision', 'stepCount', 'stepCountFloor', 'depthFloor', 'noFlawsFound', 'exhausted', 'timedOut', 'maxSteps', 'maxDepth', 'flawManagers', 'baseConflictLevel', 'db')]
LAST = f('Solver', 'm_lastExecutedDecision')
EXEC, INIT, MAXC, CNT, KEY = [f('DecisionPoint', 'm_' + n) for n in ('isExecuted', 'initialized', 'maxChoices', 'counter', 'entityKey')]
CH, CHS, DEL, APP, RET = [f('DecisionPoint', '$' + n) for n in ('choice', 'choices', 'deleted', 'applied', 'retracted')]
NONE = f('FlawManager', '$none')
VIOL = 'ConstraintEngine.$violation'
DBOF = z3.Function('engineOf', IntSort(), IntSort())
THERE = z3.Function('canBeUndone', IntSort(), IntSort(), BoolSort())
at = lambda s, i: sel(acc(s, 'arr'), i)
ln = lambda s: acc(s, 'len')
WORST = z3.Int('worstPriority')


def build(reg, db):
    ghost(db, S + 'DecisionPoint', '$choice', '$choices', '$deleted', '$applied', '$retracted'); ghost(db, S + 'FlawManager', ('$none', BoolSort())); ghost(db, E + 'ConstraintEngine', ('$violation', RealSort()))
    F = lambda cls, short, nargs=None, sub=None: find1(db, cls, short, nargs, sub)
    so = lambda n, a=None, sub=None: F(S + 'Solver', n, a, sub)
    dp = lambda n, a=None: F(S + 'DecisionPoint', n, a)
    for n in ('toString', 'toShortString', 'toLongString', 'getEntityName', 'getName', 'printOpenDecisions', 'getDecisionStackAsString'):
        for cls in (E + 'Entity', S + 'DecisionPoint', S + 'Solver', E + 'PlanDatabaseWriter'): reg.opaque.add('%s::%s' % (cls, n))

    def trust(key, why, **kw):
        kw.setdefault('throws', lambda c: F_)
        reg.add(key, trusted=why, interface=True, **kw)
    fresh_dp = lambda c: Implies(c.r != 0, And(c.r >= c.pre.alloc, Not(c.post(EXEC, c.r)), Not(c.post(INIT, c.r)), c.post(DEL, c.r) == 0))
    VM = lambda c: [(VIOL, ANY), 'alloc']
    # ---- the interface of decision points, flaw managers, listeners and the database
    trust(dp('hasNext', 0), 'an alternative is left (proved for the decision points of the library in p13_decisions)', ensures=lambda c: [('r', c.r == (c.pre(CH, c.this) < c.pre(CHS, c.this)))])
    trust(dp('handleExecute', 0), 'applies the current alternative (p13_decisions)', modifies=lambda c: VM(c) + [(APP, c.this), (CH, c.this)], ensures=lambda c: [('a', And(c.post(APP, c.this) == c.pre(APP, c.this) + 1, c.post(CH, c.this) >= c.pre(CH, c.this)))])
    trust(dp('handleUndo', 0), 'retracts the current alternative; execution and retraction together move on to the next (p13_decisions)', modifies=lambda c: VM(c) + [(RET, c.this), (CH, c.this)], ensures=lambda c: [('a', And(c.post(RET, c.this) == c.pre(RET, c.this) + 1, c.post(CH, c.this) >= c.pre(CH, c.this)))])
    trust(dp('handleInitialize', 0), 'collects the alternatives', modifies=lambda c: VM(c) + [(CH, c.this), (CHS, c.this)], ensures=lambda c: [('a', And(c.post(CH, c.this) == 0, c.post(CHS, c.this) >= 0))])
    trust(dp('canUndo', 0), 'it is executed and what it decided on still exists', ensures=lambda c: [('r', c.r == And(c.pre(EXEC, c.this), THERE(c.this, c.pre.alloc)))])
    trust(dp('~DecisionPoint', 0), 'the decision point is gone', modifies=lambda c: [(DEL, c.this)], ensures=lambda c: [('d', c.post(DEL, c.this) == 1)])
    for n, a in (('Created', 1), ('Deleted', 1), ('Undone', 1), ('StepSucceeded', 1), ('StepFailed', 1), ('RetractSucceeded', 1), ('RetractNotDone', 1), ('Completed', 0), ('Exhausted', 0), ('TimedOut', 0)):
        trust(F(S + 'SearchListener', 'notify' + n, a), 'listeners of the search do not change it')
    trust(F(E + 'PlanDatabase', 'getConstraintEngine', 0), 'the constraint engine', ensures=lambda c: [('r', And(c.r != 0, c.r == DBOF(c.this)))])
    trust(F(E + 'PlanDatabase', 'getClient', 0), 'the client', ensures=lambda c: [('r', c.r != 0)])
    trust(F(E + 'ConstraintEngine', 'getViolation', 0), 'the present conflict level', ensures=lambda c: [('r', c.r == c.pre(VIOL, c.this))])
    for n, a in (('getAutoPropagation', 0), ('setAutoPropagation', 1)): trust(F(E + 'ConstraintEngine', n, a), 'a flag of the engine', modifies=VM)
    trust(F(E + 'DbClient', 'propagate', 0), 'P07', modifies=VM)
    trust(F(S + 'FlawManager', 'nextZeroCommitmentDecision', 0), 'a decision without alternatives, if there is one', modifies=lambda c: VM(c), ensures=lambda c: [('new', fresh_dp(c))])
    trust(F(S + 'FlawManager', 'next', 1), 'the best flaw below the given priority, if there is one', modifies=lambda c: VM(c) + [('arg', 0), (NONE, c.this)],
        ensures=lambda c: [('new', fresh_dp(c)), ('none', Implies(c.r == 0, And(c.ap(0) == c.a(0), Implies(c.a(0) > WORST, c.post(NONE, c.this)))))])
    trust(F(S + 'FlawManager', 'noMoreFlaws', 0), 'it has no flaw', ensures=lambda c: [('r', c.r == c.pre(NONE, c.this))])

    for k, fn in sorted(db.funcs.items()):
        if fn.short == 'getWorstCasePriority': trust(k, 'a constant', ensures=lambda c: [('r', c.r == WORST)])
    # ---- decision points
    cut = lambda h, x: And(h(MAXC, x) > 0, h(CNT, x) >= h(MAXC, x))
    more = lambda h, x: h(CH, x) < h(CHS, x)
    spent = lambda h, x: Or(cut(h, x), Not(more(h, x)))
    reg.add(dp('cut', 0), prop='P13', interface=True, throws=lambda c: F_, ensures=lambda c: [('a decision is cut off after its number of choices', c.r == cut(c.pre, c.this))])
    reg.add(dp('isExecuted', 0), prop='P13', throws=lambda c: F_, ensures=lambda c: [('flag', c.r == c.pre(EXEC, c.this))])
    reg.add(dp('isInitialized', 0), prop='P13', throws=lambda c: F_, ensures=lambda c: [('flag', c.r == c.pre(INIT, c.this))])
    reg.add(dp('initialize', 0), prop='P13', modifies=lambda c: VM(c) + [(x, c.this) for x in (CH, CHS, INIT)], throws=lambda c: F_,
        ensures=lambda c: [('alternatives are collected once', And(c.post(INIT, c.this), Implies(c.pre(INIT, c.this), And(c.post(CH, c.this) == c.pre(CH, c.this), c.post(CHS, c.this) == c.pre(CHS, c.this)))))])
    reg.add(dp('execute', 0), prop='P13', requires=lambda c: [('initialized', c.pre(INIT, c.this)), ('not executed', Not(c.pre(EXEC, c.this))), ('an alternative left', more(c.pre, c.this)), ('!fewer than 2^32 choices', And(c.pre(CNT, c.this) >= 0, c.pre(CNT, c.this) < 2 ** 32 - 1))],
        modifies=lambda c: VM(c) + [(x, c.this) for x in (APP, EXEC, CNT, CH)], throws=lambda c: F_,
        ensures=lambda c: [('one alternative is applied', c.post(APP, c.this) == c.pre(APP, c.this) + 1), ('and remembered', And(c.post(EXEC, c.this), c.post(CNT, c.this) == c.pre(CNT, c.this) + 1))])
    reg.add(dp('undo', 0), prop='P13', requires=lambda c: [('executed', c.pre(EXEC, c.this))], modifies=lambda c: VM(c) + [(x, c.this) for x in (RET, EXEC, CH)], throws=lambda c: F_,
        ensures=lambda c: [('the alternative is retracted', And(c.post(RET, c.this) == c.pre(RET, c.this) + 1, Not(c.post(EXEC, c.this)))), ('no alternative comes back', c.post(CH, c.this) >= c.pre(CH, c.this))])
    # ---- the stack
    I = lambda: fresh(IntSort(), 'i')

    def each(s, P, lo=0):
        i = I(); return FA([i], Implies(And(lo <= i, i < ln(s)), P(at(s, i), i)), Select(acc(s, 'arr'), i))

    def distinct(s):
        i, j = I(), I(); return FA([i, j], Implies(And(0 <= i, i < ln(s), 0 <= j, j < ln(s), i != j), at(s, i) != at(s, j)), (Select(acc(s, 'arr'), i), Select(acc(s, 'arr'), j)))

    def prefix(n, o):
        i = I(); return And(ln(n) <= ln(o), FA([i], Implies(And(0 <= i, i < ln(n)), at(n, i) == at(o, i)), Select(acc(n, 'arr'), i), Select(acc(o, 'arr'), i)))

    def sinv(h, s, act=True):
        st = h(STACK, s); a = h(ACT, s)
        return [('!a size', ln(st) >= 0), ('decisions on the stack are executed', each(st, lambda x, i: And(x > 0, x < h.alloc, h(EXEC, x), h(INIT, x), h(DEL, x) == 0))), ('and different', distinct(st)),
                ('the decision at hand is another one', Implies(a != 0, And(a > 0, a < h.alloc, h(INIT, a), h(DEL, a) == 0, each(st, lambda x, i: x != a))))] + ([('and not executed', Implies(a != 0, Not(h(EXEC, a))))] if act else [])
    SI = lambda c, act=True: sinv(c.pre, c.this, act)
    gone = lambda c, h, x: And(h(DEL, x) == 1, Not(h(EXEC, x)), spent(h, x))
    DM = lambda c: VM(c) + [(x, ANY) for x in (EXEC, CH, RET, DEL)]

    def bl(L):
        c = L.eng.ctx0; s = c.this; st0, a0 = c.pre(STACK, s), c.pre(ACT, s)
        H = lambda st: HV(L.eng, st)
        yield ('prefix', lambda st: prefix(H(st)(STACK, s), st0))
        yield ('size', lambda st: ln(H(st)(STACK, s)) >= 0)
        yield ('rest', lambda st: (lambda h: each(st0, lambda x, i: If(i < ln(h(STACK, s)), And(h(EXEC, x), h(DEL, x) == 0, h(ACT, s) != x), Or(h(ACT, s) == x, gone(c, h, x)))))(H(st)))
        yield ('first', lambda st: (lambda h: Implies(a0 != 0, Or(h(ACT, s) == a0, gone(c, h, a0))))(H(st)))
        yield ('origin', lambda st: (lambda h: Or(h(ACT, s) == 0, h(ACT, s) == a0, And(ln(h(STACK, s)) < ln(st0), h(ACT, s) == at(st0, ln(h(STACK, s))))))(H(st)))
        yield ('others', lambda st: (lambda h: Or(h(ACT, s) == 0, And(h(ACT, s) > 0, h(DEL, h(ACT, s)) == 0)))(H(st)))
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_bool(v), changed=True):
            yield ('open %s' % k[1], lambda st, k=k: (lambda h: And(Implies(st.env[k], Or(h(ACT, s) == 0, h(ACT, s) == a0)), Implies(Not(st.env[k]), And(h(ACT, s) != 0, Not(h(EXEC, h(ACT, s))), Not(spent(h, h(ACT, s)))))))(H(st)))
        yield ('known', lambda st: (lambda h: And(st.alloc >= c.pre.alloc, Implies(h(ACT, s) != 0, And(h(ACT, s) < c.pre.alloc, h(INIT, h(ACT, s))))))(H(st)))
    reg.add(so('backtrack', 0), prop='P13', requires=lambda c: SI(c, False), modifies=lambda c: DM(c) + [(STACK, c.this), (ACT, c.this)], throws=lambda c: F_, loops=[bl],
        ensures=lambda c: (lambda st, st0, a, a0: [('it fails only when nothing is left to try', And(c.r == (a == 0), Implies(c.r, ln(st) == 0))),
            ('earlier decisions stay', And(prefix(st, st0), each(st, lambda x, i: And(c.post(EXEC, x), c.post(DEL, x) == 0)))),
            ('the decision resumed is undone and has an alternative left', Implies(Not(c.r), And(Not(c.post(EXEC, a)), Not(spent(c.post, a)), c.post(DEL, a) == 0))),
            ('it is the one at hand or the last one on the stack that was not given up', Implies(And(Not(c.r), Or(a0 == 0, a != a0)), And(ln(st) < ln(st0), a == at(st0, ln(st))))),
            ('a decision is given up only with its alternatives used up, and undone', And(each(st0, lambda x, i: Implies(And(i >= ln(st), x != a), gone(c, c.post, x))), Implies(And(a0 != 0, a != a0), gone(c, c.post, a0))))] + sinv(c.post, c.this))(c.post(STACK, c.this), c.pre(STACK, c.this), c.post(ACT, c.this), c.pre(ACT, c.this)))
    # ---- choosing the next decision
    allnone = lambda c, h: each(c.pre(FMS, c.this), lambda m, i: h(NONE, m))
    fmok = lambda c: [('flaw managers', each(c.pre(FMS, c.this), lambda m, i: m > 0))]

    def seen(P, name):
        def g(L):
            c = L.eng.ctx0; s = c.pre(FMS, c.this)
            for k in L.locals(lambda v: isinstance(v, Iter), True):
                def q(st, k=k):
                    p = st.env[k].pos[0]; h = HV(L.eng, st)
                    return And(p >= 0, p <= ln(s), each(s, lambda m, i: Implies(i < p, P(c, st, h, m))))
                yield ('%s %s' % (name, k[1]), q)
        return g
    reg.add(so('noMoreFlaws', 0), prop='P13', requires=fmok, throws=lambda c: F_, loops=[seen(lambda c, st, h, m: c.pre(NONE, m), 'none')],
        ensures=lambda c: [('no flaw is left exactly when no flaw manager has one', c.r == allnone(c, c.pre))])
    reg.add(so('getZeroCommitmentDecision', 0), prop='P13', requires=lambda c: fmok(c) + [('not exhausted', Not(c.pre(EXH, c.this)))], modifies=lambda c: VM(c), throws=lambda c: F_, loops=[lambda L: iter([('alloc', lambda st: st.alloc >= L.eng.ctx0.pre.alloc)])],
        ensures=lambda c: [('a new decision', fresh_dp(c))])

    def al(L):
        c = L.eng.ctx0; s = c.pre(FMS, c.this)
        H = lambda st: HV(L.eng, st)
        new = lambda st: (lambda h, a: Implies(a != 0, And(a >= c.pre.alloc, a < st.alloc, Not(h(EXEC, a)), Not(h(INIT, a)), h(DEL, a) == 0)))(H(st), H(st)(ACT, c.this))
        yield ('new', new)
        for q in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_real(v), True):
            yield ('worst %s' % q[1], lambda st, q=q: Implies(H(st)(ACT, c.this) == 0, st.env[q] > WORST))
        for k in L.locals(lambda v: isinstance(v, Iter), True):
            def q(st, k=k):
                p = st.env[k].pos[0]; h = H(st)
                return And(p >= 0, p <= ln(s), Implies(h(ACT, c.this) == 0, each(s, lambda m, i: Implies(i < p, h(NONE, m)))))
            yield ('none %s' % k[1], q)
    reg.add(so('allocateNewDecisionPoint', 0), prop='P13', requires=lambda c: fmok(c) + [('not exhausted', Not(c.pre(EXH, c.this))), ('no decision at hand', c.pre(ACT, c.this) == 0)],
        modifies=lambda c: VM(c) + [(ACT, c.this), (NONE, ANY)] + [(x, lambda r: r >= c.pre.alloc) for x in (CH, CHS, INIT, DEL)], throws=lambda c: F_, loops=[al],
        ensures=lambda c: [('a new decision, ready to be made', (lambda a: Implies(a != 0, And(a >= c.pre.alloc, a < c.post.alloc, Not(c.post(EXEC, a)), c.post(INIT, a), c.post(DEL, a) == 0)))(c.post(ACT, c.this))),
                           ('none is chosen only if no flaw manager has a flaw', Implies(c.post(ACT, c.this) == 0, allnone(c, c.post)))])
    # ---- a step
    eng = lambda c: DBOF(c.pre(DB_, c.this))
    v0, v1 = (lambda c: c.pre(VIOL, eng(c))), (lambda c: c.post(VIOL, eng(c)))
    STM = lambda c: DM(c) + [(x, c.this) for x in (STACK, ACT, STEP, NOFLAW, EXH, TIMED, BASE, LAST)] + [(x, ANY) for x in (NONE, INIT, CHS, APP, CNT)]
    reg.add(so('conflictLevelOk', 0), prop='P13', throws=lambda c: F_, ensures=lambda c: [('no conflict beyond the level at the start', c.r == (v0(c) <= c.pre(BASE, c.this)))], requires=lambda c: [('a database', c.pre(DB_, c.this) > 0)])
    reg.add(so('getDepth', 0), prop='P13', throws=lambda c: F_, ensures=lambda c: [('the number of decisions', c.r == ln(c.pre(STACK, c.this)))])
    small = lambda h, s: ('!fewer than 2^31 decisions and choices', And(ln(h(STACK, s)) < 2 ** 31, (lambda x: FA([x], And(h(CNT, x) >= 0, h(CNT, x) < 2 ** 31), h(CNT, x)))(fresh(IntSort(), 'x')), h(STEP, s) < 2 ** 31, h(SFLOOR, s) <= h(STEP, s), h(DFLOOR, s) >= 0, h(DFLOOR, s) < 2 ** 31, *[And(h(q, s) >= 0, h(q, s) < 2 ** 32) for q in (STEP, SFLOOR, MAXS, MAXD)]))
    ready = lambda c: SI(c) + fmok(c) + [('a database', c.pre(DB_, c.this) > 0)]

    def outcome(c):
        st, st0, a, a0 = c.post(STACK, c.this), c.pre(STACK, c.this), c.post(ACT, c.this), c.pre(ACT, c.this)
        new = ln(st) == ln(st0) + 1
        i = I()
        ahead = And(new, FA([i], Implies(And(0 <= i, i < ln(st0)), at(st, i) == at(st0, i)), Select(acc(st, 'arr'), i), Select(acc(st0, 'arr'), i)))
        return [('decisions are only added at the end or taken back from the end', Or(prefix(st, st0), ahead)),
                ('a decision is kept only if it causes no conflict', Implies(ln(st) > ln(st0), v1(c) <= v0(c))),
                ('the decision added is the one at hand, or a new one', Implies(And(ln(st) > ln(st0), a0 != 0), at(st, ln(st0)) == a0)),
                ('completion is reported only when no flaw manager has a flaw', Implies(And(c.post(NOFLAW, c.this), Not(c.post(EXH, c.this))), And(a == 0, allnone(c, c.post), st == st0))),
                ('exhaustion is reported only after every decision was taken back, or on a conflict not caused by the search', Implies(c.post(EXH, c.this), Or(And(a == 0, ln(st) == 0), And(v1(c) > v0(c), st == st0, c.post(STEP, c.this) == c.pre(STEP, c.this))))),
                ('a decision is given up only with its alternatives used up, and undone', each(st0, lambda x, i: Implies(And(i >= ln(st), x != a), gone(c, c.post, x)))),
                ('also the one at hand', Implies(And(a0 != 0, a0 != a, Not(And(ln(st) > ln(st0), at(st, ln(st0)) == a0))), gone(c, c.post, a0))),
                ('not more than one decision is executed', Or(c.post(STEP, c.this) == c.pre(STEP, c.this), c.post(STEP, c.this) == c.pre(STEP, c.this) + 1)),
                ('within the limits', Implies(c.post(STEP, c.this) != c.pre(STEP, c.this), And(c.pre(STEP, c.this) - c.pre(SFLOOR, c.this) < c.pre(MAXS, c.this), ln(st0) - c.pre(DFLOOR, c.this) <= c.pre(MAXD, c.this)))),
                ('running out of steps changes no decision, and is reported only at the limits', Implies(And(c.post(TIMED, c.this), Not(c.pre(TIMED, c.this))), And(st == st0, Or(c.pre(STEP, c.this) - c.pre(SFLOOR, c.this) >= c.pre(MAXS, c.this), ln(st0) - c.pre(DFLOOR, c.this) > c.pre(MAXD, c.this)))))]
    reg.add(so('doStep', 0), prop='P13', requires=lambda c: ready(c) + [small(c.pre, c.this), ('not exhausted', Not(c.pre(EXH, c.this))), ('not out of steps', Not(c.pre(TIMED, c.this)))], modifies=STM, throws=lambda c: F_,
        ensures=lambda c: outcome(c) + sinv(c.post, c.this))
    reg.add(so('step', 0), prop='P13', requires=lambda c: ready(c) + [small(c.pre, c.this), ('not exhausted', Not(c.pre(EXH, c.this))), ('not out of steps', Not(c.pre(TIMED, c.this)))], modifies=STM, throws=lambda c: F_,
        ensures=lambda c: outcome(c)[3:4] + outcome(c)[7:9] + [('decisions', And(*[p for l, p in sinv(c.post, c.this)]))])

    # ---- a search
    def sol(L):
        c = L.eng.ctx0; s = c.this
        H = lambda st: HV(L.eng, st)
        for i in range(5): yield ('inv %d' % i, lambda st, i=i: sinv(H(st), s)[i][1])
        yield ('floor', lambda st: (lambda h: And(h(SFLOOR, s) == c.pre(STEP, s), h(STEP, s) >= c.pre(STEP, s), h(MAXS, s) == c.a(0), h(MAXD, s) == c.a(1), h(DFLOOR, s) == ln(c.pre(STACK, s)), h(STEP, s) - c.pre(STEP, s) <= c.a(0)))(H(st)))
        yield ('complete', lambda st: (lambda h: Implies(And(h(NOFLAW, s), Not(h(EXH, s))), And(h(ACT, s) == 0, allnone(c, h))))(H(st)))
    reg.add(so('solve', 2), prop='P13', requires=lambda c: ready(c) + [small(c.pre, c.this)], modifies=lambda c: STM(c) + [(x, c.this) for x in (SFLOOR, DFLOOR, MAXS, MAXD)], throws=lambda c: T_, loops=[sol],
        ensures=lambda c: [('success means that no flaw is left', Implies(And(c.r, Not(c.post(EXH, c.this))), And(c.post(ACT, c.this) == 0, allnone(c, c.post)))), ('otherwise the search was exhausted or ran out of steps', Implies(Not(c.r), Or(c.post(EXH, c.this), c.post(TIMED, c.this)))),
                           ('no more steps than allowed', c.post(STEP, c.this) - c.pre(STEP, c.this) <= c.a(0))] + sinv(c.post, c.this))

    # ---- taking decisions back
    def rl(L):
        c = L.eng.ctx0; s = c.this; st0 = c.pre(STACK, s); n = If(c.a(0) < ln(st0), ln(st0) - c.a(0), 0)
        H = lambda st: HV(L.eng, st)
        yield ('prefix', lambda st: And(prefix(H(st)(STACK, s), st0), ln(H(st)(STACK, s)) >= 0))
        yield ('gone', lambda st: (lambda h: And(h(ACT, s) == 0, each(st0, lambda x, i: If(i < ln(h(STACK, s)), And(h(EXEC, x), h(DEL, x) == 0), h(DEL, x) == 1))))(H(st)))
        yield ('first', lambda st: (lambda h: Implies(c.pre(ACT, s) != 0, h(DEL, c.pre(ACT, s)) == 1))(H(st)))
        yield ('alloc', lambda st: st.alloc >= c.pre.alloc)
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v), True):
            yield ('depth %s' % k[1], lambda st, k=k: And(st.env[k] >= 0, st.env[k] <= c.a(0), ln(H(st)(STACK, s)) == ln(st0) - (c.a(0) - st.env[k])))
    RM = lambda c: DM(c) + [(x, c.this) for x in (STACK, ACT, STEP, NOFLAW, EXH, TIMED)]
    reg.add(so('reset', 1), prop='P13', requires=lambda c: SI(c) + [('no more than there are', And(c.a(0) >= 0, c.a(0) <= ln(c.pre(STACK, c.this))))], modifies=RM, throws=lambda c: F_, loops=[rl],
        ensures=lambda c: (lambda st, st0: [('as many decisions as asked for are taken back', ln(st) == ln(st0) - c.a(0)), ('from the end', And(prefix(st, st0), c.post(ACT, c.this) == 0, each(st0, lambda x, i: Implies(i >= ln(st), c.post(DEL, x) == 1)))),
            ('the search starts afresh', And(c.post(STEP, c.this) == 0, Not(c.post(NOFLAW, c.this)), Not(c.post(EXH, c.this)), Not(c.post(TIMED, c.this))))] + sinv(c.post, c.this))(c.post(STACK, c.this), c.pre(STACK, c.this)))
    reg.add(so('reset', 0), prop='P13', requires=SI, modifies=RM, throws=lambda c: F_, ensures=lambda c: [('every decision is taken back', And(ln(c.post(STACK, c.this)) == 0, c.post(ACT, c.this) == 0, each(c.pre(STACK, c.this), lambda x, i: c.post(DEL, x) == 1)))])
    def bj(c):
        st, st0, a, a0 = c.post(STACK, c.this), c.pre(STACK, c.this), c.post(ACT, c.this), c.pre(ACT, c.this)
        k = If(a0 != 0, c.a(0) - 1, c.a(0))
        return [('at least as many decisions as asked for are taken back', And(prefix(st, st0), Or(ln(st) <= ln(st0) - k, ln(st) == 0))), ('the search resumes at a decision with an alternative left, or is exhausted', And(c.r == (a == 0), Implies(c.r, ln(st) == 0), Implies(Not(c.r), And(Not(c.post(EXEC, a)), Not(spent(c.post, a)))), c.post(EXH, c.this) == c.r)),
                ('the search starts afresh', And(c.post(STEP, c.this) == 0, Not(c.post(NOFLAW, c.this)), Not(c.post(TIMED, c.this))))] + sinv(c.post, c.this)
    reg.add(so('backjump', 1), prop='P13', requires=lambda c: SI(c) + [('as many as there are', And(c.a(0) >= 1, c.a(0) <= ln(c.pre(STACK, c.this)) + If(c.pre(ACT, c.this) != 0, 1, 0)))], modifies=RM, throws=lambda c: F_, ensures=bj)

    def cl(L):
        c = L.eng.ctx0
        for k in L.locals(lambda v: isinstance(v, Iter), True):
            def q(st, k=k):
                h = HV(L.eng, st); p = st.env[k].pos[0]; s = c.a(0)
                return And(p >= 0, p <= ln(s), each(s, lambda x, i: Implies(i < p, h(DEL, x) == 1)))
            yield ('deleted %s' % k[1], q)
    for fn in db.byclass.get(S + 'Solver', {}).get('cleanup', []):
        reg.add(fn.key, prop='P13', requires=lambda c: [('decisions', each(c.a(0), lambda x, i: x > 0))], modifies=lambda c: [('arg', 0), (DEL, ANY)], throws=lambda c: F_, loops=[cl],
            ensures=lambda c: [('nothing is left', And(ln(c.ap(0)) == 0, each(c.a(0), lambda x, i: c.post(DEL, x) == 1)))])
    reg.add(so('cleanupDecisions', 0), prop='P13', requires=lambda c: SI(c), modifies=lambda c: [(STACK, c.this), (ACT, c.this), (DEL, ANY)], throws=lambda c: F_,
        ensures=lambda c: [('no decision is left', And(ln(c.post(STACK, c.this)) == 0, c.post(ACT, c.this) == 0))])
    reg.add(so('clear', 0), prop='P13', requires=lambda c: SI(c), modifies=lambda c: [(x, c.this) for x in (STACK, ACT, STEP, SFLOOR, DFLOOR, NOFLAW, EXH, TIMED)] + [(DEL, ANY)], throws=lambda c: F_,
        ensures=lambda c: [('no decision is left', And(ln(c.post(STACK, c.this)) == 0, c.post(ACT, c.this) == 0)), ('the search starts afresh', And(c.post(STEP, c.this) == 0, Not(c.post(NOFLAW, c.this)), Not(c.post(EXH, c.this)), Not(c.post(TIMED, c.this))))])
    reg.add(so('isExhausted', 0), prop='P13', throws=lambda c: T_, ensures=lambda c: [('the flag, and no decision is left', And(c.r == c.pre(EXH, c.this), Implies(c.r, ln(c.pre(STACK, c.this)) == 0)))])
    reg.add(so('isTimedOut', 0), prop='P13', throws=lambda c: F_, ensures=lambda c: [('the flag', c.r == c.pre(TIMED, c.this))])
