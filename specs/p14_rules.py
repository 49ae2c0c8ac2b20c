"""P14: when a rule is due, and what is scheduled."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, Iter
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import FA
TUS = ['RulesEngine/base/RuleInstance.cc', 'RulesEngine/base/RulesEngine.cc', 'RulesEngine/base/RuleVariableListener.cc', 'ConstraintEngine/base/Constraint.cc']
PROP = 'P14'
E = 'EUROPA::'
I_, B_, R_ = IntSort(), BoolSort(), RealSort()
SPEC, SING = [z3.Function(n, I_, B_) for n in ('specified', 'isSingletonDomain')]
LASTD, BASED = [z3.Function(n, I_, I_) for n in ('lastDomainOf', 'baseDomainOf')]
SVAL = z3.Function('singletonValue', I_, R_)
MEMBER, INTERS = z3.Function('memberOf', I_, R_, B_), z3.Function('intersects', I_, I_, B_)
REDUND = z3.Function('redundantByItself', I_, I_, B_)
G, GD, EXECD, POS, RE = [E + 'RuleInstance.' + n for n in ('m_guards', 'm_guardDomain', 'm_isExecuted', 'm_isPositive', 'm_rulesEngine')]
XQ, UQ = [E + 'RulesEngine.' + n for n in ('m_ruleInstancesToExecute', 'm_ruleInstancesToUndo')]
LRI, LSRC = [E + 'RuleVariableListener.' + n for n in ('m_ruleInstance', 'm_sourceConstraint')]
at = lambda q, i: sel(acc(q, 'arr'), i)
ln = lambda q: acc(q, 'len')


isint = lambda v: z3.is_expr(v) and z3.is_int(v)
isbool = lambda v: z3.is_expr(v) and z3.is_bool(v)


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)
    for n in ('toString', 'toShortString', 'toLongString', 'getEntityName', 'getName', 'getKey', 'getSource'):
        for cls in ('Entity', 'Constraint', 'Token', 'Rule', 'RuleInstance', 'ConstrainedVariable', 'Domain'): reg.opaque.add('%s%s::%s' % (E, cls, n))

    def trust(key, why, **kw): reg.add(key, trusted=why, interface=True, throws=lambda c: F_, **kw)
    add = lambda key, **kw: reg.add(key, prop='P14', throws=kw.pop('throws', lambda c: F_), **kw)
    V, D = 'ConstrainedVariable', 'Domain'
    trust(F(V, 'isSpecified', 0), 'a value is specified (P08)', ensures=lambda c: [('r', c.r == SPEC(c.this))])
    trust(F(V, 'lastDomain', 0), 'the current domain', ensures=lambda c: [('r', And(c.r == LASTD(c.this), c.r > 0))])
    trust(F(V, 'baseDomain', 0), 'the base domain', ensures=lambda c: [('r', And(c.r == BASED(c.this), c.r > 0))])
    trust(F(D, 'isSingleton', 0), 'one value (P02, P03)', ensures=lambda c: [('r', c.r == SING(c.this))])
    trust(F(D, 'getSingletonValue', 0), 'that value (P02, P03)', ensures=lambda c: [('r', c.r == SVAL(c.this))])
    trust(F(D, 'isMember', 1), 'membership (P02, P03)', ensures=lambda c: [('r', c.r == MEMBER(c.this, c.a(0)))])
    trust(F(D, 'intersects', 1), 'a common value (P02, P03)', ensures=lambda c: [('r', c.r == INTERS(c.this, c.a(0)))])
    dec = lambda g: Or(SPEC(g), SING(BASED(g)))

    def alldec(gs, lo, hi):
        i = fresh(I_, 'i')
        return FA([i], Implies(And(i >= lo, i < hi), dec(at(gs, i))), at(gs, i))

    def due(c, gs, this):
        dom, pos = c.pre(GD, this), c.pre(POS, this); g = LASTD(at(gs, 0))
        return If(dom != 0, And(alldec(gs, 1, ln(gs)), If(SING(g), MEMBER(dom, SVAL(g)) == pos, And(Not(INTERS(g, dom)), Not(pos)))), alldec(gs, 0, ln(gs)))

    def wf(c, gs, this):
        i = fresh(I_, 'i')
        return [('guards', And(ln(gs) >= 0, FA([i], Implies(And(i >= 0, i < ln(gs)), at(gs, i) > 0), at(gs, i)))), ('a guard with a guard domain', And(c.pre(GD, this) >= 0, Implies(c.pre(GD, this) != 0, ln(gs) > 0))), ('a rule', c.pre(E + 'RuleInstance.m_rule', this) > 0), ('only a guard domain can be negated', Implies(c.pre(GD, this) == 0, c.pre(POS, this)))]

    def l_test(lo):
        def sp(L):
            c = L.eng.ctx0
            for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'seq', True):
                yield ('decided%d:%s' % (lo, k[1]), lambda st, k=k: And(st.env[k].pos[0] >= lo, st.env[k].pos[0] <= ln(c.a(0)), alldec(c.a(0), lo, st.env[k].pos[0])))
            for k in L.locals(isint, True):
                yield ('decided%d:%s' % (lo, k[1]), lambda st, k=k: And(st.env[k] >= lo, st.env[k] <= ln(c.a(0)), alldec(c.a(0), lo, st.env[k])))
        return sp
    add(F('RuleInstance', 'test', 1), requires=lambda c: wf(c, c.a(0), c.this), loops=[l_test(1), l_test(0)], ensures=lambda c: [('due exactly if its guards hold', c.r == due(c, c.a(0), c.this))])
    own = lambda c: c.pre(G, c.this)
    add(F('RuleInstance', 'test', 0), requires=lambda c: wf(c, own(c), c.this), ensures=lambda c: [('due exactly if its guards hold', c.r == due(c, own(c), c.this))])

    def singles(gs, n):
        i = fresh(I_, 'i')
        return FA([i], Implies(And(i >= 0, i < n), SING(LASTD(at(gs, i)))), at(gs, i))

    def l_wnf(L):
        c = L.eng.ctx0
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'seq', True):
            yield ('single:%s' % (k[1],), lambda st, k=k: And(st.env[k].pos[0] >= 0, st.env[k].pos[0] <= ln(own(c)), singles(own(c), st.env[k].pos[0])))
        flags = list(L.locals(isbool, True))
        for k in L.locals(isint, True):
            yield ('single:%s' % (k[1],), lambda st, k=k: And(st.env[k] >= 0, st.env[k] <= ln(own(c)), singles(own(c), st.env[k])))
            for b in flags: yield ('single while %s:%s' % (b[1], k[1]), lambda st, k=k, b=b: And(st.env[k] >= 0, st.env[k] <= ln(own(c)), Implies(st.env[b], singles(own(c), st.env[k]))))
        for b in flags: yield ('not single:%s' % (b[1],), lambda st, b=b: Implies(Not(st.env[b]), Not(singles(own(c), ln(own(c))))))
    add(F('RuleInstance', 'willNotFire', 0), requires=lambda c: wf(c, own(c), c.this), loops=[l_wnf], ensures=lambda c: [('it will not become due: no guards, or all decided and not due', c.r == And(singles(own(c), ln(own(c))), Or(ln(own(c)) == 0, Not(due(c, own(c), c.this)))))])
    add(F('RuleInstance', 'isExecuted', 0), interface=True, ensures=lambda c: [('r', c.r == c.pre(EXECD, c.this))])
    # --- the schedule

    def queue(c, K, this, x):
        i = fresh(I_, 'i'); a, b = c.pre(K, this), c.post(K, this)
        return And(ln(b) == ln(a) + 1, at(b, ln(a)) == x, FA([i], Implies(And(i >= 0, i < ln(a)), at(b, i) == at(a, i)), at(b, i)))
    qok = lambda c: [('schedule', And(ln(c.pre(XQ, c.this)) >= 0, ln(c.pre(UQ, c.this)) >= 0))]
    add(F('RulesEngine', 'scheduleForExecution', 1), requires=qok, modifies=lambda c: [(XQ, c.this)], ensures=lambda c: [('it is scheduled, all others stay scheduled', queue(c, XQ, c.this, c.a(0)))])
    add(F('RulesEngine', 'scheduleForUndoing', 1), requires=qok, modifies=lambda c: [(UQ, c.this)], ensures=lambda c: [('it is scheduled, all others stay scheduled', queue(c, UQ, c.this, c.a(0)))])
    add(F('RulesEngine', 'hasWork', 0), requires=qok, ensures=lambda c: [('r', c.r == Or(ln(c.pre(XQ, c.this)) > 0, ln(c.pre(UQ, c.this)) > 0))])

    def voided(a, b, x, n):
        i = fresh(I_, 'i')
        return And(ln(b) == ln(a), FA([i], Implies(And(i >= 0, i < ln(a)), at(b, i) == If(And(i < n, at(a, i) == x), 0, at(a, i))), at(b, i)))

    def l_void(K):
        def sp(L):
            c = L.eng.ctx0; ks = L.locals(lambda v: isinstance(v, Iter) and v.kind == 'seq', True)
            for k in ks:
                yield ('voided%s:%s' % (K, k[1]), lambda st, k=k: And(st.env[k].pos[0] >= 0, st.env[k].pos[0] <= ln(c.pre(K, c.this)), voided(c.pre(K, c.this), HV(L.eng, st)(K, c.this), c.a(0), st.env[k].pos[0])))
            if K == UQ: yield ('first', lambda st: voided(c.pre(XQ, c.this), HV(L.eng, st)(XQ, c.this), c.a(0), ln(c.pre(XQ, c.this))))
        return sp
    add(F('RulesEngine', 'unschedule', 1), requires=qok, loops=[l_void(XQ), l_void(UQ)], modifies=lambda c: [(XQ, c.this), (UQ, c.this)], ensures=lambda c: [('a deleted rule instance is not scheduled any more, all others as before', And(*[voided(c.pre(K, c.this), c.post(K, c.this), c.a(0), ln(c.pre(K, c.this))) for K in (XQ, UQ)]))])

    def prepared(c, r):
        re = c.pre(RE, r); ex = c.pre(EXECD, r)
        return [('a change of a guard schedules it', And(Implies(Not(ex), queue(c, XQ, re, r)), Implies(ex, queue(c, UQ, re, r)), Implies(ex, c.post(XQ, re) == c.pre(XQ, re)), Implies(Not(ex), c.post(UQ, re) == c.pre(UQ, re))))]
    rok = lambda c, r: [('a rules engine', And(r > 0, c.pre(RE, r) > 0, ln(c.pre(XQ, c.pre(RE, r))) >= 0, ln(c.pre(UQ, c.pre(RE, r))) >= 0))]
    MID = E + 'RuleInstance.m_id'
    add(F('RuleInstance', 'getId', 0), requires=lambda c: [('!registered', c.pre(MID, c.this) == c.this)], ensures=lambda c: [('r', c.r == c.this)])
    qs = lambda c, r: [(XQ, c.pre(RE, r)), (UQ, c.pre(RE, r))]
    add(F('RuleInstance', 'prepare', 0), requires=lambda c: rok(c, c.this), modifies=lambda c: qs(c, c.this), ensures=lambda c: prepared(c, c.this))
    # --- the constraint that watches the guards
    trust(F('Constraint', 'testIsRedundant', 1), 'redundant as a constraint (P07)', ensures=lambda c: [('r', c.r == REDUND(c.this, c.a(0)))])
    lr = lambda c: c.pre(LRI, c.this)
    SCOPE = E + 'Constraint.m_variables'
    add(F('RuleVariableListener', 'getRuleInstance', 0), requires=lambda c: [('a rule instance', lr(c) > 0)], ensures=lambda c: [('r', c.r == lr(c))])
    add(F('RuleVariableListener', 'canIgnore', 3), requires=lambda c: [('a rule instance', lr(c) > 0)], ensures=lambda c: [('no change of a guard is ignored', Not(c.r))])
    add(F('RuleVariableListener', 'handleExecute', 0), requires=lambda c: [('a rule instance', lr(c) > 0)] + rok(c, lr(c)), modifies=lambda c: qs(c, lr(c)), ensures=lambda c: prepared(c, lr(c)))
    add(F('RuleVariableListener', 'testIsRedundant', 1), requires=lambda c: wf(c, c.pre(SCOPE, c.this), lr(c)), ensures=lambda c: [('not redundant while the rule is due and not in force', c.r == And(REDUND(c.this, c.a(0)), Or(lr(c) == 0, c.pre(EXECD, lr(c)), Not(due(c, c.pre(SCOPE, c.this), lr(c))))))])
    # --- coming into force
    RI_ = 'RuleInstance'
    RANY = [(EXECD, ANY), (XQ, ANY), (UQ, ANY)]
    reg.add(F(RI_, 'handleExecute', 0), trusted='what the model rule does: slaves, constraints, variables and nested rules; only execute and undo write the flag, and a rule is not undone while it executes', interface=True, throws=lambda c: T_, modifies=lambda c: RANY, ensures=lambda c: [('own flag', c.post(EXECD, c.this) == c.pre(EXECD, c.this))])
    reg.add(F('RulesEngine', 'notifyExecuted', 1), trusted='tells listeners', interface=True, throws=lambda c: T_)
    add(F(RI_, 'execute', 0), throws=lambda c: T_, requires=lambda c: [('a rules engine', c.pre(RE, c.this) > 0), ('registered', c.pre(MID, c.this) == c.this), ('not in force', Not(c.pre(EXECD, c.this)))], modifies=lambda c: RANY, ensures=lambda c: [('it is in force', c.post(EXECD, c.this))])
    add(F(RI_, 'setRulesEngine', 1), throws=lambda c: T_, requires=lambda c: [('new', And(c.pre(RE, c.this) == 0, Not(c.pre(EXECD, c.this)), c.a(0) > 0, ln(own(c)) >= 0)), ('registered', c.pre(MID, c.this) == c.this)], modifies=lambda c: RANY + [(RE, c.this)], ensures=lambda c: [('it has its engine', c.post(RE, c.this) == c.a(0)), ('without guards it is in force at once, otherwise not yet', Implies(ln(own(c)) == 0, c.post(EXECD, c.this))), ('not in force before its guards are tested', Implies(ln(own(c)) > 0, Not(c.post(EXECD, c.this))))])
