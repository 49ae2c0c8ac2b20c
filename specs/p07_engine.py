"""P07: the constraint engine: what has to be executed stays pending until it is executed; consistency is reported only when nothing is pending.

Ghost state: Propagator.$pend (an enabled propagator has work), Constraint.$told/$on/$off (number of change, activation and deactivation messages a constraint's propagator
received), ConstrainedVariable.$on/$off, ConstraintEngine.$ran."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT, Iter
from cv.spec import ANY
from specs.dom import find1, EV
from specs.util import ghost, walk, index, state, FA
TUS = ['ConstraintEngine/component/Propagators.cc', 'ConstraintEngine/base/ConstraintEngine.cc', 'ConstraintEngine/base/Constraint.cc', 'ConstraintEngine/base/ConstrainedVariable.cc',
       'ConstraintEngine/base/Propagator.cc', 'ConstraintEngine/base/ConstraintEngineListener.cc', 'ConstraintEngine/base/VariableChangeListener.cc', 'ConstraintEngine/base/Domain.cc', 'ConstraintEngine/component/Domains.cc', 'ConstraintEngine/component/Constraints.cc']
PROP = 'P07'
E = 'EUROPA::'
AG, ACT = 'DefaultPropagator.m_agenda', 'DefaultPropagator.m_activeConstraint'
FULL, EQACT, EQAG = 'EqualityConstraintPropagator.m_fullReprop', 'EqualityConstraintPropagator.m_active', 'EqualityConstraintPropagator.m_eqClassAgenda'
PEND = 'Propagator.$pend'
OFF, RED = 'Constraint.m_deactivationRefCount', 'Constraint.m_isRedundant'
VOFF, CONS, LASTR, VSPEC = 'ConstrainedVariable.m_deactivationRefCount', 'ConstrainedVariable.m_constraints', 'ConstrainedVariable.m_lastRelaxed', 'ConstrainedVariable.m_specifiedFlag'
VIO, EMPTY, MAXV, RELX = ['ViolationMgrImpl.' + f for f in ('m_violatedConstraints', 'm_emptyVariables', 'm_maxViolationsAllowed', 'm_relaxing')]
DIRTY, RELAXED, CYC, PROG, MGR, PROPS, REDS, AUTO = ['ConstraintEngine.' + f for f in ('m_dirty', 'm_relaxed', 'm_cycleCount', 'm_propInProgress', 'm_violationMgr', 'm_propagators', 'm_redundantConstraints', 'm_autoPropagate')]
KEYOF = z3.Function('entityKey', IntSort(), IntSort())
PROPOF = z3.Function('propagatorOf', IntSort(), IntSort())
ENGOF = z3.Function('engineOf', IntSort(), IntSort())
BASES = z3.Function('baseDomainOf', IntSort(), IntSort())
SINGB = z3.Function('baseIsSingleton', IntSort(), BoolSort())
OPENB = z3.Function('baseIsOpen', IntSort(), BoolSort())
IGN = z3.Function('ignores', IntSort(), IntSort(), IntSort(), IntSort(), BoolSort())
mem = lambda s, x: sel(acc(s, 'mem'), x)


def sameset(a, b, P):
    x = fresh(a.sort().accessor(0, 0).range().domain() if False else acc(a, 'mem').domain(), 'x')
    return FA([x], mem(b, x) == P(x, mem(a, x)), Select(acc(b, 'mem'), x), Select(acc(a, 'mem'), x))


def build(reg, db):
    ghost(db, E + 'Propagator', ('$pend', BoolSort())); ghost(db, E + 'Constraint', '$told', '$on', '$off'); ghost(db, E + 'ConstrainedVariable', '$on', '$off')
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)
    for cls in ('Entity', 'ConstrainedVariable', 'Constraint'):
        for n in ('toString', 'toLongString', 'getName', 'getEntityName', 'getViolationExpl', 'getEntityType'): reg.opaque.add('%s%s::%s' % (E, cls, n))
    reg.opaque |= {E + 'DomainListener::toString', E + 'ConstraintEngine::dumpPropagatorState', E + 'Domain::toString', E + 'operator<<'}
    # ---- listeners and callbacks have no effect on the state described here
    for k, f in db.funcs.items():
        if f.cls in (E + 'ConstraintEngineListener', E + 'ConstrainedVariableListener') and f.short.startswith('notify'):
            if k not in reg: reg.add(k, interface=True, trusted='listeners of the engine do not change the network while they are called', throws=lambda c: F_)
    trusted = lambda key, why, **kw: key in reg or reg.add(key, trusted=why, interface=True, throws=lambda c: F_, **kw)
    trusted(F('Entity', 'getKey', 0), 'every entity has a key of its own', ensures=lambda c: [('key', c.r == KEYOF(c.this))])
    trusted(F('Entity', 'isPurging', 0), 'the engine is not being torn down', ensures=lambda c: [('r', Not(c.r))])
    trusted(F('Constraint', 'isValid', 0), 'internal consistency test, no effect')
    trusted(F('ConstrainedVariable', 'isValid', 0), 'internal consistency test, no effect')
    trusted(F('DefaultPropagator', 'isValid', 0), 'internal consistency test, no effect', ensures=lambda c: [('r', c.r)])
    trusted(F('Constraint', 'getPropagator', 0), 'a constraint keeps its propagator', ensures=lambda c: [('r', And(c.r == PROPOF(c.this), c.r != 0))])
    trusted(F('Propagator', 'getConstraintEngine', 0), 'the engine of a propagator', ensures=lambda c: [('r', And(c.r == ENGOF(c.this), c.r != 0))])

    def add(key, **kw): reg.add(key, prop='P07', **kw)

    DP = lambda n, a=None: F('DefaultPropagator', n, a)
    agd = lambda c, P: ('@P07 agenda' if False else 'the agenda', sameset(c.pre(AG, c.this), c.post(AG, c.this), P))
    for n in ('handleConstraintAdded', 'handleConstraintActivated'):
        add(DP(n), ensures=lambda c: [('the constraint joins the agenda, nothing leaves', sameset(c.pre(AG, c.this), c.post(AG, c.this), lambda x, o: Or(o, x == c.a(0))))], modifies=lambda c: [(AG, c.this)], throws=lambda c: F_)
    for n in ('handleConstraintRemoved', 'handleConstraintDeactivated'):
        add(DP(n), ensures=lambda c: [('only the constraint leaves the agenda', sameset(c.pre(AG, c.this), c.post(AG, c.this), lambda x, o: And(o, x != c.a(0))))], modifies=lambda c: [(AG, c.this)], throws=lambda c: F_)
    add(DP('handleNotification'), ensures=lambda c: [('a constraint of a changed variable joins the agenda unless it made the change itself', sameset(c.pre(AG, c.this), c.post(AG, c.this), lambda x, o: Or(o, And(x == c.a(2), ToReal(KEYOF(c.a(2))) != c.pre(ACT, c.this)))))],
        requires=lambda c: [('a constraint', c.a(2) != 0)], modifies=lambda c: [(AG, c.this)], throws=lambda c: F_)
    add(DP('updateRequired'), ensures=lambda c: [('pending exactly when the agenda has a constraint', (lambda x: c.r == Exists([x], mem(c.pre(AG, c.this), x)))(fresh(IntSort(), 'x')))], throws=lambda c: F_, requires=lambda c: [('!', agcard(c.pre(AG, c.this)))])
    EMP = z3.Function('engineEmpty', IntSort(), IntSort(), BoolSort())
    trusted(F('Propagator', 'execute', 1), 'executing a constraint only adds to the agenda of its propagator (through handleNotification); removal happens through deactivation',
            modifies=lambda c: [(AG, ANY), (EMPTY, ANY), (VIO, ANY)], ensures=lambda c: [('agenda only grows', (lambda x, p: FA([x], Implies(mem(c.pre(AG, c.this), x), Or(mem(c.post(AG, c.this), x), x == c.a(0))), Select(acc(c.post(AG, c.this), 'mem'), x)))(fresh(IntSort(), 'x'), 0))])
    dpm = lambda c: c.pre(MGR, ENGOF(c.this))
    add(DP('execute', 0), requires=lambda c: [('the engine has a violation manager', And(dpm(c) != 0, c.pre.is_exact(dpm(c), 'ViolationMgrImpl'))), ('there is work', Not(acc(c.pre(AG, c.this), 'card') == 0)), ('!', agcard(c.pre(AG, c.this)))],
        modifies=lambda c: [(AG, ANY), (ACT, c.this), (EMPTY, ANY), (VIO, ANY)], throws=lambda c: T_,
        ensures=lambda c: [('at most one constraint leaves the agenda', (lambda x, y: Exists([y], FA([x], Implies(And(mem(c.pre(AG, c.this), x), x != y), mem(c.post(AG, c.this), x)), Select(acc(c.post(AG, c.this), 'mem'), x))))(fresh(IntSort(), 'x'), fresh(IntSort(), 'y'))),
                           ('no constraint is being executed afterwards', c.post(ACT, c.this) == 0)])
    EP = lambda n, a=None: F('EqualityConstraintPropagator', n, a)
    GK = z3.Function('classKey', IntSort(), IntSort(), IntSort())
    add(EP('updateRequired'), requires=lambda c: [('!', agcard(c.pre(EQAG, c.this)))], ensures=lambda c: [('pending when a class awaits processing or everything does', (lambda x: c.r == Or(c.pre(FULL, c.this), Exists([x], mem(c.pre(EQAG, c.this), x))))(fresh(IntSort(), 'x')))], throws=lambda c: F_)
    trusted(F('EquivalenceClassCollection', 'getGraphKey', 1), 'key of the class of a variable (property P09)', ensures=lambda c: [('key', c.r == GK(c.this, c.a(0)))])
    trusted(F('EquivalenceClassCollection', 'getGraphVariables', 1), 'members of a class (property P09)')
    trusted(F('EquivalenceClassCollection', 'removeConnection', 2), 'class bookkeeping (property P09)')
    ecc = lambda c: c.pre.emb('EqualityConstraintPropagator.m_eqClassCollection', c.this)
    add(EP('handleNotification'), requires=lambda c: [('a constraint', c.a(2) != 0)], modifies=lambda c: [(EQAG, c.this)], throws=lambda c: T_,
        ensures=lambda c: [('the class of the changed variable is scheduled unless everything is, or the propagator made the change', If(Or(c.pre(FULL, c.this), c.pre(EQACT, c.this)), c.post(EQAG, c.this) == c.pre(EQAG, c.this), sameset(c.pre(EQAG, c.this), c.post(EQAG, c.this), lambda x, o: Or(o, x == GK(ecc(c), c.a(0))))))])
    for n in ('handleConstraintRemoved', 'handleConstraintDeactivated'):
        add(EP(n), requires=lambda c: [('binary', acc(c.pre('Constraint.m_variables', c.a(0)), 'len') >= 2)], modifies=lambda c: [(FULL, c.this)], throws=lambda c: T_, ensures=lambda c: [('everything is scheduled again', c.post(FULL, c.this))])

    # ---- messages between engine and propagators (history counters)
    def msg(name, nargs, fld, cls, i):
        trusted(F('Propagator', name, nargs), 'counts the messages (history); the implementations have contracts of their own', modifies=lambda c: [('%s.%s' % (cls, fld), c.a(i)), (PEND, ANY)], ensures=lambda c: [('one message', c.post('%s.%s' % (cls, fld), c.a(i)) == c.pre('%s.%s' % (cls, fld), c.a(i)) + 1)])
    msg('handleNotification', 4, '$told', 'Constraint', 2)
    msg('handleConstraintActivated', 1, '$on', 'Constraint', 0)
    msg('handleConstraintDeactivated', 1, '$off', 'Constraint', 0)
    for n in ('handleVariableActivated', 'handleVariableDeactivated'): trusted(F('Propagator', n, 1), 'propagators may count variables')
    trusted(F('Propagator', 'updateRequired', 0), 'whether the propagator has work (its implementations have contracts)', ensures=lambda c: [('r', c.r == c.pre(PEND, c.this))])
    trusted(F('Propagator', 'execute', 0), 'executing a propagator may change domains, agendas and violations; nothing is relaxed during propagation', modifies=lambda c: [(PEND, ANY), (EMPTY, ANY), (VIO, ANY), (OFF, ANY)])

    CE = lambda n, a=None, sub=None: F('ConstraintEngine', n, a, sub)
    ENB = 'Propagator.m_enabled'
    busy = lambda c, h, p: And(h(ENB, p), h(PEND, p))
    isprop = lambda c, p: mem(c.pre(PROPS, c.this), p)
    none = lambda c, h: (lambda p: FA([p], Implies(mem(h(PROPS, c.this), p), Not(And(h(ENB, p), h(PEND, p)))), Select(acc(h(PROPS, c.this), 'mem'), p)))(fresh(IntSort(), 'p'))
    nonnull = lambda c: ('propagators exist', (lambda p: FA([p], Implies(isprop(c, p), p != 0), Select(acc(c.pre(PROPS, c.this), 'mem'), p)))(fresh(IntSort(), 'p')))
    idle = lambda st, L, p: None
    hv = lambda c, st: __import__('cv.spec', fromlist=['HV']).HV(c.eng, st)

    def l_idle(L):
        from cv.spec import HV
        return walk(lambda st, ent, p: Not(And(HV(L.eng, st)(ENB, p), HV(L.eng, st)(PEND, p))), 'no pending propagator passed')(L)
    add(CE('getNextPropagator', 0), requires=lambda c: [nonnull(c)], throws=lambda c: F_, loops=[l_idle],
        ensures=lambda c: [('no propagator is returned only if none has work', If(c.r == 0, none(c, c.pre), And(isprop(c, c.r), busy(c, c.pre, c.r))))])
    mgr = lambda c: c.pre(MGR, c.this)
    ismgr = lambda c: ('the violation manager', And(mgr(c) != 0, c.pre.is_exact(mgr(c), 'ViolationMgrImpl')))
    vempty = lambda c, h: acc(h(EMPTY, h(MGR, c.this)), 'card') > 0
    add(CE('hasEmptyVariables', 0), requires=lambda c: [ismgr(c)], throws=lambda c: F_, ensures=lambda c: [('some variable is empty', c.r == vempty(c, c.pre))])
    add(CE('provenInconsistent', 0), requires=lambda c: [ismgr(c)], throws=lambda c: F_, ensures=lambda c: [('inconsistent exactly when a variable is empty', c.r == vempty(c, c.pre))])
    add(CE('constraintConsistent', 0), requires=lambda c: [ismgr(c), nonnull(c)], throws=lambda c: F_, ensures=lambda c: [('consistent exactly when no variable is empty and no propagator has work', c.r == And(Not(vempty(c, c.pre)), none(c, c.pre)))])

    # ---- variable changes are forwarded
    RLXF = 'ConstraintEngine.m_relaxing'
    ENGM = lambda c: [(REDS, ANY), (EMPTY, ANY), (VIO, ANY), (OFF, ANY), (PEND, ANY), (DIRTY, ANY), (RELAXED, ANY), (LASTR, ANY), (CYC, ANY), (RELX, ANY), ('Constraint.$on', ANY), ('Constraint.$off', ANY), ('Constraint.$told', ANY)]
    def grows(c):
        x = fresh(IntSort(), 'x')
        return [('messages accumulate', FA([x], c.post('Constraint.$told', x) >= c.pre('Constraint.$told', x), Select(c.post.arr('Constraint.$told'), x))), ('work is not forgotten', FA([x], Implies(c.pre(DIRTY, x), c.post(DIRTY, x)), Select(c.post.arr(DIRTY), x)))]
    entries = lambda h, v: h(CONS, v)

    def distinct(c, v):
        s = entries(c.pre, v); i, j = fresh(IntSort(), 'i'), fresh(IntSort(), 'j'); a = acc(s, 'arr')
        return FA([i], Implies(And(0 <= i, i < acc(s, 'len')), acc(sel(a, i), 'first') != 0), Select(a, i))

    def l_told(L):
        from cv.spec import HV
        c = L.eng.ctx0

        def P(st, ent, e):
            h = HV(L.eng, st)
            x = acc(e, 'first')
            return Implies(And(c.a(1) != EV['EMPTIED'], h(OFF, x) == 0, Not(IGN(x, c.a(0), acc(e, 'second'), c.a(1)))), h('Constraint.$told', x) > c.pre('Constraint.$told', x))
        yield from walk(P, 'constraints told')(L)

        def mono(st, ent):
            x = fresh(IntSort(), 'x')
            return FA([x], HV(L.eng, st)('Constraint.$told', x) >= c.pre('Constraint.$told', x), Select(HV(L.eng, st).arr('Constraint.$told'), x))
        yield from state(mono, 'messages only accumulate')(L)
    trusted(F('Constraint', 'canIgnore', 3), 'which events a constraint may ignore (the implementations of the library have contracts)', ensures=lambda c: [('r', c.r == IGN(c.this, c.a(0), c.a(1), c.a(2)))])
    only = lambda *evs: (lambda c: [('ignores only changes that cannot matter', Implies(c.r, Or(*[And(c.a(1) == i, c.a(2) == EV[e]) for i, e in evs])))])
    for k in ('LessThanEqualConstraint', 'LessThanConstraint'): add(F(k, 'canIgnore', 3), throws=lambda c: F_, ensures=only((0, 'UB'), (1, 'LB')))
    add(F('UnaryConstraint', 'canIgnore', 3), throws=lambda c: c.a(1) != 0, ensures=lambda c: [('never ignores a relaxation', Implies(c.r, Not(Or(c.a(2) == EV['RESET'], c.a(2) == EV['RELAXED']))))])
    LASTD = z3.Function('lastDomainOf', IntSort(), IntSort())
    trusted(F('ConstrainedVariable', 'lastDomain', 0), 'a variable keeps its domain object', ensures=lambda c: [('r', And(c.r == LASTD(c.this), c.r != 0))])
    for n in ('isInterval', 'isFinite', 'getSize'): trusted(F('Domain', n, 0), 'properties P02/P03')
    add(F('NotEqualConstraint', 'canIgnore', 3), requires=lambda c: [('the variable', c.a(0) != 0)], throws=lambda c: F_, ensures=lambda c: [('never ignores a relaxation or a variable with a single value', Implies(c.r, Not(Or(c.a(2) == EV['RESET'], c.a(2) == EV['RELAXED'], SINGB(LASTD(c.a(0)))))))])
    add(CE('notify', 2), requires=lambda c: [ismgr(c), ('the variable', c.a(0) != 0), ('constraints exist', distinct(c, c.a(0)))], loops=[l_told], throws=lambda c: T_,
        modifies=lambda c: ENGM(c) + ['alloc', ('ConstraintEngine.m_mostRecentRepropagation', ANY), (RLXF, ANY)],
        ensures=lambda c: [('every active constraint of the variable that does not ignore the change is told, unless the domain is emptied',
                            (lambda s, i: FA([i], Implies(And(c.a(1) != EV['EMPTIED'], c.pre(VOFF, c.a(0)) == 0, 0 <= i, i < acc(s, 'len'), c.post(OFF, acc(sel(acc(s, 'arr'), i), 'first')) == 0, Not(IGN(acc(sel(acc(s, 'arr'), i), 'first'), c.a(0), acc(sel(acc(s, 'arr'), i), 'second'), c.a(1)))),
                                                                    c.post('Constraint.$told', acc(sel(acc(s, 'arr'), i), 'first')) > c.pre('Constraint.$told', acc(sel(acc(s, 'arr'), i), 'first'))), Select(acc(s, 'arr'), i)))(entries(c.pre, c.a(0)), fresh(IntSort(), 'i'))),
                           ('the engine remembers that there is work', c.post(DIRTY, c.this))])

    # ---- activation of constraints and variables
    trusted(F('Constraint', 'handleActivate', 0), 'hooks of derived constraints have no effect on the network'); trusted(F('Constraint', 'handleDeactivate', 0), 'hooks of derived constraints have no effect on the network')
    CI = lambda h, c: h('Constraint.m_constraintEngine', c.this)
    self_id = lambda c, cls: ('a handle to itself', And(c.pre(cls + '.m_id', c.this) == c.this, c.pre(cls + '.m_constraintEngine', c.this) != 0))
    ton = lambda c, x, n: (c.post('Constraint.$on', x) == c.pre('Constraint.$on', x) + n)
    tof = lambda c, x, n: (c.post('Constraint.$off', x) == c.pre('Constraint.$off', x) + n)
    add(CE('notifyDeactivated', 1, 'Id<EUROPA::Constraint>'), requires=lambda c: [('the constraint', c.a(0) != 0)], modifies=lambda c: [('Constraint.$off', c.a(0)), (PEND, ANY), (DIRTY, c.this)], throws=lambda c: c.pre(OFF, c.a(0)) == 0,
        ensures=lambda c: [('its propagator is told once', tof(c, c.a(0), 1)), ('the engine remembers that there is work', c.post(DIRTY, c.this))])
    add(CE('notifyActivated', 1, 'Id<EUROPA::Constraint>'), requires=lambda c: [('the constraint', c.a(0) != 0)], modifies=lambda c: [('Constraint.$on', c.a(0)), (PEND, ANY), (DIRTY, c.this)], throws=lambda c: c.pre(OFF, c.a(0)) != 0,
        ensures=lambda c: [('its propagator is told once', ton(c, c.a(0), 1)), ('the engine remembers that there is work', c.post(DIRTY, c.this))])
    add(CE('notifyRedundant', 1), requires=lambda c: [('the constraint', c.a(0) != 0)], modifies=lambda c: [('Constraint.$on', c.a(0)), (PEND, ANY), (DIRTY, c.this), (REDS, c.this)], throws=lambda c: F_,
        ensures=lambda c: [('an active redundant constraint is executed once more', ton(c, c.a(0), If(c.pre(OFF, c.a(0)) == 0, 1, 0))), ('and is noted as redundant exactly if it is active', sameset(c.pre(REDS, c.this), c.post(REDS, c.this), lambda x, o: Or(o, And(x == c.a(0), c.pre(OFF, x) == 0))))])
    EN = 'Constraint.m_constraintEngine'
    add(F('Constraint', 'deactivate', 0), interface=True, requires=lambda c: [self_id(c, 'Constraint'), ('count', c.pre(OFF, c.this) >= 0)], modifies=lambda c: [(OFF, c.this), ('Constraint.$off', c.this), (PEND, ANY), (DIRTY, ANY)], throws=lambda c: F_,
        ensures=lambda c: [('one more request', c.post(OFF, c.this) == c.pre(OFF, c.this) + 1), ('its propagator drops it exactly when it becomes inactive', tof(c, c.this, If(c.pre(OFF, c.this) == 0, 1, 0)))])
    gone = lambda h, x: And(h(RED, x), Not(mem(h(REDS, h(EN, x)), x)))
    add(CE('isPendingRedundant', 1), throws=lambda c: F_, ensures=lambda c: [('not executed since it became redundant', c.r == mem(c.pre(REDS, c.this), c.a(0)))])
    add(F('Constraint', 'undoDeactivation', 0), interface=True, requires=lambda c: [self_id(c, 'Constraint'), ('deactivated before', c.pre(OFF, c.this) > 0)], modifies=lambda c: [(OFF, c.this), ('Constraint.$on', c.this), (PEND, ANY), (DIRTY, ANY)], throws=lambda c: F_,
        ensures=lambda c: [('one request less unless it was executed and dropped as redundant', c.post(OFF, c.this) == c.pre(OFF, c.this) - If(gone(c.pre, c.this), 0, 1)), ('its propagator takes it back exactly when it becomes active', ton(c, c.this, If(And(c.pre(OFF, c.this) == 1, Not(gone(c.pre, c.this))), 1, 0)))])
    add(F('Constraint', 'deactivationCount', 0), throws=lambda c: F_, ensures=lambda c: [('requests', c.r == c.pre(OFF, c.this))])
    # redundancy
    trusted(F('ConstrainedVariable', 'baseDomain', 0), 'a variable keeps its base domain object', ensures=lambda c: [('r', And(c.r == BASES(c.this), c.r != 0))])
    trusted(F('Domain', 'isSingleton', 0), 'properties P02/P03', ensures=lambda c: [('r', c.r == SINGB(c.this))])
    trusted(F('Domain', 'isOpen', 0), 'property P03', ensures=lambda c: [('r', c.r == OPENB(c.this))])
    scope = lambda c, h=None: (h or c.pre)('Constraint.m_variables', c.this)
    allsing = lambda c: (lambda i, s: FA([i], Implies(And(0 <= i, i < acc(s, 'len')), SINGB(BASES(sel(acc(s, 'arr'), i)))), Select(acc(s, 'arr'), i)))(fresh(IntSort(), 'i'), scope(c))
    scopeok = lambda c: ('variables exist', (lambda i, s: FA([i], Implies(And(0 <= i, i < acc(s, 'len')), sel(acc(s, 'arr'), i) != 0), Select(acc(s, 'arr'), i)))(fresh(IntSort(), 'i'), scope(c)))
    redtest = lambda c: And(Implies(c.a(0) != 0, And(SINGB(BASES(c.a(0))), Not(OPENB(BASES(c.a(0)))))), allsing(c))
    add(F('Constraint', 'testIsRedundant', 1), interface=True, requires=lambda c: [scopeok(c)], throws=lambda c: F_, loops=[walk(lambda st, e, x: SINGB(BASES(x)), 'fixed')],
        ensures=lambda c: [('redundant only if every variable of the scope has a single base value', c.r == redtest(c))])
    add(F('Constraint', 'notifyBaseDomainRestricted', 1), interface=True, requires=lambda c: [scopeok(c), self_id(c, 'Constraint')], throws=lambda c: F_, modifies=lambda c: [(RED, c.this), ('Constraint.$on', c.this), (PEND, ANY), (DIRTY, ANY), (REDS, ANY)],
        ensures=lambda c: [('redundancy of an active constraint is recognised, and never forgotten', c.post(RED, c.this) == Or(c.pre(RED, c.this), And(redtest(c), c.pre(OFF, c.this) == 0))), ('a constraint that becomes redundant is executed once more', ton(c, c.this, If(And(Not(c.pre(RED, c.this)), redtest(c), c.pre(OFF, c.this) == 0), 1, 0)))])
    # variables
    first = lambda e: acc(e, 'first')

    def uniq(c):
        s = c.pre(CONS, c.this); i, j = fresh(IntSort(), 'i'), fresh(IntSort(), 'j'); a = acc(s, 'arr')
        ok = lambda i: And(0 <= i, i < acc(s, 'len'))
        x = first(sel(a, i))
        return [('a variable occurs once in each of its constraints', FA([i, j], Implies(And(ok(i), ok(j), i != j), first(sel(a, i)) != first(sel(a, j))), (Select(a, i), Select(a, j)))),
                ('its constraints exist', FA([i], Implies(ok(i), And(x != 0, c.pre('Constraint.m_id', x) == x, c.pre(EN, x) != 0, c.pre(OFF, x) >= 0)), Select(a, i)))]

    def l_cnt(P, Q, nm):
        def sp(L):
            from cv.spec import HV
            yield from walk(lambda st, e, x: P(HV(L.eng, st), L.eng.ctx0.pre, first(x)), nm, rest=lambda st, e, x: Q(HV(L.eng, st), L.eng.ctx0.pre, first(x)))(L)
        return sp
    allc = lambda c, P: (lambda i, s: FA([i], Implies(And(0 <= i, i < acc(s, 'len')), P(c.post, c.pre, first(sel(acc(s, 'arr'), i)))), Select(acc(s, 'arr'), i)))(fresh(IntSort(), 'i'), c.pre(CONS, c.this))
    dec = lambda h, p, x: And(h(OFF, x) == p(OFF, x) + 1, h('Constraint.$off', x) == p('Constraint.$off', x) + If(p(OFF, x) == 0, 1, 0))
    act = lambda h, p, x: And(h(OFF, x) == p(OFF, x) - If(gone(p, x), 0, 1), h('Constraint.$on', x) == p('Constraint.$on', x) + If(And(p(OFF, x) == 1, Not(gone(p, x))), 1, 0))
    same = lambda h, p, x: And(h(OFF, x) == p(OFF, x), h('Constraint.$on', x) == p('Constraint.$on', x), h('Constraint.$off', x) == p('Constraint.$off', x))
    for n, old in (('notifyDeactivated', F_), ('notifyActivated', F_)):
        trusted(CE(n, 1, 'Id<EUROPA::ConstrainedVariable>'), 'tells propagators and listeners about the variable', modifies=lambda c: [(DIRTY, c.this), (PEND, ANY)])
    CVM = lambda c: [(VOFF, c.this), (OFF, ANY), ('Constraint.$off', ANY), ('Constraint.$on', ANY), (PEND, ANY), (DIRTY, ANY)]
    add(F('ConstrainedVariable', 'deactivate', 0), interface=True, requires=lambda c: [self_id(c, 'ConstrainedVariable')] + uniq(c), modifies=CVM, throws=lambda c: F_, loops=[l_cnt(dec, same, 'deactivated')],
        ensures=lambda c: [('one more request', c.post(VOFF, c.this) == c.pre(VOFF, c.this) + 1), ('each of its constraints gets one more request', allc(c, dec))])
    add(F('ConstrainedVariable', 'undoDeactivation', 0), interface=True, requires=lambda c: [self_id(c, 'ConstrainedVariable'), ('deactivated before', c.pre(VOFF, c.this) > 0), ('its constraints are deactivated', allc(type('X', (), dict(pre=c.pre, post=c.pre, this=c.this))(), lambda h, p, x: p(OFF, x) > 0))] + uniq(c), modifies=CVM, throws=lambda c: F_, loops=[l_cnt(act, same, 'activated')],
        ensures=lambda c: [('one request less', c.post(VOFF, c.this) == c.pre(VOFF, c.this) - 1), ('each of its constraints loses one request', allc(c, act))])
    anyc = lambda c, P: (lambda i, s: Exists([i], And(0 <= i, i < acc(s, 'len'), P(first(sel(acc(s, 'arr'), i))))))(fresh(IntSort(), 'i'), c.pre(CONS, c.this))

    def l_none(P, nm):
        def sp(L):
            yield from walk(lambda st, e, x: Not(P(L.eng.ctx0, first(x))), nm)(L)
        return sp
    cex = lambda c: [uniq(c)[1]]
    add(F('ConstrainedVariable', 'isConstrainedBy', 1), interface=True, throws=lambda c: F_, requires=cex, loops=[l_none(lambda c, x: x == c.a(0), 'another')], ensures=lambda c: [('whether the constraint is attached', c.r == anyc(c, lambda x: x == c.a(0)))])
    add(F('ConstrainedVariable', 'hasActiveConstraint', 0), interface=True, throws=lambda c: F_, requires=cex, loops=[l_none(lambda c, x: c.pre(OFF, x) == 0, 'inactive')], ensures=lambda c: [('whether an active constraint is attached', c.r == anyc(c, lambda x: c.pre(OFF, x) == 0))])

    # ---- violations
    VM = lambda n, a=None: F('ViolationMgrImpl', n, a)
    vset = lambda c, P: sameset(c.pre(VIO, c.this), c.post(VIO, c.this), P)
    add(VM('isViolated', 1), throws=lambda c: F_, ensures=lambda c: [('whether the constraint is violated', c.r == mem(c.pre(VIO, c.this), c.a(0)))])
    add(VM('canContinuePropagation', 0), throws=lambda c: F_, ensures=lambda c: [('fewer violations than allowed', c.r == (acc(c.pre(VIO, c.this), 'card') < c.pre(MAXV, c.this)))])
    cok = lambda c: [('the constraint', And(c.a(0) != 0, c.pre('Constraint.m_id', c.a(0)) == c.a(0), c.pre(EN, c.a(0)) != 0))]
    for n in ('notifyViolationAdded', 'notifyViolationRemoved'): trusted(CE(n, 1), 'tells the listeners', modifies=lambda c: [(DIRTY, c.this)])
    add(VM('addViolatedConstraint', 1), requires=lambda c: cok(c) + [('count', c.pre(OFF, c.a(0)) >= 0)], throws=lambda c: F_, modifies=lambda c: [(VIO, c.this), (OFF, c.a(0)), ('Constraint.$off', c.a(0)), (PEND, ANY), (DIRTY, ANY)],
        ensures=lambda c: [('the constraint is violated, others as before', vset(c, lambda x, o: Or(o, x == c.a(0)))), ('it no longer propagates', c.post(OFF, c.a(0)) == c.pre(OFF, c.a(0)) + 1)])
    add(VM('removeViolatedConstraint', 1), requires=lambda c: cok(c) + [('deactivated', c.pre(OFF, c.a(0)) > 0)], throws=lambda c: Not(mem(c.pre(VIO, c.this), c.a(0))), modifies=lambda c: [(VIO, c.this), (OFF, c.a(0)), ('Constraint.$on', c.a(0)), (PEND, ANY), (DIRTY, ANY)],
        ensures=lambda c: [('the constraint is no longer violated, others as before', vset(c, lambda x, o: And(o, x != c.a(0)))), ('it propagates again unless it was executed and dropped as redundant', c.post(OFF, c.a(0)) == c.pre(OFF, c.a(0)) - If(gone(c.pre, c.a(0)), 0, 1))])
    add(VM('handleRemoved', 1), throws=lambda c: F_, modifies=lambda c: [(VIO, c.this), (DIRTY, ANY)], ensures=lambda c: [('a deleted constraint is not violated, others as before', vset(c, lambda x, o: And(o, x != c.a(0))))])
    eset = lambda c, P: sameset(c.pre(EMPTY, c.this), c.post(EMPTY, c.this), P)
    add(VM('isEmpty', 1), throws=lambda c: F_, ensures=lambda c: [('whether the variable was emptied', c.r == mem(c.pre(EMPTY, c.this), c.a(0)))])
    add(VM('addEmptyVariable', 1), throws=lambda c: F_, modifies=lambda c: [(EMPTY, c.this)], ensures=lambda c: [('the variable is remembered, others as before', eset(c, lambda x, o: Or(o, x == c.a(0)))), ('!', acc(c.post(EMPTY, c.this), 'card') > 0)])
    add(VM('clearEmptyVariables', 0), throws=lambda c: F_, modifies=lambda c: [(EMPTY, c.this)], ensures=lambda c: [('forgets all', And(acc(c.post(EMPTY, c.this), 'card') == 0, eset(c, lambda x, o: F_)))])
    add(VM('setMaxViolationsAllowed', 1), throws=lambda c: acc(c.pre(VIO, c.this), 'card') != 0, modifies=lambda c: [(MAXV, c.this)], ensures=lambda c: [('limit', c.post(MAXV, c.this) == c.a(0))])
    def grow_l(L):
        from cv.spec import HV
        def f(i):
            def g(st, ent):
                h = HV(L.eng, st); p = L.eng.ctx0.pre; x = fresh(IntSort(), 'x')
                return FA([x], h('Constraint.$told', x) >= p('Constraint.$told', x), Select(h.arr('Constraint.$told'), x)) if i == 0 else FA([x], Implies(p(DIRTY, x), h(DIRTY, x)), Select(h.arr(DIRTY), x))
            return g
        yield from state(f(0), 'messages accumulate')(L)
        yield from state(f(1), 'work is not forgotten')(L)
    trusted(F('ConstrainedVariable', 'relax', 0), 'relaxing a variable (property P08) may relax others', modifies=lambda c: ENGM(c), ensures=grows)
    add(VM('relaxEmptyVariables', 0), throws=lambda c: T_, modifies=lambda c: ENGM(c), loops=[grow_l],
        ensures=lambda c: grows(c) + [('no variable is left empty', Implies(Not(c.pre(RELX, c.this)), And(acc(c.post(EMPTY, c.this), 'card') == 0, Not(c.post(RELX, c.this)))))])

    # ---- engine
    trusted(F('ConstrainedVariable', 'getCurrentPropagatingConstraint', 0), 'the constraint being executed')
    trusted(F('Constraint', 'notifyViolated', 0), 'adds the constraint to the violated ones (see addViolatedConstraint)', modifies=lambda c: [(VIO, ANY), (OFF, ANY), (PEND, ANY), (DIRTY, ANY)])
    trusted(F('Constraint', 'notifyNoLongerViolated', 0), 'takes the constraint from the violated ones (see removeViolatedConstraint)', modifies=lambda c: [(VIO, ANY), (OFF, ANY), (PEND, ANY), (DIRTY, ANY)])
    trusted(F('ConstrainedVariable', 'getCurrentDomain', 0), 'a variable keeps its domain object')
    trusted(F('Domain', 'isEmpty', 0), 'properties P02/P03')
    add(CE('handleEmpty', 1), requires=lambda c: [ismgr(c), ('the variable', c.a(0) != 0)], throws=lambda c: T_, modifies=lambda c: [(EMPTY, mgr(c)), (VIO, ANY), (OFF, ANY), (PEND, ANY), (DIRTY, ANY)],
        ensures=lambda c: [('the inconsistency is remembered', And(mem(c.post(EMPTY, mgr(c)), c.a(0)), acc(c.post(EMPTY, mgr(c)), 'card') > 0))])
    add(CE('handleRestrict', 1), requires=lambda c: [('the variable', c.a(0) != 0)], throws=lambda c: F_, modifies=lambda c: [(RELAXED, c.this)], ensures=lambda c: [('only that variable is no longer waiting to be propagated as relaxed', sameset(c.pre(RELAXED, c.this), c.post(RELAXED, c.this), lambda x, o: And(o, x != c.a(0))))])
    trusted(VM('handleRelax', 1), 'restores violated constraints of the relaxed variable', modifies=ENGM, ensures=grows)
    RLX = 'ConstraintEngine.m_relaxing'
    add(CE('incrementCycle', 0), requires=lambda c: [('not propagating while relaxed', Or(Not(c.pre(PROG, c.this)), acc(c.pre(RELAXED, c.this), 'card') == 0))], throws=lambda c: F_, modifies=lambda c: [(CYC, c.this), ('ConstraintEngine.m_mostRecentRepropagation', c.this)],
        ensures=lambda c: [('a new cycle', c.post(CYC, c.this) == c.pre(CYC, c.this) + 1)])
    # the relaxation agenda
    MODV = z3.Function('modifiedVariables', IntSort(), IntSort(), c_seq(db, reg))
    trusted(F('Constraint', 'getModifiedVariables', 1), 'which variables a constraint may modify', ensures=lambda c: [('r', c.r == MODV(c.this, c.a(0)))])
    reach = lambda c, x: And(Not(c.pre(VSPEC, x)), c.pre(LASTR, x) < c.pre(CYC, c.this))

    def l_noprop(L):
        from cv.spec import HV
        yield from state(lambda st, ent: acc(HV(L.eng, st)(RELAXED, L.eng.ctx0.this), 'card') == 0, 'nothing relaxed')(L)
        yield from state(lambda st, ent: Not(HV(L.eng, st)(PROG, L.eng.ctx0.this)), 'not propagating')(L)
    def l_link(L):
        from cv.spec import HV
        c = L.eng.ctx0
        vis = lambda st: c.args[3].read(st)

        def inner(st, ent, x): return Implies(reach(c, x), mem(vis(st), x)) if x.sort() == IntSort() else None

        def outer(st, ent, e):
            if e.sort() == IntSort(): return None
            k = first(e); m = MODV(k, c.a(0)); j = fresh(IntSort(), 'j')
            return FA([j], Implies(And(c.pre(OFF, k) == 0, 0 <= j, j < acc(m, 'len'), reach(c, sel(acc(m, 'arr'), j))), mem(vis(st), sel(acc(m, 'arr'), j))), Select(acc(m, 'arr'), j))
        yield from walk(inner, 'linked')(L)
        yield from walk(outer, 'linked constraints')(L)
        x = fresh(IntSort(), 'x')
        yield from state(lambda st, ent: FA([x], Implies(mem(c.args[3].read(c.prest), x), mem(vis(st), x)), Select(acc(vis(st), 'mem'), x)), 'visited grows')(L)
        yield from state(lambda st, ent: FA([x], Implies(mem(vis(ent), x), mem(vis(st), x)), Select(acc(vis(st), 'mem'), x), Select(acc(vis(ent), 'mem'), x)), 'visited grows in the loop')(L)
    add(CE('addLinkedVarsForRelaxation'), requires=lambda c: [('the variable', c.a(0) != 0)] + [('constraints exist', distinct(c, c.a(0)))], throws=lambda c: F_, loops=[l_link], opts=dict(iters={2: 1}), modifies=lambda c: [('arg', 1), ('arg', 3)],
        ensures=lambda c: [('every variable that an active constraint of the relaxed variable may modify is marked for relaxation, unless it is specified or was relaxed in this cycle',
            (lambda i, j, s: FA([i, j], Implies(And(0 <= i, i < acc(s, 'len'), c.pre(OFF, first(sel(acc(s, 'arr'), i))) == 0, 0 <= j, j < acc(MODV(first(sel(acc(s, 'arr'), i)), c.a(0)), 'len'), reach(c, sel(acc(MODV(first(sel(acc(s, 'arr'), i)), c.a(0)), 'arr'), j))),
                    mem(c.ap(3), sel(acc(MODV(first(sel(acc(s, 'arr'), i)), c.a(0)), 'arr'), j))), (Select(acc(s, 'arr'), i), Select(acc(MODV(first(sel(acc(s, 'arr'), i)), c.a(0)), 'arr'), j))))(fresh(IntSort(), 'i'), fresh(IntSort(), 'j'), entries(c.pre, c.a(0)))),
            ('nothing marked is unmarked', (lambda x: FA([x], Implies(mem(c.a(3), x), mem(c.ap(3), x)), Select(acc(c.ap(3), 'mem'), x)))(fresh(IntSort(), 'x')))])
    trusted(CE('handleRelax', 1), 'relaxes the variables linked to the relaxed one, see addLinkedVarsForRelaxation (bounded check)', modifies=lambda c: ENGM(c) + ['alloc', (RLX, c.this), ('ConstraintEngine.m_mostRecentRepropagation', c.this)], ensures=grows)
    # propagation
    reds = lambda c: c.pre(REDS, c.this)

    def l_red(L):
        from cv.spec import HV
        c = L.eng.ctx0
        x = fresh(IntSort(), 'x')
        yield from walk(lambda st, e, x: dropped(HV(L.eng, st), c.pre, x), 'dropped', rest=lambda st, e, x: same(HV(L.eng, st), c.pre, x))(L)
        yield ('others unchanged', lambda st: FA([x], Implies(Not(mem(reds(c), x)), same(HV(L.eng, st), c.pre, x)), HV(L.eng, st)(OFF, x), HV(L.eng, st)('Constraint.$on', x), HV(L.eng, st)('Constraint.$off', x)))
        yield ('set unchanged', lambda st: HV(L.eng, st)(REDS, c.this) == reds(c))
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
            for q in L.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort().eq(reds(c).sort()), True):
                yield ('kept:%s:%s' % (k[1], q[1]), lambda st, k=k, q=q: FA([x], mem(st.env[q], x) == And(mem(reds(c), x), Or(st.env[k].pos[0], x < st.env[k].pos[1]), c.pre(OFF, x) != 0), Select(acc(st.env[q], 'mem'), x), Select(acc(reds(c), 'mem'), x)))
    dropped = lambda h, p, x: And(h(OFF, x) == p(OFF, x) + If(p(OFF, x) == 0, 1, 0), h('Constraint.$on', x) == p('Constraint.$on', x), h('Constraint.$off', x) == p('Constraint.$off', x) + If(p(OFF, x) == 0, 1, 0))
    add(CE('processRedundantConstraints', 0), requires=lambda c: [ismgr(c), nonnull(c), ('!the redundant constraints', (lambda x: FA([x], Implies(mem(reds(c), x), And(x != 0, c.pre(RED, x), c.pre('Constraint.m_id', x) == x, c.pre(EN, x) != 0, c.pre(OFF, x) >= 0)), Select(acc(reds(c), 'mem'), x)))(fresh(IntSort(), 'x')))],
        modifies=lambda c: [(OFF, ANY), ('Constraint.$off', ANY), (PEND, ANY), (DIRTY, ANY), (REDS, c.this)], throws=lambda c: T_, loops=[l_red],
        ensures=lambda c: [('exactly the active ones are dropped', (lambda x: FA([x], If(mem(reds(c), x), dropped(c.post, c.pre, x), same(c.post, c.pre, x)), c.post(OFF, x)))(fresh(IntSort(), 'x'))),
                           ('what has not been executed yet is not forgotten', sameset(reds(c), c.post(REDS, c.this), lambda x, o: And(o, c.pre(OFF, x) != 0)))])
    trusted(F('PostPropagationCallback', 'operator()', 0), 'a callback may do anything to the network', modifies=lambda c: ENGM(c) + [(PROG, ANY), (AUTO, ANY)], ensures=lambda c: [('not propagating', (lambda x: FA([x], Implies(Not(c.pre(PROG, x)), Not(c.post(PROG, x))), Select(c.post.arr(PROG), x)))(fresh(IntSort(), 'x')))])
    done = lambda c: And(Not(vempty(c, c.post)), none(c, c.post))
    keepmgr = lambda c: [ismgr(c), nonnull(c)]
    add(CE('doPropagate', 0), loops=[l_noprop], requires=keepmgr, throws=lambda c: T_, modifies=lambda c: ENGM(c) + [(PROG, c.this), (AUTO, ANY), (ACT, ANY), ('ConstraintEngine.m_mostRecentRepropagation', c.this), (PROG, ANY), 'alloc'],
        ensures=lambda c: [('consistent is reported only when no variable is empty and no propagator has work', Implies(And(c.r, c.pre(DIRTY, c.this)), done(c))),
                           ('inconsistency is reported only when a variable is empty or a propagator has work', Implies(Not(c.r), Not(done(c))))])


def c_seq(db, reg):
    """the sort of std::vector<ConstrainedVariableId>"""
    from cv.engine import mksort
    return mksort('seq', IntSort())


def agcard(s):
    x = fresh(acc(s, 'mem').domain(), 'x')
    return And(acc(s, 'card') >= 0, (acc(s, 'card') > 0) == Exists([x], mem(s, x)))
