"""P13 (candidates): what a flaw manager holds as candidates follows the variables and tokens as they change."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, Iter
from cv.spec import ANY, HV
from specs.dom import find1, EV
from specs.util import FA
TUS = ['Solvers/component/UnboundVariableManager.cc', 'Solvers/component/OpenConditionManager.cc', 'PlanDatabase/base/Token.cc', 'PlanDatabase/base/PlanDatabase.cc', 'ConstraintEngine/base/ConstraintEngine.cc']
PROP = 'P13'
E = 'EUROPA::'
S = E + 'SOLVERS::'
f = lambda c, n: S + c + '.' + n
I_, B_ = IntSort(), BoolSort()
SPEC, CANSPEC, ISTATE, ACTIVE, INACTIVE, FINITE = [z3.Function(n, I_, B_) for n in ('specified', 'specifiable', 'isStateVariable', 'tokenActive', 'tokenInactive', 'finite')]
STATIC, DYN = [z3.Function(n, I_, I_, B_) for n in ('excludedStatically', 'excludedDynamically')]
PARENT, LASTD = [z3.Function(n, I_, I_) for n in ('parentOf', 'lastDomainOf')]
SVAL = z3.Function('specifiedValue', I_, RealSort())
mem = lambda s, x: sel(acc(s, 'mem'), x)


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, cls, short, nargs, sub)
    for n in ('toString', 'toShortString', 'toLongString', 'getEntityName', 'getName', 'getKey'):
        for cls in ('Entity', 'SOLVERS::FlawManager', 'Token', 'Object', 'ConstrainedVariable'): reg.opaque.add('%s%s::%s' % (E, cls, n))

    def trust(key, why, **kw): reg.add(key, trusted=why, interface=True, throws=lambda c: F_, **kw)
    add = lambda key, **kw: reg.add(key, prop='P13', throws=kw.pop('throws', lambda c: F_), **kw)
    fm = lambda n, a=None: F(S + 'FlawManager', n, a)
    V, T, U, O = E + 'ConstrainedVariable', E + 'Token', 'UnboundVariableManager', 'OpenConditionManager'
    trust(F(V, 'isSpecified', 0), 'a value is specified (P08)', ensures=lambda c: [('r', c.r == SPEC(c.this))])
    trust(F(V, 'canBeSpecified', 0), 'may be specified', ensures=lambda c: [('r', c.r == CANSPEC(c.this))])
    trust(F(V, 'getSpecifiedValue', 0), 'the specified value (P08)', ensures=lambda c: [('r', c.r == SVAL(c.this))])
    trust(F(V, 'parent', 0), 'the entity it belongs to', ensures=lambda c: [('r', c.r == PARENT(c.this))])
    trust(F(V, 'lastDomain', 0), 'the current domain', ensures=lambda c: [('r', And(c.r == LASTD(c.this), c.r > 0))])
    trust(F(E + 'Domain', 'areBoundsFinite', 0), 'finite bounds (P02)', ensures=lambda c: [('r', c.r == FINITE(c.this))])
    trust(F(T, 'isActive', 0), 'active (P12)', ensures=lambda c: [('r', c.r == ACTIVE(c.this))])
    trust(F(T, 'isInactive', 0), 'inactive (P12)', ensures=lambda c: [('r', c.r == INACTIVE(c.this))])
    trust(F(T, 'isStateVariable', 1), 'the state variable of its token', ensures=lambda c: [('r', c.r == ISTATE(c.a(0)))])
    trust(fm('staticMatch', 1), 'filters exclude it for good', ensures=lambda c: [('r', c.r == STATIC(c.this, c.a(0)))])
    trust(fm('dynamicMatch', 1), 'filters exclude it now', ensures=lambda c: [('r', c.r == DYN(c.this, c.a(0)))])
    trust(F(S + 'FlawManager', 'notifyRemoved', 1, 'ConstrainedVariable'), 'forgets what it cached about it')
    UF, OF = f(U, 'm_flawCandidates'), f(O, 'm_flawCandidates')

    def cset(c, k, P):
        x = fresh(I_, 'x'); s, o = c.post(k, c.this), c.pre(k, c.this)
        return FA([x], mem(s, x) == P(x, mem(o, x)), mem(s, x))

    nonnull = lambda c: [('a variable', c.a(0) != 0)]
    me = lambda k: (lambda c: [(k, c.this)])
    # --- tokens
    add(F(S + O, 'addFlaw', 1), requires=nonnull, modifies=me(OF), ensures=lambda c: [('an inactive token that is not excluded becomes a candidate, others as before', cset(c, OF, lambda x, o: Or(o, And(x == c.a(0), INACTIVE(x), Not(STATIC(c.this, x))))))])
    add(F(S + O, 'removeFlaw', 1), modifies=me(OF), ensures=lambda c: [('it is no candidate any more, others as before', cset(c, OF, lambda x, o: And(o, x != c.a(0))))])
    par = lambda c: PARENT(c.a(0))
    owned = lambda c: nonnull(c) + [('the state variable of a token', Implies(ISTATE(c.a(0)), And(par(c) != 0, c.pre.isa(par(c), 'Token'))))]
    CT = dict(RESTRICT_TO_SINGLETON=EV['RSING'], SET_TO_SINGLETON=EV['SSING'], RESET=EV['RESET'], RELAXED=EV['RELAXED'], CLOSED=EV['CLOSED'])
    add(F(S + O, 'notifyRemoved', 1, 'ConstrainedVariable'), requires=owned, modifies=me(OF), ensures=lambda c: [('the token of a removed state variable is no candidate', cset(c, OF, lambda x, o: And(o, Not(And(ISTATE(c.a(0)), x == par(c))))))])
    add(F(S + O, 'notifyChanged', 2), requires=owned, modifies=me(OF), ensures=lambda c: [('a token is a candidate from the time it becomes free until its state is decided', cset(c, OF, lambda x, o: If(Not(ISTATE(c.a(0))), o,
        If(Or(c.a(1) == CT['RESET'], c.a(1) == CT['CLOSED']), Or(o, And(x == par(c), INACTIVE(x), Not(STATIC(c.this, x)))), If(c.a(1) == CT['SET_TO_SINGLETON'], And(o, x != par(c)), o)))))])
    # --- variables
    isTok = lambda c, v: And(PARENT(v) != 0, c.pre.isa(PARENT(v), 'Token'))
    nonact = lambda c, v: And(isTok(c, v), Not(ACTIVE(PARENT(v))))
    flaw = lambda c, v: And(Not(nonact(c, v)), CANSPEC(v), Not(SPEC(v)), Not(STATIC(c.this, v)))
    add(F(S + U, 'variableOfNonActiveToken', 1), requires=nonnull, ensures=lambda c: [('r', c.r == nonact(c, c.a(0)))])
    add(F(S + U, 'removeFlaw', 1), modifies=me(UF), ensures=lambda c: [('it is no candidate any more, others as before', cset(c, UF, lambda x, o: And(o, x != c.a(0))))])
    add(F(S + U, 'updateFlaw', 1), requires=nonnull, modifies=me(UF), ensures=lambda c: [('a candidate exactly if it can be decided and is not excluded, others as before', cset(c, UF, lambda x, o: If(x == c.a(0), flaw(c, x), o)))])
    add(F(S + U, 'notifyRemoved', 1, 'ConstrainedVariable'), modifies=me(UF), ensures=lambda c: [('it is no candidate any more, others as before', cset(c, UF, lambda x, o: And(o, x != c.a(0))))])
    add(F(S + U, 'dynamicMatch', 1), requires=nonnull, ensures=lambda c: [('excluded if filtered, specified or infinite', c.r == Or(DYN(c.this, c.a(0)), SPEC(c.a(0)), Not(FINITE(LASTD(c.a(0))))))])
    VARS = E + 'Token.m_allVariables'
    vs = lambda c: c.pre(VARS, par(c))
    at = lambda q, i: sel(acc(q, 'arr'), i)
    ln = lambda q: acc(q, 'len')
    on = lambda c: And(c.a(1) == CT['SET_TO_SINGLETON'], ISTATE(c.a(0)), SVAL(c.a(0)) == z3.ToReal(z3.Const('Gc@EUROPA::Token::ACTIVE', I_)))
    off = lambda c: And(c.a(1) == CT['RESET'], ISTATE(c.a(0)))
    upd = lambda c: And(Not(off(c)), Or(*[c.a(1) == CT[n] for n in ('RESET', 'CLOSED', 'RELAXED', 'RESTRICT_TO_SINGLETON')]))

    def upto(c, now, n, P):
        i, x = fresh(I_, 'i'), fresh(I_, 'x'); old = c.pre(UF, c.this)
        return And(FA([i], Implies(And(i >= 0, i < n), mem(now, at(vs(c), i)) == P(at(vs(c), i))), at(vs(c), i)),
                   FA([x], Implies(mem(now, x) != mem(old, x), Exists([i], And(i >= 0, i < n, at(vs(c), i) == x))), mem(now, x)))

    def l_vars(nm, P):
        def sp(L):
            c = L.eng.ctx0
            for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'seq', True):
                yield ('%s:%s' % (nm, k[1]), lambda st, k=k: And(st.env[k].pos[0] >= 0, st.env[k].pos[0] <= ln(vs(c)), upto(c, HV(L.eng, st)(UF, c.this), st.env[k].pos[0], lambda v: P(c, v))))
            for k in L.locals(lambda v: z3.is_expr(v) and z3.is_int(v), True):
                yield ('%s:%s' % (nm, k[1]), lambda st, k=k: And(st.env[k] >= 0, st.env[k] <= ln(vs(c)), upto(c, HV(L.eng, st)(UF, c.this), st.env[k], lambda v: P(c, v))))
            yield ('%s: token unchanged' % nm, lambda st: HV(L.eng, st)(VARS, par(c)) == vs(c))
        return sp
    add(F(S + U, 'notifyChanged', 2), requires=lambda c: owned(c) + [('its variables', (lambda i: And(ln(vs(c)) >= 0, FA([i], Implies(And(i >= 0, i < ln(vs(c))), at(vs(c), i) != 0), at(vs(c), i))))(fresh(I_, 'i')))], modifies=me(UF), loops=[l_vars('updated', flaw), l_vars('dropped', lambda c, v: F_)],
        ensures=lambda c: [('activation makes candidates of the variables of the token that can be decided, and of no other', Implies(on(c), upto(c, c.post(UF, c.this), ln(vs(c)), lambda v: flaw(c, v)))),
                           ('a token that becomes free leaves no candidate behind', Implies(off(c), upto(c, c.post(UF, c.this), ln(vs(c)), lambda v: F_))),
                           ('a specified variable is no candidate', Implies(And(c.a(1) == CT['SET_TO_SINGLETON'], Not(on(c))), cset(c, UF, lambda x, o: And(o, x != c.a(0))))),
                           ('a released, closed or restricted one is a candidate exactly if it can be decided', Implies(upd(c), cset(c, UF, lambda x, o: If(x == c.a(0), flaw(c, x), o)))),
                           ('nothing else changes', Implies(Not(Or(c.a(1) == CT['SET_TO_SINGLETON'], off(c), upd(c))), cset(c, UF, lambda x, o: o)))])
    # --- what is there when the manager starts
    DB, CEN, CEV, TKS = f('FlawManager', 'm_db'), E + 'PlanDatabase.m_constraintEngine', E + 'ConstraintEngine.m_variables', E + 'PlanDatabase.m_tokens'
    db_ = lambda c: c.pre(DB, c.this)

    def init(cls, K, everything, P):
        def spec(L):
            c = L.eng.ctx0; x = fresh(I_, 'x')
            for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
                yield ('considered:%s' % (k[1],), lambda st, k=k: FA([x], mem(HV(L.eng, st)(K, c.this), x) == If(And(mem(everything(c), x), Or(st.env[k].pos[0], x < st.env[k].pos[1])), P(c, x, mem(c.pre(K, c.this), x)), mem(c.pre(K, c.this), x)), mem(HV(L.eng, st)(K, c.this), x)))
        add(F(S + cls, 'handleInitialize', 0), requires=lambda c: [('a plan database', And(db_(c) > 0, c.pre(CEN, db_(c)) > 0)), ('entities', (lambda x: FA([x], Implies(mem(everything(c), x), x > 0), mem(everything(c), x)))(fresh(I_, 'x')))], modifies=me(K), loops=[spec],
            ensures=lambda c: [('everything there is is considered', cset(c, K, lambda x, o: If(mem(everything(c), x), P(c, x, o), o)))])
    init(U, UF, lambda c: c.pre(CEV, c.pre(CEN, db_(c))), lambda c, x, o: flaw(c, x))
    init(O, OF, lambda c: c.pre(TKS, db_(c)), lambda c, x, o: Or(o, And(INACTIVE(x), Not(STATIC(c.this, x)))))
