"""P12 (token states): which tokens are inactive, active, merged, rejected, and how merged and active tokens are linked.

The state of a token is the specified value of its state variable. WELL: a token is in the merged tokens of an active token exactly when its state is MERGED and that
token is its active token; a token in any other state has no active token and no memento of a merge."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh
from cv.spec import ANY, HV
from cv.stl import setfacts
from specs.dom import find1
from specs.util import walk, index, state, FA
TUS = ['PlanDatabase/base/Token.cc', 'PlanDatabase/component/IntervalToken.cc', 'PlanDatabase/base/UnifyMemento.cc', 'ConstraintEngine/base/ConstrainedVariable.cc']
PROP = 'P12'
E = 'EUROPA::'
SPEC, SVAL = 'ConstrainedVariable.m_specifiedFlag', 'ConstrainedVariable.m_specifiedValue'
T = lambda f: 'Token.m_' + f
ST, ACT, MG, MEM, MASTER, SLAVES, COMM, DEL, TERM = [T(f) for f in ('state', 'activeToken', 'mergedTokens', 'unifyMemento', 'master', 'slaves', 'committed', 'deleted', 'terminated')]
REF = 'Entity.m_refCount'
PARENT, LOCS, LOCV = ['EUROPA::TokenVariable<EUROPA::StateDomain>.m_' + f for f in ('parentToken', 'isLocallySpecified', 'localSpecifiedValue')]
TOK = z3.Function('tokenOfState', IntSort(), IntSort())
mem = lambda s, x: sel(acc(s, 'mem'), x)


def val(h, k): return ToReal(z3.Int('Gc@EUROPA::Token::' + k))
def isst(h, t, k): return And(h(SPEC, h(ST, t)), h(SVAL, h(ST, t)) == val(h, k))
def active(h, t): return isst(h, t, 'ACTIVE')
def merged(h, t): return isst(h, t, 'MERGED')
def rejected(h, t): return isst(h, t, 'REJECTED')
def free(h, t): return Not(h(SPEC, h(ST, t)))
NAMES = lambda h: Distinct(*[val(h, k) for k in ('ACTIVE', 'MERGED', 'REJECTED', 'INACTIVE', 'INCOMPLETE')])


def links(h, but=None):
    """WELL, apart from the token but"""
    a, t = fresh(IntSort(), 'a'), fresh(IntSort(), 't')
    ex = lambda x: x != but if but is not None else T_
    m = h.arr(MG)
    return And(FA([t], Implies(And(t != 0, ex(t)), TOK(h(ST, t)) == t), Select(h.arr(ST), t)) if but is None else T_,
               FA([a, t], Implies(And(mem(sel(m, a), t), ex(t)), And(t != 0, a != 0, merged(h, t), h(ACT, t) == a, active(h, a))), Select(acc(Select(m, a), 'mem'), t)),
               FA([t], Implies(And(t != 0, ex(t), merged(h, t)), And(h(ACT, t) != 0, mem(sel(m, h(ACT, t)), t))), Select(h.arr(ACT), t), Select(h.arr(ST), t)),
               FA([t], Implies(And(t != 0, ex(t), Not(merged(h, t))), h(ACT, t) == 0), Select(h.arr(ACT), t), Select(h.arr(ST), t)),
               FA([t], Implies(And(t != 0, ex(t)), (h(MEM, t) != 0) == merged(h, t)), Select(h.arr(MEM), t), Select(h.arr(ST), t)))


def states(h):
    """state variables belong to one token each and take no other values"""
    t = fresh(IntSort(), 't')
    return FA([t], Implies(t != 0, And(TOK(h(ST, t)) == t, h(ST, t) != 0, h(PARENT, h(ST, t)) == t, h(T('object'), t) != 0)), Select(h.arr(ST), t))


def noflag(L):
    for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_bool(v), changed=True):
        yield ('flag:%s' % k[1], lambda st, k=k: Not(st.env[k]))


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)
    for cls in ('Entity', 'ConstrainedVariable', 'Constraint', 'Token', 'TokenVariable<EUROPA::StateDomain>'):
        for n in ('toString', 'toLongString', 'getName', 'getEntityName', 'getEntityType'): reg.opaque.add('%s%s::%s' % (E, cls, n))
    reg.opaque |= {E + 'operator<<', E + 'Domain::toString'}

    def add(key, **kw): reg.add(key, prop='P12', **kw)

    def trust(key, why, **kw):
        kw.setdefault('throws', lambda c: F_)
        reg.add(key, trusted=why, interface=True, **kw)
    tk = lambda n, a=None: F('Token', n, a)
    SVAR = 'TokenVariable<EUROPA::StateDomain>'
    sv = lambda n, a=None: F(SVAR, n, a)
    cvv = lambda n, a=None, sub=None: F('ConstrainedVariable', n, a, sub)
    OPEN = z3.Function('baseIsOpen', IntSort(), BoolSort())
    BASE = z3.Function('baseDomainOf', IntSort(), IntSort())
    reg.selfid.add(E + 'Token::m_id')
    # ---- trusted surroundings
    trust(tk('isValid', 0), 'internal consistency test, no effect', ensures=lambda c: [('r', c.r)])
    trust(F('Entity', 'isPurging', 0), 'the plan database is not being torn down', ensures=lambda c: [('r', Not(c.r))])
    trust(tk('isIncomplete', 0), 'the token has been closed', ensures=lambda c: [('r', Not(c.r))])
    keep = lambda c, *fs: [('frame', FA([z], And(*[c.post(f, c.pre(ST, z)) == c.pre(f, c.pre(ST, z)) for f in (SPEC, SVAL)]), Select(c.pre.arr(ST), z))) for z in [fresh(IntSort(), 'z')]]
    for k, f in sorted(db.funcs.items()):
        if f.short.startswith('notify') and f.cls in (E + 'PlanDatabase', E + 'Object') and f.short not in ('notifyDeactivated', 'notifyRemoved'):
            trust(k, 'listeners of the plan database do not change token states while they are called')
    trust(F('PlanDatabase', 'notifyDeactivated', 1), 'listeners (rules) may remove slaves of the deactivated token; that keeps the links between the other tokens', modifies=lambda c: [(f, ANY) for f in (SPEC, SVAL, ACT, MG, MEM, SLAVES, MASTER, REF, DEL, TERM)],
          ensures=lambda c: [('links', And(links(c.post), slaved(c.post))), ('the token stays inactive', free(c.post, c.a(0)))])
    for n in ('operator==',): pass
    trust(F('PlanDatabase', 'getSchema', 0), 'the schema of the plan database', ensures=lambda c: [('r', c.r != 0)])
    trust(F('Schema', 'isA', 2), 'the type hierarchy of the model')
    trust(F('Entity', 'getEntity', 1), 'objects are registered under their keys', ensures=lambda c: [('r', c.r != 0)])
    # ---- states
    hasst = lambda c: [('the token has a state variable', c.pre(ST, c.this) != 0)]
    for n, P in (('isActive', active), ('isMerged', merged), ('isRejected', rejected)):
        add(tk(n, 0), requires=hasst, ensures=lambda c, P=P: [('the state', c.r == P(c.pre, c.this))], throws=lambda c: F_)
    add(tk('isInactive', 0), requires=hasst, ensures=lambda c: [('neither active, merged nor rejected', c.r == free(c.pre, c.this))], throws=lambda c: F_)
    # ---- the state variable
    trust(cvv('internalSpecify', 1), 'proved for P08: records that the variable is specified, and the value', modifies=lambda c: [(SPEC, c.this), (SVAL, c.this)], ensures=lambda c: [('s', And(c.post(SPEC, c.this), c.post(SVAL, c.this) == c.a(0)))])
    well = lambda c: [('state values have names of their own', NAMES(c.pre)), ('tokens are well linked', And(states(c.pre), links(c.pre)))]
    kw = lambda c: [('tokens stay well linked', links(c.post))]
    add(sv('setSpecified', 1), requires=lambda c: [('a token that is not merged', And(c.pre(ST, c.pre(PARENT, c.this)) != 0, Not(merged(c.pre, c.pre(PARENT, c.this))))), ('!', c.pre(PARENT, c.this) != 0)], modifies=lambda c: [(SPEC, c.this), (SVAL, c.this), (LOCS, c.this), (LOCV, c.this)], throws=lambda c: F_,
        ensures=lambda c: [('specified with the value', And(c.post(SPEC, c.this), c.post(SVAL, c.this) == c.a(0))), ('remembered as the value of this token', And(c.post(LOCS, c.this), c.post(LOCV, c.this) == c.a(0)))])
    mstate = lambda c: c.pre(ST, c.this)
    smod = lambda c: [(SPEC, mstate(c)), (SVAL, mstate(c)), (LOCS, mstate(c)), (LOCV, mstate(c))]
    others = lambda c: ('no other token changes state', FA([z], Implies(And(z != 0, z != c.this), And(c.post(SPEC, c.post(ST, z)) == c.pre(SPEC, c.pre(ST, z)), c.post(SVAL, c.post(ST, z)) == c.pre(SVAL, c.pre(ST, z)))), Select(c.pre.arr(ST), z))) if [0] and True else None
    z = fresh(IntSort(), 'z')
    inact = lambda c: [('inactive', free(c.pre, c.this)), ('a token', c.this != 0)]
    add(tk('activate', 0), requires=lambda c: well(c) + inact(c), modifies=smod, throws=lambda c: F_, ensures=lambda c: kw(c) + [('active', active(c.post, c.this)), others(c)])
    # ---- resetting a state
    cbd = sv('computeBaseDomain', 0)
    nomerged = lambda h, t: (lambda x: FA([x], Not(mem(h(MG, t), x)), Select(acc(h(MG, t), 'mem'), x)))(fresh(IntSort(), 'x'))
    pt = lambda c: c.pre(PARENT, c.this)
    DOMT = 'domains are proved for P08 and p12_tokenvar; the state of a token is its specified value'
    for k, f in sorted(db.funcs.items()):
        if f.cls in (E + 'Domain', E + 'EnumeratedDomain', E + 'StateDomain', E + 'ObjectDomain') and f.short in ('relax', 'intersect', 'isMember', 'getValues', 'isOpen', 'isClosed', 'isEmpty', 'isSingleton', 'getSingletonValue'): trust(k, DOMT)
    for n in ('baseDomain', 'lastDomain', 'internal_baseDomain', 'getBaseDomain'):
        for k, f in sorted(db.funcs.items()):
            if f.short == n and f.cls == E + 'ConstrainedVariable': trust(k, DOMT, ensures=lambda c: [('r', c.r != 0)])
    add(cbd, requires=lambda c: [('of a token', pt(c) != 0), ('!', And(*setfacts(c.pre(MG, pt(c))))), ('nothing is merged with the token', nomerged(c.pre, pt(c)))], modifies=lambda c: [], throws=lambda c: F_, loops=[noflag], ensures=lambda c: [('nothing merged specifies it', Not(c.r))])
    for k, f in sorted(db.funcs.items()):
        if f.short == 'reset' and f.cls == E + 'ConstrainedVariable' and len(f.d['p']) == 1:
            trust(k, 'proved for P08 (reset): the variable is no longer specified', modifies=lambda c: [(SPEC, c.this)], ensures=lambda c: [('s', Not(c.post(SPEC, c.this)))])
    add(sv('resetSpecified', 0), requires=lambda c: [('of a token', And(pt(c) != 0, c.pre(ST, pt(c)) == c.this)), ('nothing is merged with the token', nomerged(c.pre, pt(c)))], modifies=lambda c: [(SPEC, c.this), (LOCS, c.this)], throws=lambda c: F_,
        ensures=lambda c: [('no longer specified', Not(c.post(SPEC, c.this))), ('not remembered as a value of this token', Not(c.post(LOCS, c.this)))])
    rmod = lambda c: [(SPEC, mstate(c)), (LOCS, mstate(c))]
    add(tk('reinstate', 0), requires=lambda c: well(c) + [('rejected', And(rejected(c.pre, c.this), c.this != 0))], modifies=rmod, throws=lambda c: F_, ensures=lambda c: kw(c) + [('inactive', free(c.post, c.this)), others(c)])
    add(tk('reject', 0), requires=lambda c: well(c) + inact(c) + [('not a slave', c.pre(MASTER, c.this) == 0)], modifies=smod, throws=lambda c: F_, ensures=lambda c: kw(c) + [('rejected', rejected(c.post, c.this)), others(c)])
    # ---- merging
    only = lambda c, f, how: (lambda x: FA([x], mem(c.post(MG, c.this), x) == how(x, mem(c.pre(MG, c.this), x)), Select(acc(c.post(MG, c.this), 'mem'), x), Select(acc(c.pre(MG, c.this), 'mem'), x)))(fresh(IntSort(), 'x'))
    trust(F('Entity', 'incRefCount', 0), 'reference count, proved inline elsewhere', modifies=lambda c: [(REF, c.this)], ensures=lambda c: [('n', c.post(REF, c.this) == c.pre(REF, c.this) + 1)])
    trust(F('Entity', 'decRefCount', 0), 'reference count', modifies=lambda c: [(REF, c.this)], ensures=lambda c: [('n', c.post(REF, c.this) == If(c.pre(REF, c.this) > 0, c.pre(REF, c.this) - 1, c.pre(REF, c.this))), ('r', c.r == (c.post(REF, c.this) == 0))])
    add(tk('addMergedToken'), requires=lambda c: hasst(c) + [('active', active(c.pre, c.this))], modifies=lambda c: [(MG, c.this), (REF, c.this)], throws=lambda c: F_, ensures=lambda c: [('it joins the merged tokens', only(c, MG, lambda x, o: Or(o, x == c.a(0)))), ('one reference more', c.post(REF, c.this) == c.pre(REF, c.this) + 1)])
    add(tk('removeMergedToken'), requires=lambda c: hasst(c) + [('active', active(c.pre, c.this))], modifies=lambda c: [(MG, c.this), (REF, c.this)], throws=lambda c: F_,
        ensures=lambda c: [('it leaves the merged tokens', only(c, MG, lambda x, o: And(o, x != c.a(0)))), ('one reference less', c.post(REF, c.this) == If(c.pre(REF, c.this) > 0, c.pre(REF, c.this) - 1, c.pre(REF, c.this))), ('tells whether that was the last', c.r == (c.post(REF, c.this) == 0))])
    MT = 'mementos move constraints and slaves between the tokens; they do not change token states'
    UM = lambda n, a=None: F('UnifyMemento', n, a)
    frame = lambda c: [('states', FA([z], And(*[c.post(f, c.pre(ST, z)) == c.pre(f, c.pre(ST, z)) for f in (SPEC, SVAL)]), Select(c.pre.arr(ST), z)))]
    trust(UM('undo', 1), MT, modifies=lambda c: [(SPEC, ANY), (SVAL, ANY)], ensures=frame)
    trust(UM('UnifyMemento', 2), MT, modifies=lambda c: [(SPEC, ANY), (SVAL, ANY)], ensures=frame)
    add(tk('doMerge'), requires=lambda c: well(c) + inact(c) + [('an active token', And(c.a(0) != 0, active(c.pre, c.a(0)))), ('nothing is merged with an inactive token', nomerged(c.pre, c.this))],
        modifies=lambda c: smod(c) + [(SPEC, ANY), (SVAL, ANY), (ACT, c.this), (MEM, c.this), (MG, c.a(0)), (REF, c.a(0)), 'alloc'], throws=lambda c: T_,
        ensures=lambda c: kw(c) + [('merged', merged(c.post, c.this)), ('with the active token', And(c.post(ACT, c.this) == c.a(0), mem(c.post(MG, c.a(0)), c.this))), ('one reference more', c.post(REF, c.a(0)) == c.pre(REF, c.a(0)) + 1), others(c)])
    add(tk('split', 0), requires=lambda c: well(c) + [('merged', And(merged(c.pre, c.this), c.this != 0))],
        modifies=lambda c: [(SPEC, ANY), (SVAL, ANY), (LOCS, mstate(c)), (ACT, c.this), (MEM, c.this), (MG, c.pre(ACT, c.this)), (REF, c.pre(ACT, c.this))], throws=lambda c: F_,
        ensures=lambda c: kw(c) + [('inactive', free(c.post, c.this)), ('no longer among the merged tokens, the others stay', (lambda a: (lambda x: FA([x], mem(c.post(MG, a), x) == And(mem(c.pre(MG, a), x), x != c.this), Select(acc(c.post(MG, a), 'mem'), x)))(fresh(IntSort(), 'x')))(c.pre(ACT, c.this))), others(c)])
    # ---- deactivation
    trust(F('Entity', 'refCount', 0), 'reference count', ensures=lambda c: [('r', c.r == c.pre(REF, c.this))])
    trust(tk('terminate', 0), 'termination deactivates variables; it does not change token states', modifies=lambda c: [(TERM, ANY)])
    less = lambda c, m, t: (lambda x: FA([x], mem(c.post(SLAVES, m), x) == And(mem(c.pre(SLAVES, m), x), x != t), Select(acc(c.post(SLAVES, m), 'mem'), x), Select(acc(c.pre(SLAVES, m), 'mem'), x)))(fresh(IntSort(), 'x'))
    add(tk('remove'), modifies=lambda c: [(SLAVES, c.this)], throws=lambda c: F_, ensures=lambda c: [('it leaves the slaves', less(c, c.this, c.a(0)))])
    add(tk('removeMaster'), requires=lambda c: [('of its master', And(c.a(0) != 0, c.pre(MASTER, c.this) == c.a(0)))], modifies=lambda c: [(MASTER, c.this), (SLAVES, c.a(0)), (REF, c.this), (TERM, ANY)], throws=lambda c: F_,
        ensures=lambda c: [('it has no master any more', c.post(MASTER, c.this) == 0), ('it leaves the slaves of the master', less(c, c.a(0), c.this)), ('discarded when nothing else refers to it', c.r == (c.pre(REF, c.this) == 1))])
    dm = lambda c: [(f, ANY) for f in (SPEC, SVAL, ACT, MG, MEM, SLAVES, MASTER, REF, DEL, TERM, LOCS)] + ['alloc']
    slaved = lambda h: (lambda m, t: FA([m, t], Implies(mem(sel(h.arr(SLAVES), m), t), And(t != 0, h(MASTER, t) == m)), Select(acc(Select(h.arr(SLAVES), m), 'mem'), t)))(fresh(IntSort(), 'm'), fresh(IntSort(), 't'))

    mine = lambda h, m: (lambda t: FA([t], Implies(mem(h(SLAVES, m), t), And(t != 0, h(MASTER, t) == m)), Select(acc(h(SLAVES, m), 'mem'), t)))(fresh(IntSort(), 't'))
    u = fresh(IntSort(), 'u')
    for k, f in sorted(db.funcs.items()):
        if f.cls in (E + 'Token', E + 'IntervalToken') and f.short.startswith('~'):
            trust(k, 'deleting a token (its own cancellation is proved, see cancel) unlinks it and leaves inactive tokens inactive', modifies=dm,
                  ensures=lambda c: [('links', And(links(c.post), slaved(c.post))), ('stay', FA([u], Implies(free(c.pre, u), free(c.post, u)), Select(c.pre.arr(ST), u)))])

    def wl(L):
        this = L.eng.ctx0.this
        yield ('well', lambda st: links(HV(L.eng, st)))
        yield ('slaves', lambda st: slaved(HV(L.eng, st)))
        yield ('own slaves', lambda st: mine(HV(L.eng, st), this))
        yield ('active', lambda st: active(HV(L.eng, st), this))
        yield ('inactive', lambda st: free(HV(L.eng, st), this))
    add(tk('deactivate', 0), requires=lambda c: well(c) + [('active', And(active(c.pre, c.this), c.this != 0)), ('slaves have this master', slaved(c.pre))], modifies=dm, throws=lambda c: T_, loops=[wl],
        ensures=lambda c: kw(c) + [('inactive, unless the token is committed and not being deleted', If(And(c.pre(COMM, c.this), Not(c.pre(DEL, c.this))), active(c.post, c.this), free(c.post, c.this)))])
    add(tk('cancel', 0), requires=lambda c: well(c) + [('active, merged or rejected', And(Or(active(c.pre, c.this), merged(c.pre, c.this), rejected(c.pre, c.this)), c.this != 0)), ('slaves have this master', slaved(c.pre))], modifies=lambda c: dm(c), throws=lambda c: T_,
        ensures=lambda c: kw(c) + [('inactive, unless the token is active, committed and not being deleted', If(And(active(c.pre, c.this), c.pre(COMM, c.this), Not(c.pre(DEL, c.this))), active(c.post, c.this), free(c.post, c.this)))])
