"""P11: resource profiles: the transactions of an instant, the levels and totals computed from them, and what is reported as a violation or a flaw.

TLO/THI(d), for the current domain d of a transaction's time or quantity: least and greatest value."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT, Iter, LFld
from cv.spec import ANY, HV
from cv.stl import arith_sem
from specs.dom import find1
from specs.util import ghost, walk, index, state, FA
TUS = ['Resource/base/' + f for f in ('Instant.cc', 'Profile.cc', 'Resource.cc')] + ['Resource/component/' + f for f in ('TimetableProfile.cc', 'GenericFVDetector.cc', 'ClosedWorldFVDetector.cc', 'OpenWorldFVDetector.cc')]
PROP = 'P11'
E = 'EUROPA::'
TIME, QTY, CONS = ['Transaction.' + f for f in ('m_time', 'm_quantity', 'm_isConsumer')]
I = lambda f: 'Instant.m_' + f
ALL, ENDS, STARTS, AT = I('transactions'), I('endingTransactions'), I('startingTransactions'), I('time')
TP = lambda f: 'TimetableProfile.m_' + f
GD = lambda f: 'GenericFVDetector.m_max' + f
CUR = z3.Function('currentDomain', IntSort(), IntSort())
LO = z3.Function('least', IntSort(), RealSort()); HI = z3.Function('greatest', IntSort(), RealSort())
B = RealVal(str(2 ** 48))
OK, LOW, HIGH, IPROD, PROD, ICONS, CONSUM = None, None, None, None, None, None, None


def tlo(h, t): return LO(CUR(h(TIME, t)))
def thi(h, t): return HI(CUR(h(TIME, t)))
def qlo(h, t): return LO(CUR(h(QTY, t)))
def qhi(h, t): return HI(CUR(h(QTY, t)))
def isin(h, f, i, t): return sel(acc(h(f, i), 'mem'), t)
def spans(h, t, x): return And(tlo(h, t) <= x, x <= thi(h, t))


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)
    enum = db.enums['EUROPA::Resource::ProblemType']
    NO, TOOLOW, TOOHIGH = [enum[k] for k in ('NoProblem', 'LevelTooLow', 'LevelTooHigh')]
    PRATE, PSUM, CRATE, CSUM = [enum[k] for k in ('ProductionRateExceeded', 'ProductionSumExceeded', 'ConsumptionRateExceeded', 'ConsumptionSumExceeded')]

    def add(key, **kw): reg.add(key, prop='P11', **kw)
    reg.opaque |= {E + 'ConstrainedVariable::toString', E + 'Entity::toString', E + 'Transaction::toString', E + 'Instant::toString'}
    ghost(db, E + 'FVDetector', '$violated', '$cleared', '$flawed', '$unflawed', '$deleted')
    GV, GC, GF, GU, GX = ['FVDetector.$' + k for k in ('violated', 'cleared', 'flawed', 'unflawed', 'deleted')]
    # ---- what the resource code sees of variables and domains
    TR = 'the profile reads the current domain of a transaction variable through the queries proved under P02; it never changes it'
    reg.add(F('ConstrainedVariable', 'lastDomain', 0), interface=True, trusted=TR, ensures=lambda c: [('r', And(c.r == CUR(c.this), c.r != 0))])
    D = lambda short, n=None, sub=None: F('Domain', short, n, sub)
    num = lambda x: And(x >= -INF, x <= INF)
    reg.add(D('getLowerBound', 0), interface=True, trusted=TR, ensures=lambda c: [('r', And(c.r == LO(c.this), num(c.r)))])
    reg.add(D('getUpperBound', 0), interface=True, trusted=TR, ensures=lambda c: [('r', And(c.r == HI(c.this), num(c.r)))])
    reg.add(D('getBounds', 2), interface=True, trusted=TR, modifies=lambda c: [('arg', 0), ('arg', 1)], ensures=lambda c: [('r', And(c.ap(0) == LO(c.this), c.ap(1) == HI(c.this), num(c.ap(0)), num(c.ap(1))))])
    reg.add(D('isSingleton', 0), interface=True, trusted=TR, ensures=lambda c: [('r', c.r == (LO(c.this) == HI(c.this)))])
    reg.add(D('isMember', 1), interface=True, trusted=TR, ensures=lambda c: [('r', c.r == And(LO(c.this) <= c.a(0), c.a(0) <= HI(c.this)))])
    for n, g in (('notifyOfViolation', GV), ('notifyNoLongerViolated', GC), ('notifyOfFlaw', GF), ('notifyNoLongerFlawed', GU), ('notifyDeleted', GX)):
        reg.add(F('FVDetector', n), interface=True, trusted='hands the report to the resource', modifies=lambda c, g=g: [(g, c.this)], ensures=lambda c, g=g: [('counted', c.post(g, c.this) == c.pre(g, c.this) + 1)])
    reg.add(F('Entity', 'Entity', 0), trusted='registers the new entity under a key of its own; no effect on the profile')
    # ---- instants
    N = lambda short, n=None, sub=None: F('Instant', short, n, sub)
    tok = lambda c: [('a transaction', c.a(0) > 0)]
    one = lambda c, f, cond: (lambda x: FA([x], isin(c.post, f, c.this, x) == If(x == c.a(0), cond(isin(c.pre, f, c.this, x)), isin(c.pre, f, c.this, x)), Select(acc(c.post(f, c.this), 'mem'), x)))(fresh(IntSort(), 'x'))
    t0 = lambda c: z3.ToReal(c.pre(AT, c.this))
    sets = lambda c: [(ALL, c.this), (ENDS, c.this), (STARTS, c.this)]
    add(N('addTransaction'), requires=lambda c: tok(c) + [('not yet there', Not(isin(c.pre, ALL, c.this, c.a(0)))), ('spans this instant', spans(c.pre, c.a(0), t0(c)))], modifies=sets, throws=lambda c: F_,
        ensures=lambda c: [('it joins the transactions', one(c, ALL, lambda o: T_)), ('starting if its earliest time is this one', one(c, STARTS, lambda o: Or(o, tlo(c.pre, c.a(0)) == t0(c)))),
            ('ending if its latest time is this one', one(c, ENDS, lambda o: Or(o, thi(c.pre, c.a(0)) == t0(c))))])
    add(N('updateTransaction'), requires=lambda c: tok(c) + [('spans this instant', spans(c.pre, c.a(0), t0(c)))], modifies=lambda c: sets(c)[1:], throws=lambda c: F_,
        ensures=lambda c: [('starting exactly if its earliest time is this one', one(c, STARTS, lambda o: tlo(c.pre, c.a(0)) == t0(c))),
            ('ending exactly if its latest time is this one', one(c, ENDS, lambda o: thi(c.pre, c.a(0)) == t0(c)))])
    add(N('removeTransaction'), requires=tok, modifies=sets, throws=lambda c: F_, ensures=lambda c: [('it leaves ' + f, one(c, f, lambda o: F_)) for f in (ALL, ENDS, STARTS)])
    marks = lambda h, i, t: Or(tlo(h, t) == z3.ToReal(h(AT, i)), thi(h, t) == z3.ToReal(h(AT, i)))
    nonull = lambda h, i: (lambda x: ('no empty entries', FA([x], Implies(isin(h, ALL, i, x), x > 0), Select(acc(h(ALL, i), 'mem'), x))))(fresh(IntSort(), 'x'))

    def anymark(h, i): x = fresh(IntSort(), 'x'); return Exists([x], And(isin(h, ALL, i, x), marks(h, i, x)))
    add(N('containsStartOrEnd', 0), requires=lambda c: [nonull(c.pre, c.this)], modifies=lambda c: [], throws=lambda c: F_, loops=[walk(lambda st, ent, x: None)] and [walkno(marks)],
        ensures=lambda c: [('a transaction starts or ends here', c.r == anymark(c.pre, c.this))])
    add(N('applyBoundsDelta', 2), requires=lambda c: [('!finite', And(*[And(x > -B, x < B) for x in (c.a(0), c.a(1), c.pre(I('lowerLevel'), c.this), c.pre(I('upperLevel'), c.this))]))], modifies=lambda c: [(I('lowerLevel'), c.this), (I('upperLevel'), c.this)], throws=lambda c: F_,
        ensures=lambda c: [('levels shifted', And(c.post(I('lowerLevel'), c.this) == c.pre(I('lowerLevel'), c.this) + c.a(0), c.post(I('upperLevel'), c.this) == c.pre(I('upperLevel'), c.this) + c.a(1)))])
    UPD = ['lowerLevel', 'lowerLevelMax', 'upperLevelMin', 'upperLevel', 'minInstConsumption', 'maxInstConsumption', 'minInstProduction', 'maxInstProduction',
           'minCumulativeConsumption', 'maxCumulativeConsumption', 'minCumulativeProduction', 'maxCumulativeProduction', 'minPrevConsumption', 'maxPrevConsumption', 'minPrevProduction', 'maxPrevProduction']
    add(N('update', 16), modifies=lambda c: [(I(f), c.this) for f in UPD], throws=lambda c: F_, ensures=lambda c: [(f, c.post(I(f), c.this) == c.a(k)) for k, f in enumerate(UPD)])

    # ---- levels of one instant
    LV = ['lowerLevelMin', 'lowerLevelMax', 'upperLevelMin', 'upperLevelMax']
    PV = ['minPrevConsumption', 'maxPrevConsumption', 'minPrevProduction', 'maxPrevProduction']
    T = lambda short, n=None, sub=None: F('TimetableProfile', short, n, sub)
    fin = lambda c, *xs: And(*[And(x > -B, x < B) for x in xs])
    cur = lambda h, c: [h(TP(f), c.this) for f in LV]
    for name, eff in (('Start', lambda cons, lb, ub: [If(cons, -ub, 0), If(cons, -lb, 0), If(cons, 0, lb), If(cons, 0, ub)]),
                      ('End', lambda cons, lb, ub: [If(cons, 0, lb), If(cons, 0, ub), If(cons, -ub, 0), If(cons, -lb, 0)])):
        add(T('handleTransaction' + name, 3), requires=lambda c: [('finite', fin(c, c.a(1), c.a(2), *[x / 8 for x in cur(c.pre, c)]))], modifies=lambda c: [(TP(f), c.this) for f in LV], throws=lambda c: F_,
            ensures=lambda c, eff=eff, name=name: [('%s of a transaction: %s' % (name, f), c.post(TP(f), c.this) == c.pre(TP(f), c.this) + d) for f, d in zip(LV, eff(c.a(0), c.a(1), c.a(2)))])
    FROM = ['lowerLevel', 'lowerLevelMax', 'upperLevelMin', 'upperLevel'] + PV
    add(F('Profile', 'initRecompute', 1), interface=True, this=['TimetableProfile'], requires=lambda c: [('an instant', c.a(0) > 0), ('an interval to recompute', c.pre('Profile.m_recomputeInterval', c.this) > 0)], modifies=lambda c: [(TP(f), c.this) for f in LV + PV], throws=lambda c: F_,
        ensures=lambda c: [('starts from the values of the instant: ' + f, c.post(TP(f), c.this) == c.pre(I(g), c.a(0))) for f, g in zip(LV + PV, FROM)])
    add(F('Profile', 'initRecompute', 0), interface=True, this=['TimetableProfile'], modifies=lambda c: [(TP(f), c.this) for f in LV + PV], throws=lambda c: F_, ensures=lambda c: [('starts from nothing: ' + f, c.post(TP(f), c.this) == 0) for f in LV + PV])

    # ---- sums over the transactions of an instant, in the order of the set
    here = lambda h, i: z3.ToReal(h(AT, i))
    W = dict(
        startConsHi=lambda h, i, t: If(And(h(CONS, t), tlo(h, t) == here(h, i)), qhi(h, t), 0), startConsLo=lambda h, i, t: If(And(h(CONS, t), tlo(h, t) == here(h, i)), qlo(h, t), 0),
        startProdHi=lambda h, i, t: If(And(Not(h(CONS, t)), tlo(h, t) == here(h, i)), qhi(h, t), 0), startProdLo=lambda h, i, t: If(And(Not(h(CONS, t)), tlo(h, t) == here(h, i)), qlo(h, t), 0),
        endConsHi=lambda h, i, t: If(And(h(CONS, t), thi(h, t) == here(h, i)), qhi(h, t), 0), endConsLo=lambda h, i, t: If(And(h(CONS, t), thi(h, t) == here(h, i)), qlo(h, t), 0),
        endProdHi=lambda h, i, t: If(And(Not(h(CONS, t)), thi(h, t) == here(h, i)), qhi(h, t), 0), endProdLo=lambda h, i, t: If(And(Not(h(CONS, t)), thi(h, t) == here(h, i)), qlo(h, t), 0),
        fixedCons=lambda h, i, t: If(And(h(CONS, t), tlo(h, t) == thi(h, t)), qlo(h, t), 0), fixedProd=lambda h, i, t: If(And(Not(h(CONS, t)), tlo(h, t) == thi(h, t)), qlo(h, t), 0),
        maxCons=lambda h, i, t: If(h(CONS, t), qhi(h, t), 0), maxProd=lambda h, i, t: If(h(CONS, t), 0, qhi(h, t)),
        consHi=lambda h, i, t: If(h(CONS, t), qhi(h, t), 0), consLo=lambda h, i, t: If(h(CONS, t), qlo(h, t), 0), prodHi=lambda h, i, t: If(h(CONS, t), 0, qhi(h, t)), prodLo=lambda h, i, t: If(h(CONS, t), 0, qlo(h, t)))
    MAIN = list(W)[:12]; REST = list(W)[12:]
    SUM = {k: z3.Function('sumBefore_' + k, IntSort(), IntSort(), RealSort()) for k in W}
    TOT = {k: z3.Function('sum_' + k, IntSort(), RealSort()) for k in W}

    def sumdef(h, i, f, ks):
        """definition: SUM[k](i, x) sums the weights of the members of the set before x, TOT[k](i) those of all"""
        m = acc(h(f, i), 'mem'); x, y, z = fresh(IntSort(), 'x'), fresh(IntSort(), 'y'), fresh(IntSort(), 'z')
        inb = lambda v: sel(m, v)
        out = []
        first = And(inb(x), FA([z], Implies(inb(z), x <= z), Select(m, z)))
        nxt = And(inb(x), inb(y), x < y, FA([z], Implies(inb(z), Or(z <= x, y <= z)), Select(m, z)))
        last = And(inb(x), FA([z], Implies(inb(z), z <= x), Select(m, z)))
        out.append(FA([x], Implies(first, And(*[SUM[k](i, x) == 0 for k in ks])), SUM[ks[0]](i, x)))
        out.append(FA([x, y], Implies(nxt, And(*[SUM[k](i, y) == SUM[k](i, x) + W[k](h, i, x) for k in ks])), (SUM[ks[0]](i, x), SUM[ks[0]](i, y))))
        out.append(FA([x], Implies(last, And(*[TOT[k](i) == SUM[k](i, x) + W[k](h, i, x) for k in ks])), SUM[ks[0]](i, x)))
        out.append(Or(Exists([z], inb(z)), And(*[TOT[k](i) == 0 for k in ks])))
        # the sums stay in the range of numbers
        out.append(FA([x], And(*[And(SUM[k](i, x) > -B, SUM[k](i, x) < B) for k in ks]), SUM[ks[0]](i, x)))
        out.append(And(*[And(TOT[k](i) > -B, TOT[k](i) < B) for k in ks]))
        return And(*out)

    def sofar(eng, ks, itk):
        def f(st):
            it = st.env[itk]
            x = it.pos[1]; end = it.pos[0]
            return {k: If(end, TOT[k](eng.ctx0.a(1)), SUM[k](eng.ctx0.a(1), x)) for k in ks}
        return f
    LVEXP = lambda s: [-s['startConsHi'] + s['endProdLo'], -s['startConsLo'] + s['endProdHi'], s['startProdLo'] - s['endConsHi'], s['startProdHi'] - s['endConsLo']]

    def l_main(L):
        eng = L.eng; c = eng.ctx0
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
            sf = sofar(eng, MAIN, k)
            for j, f in enumerate(LV):
                yield ('level %s:%s' % (f, k[1]), lambda st, j=j, f=f, sf=sf: HV(eng, st)(TP(f), c.this) == c.pre(TP(f), c.this) + LVEXP(sf(st))[j])
            # local accumulators: whichever local equals the running sum
            for q in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_real(v), True):
                for nm in ('fixedCons', 'fixedProd', 'maxCons', 'maxProd', 'endConsLo', 'endProdLo'):
                    for pf in (None,) + tuple(PV):
                        base = RealVal(0) if pf is None else c.pre(TP(pf), c.this)
                        if not z3.simplify(L.entry.env[q] == base).eq(BoolVal(True)): continue
                        yield ('acc %s %s %s:%s' % (q[1], nm, pf, k[1]), lambda st, q=q, nm=nm, base=base, sf=sf: st.env[q] == base + sf(st)[nm])

    def l_rest(L):
        eng = L.eng; c = eng.ctx0
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
            sf = sofar(eng, REST, k)
            for nm, f in zip(('consLo', 'consHi', 'prodLo', 'prodHi'), PV):
                yield ('carried %s:%s' % (f, k[1]), lambda st, nm=nm, f=f, sf=sf: HV(eng, st)(TP(f), c.this) == c.pre(TP(f), c.this) + sf(st)[nm])
    P = lambda c, f: c.pre(TP(f), c.this)
    t_ = lambda c, k: TOT[k](c.a(1))
    add(F('Profile', 'recomputeLevels', 2), interface=True, this=['TimetableProfile'], requires=lambda c: [('an instant', c.a(1) > 0), nonull(c.pre, c.a(1)), ('ending transactions are transactions', (lambda x: FA([x], Implies(isin(c.pre, ENDS, c.a(1), x), x > 0), Select(acc(c.pre(ENDS, c.a(1)), 'mem'), x)))(fresh(IntSort(), 'x'))),
            ('!finite', And(*[And(P(c, f) > -B, P(c, f) < B) for f in LV + PV])), ('!finite quantities', (lambda x: FA([x], And(qlo(c.pre, x) > -B, qhi(c.pre, x) < B, qlo(c.pre, x) <= qhi(c.pre, x)), c.pre(QTY, x)))(fresh(IntSort(), 'x'))), ('?sum', sumdef(c.pre, c.a(1), ALL, MAIN)), ('?sum of the ending transactions', sumdef(c.pre, c.a(1), ENDS, REST))],
        modifies=lambda c: [(TP(f), c.this) for f in LV + PV] + [(I(f), c.a(1)) for f in UPD], throws=lambda c: F_, loops=[l_main, l_rest],
        ensures=lambda c: [('the running levels take in the transactions that start or end here: ' + f, c.post(TP(f), c.this) == P(c, f) + d) for f, d in zip(LV, LVEXP({k: t_(c, k) for k in MAIN}))]
            + [('the instant gets the running level: ' + g, c.post(I(g), c.a(1)) == c.post(TP(f), c.this)) for f, g in zip(LV, UPD[:4])]
            + [(n, c.post(I(f), c.a(1)) == v) for n, f, v in (
                ('least instantaneous consumption: transactions that can only happen now', 'minInstConsumption', t_(c, 'fixedCons')), ('least instantaneous production', 'minInstProduction', t_(c, 'fixedProd')),
                ('greatest instantaneous consumption', 'maxInstConsumption', t_(c, 'maxCons')), ('greatest instantaneous production', 'maxInstProduction', t_(c, 'maxProd')),
                ('least total consumption by now', 'minCumulativeConsumption', P(c, PV[0]) + t_(c, 'endConsLo')), ('least total production by now', 'minCumulativeProduction', P(c, PV[2]) + t_(c, 'endProdLo')),
                ('greatest total consumption by now', 'maxCumulativeConsumption', P(c, PV[1]) + t_(c, 'maxCons')), ('greatest total production by now', 'maxCumulativeProduction', P(c, PV[3]) + t_(c, 'maxProd')))]
            + [('the totals before this instant: ' + f, c.post(I(f), c.a(1)) == P(c, f)) for f in PV]
            + [('what must have ended is carried on: ' + f, c.post(TP(f), c.this) == P(c, f) + t_(c, nm)) for nm, f in zip(('consLo', 'consHi', 'prodLo', 'prodHi'), PV)])

    # ---- violations and flaws
    VALS_ = 'ExplicitProfile.m_values'
    VMAP = z3.Function('inForceLow', IntSort(), IntSort(), RealSort()), z3.Function('inForceHigh', IntSort(), IntSort(), RealSort())

    def inforce(h, p, t):
        """the value of an explicit profile at time t: the entry with the greatest time not after t"""
        m = h(VALS_, p); k, z = fresh(IntSort(), 'k'), fresh(IntSort(), 'z')
        ent = lambda w: sel(acc(m, 'val'), w)
        return FA([k], Implies(And(sel(acc(m, 'mem'), k), k <= t, FA([z], Implies(And(sel(acc(m, 'mem'), z), z <= t), z <= k), Select(acc(m, 'mem'), z))),
                               And(acc(ent(k), 'first') == VMAP[0](p, t), acc(ent(k), 'second') == VMAP[1](p, t))), Select(acc(m, 'val'), k))
    add(F('ExplicitProfile', 'getValue'), requires=lambda c: [('a time', And(c.a(0) >= -INF, c.a(0) <= INF)), ('an entry from the beginning of time', And(sel(acc(c.pre(VALS_, c.this), 'mem'), -INF), (lambda k: FA([k], Implies(sel(acc(c.pre(VALS_, c.this), 'mem'), k), And(k >= -INF, k <= INF)), Select(acc(c.pre(VALS_, c.this), 'mem'), k)))(fresh(IntSort(), 'k')))), ('?in force', inforce(c.pre, c.this, c.a(0)))],
        modifies=lambda c: [], throws=lambda c: F_, ensures=lambda c: [('the value in force at that time', And(acc(c.r, 'first') == VMAP[0](c.this, c.a(0)), acc(c.r, 'second') == VMAP[1](c.this, c.a(0))))])
    res = lambda h, d: h('FVDetector.m_res', d)
    cap = lambda h, d, i: [f(h('Resource.m_capacityProfile', res(h, d)), h(AT, i)) for f in VMAP]
    lim = lambda h, d, i: [f(h('Resource.m_limitProfile', res(h, d)), h(AT, i)) for f in VMAP]

    def explh(h, d, i):
        """the explicit profiles of the resource are complete; numbers are in range"""
        out = [('an instant', And(i > 0, h(AT, i) >= -INF, h(AT, i) <= INF))] + explr(h, d)
        fin = lambda x: And(x > -B, x < B)
        out += [('!numbers in range', And(*([fin(x) for x in cap(h, d, i)] + [fin(h(I(f), i)) for f in UPD])))]
        return out

    def explr(h, d):
        out = [('a resource', res(h, d) > 0)]
        for n in ('m_capacityProfile', 'm_limitProfile'):
            p = h('Resource.' + n, res(h, d)); m = acc(h(VALS_, p), 'mem'); k = fresh(IntSort(), 'k')
            out.append((n + ' has an entry from the beginning of time', And(p > 0, sel(m, -INF), FA([k], Implies(sel(m, k), And(k >= -INF, k <= INF)), Select(m, k)))))
        out += [('limits on consumption and production', And(*[And(h(GD(f), d) >= 0, Or(h(GD(f), d) == INF, h(GD(f), d) < B)) for f in ('InstConsumption', 'InstProduction', 'CumulativeConsumption', 'CumulativeProduction')]))]
        return out
    expl = lambda c: explh(c.pre, c.this, c.a(0))
    open_ = lambda c: c.pre.is_exact(c.this, 'OpenWorldFVDetector')
    sat = lambda op, a, b: arith_sem(op, a, b, True)[0]

    def deflv(h, d, i): cl, ch = cap(h, d, i); return [cl + h(I('lowerLevel'), i), ch + h(I('upperLevel'), i)]
    def fdl(h, d, i):
        cl, ch = cap(h, d, i); o = h.is_exact(d, 'OpenWorldFVDetector')
        return [cl + If(o, h(I('lowerLevelMax'), i), h(I('lowerLevel'), i)), ch + If(o, h(I('upperLevelMin'), i), h(I('upperLevel'), i))]

    def vdl(h, d, i):
        l, u = deflv(h, d, i); o = h.is_exact(d, 'OpenWorldFVDetector')
        return [If(o, sat('-', l, sat('-', h(GD('CumulativeConsumption'), d), h(I('minCumulativeConsumption'), i))), l), If(o, sat('+', u, sat('-', h(GD('CumulativeProduction'), d), h(I('minCumulativeProduction'), i))), u)]
    BOTH = ['OpenWorldFVDetector', 'ClosedWorldFVDetector']
    out2 = lambda c: [('arg', 1), ('arg', 2)]
    Gd = lambda short, n=None, sub=None: F('GenericFVDetector', short, n, sub)
    add(F('Resource', 'getLowerLimit'), requires=lambda c: rlim(c), modifies=lambda c: [], throws=lambda c: F_, ensures=lambda c: [('the lower limit in force', c.r == VMAP[0](c.pre('Resource.m_limitProfile', c.this), c.pre(AT, c.a(0))))])
    add(F('Resource', 'getUpperLimit'), requires=lambda c: rlim(c), modifies=lambda c: [], throws=lambda c: F_, ensures=lambda c: [('the upper limit in force', c.r == VMAP[1](c.pre('Resource.m_limitProfile', c.this), c.pre(AT, c.a(0))))])

    def rlim(c):
        p = c.pre('Resource.m_limitProfile', c.this); m = acc(c.pre(VALS_, p), 'mem'); k = fresh(IntSort(), 'k')
        return [('an instant', And(c.a(0) > 0, c.pre(AT, c.a(0)) >= -INF, c.pre(AT, c.a(0)) <= INF)), ('limits from the beginning of time', And(p > 0, sel(m, -INF), FA([k], Implies(sel(m, k), And(k >= -INF, k <= INF)), Select(m, k))))]
    add(Gd('getLimitBounds'), this=BOTH, requires=expl, modifies=out2, throws=lambda c: F_, ensures=lambda c: [('the limits in force', And(c.ap(1) == lim(c.pre, c.this, c.a(0))[0], c.ap(2) == lim(c.pre, c.this, c.a(0))[1]))])
    add(Gd('getDefaultLevelBounds'), this=BOTH, requires=expl, modifies=out2, throws=lambda c: F_, ensures=lambda c: [('capacity and usage', And(c.ap(1) == deflv(c.pre, c.this, c.a(0))[0], c.ap(2) == deflv(c.pre, c.this, c.a(0))[1]))])
    add(Gd('getFDLevelBounds'), interface=True, this=BOTH, requires=expl, modifies=out2, throws=lambda c: F_, ensures=lambda c: [('levels that may be reached', And(c.ap(1) == fdl(c.pre, c.this, c.a(0))[0], c.ap(2) == fdl(c.pre, c.this, c.a(0))[1]))])
    add(Gd('getVDLevelBounds'), interface=True, this=BOTH, requires=expl, modifies=out2, throws=lambda c: F_, ensures=lambda c: [('levels that must be reached', And(c.ap(1) == vdl(c.pre, c.this, c.a(0))[0], c.ap(2) == vdl(c.pre, c.this, c.a(0))[1]))])

    def lviol(h, d, i):
        l, u = vdl(h, d, i); ll, lu = lim(h, d, i)
        return If(u < ll, TOOLOW, If(l > lu, TOOHIGH, NO))

    def viol(h, d, i):
        f = lambda n: h(I(n), i); g = lambda n: h(GD(n), d)
        return If(f('minCumulativeConsumption') > g('CumulativeConsumption'), CSUM, If(f('minCumulativeProduction') > g('CumulativeProduction'), PSUM,
               If(f('minInstConsumption') > g('InstConsumption'), CRATE, If(f('minInstProduction') > g('InstProduction'), PRATE, lviol(h, d, i)))))
    add(Gd('getResourceLevelViolation'), interface=True, this=BOTH, requires=expl, modifies=lambda c: [], throws=lambda c: F_, ensures=lambda c: [('a level violation exactly if even the most favourable level breaks a limit', c.r == lviol(c.pre, c.this, c.a(0)))])
    add(Gd('getResourceViolation'), interface=True, this=BOTH, requires=expl, modifies=lambda c: [], throws=lambda c: F_, ensures=lambda c: [('a violation exactly if a limit must be broken', c.r == viol(c.pre, c.this, c.a(0)))])
    FL = ['flawed', 'upperFlaw', 'lowerFlaw', 'upperFlawMagnitude', 'lowerFlawMagnitude']
    flm = lambda c: [(I(f), c.a(0)) for f in FL]
    low = lambda h, d, i: fdl(h, d, i)[0] < lim(h, d, i)[0]
    upp = lambda h, d, i: fdl(h, d, i)[1] > lim(h, d, i)[1]

    def other(h, d, i):
        f = lambda n: h(I(n), i); g = lambda n: h(GD(n), d)
        return Or(f('maxCumulativeConsumption') > g('CumulativeConsumption'), f('maxCumulativeProduction') > g('CumulativeProduction'), f('maxInstConsumption') > g('InstConsumption'), f('maxInstProduction') > g('InstProduction'))
    ab = lambda x: If(x >= 0, x, -x)

    def flags(c):
        h, d, i = c.pre, c.this, c.a(0); F1 = lambda n: c.post(I(n), i); F0 = lambda n: c.pre(I(n), i)
        return [('lower flaw flag', F1('lowerFlaw') == Or(F0('lowerFlaw'), low(h, d, i))), ('upper flaw flag', F1('upperFlaw') == Or(F0('upperFlaw'), upp(h, d, i))),
                ('lower flaw magnitude', F1('lowerFlawMagnitude') == If(low(h, d, i), ab(sat('-', lim(h, d, i)[0], fdl(h, d, i)[0])), F0('lowerFlawMagnitude'))),
                ('upper flaw magnitude', F1('upperFlawMagnitude') == If(upp(h, d, i), ab(sat('-', lim(h, d, i)[1], fdl(h, d, i)[1])), F0('upperFlawMagnitude')))]
    add(Gd('handleResourceLevelFlaws'), interface=True, this=BOTH, requires=expl, modifies=flm, throws=lambda c: T_,
        ensures=lambda c: flags(c) + [('flawed', c.post(I('flawed'), c.a(0)) == Or(c.pre(I('flawed'), c.a(0)), low(c.pre, c.this, c.a(0)), upp(c.pre, c.this, c.a(0))))])
    add(Gd('handleResourceFlaws'), interface=True, this=BOTH, requires=expl, modifies=flm, throws=lambda c: T_,
        ensures=lambda c: flags(c) + [('flawed', c.post(I('flawed'), c.a(0)) == Or(c.pre(I('flawed'), c.a(0)), low(c.pre, c.this, c.a(0)), upp(c.pre, c.this, c.a(0)), other(c.pre, c.this, c.a(0))))])
    ALLOW = z3.Function('violationsAllowed', IntSort(), BoolSort())
    reg.add(F('FVDetector', 'allowViolations'), trusted='the flag of the constraint engine', interface=True, ensures=lambda c: [('r', c.r == ALLOW(c.this))])
    cnt = lambda c, g, cond: c.post(g, c.this) == c.pre(g, c.this) + If(cond, 1, 0)

    def detected(c):
        h, d, i = c.pre, c.this, c.a(0)
        v = viol(h, d, i) != NO; f = Or(low(h, d, i), upp(h, d, i), other(h, d, i)); o = lambda n: c.pre(I(n), i); n_ = lambda n: c.post(I(n), i)
        return [('violated exactly if a limit must be broken', n_('violated') == v), ('flawed exactly if a limit may be broken', n_('flawed') == f), ('a violation is reported', cnt(c, GV, v)),
                ('the end of a violation is reported', cnt(c, GC, And(Not(v), o('violated')))), ('a flaw is reported', cnt(c, GF, f)), ('the end of a flaw is reported', cnt(c, GU, And(Not(f), o('flawed')))),
                ('stops at a violation that is not allowed', c.r == And(v, Not(ALLOW(d)))), ('lower flaw flag', n_('lowerFlaw') == low(h, d, i)), ('upper flaw flag', n_('upperFlaw') == upp(h, d, i)),
                ('lower flaw magnitude', n_('lowerFlawMagnitude') == If(low(h, d, i), ab(sat('-', lim(h, d, i)[0], fdl(h, d, i)[0])), 0)), ('upper flaw magnitude', n_('upperFlawMagnitude') == If(upp(h, d, i), ab(sat('-', lim(h, d, i)[1], fdl(h, d, i)[1])), 0))]
    detm = lambda c: flm(c) + [(I('violated'), c.a(0))] + [(g, c.this) for g in (GV, GC, GF, GU)]
    add(F('FVDetector', 'detect'), interface=True, this=BOTH, requires=expl, modifies=detm, throws=lambda c: T_, ensures=detected)

    # ---- the instants of a profile
    INST, TRS = 'Profile.m_instants', 'Profile.m_transactions'
    has = lambda h, p, k: sel(acc(h(INST, p), 'mem'), k)
    at = lambda h, p, k: sel(acc(h(INST, p), 'val'), k)
    keyt = lambda h, p, k: Select(acc(h(INST, p), 'mem'), k)
    Pf = lambda short, n=None, sub=None: F('Profile', short, n, sub)

    def wfi(h, p):
        k = fresh(IntSort(), 'k')
        return FA([k], Implies(has(h, p, k), And(at(h, p, k) > 0, at(h, p, k) < h.alloc, h(AT, at(h, p, k)) == k, k >= -INF, k <= INF)), keyt(h, p, k), at(h, p, k))
    pw = lambda c: [('instants are filed under their time', wfi(c.pre, c.this))]

    def iterof(c):
        k = 'EUROPA::Profile::m_instants'
        return Iter(LFld(c.eng, k, c.this, db.classes['EUROPA::Profile'].fields['m_instants']), 'map', [fresh(BoolSort(), 'end'), fresh(IntSort(), 'key')])

    def ends(c, P, best):
        """the iterator stands at the best instant for which P, or at the end if there is none"""
        it = c.ret; e, k = it.pos; z = fresh(IntSort(), 'z')
        return [('an instant of the profile', Implies(Not(e), has(c.pre, c.this, k))), ('end only if there is none', Implies(e, FA([z], Not(And(has(c.pre, c.this, z), P(z))), keyt(c.pre, c.this, z)))),
                ('a suitable one', Implies(Not(e), P(k))), ('the closest one', Implies(Not(e), FA([z], Implies(And(has(c.pre, c.this, z), P(z)), best(k, z)), keyt(c.pre, c.this, z))))]
    add(Pf('getGreatestInstant'), ret_fn=iterof, requires=pw, modifies=lambda c: [], throws=lambda c: F_, ensures=lambda c: ends(c, lambda z: z <= c.a(0), lambda k, z: z <= k))
    add(Pf('getLeastInstant'), ret_fn=iterof, requires=pw, modifies=lambda c: [], throws=lambda c: F_,
        ensures=lambda c: (lambda e, k, z: [('an instant of the profile', Implies(Not(e), has(c.pre, c.this, k))), ('end only if there are no instants', Implies(e, FA([z], Not(has(c.pre, c.this, z)), keyt(c.pre, c.this, z)))),
            ('the first instant not before the time, or the last instant of all', Implies(Not(e), Or(And(k >= c.a(0), FA([z], Implies(And(has(c.pre, c.this, z), z >= c.a(0)), k <= z), keyt(c.pre, c.this, z))), And(k < c.a(0), FA([z], Implies(has(c.pre, c.this, z), z <= k), keyt(c.pre, c.this, z))))))])(c.ret.pos[0], c.ret.pos[1], fresh(IntSort(), 'z')))
    trans = lambda c: (lambda x: [('the transactions of the profile exist', FA([x], Implies(sel(acc(c.pre(TRS, c.this), 'mem'), x), And(x > 0, c.pre(TIME, x) > 0)), Select(acc(c.pre(TRS, c.this), 'mem'), x)))])(fresh(IntSort(), 'x'))
    member = lambda c, t: sel(acc(c.pre(TRS, c.this), 'mem'), t)

    def fresh_instant(c, k):
        """the instant at k has exactly the transactions of the profile that span k"""
        i = at(c.post, c.this, k); x = fresh(IntSort(), 'x'); r = z3.ToReal(k); h = c.post
        return And(FA([x], isin(h, ALL, i, x) == And(member(c, x), spans(c.pre, x, r)), Select(acc(h(ALL, i), 'mem'), x)),
                   FA([x], isin(h, STARTS, i, x) == And(member(c, x), spans(c.pre, x, r), tlo(c.pre, x) == r), Select(acc(h(STARTS, i), 'mem'), x)),
                   FA([x], isin(h, ENDS, i, x) == And(member(c, x), spans(c.pre, x, r), thi(c.pre, x) == r), Select(acc(h(ENDS, i), 'mem'), x)))
    kept = lambda c, but: (lambda k: FA([k], Implies(And(has(c.pre, c.this, k), *[k != b for b in but]), And(has(c.post, c.this, k), at(c.post, c.this, k) == at(c.pre, c.this, k))), keyt(c.pre, c.this, k), keyt(c.post, c.this, k)))(fresh(IntSort(), 'k'))
    onlynew = lambda c, new: (lambda k: FA([k], Implies(And(has(c.post, c.this, k), *[k != b for b in new]), has(c.pre, c.this, k)), keyt(c.post, c.this, k)))(fresh(IntSort(), 'k'))

    def l_add(L):
        eng = L.eng; c = eng.ctx0; k = c.a(0); r = z3.ToReal(k)
        for q in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'set', True):
            def filled(st, q=q):
                h = HV(eng, st); i = at(h, c.this, k); it = st.env[q]; x = fresh(IntSort(), 'x')
                done = lambda x: And(member(c, x), spans(c.pre, x, r), Or(it.pos[0], x < it.pos[1]))
                return And(FA([x], isin(h, ALL, i, x) == done(x), Select(acc(h(ALL, i), 'mem'), x)), FA([x], isin(h, STARTS, i, x) == And(done(x), tlo(c.pre, x) == r), Select(acc(h(STARTS, i), 'mem'), x)),
                           FA([x], isin(h, ENDS, i, x) == And(done(x), thi(c.pre, x) == r), Select(acc(h(ENDS, i), 'mem'), x)))
            yield ('filled so far:%s' % q[1], filled)
    aft = lambda c: ('instants are filed under their time', wfi(c.post, c.this))
    valid = lambda t: And(t >= -INF, t <= INF)
    add(Pf('addInstant'), requires=lambda c: pw(c) + trans(c) + [('no such instant yet', Not(has(c.pre, c.this, c.a(0)))), ('a time', valid(c.a(0)))], modifies=lambda c: [(INST, c.this), 'alloc'], throws=lambda c: F_, loops=[l_add],
        ensures=lambda c: [aft(c), ('the instant exists', has(c.post, c.this, c.a(0))), ('with exactly the transactions that span it', fresh_instant(c, c.a(0))), ('a new one', at(c.post, c.this, c.a(0)) > 0), ('the other instants stay', kept(c, [])), ('no other instant', onlynew(c, [c.a(0)]))])
    asint = lambda r: z3.ToInt(r)
    add(Pf('addInstantsForBounds'), requires=lambda c: pw(c) + trans(c) + [('a transaction', c.a(0) > 0), ('whole times', And(z3.IsInt(tlo(c.pre, c.a(0))), z3.IsInt(thi(c.pre, c.a(0))), tlo(c.pre, c.a(0)) <= thi(c.pre, c.a(0))))],
        modifies=lambda c: [(INST, c.this), (STARTS, ANY), (ENDS, ANY), 'alloc'], throws=lambda c: F_,
        ensures=lambda c: (lambda a, b: [aft(c), ('an instant at the earliest time', has(c.post, c.this, a)), ('an instant at the latest time', has(c.post, c.this, b)), ('the other instants stay', kept(c, [])), ('no other instants', onlynew(c, [a, b])),
            ('a new instant has exactly the transactions that span it', And(*[Implies(Not(has(c.pre, c.this, k)), (lambda i, x: FA([x], isin(c.post, ALL, i, x) == And(member(c, x), spans(c.pre, x, z3.ToReal(k))), Select(acc(c.post(ALL, i), 'mem'), x)))(at(c.post, c.this, k), fresh(IntSort(), 'x'))) for k in (a, b)])),
            ('it starts at the first', Implies(member(c, c.a(0)), isin(c.post, STARTS, at(c.post, c.this, a), c.a(0)))), ('it ends at the last', Implies(member(c, c.a(0)), isin(c.post, ENDS, at(c.post, c.this, b), c.a(0))))])(asint(tlo(c.pre, c.a(0))), asint(thi(c.pre, c.a(0)))))

    # ---- recomputing the whole profile
    ghost(db, E + 'ProfileIterator', '$at', '$last', ('$done', BoolSort()))
    IA, IL, ID_ = ['ProfileIterator.$' + k for k in ('at', 'last', 'done')]
    PI = lambda short, n=None, sub=None: F('ProfileIterator', short, n, sub)
    IPR = 'ProfileIterator.m_profile'; RI, DET = 'Profile.m_recomputeInterval', 'Profile.m_detector'
    WALK = 'a profile iterator walks the instants of its profile in order of time, from the first not before the start to the last not after the end'
    reg.add(PI('done'), trusted=WALK, ensures=lambda c: [('r', c.r == c.pre(ID_, c.this))])
    reg.add(PI('getEndTime'), trusted=WALK, ensures=lambda c: [('r', c.r == c.pre(IL, c.this))])
    reg.add(PI('getInstant'), trusted=WALK, requires=lambda c: [('not at the end', Not(c.pre(ID_, c.this)))], ensures=lambda c: [('r', c.r == at(c.pre, c.pre(IPR, c.this), c.pre(IA, c.this)))])

    def stepped(c):
        p = c.pre(IPR, c.this); a0 = c.pre(IA, c.this); a1 = c.post(IA, c.this); z = fresh(IntSort(), 'z'); l = c.pre(IL, c.this)
        return [('r', c.r == Not(c.post(ID_, c.this))),
                ('end', Implies(c.post(ID_, c.this), FA([z], Implies(And(has(c.pre, p, z), z <= l), z <= a0), keyt(c.pre, p, z)))),
                ('next', Implies(Not(c.post(ID_, c.this)), And(has(c.pre, p, a1), a1 > a0, a1 <= l, FA([z], Implies(And(has(c.pre, p, z), z > a0), z >= a1), keyt(c.pre, p, z)))))]
    reg.add(PI('next'), trusted=WALK, requires=lambda c: [('not at the end', Not(c.pre(ID_, c.this)))], modifies=lambda c: [(IA, c.this), (ID_, c.this)], ensures=stepped)
    reg.add(F('FVDetector', 'initialize', 0), interface=True, trusted='clears the reported violations of the resource; the instants keep their levels and flags')
    reg.add(F('FVDetector', 'initialize', 1), interface=True, trusted='clears the reported violations of the resource; the instants keep their levels and flags')
    BAD = lambda h, d, i: And(h(I('violated'), i), Not(ALLOW(d)))

    def members(h, p):
        k, x = fresh(IntSort(), 'k'), fresh(IntSort(), 'x')
        return [('transactions of the instants exist (%s)' % f, FA([k, x], Implies(And(has(h, p, k), isin(h, f, at(h, p, k), x)), x > 0), Select(acc(h(f, at(h, p, k)), 'mem'), x))) for f in (ALL, ENDS)]

    def single(h, i):
        """the quantities of one instant that depend on its own transactions and on the totals before it"""
        g = lambda f: h(I(f), i)
        return And(g('minInstConsumption') == TOT['fixedCons'](i), g('minInstProduction') == TOT['fixedProd'](i), g('maxInstConsumption') == TOT['maxCons'](i), g('maxInstProduction') == TOT['maxProd'](i),
                   g('minCumulativeConsumption') == g('minPrevConsumption') + TOT['endConsLo'](i), g('minCumulativeProduction') == g('minPrevProduction') + TOT['endProdLo'](i),
                   g('maxCumulativeConsumption') == g('maxPrevConsumption') + TOT['maxCons'](i), g('maxCumulativeProduction') == g('maxPrevProduction') + TOT['maxProd'](i))
    delta = lambda i: LVEXP({k: TOT[k](i) for k in MAIN})
    carry = lambda i: [TOT[k](i) for k in ('consLo', 'consHi', 'prodLo', 'prodHi')]
    after = lambda h, i: [h(I(f), i) for f in UPD[:4]] + [h(I(f), i) + t for f, t in zip(PV, carry(i))]
    def PRED(h, p, k):
        m = h(INST, p); return z3.Function('instantBefore', m.sort(), IntSort(), IntSort())(m, k)

    def FIRST(h, p, k):
        m = h(INST, p); return z3.Function('firstInstant', m.sort(), IntSort(), BoolSort())(m, k)

    def order(h, p):
        """definition of the first instant and of the instant before another one"""
        k, z, w = fresh(IntSort(), 'k'), fresh(IntSort(), 'z'), fresh(IntSort(), 'w'); b = PRED(h, p, k)
        return And(FA([k, z], Implies(And(has(h, p, k), has(h, p, z)), If(FIRST(h, p, k), k <= z, And(b < k, has(h, p, b), Or(z <= b, z >= k)))), (keyt(h, p, z), FIRST(h, p, k)), (keyt(h, p, z), b)))
    isfirst = FIRST
    def starts0(h, i): return And(*[h(I(f), i) == d for f, d in zip(UPD[:4], delta(i))] + [h(I(f), i) == 0 for f in PV])
    def continues(h, i, j): a = after(h, i); return And(*[h(I(f), j) == x + d for f, x, d in zip(UPD[:4], a, delta(j))] + [h(I(f), j) == x for f, x in zip(PV, a[4:])])

    def chain(h, p, upto):
        """levels add up from instant to instant, for all instants satisfying upto(time)"""
        k, l = fresh(IntSort(), 'k'), fresh(IntSort(), 'l'); i, j = at(h, p, k), at(h, p, l)
        return [('each instant sums up its own transactions', FA([k], Implies(And(has(h, p, k), upto(k)), single(h, i)), i)),
                ('the first instant starts from nothing', FA([k], Implies(And(has(h, p, k), upto(k), isfirst(h, p, k)), starts0(h, i)), i)),
                ('every other instant adds to the one before', FA([l], Implies(And(has(h, p, l), upto(l), Not(FIRST(h, p, l))), continues(h, at(h, p, PRED(h, p, l)), j)), j))]
    levm = lambda c: [(TP(f), c.this) for f in LV + PV] + [(I(f), ANY) for f in UPD + FL + ['violated']] + [(g, c.pre(DET, c.this)) for g in (GV, GC, GF, GU)]
    full = lambda c: (lambda r, z: [('there is an interval to recompute', r > 0), ('it belongs to this profile', c.pre(IPR, r) == c.this),
        ('it covers all instants', If(c.pre(ID_, r), FA([z], Not(has(c.pre, c.this, z)), keyt(c.pre, c.this, z)), And(has(c.pre, c.this, c.pre(IA, r)), isfirst(c.pre, c.this, c.pre(IA, r)), has(c.pre, c.this, c.pre(IL, r)), FA([z], Implies(has(c.pre, c.this, z), z <= c.pre(IL, r)), keyt(c.pre, c.this, z)))))])(c.pre(RI, c.this), fresh(IntSort(), 'z'))
    dets = lambda c: [('a detector', c.pre(DET, c.this) > 0), ('detector of a supported kind', Or(*[c.pre.is_exact(c.pre(DET, c.this), k) for k in BOTH]))] + explr(c.pre, c.pre(DET, c.this))
    samelevels = lambda c, P: (lambda k: FA([k], Implies(And(has(c.pre, c.this, k), P(k)), And(*[c.post(I(f), at(c.pre, c.this, k)) == c.pre(I(f), at(c.pre, c.this, k)) for f in UPD + ['violated']])), at(c.pre, c.this, k)))(fresh(IntSort(), 'k'))

    def l_post(L):
        eng = L.eng; c = eng.ctx0
        def keep(st):
            c2 = type(c)(eng, c.fn, c.this, c.args, st, c.prest)
            return samelevels(c2, lambda k: k <= c.a(0))
        yield ('earlier instants keep their levels', keep)
        for q in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'map', True):
            yield ('beyond:%s' % q[1], lambda st, q=q: Or(st.env[q].pos[0], st.env[q].pos[1] > c.a(0)))
    add(Pf('postHandleRecompute'), interface=True, this=['TimetableProfile'], requires=lambda c: pw(c) + dets(c), modifies=lambda c: [(I(f), ANY) for f in UPD + FL + ['violated']] + [(g, c.pre(DET, c.this)) for g in (GV, GC, GF, GU)], throws=lambda c: T_, loops=[l_post],
        ensures=lambda c: [('instants up to the end of the interval keep their levels', samelevels(c, lambda k: k <= c.a(0)))])

    def l_rec(L):
        eng = L.eng; c = eng.ctx0; p = c.this; r = c.pre(RI, p)
        H = lambda st: HV(eng, st)
        todo = lambda h, k: Or(h(ID_, r), k < h(IA, r))
        for n in range(3): yield ('chain %d' % n, lambda st, n=n: chain(H(st), p, lambda k: todo(H(st), k))[n][1])
        def running(st):
            h = H(st); b = If(h(ID_, r), h(IL, r), PRED(h, p, h(IA, r)))
            return Implies(If(h(ID_, r), Not(c.pre(ID_, r)), Not(FIRST(h, p, h(IA, r)))), And(*[h(TP(f), p) == x for f, x in zip(LV + PV, after(h, at(h, p, b)))]))
        yield ('running levels', running)
        def zero(st):
            h = H(st); z = fresh(IntSort(), 'z')
            return Implies(And(Not(h(ID_, r)), isfirst(h, p, h(IA, r))), And(*[h(TP(f), p) == 0 for f in LV + PV]))
        yield ('running levels start at nothing', zero)
        def itok(st):
            h = H(st)
            return And(Or(h(ID_, r), And(has(h, p, h(IA, r)), h(IA, r) <= h(IL, r))), h(IL, r) == c.pre(IL, r), h(IPR, r) == p)
        yield ('iterator', itok)
        for q in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_bool(v), True):
            def stop(st, q=q):
                h = H(st); k = fresh(IntSort(), 'k'); v = st.env[q]; d = h(DET, p); b = If(h(ID_, r), h(IL, r), PRED(h, p, h(IA, r)))
                return If(v, And(If(h(ID_, r), Not(c.pre(ID_, r)), Not(FIRST(h, p, h(IA, r)))), BAD(h, d, at(h, p, b))), FA([k], Implies(And(has(h, p, k), todo(h, k)), Not(BAD(h, d, at(h, p, k)))), at(h, p, k)))
            yield ('stops at a violation:%s' % q[1], stop)
        yield ('detector', lambda st: And(H(st)(DET, p) == c.pre(DET, p), H(st)(RI, p) == c.pre(RI, p)))

    def recomputed(c):
        h, p = c.post, c.this; d = c.pre(DET, p); z = fresh(IntSort(), 'z')
        clear = lambda k: FA([z], Implies(And(has(h, p, z), z < k), Not(BAD(h, d, at(h, p, z)))), at(h, p, z))
        return [(a + ', up to the first violation that is not allowed', b) for a, b in chain(h, p, clear)] + [('nothing is left to recompute', And(Not(h('Profile.m_needsRecompute', p)), h(RI, p) == 0))]
    add(Pf('handleRecompute'), this=['TimetableProfile'], requires=lambda c: pw(c) + members(c.pre, c.this) + [('?order of the instants', order(c.pre, c.this))] + full(c) + dets(c), modifies=lambda c: levm(c) + [(RI, c.this), ('Profile.m_needsRecompute', c.this), (IA, c.pre(RI, c.this)), (ID_, c.pre(RI, c.this)), 'alloc'], throws=lambda c: T_, loops=[l_rec], ensures=recomputed)

    # ---- a limit or capacity changed: every later instant is examined again
    RP, RDET = 'Resource.m_profile', 'Resource.m_detector'
    UFLD = FL + ['violated']
    okdet = lambda h0, h, d, i: And(h(I('violated'), i) == (viol(h0, d, i) != NO), h(I('flawed'), i) == Or(low(h0, d, i), upp(h0, d, i), other(h0, d, i)))
    def dfv_req(c):
        p = c.pre(RP, c.this); d = c.pre(RDET, c.this); k = fresh(IntSort(), 'k'); fin = lambda x: And(x > -B, x < B)
        return [('a profile', p > 0), ('instants are filed under their time', wfi(c.pre, p)), ('a detector of a supported kind', And(d > 0, Or(*[c.pre.is_exact(d, x) for x in BOTH])))] + explr(c.pre, d) + [
                ('!numbers in range', FA([k], Implies(has(c.pre, p, k), And(*([fin(x) for x in cap(c.pre, d, at(c.pre, p, k))] + [fin(c.pre(I(f), at(c.pre, p, k))) for f in UPD]))), at(c.pre, p, k)))]
    NEXT_DUE = lambda c, k, l: And(c.a(0) <= l, l < k)

    def dfv_post(c):
        h, p, d = c.post, c.pre(RP, c.this), c.pre(RDET, c.this); k, l = fresh(IntSort(), 'k'), fresh(IntSort(), 'l')
        clear = Not(EARLIER_BAD(h, c, p, d)(k))
        return [('every later instant is up to date, up to the first violation that is not allowed', FA([k], Implies(And(has(h, p, k), k >= c.a(0), clear), okdet(c.pre, h, d, at(h, p, k))), at(h, p, k))),
                ('earlier instants are left alone', FA([k], Implies(And(has(h, p, k), k < c.a(0), (lambda z: z3.Exists([z], And(has(h, p, z), z >= c.a(0))))(fresh(IntSort(), 'z'))), And(*[h(I(f), at(h, p, k)) == c.pre(I(f), at(h, p, k)) for f in UFLD])), at(h, p, k)))]

    def EARLIER_BAD(h, c, p, d):
        def f(k):
            l = fresh(IntSort(), 'l')
            return z3.Exists([l], And(has(h, p, l), l >= c.a(0), l < k, BAD(h, d, at(h, p, l))))
        return f

    def l_dfv(L):
        eng = L.eng; c = eng.ctx0; p, d = c.pre(RP, c.this), c.pre(RDET, c.this)
        for q in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'map', True):
            def done(st, q=q):
                h = HV(eng, st); it = st.env[q]; k = fresh(IntSort(), 'k')
                return FA([k], Implies(And(has(h, p, k), k >= c.a(0), Or(it.pos[0], k < it.pos[1])), And(okdet(c.pre, h, d, at(h, p, k)), Not(BAD(h, d, at(h, p, k))))), at(h, p, k), keyt(h, p, k))
            yield ('examined so far:%s' % q[1], done)
            def same(st, q=q):
                h = HV(eng, st); it = st.env[q]; k = fresh(IntSort(), 'k'); z = fresh(IntSort(), 'z')
                return FA([k], Implies(And(has(h, p, k), Or(And(Not(it.pos[0]), k > it.pos[1]), And(k < c.a(0), z3.Exists([z], And(has(h, p, z), z >= c.a(0)))))), And(*[h(I(f), at(h, p, k)) == c.pre(I(f), at(h, p, k)) for f in UFLD])), at(h, p, k), keyt(h, p, k))
            yield ('not yet examined:%s' % q[1], same)
            def place(st, q=q):
                it = st.env[q]; z = fresh(IntSort(), 'z')
                return Implies(Not(it.pos[0]), And(has(c.pre, p, it.pos[1]), Or(it.pos[1] >= c.a(0), FA([z], Implies(has(c.pre, p, z), z < c.a(0)), keyt(c.pre, p, z)))))
            yield ('position:%s' % q[1], place)
    add(F('Resource', 'detectFV'), requires=dfv_req, modifies=lambda c: [(I(f), ANY) for f in UFLD] + [(g, c.pre(RDET, c.this)) for g in (GV, GC, GF, GU)], throws=lambda c: T_, loops=[l_dfv], ensures=dfv_post)


def walkno(marks):
    def sp(L):
        eng = L.eng; c = eng.ctx0
        yield from walk(lambda st, ent, x: Not(marks(c.pre, c.this, x)), 'no mark so far')(L)
    return sp
