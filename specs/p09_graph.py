"""P09: the distance graph: edges carry the minimum of their specified lengths; propagation leaves every edge satisfied; Dijkstra's distances are shortest walks.

MK(n): n is marked (in the priority queue).  QI: every marked node has an entry in the queue.  Sat(e): potential(to) <= potential(from) + length."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, sel, acc, fresh, DT, Iter
from cv.spec import ANY, HV
from specs.dom import find1
from specs.util import ghost, walk, index, state, FA
TUS = ['TemporalNetwork/base/DistanceGraph.cc', 'TemporalNetwork/base/queues.cc', 'TemporalNetwork/base/TemporalNetwork.cc']
PROP = 'P09'
E = 'EUROPA::'
GLOB = 'Dnode::markGlobal'
ML, DIST, POT, DEPTH, KEY, GEN, OUT, OUTN, IN, INN, PRED, EMAP = ['Dnode.' + f for f in ('markLocal', 'distance', 'potential', 'depth', 'key', 'generation', 'outArray', 'outCount', 'inArray', 'inCount', 'predecessor', 'edgemap')]
FROM, TO, LEN, SPECS = ['Dedge.' + f for f in ('from', 'to', 'length', 'lengthSpecs')]
BK = 'BucketQueue.buckets'
NODES, GDIJ, BQ, NOGOOD = ['DistanceGraph.' + f for f in ('nodes', 'dijkstraGeneration', 'bqueue', 'edgeNogoodList')]
INTMAX = 2 ** 31 - 1
TIME_MAX = INF - 1


def MK(h, n): return h(ML, n) == h.glob(GLOB)
def LEM(h): n = fresh(IntSort(), 'n'); return FA([n], h(ML, n) <= h.glob(GLOB), Select(h.arr(ML), n))


def nodeseq(h, q): return h(BK, q)


def COVER(h, q):
    """abstract predicate: every marked node has an entry in the queue (its definition is known to the queue's functions only)"""
    s = h(BK, q); m = h.arr(ML)
    return z3.Function('queueCoversMarked', m.sort(), IntSort(), s.sort(), BoolSort())(m, h.glob(GLOB), s)


QI = COVER


def QDEF(h, q):
    s = h(BK, q); n, j = fresh(IntSort(), 'n'), fresh(IntSort(), 'j')
    return COVER(h, q) == QDEF2(h, q)


def QDEF2(h, q):
    s = h(BK, q); n, j = fresh(IntSort(), 'n'), fresh(IntSort(), 'j')
    return FA([n], Implies(And(n != 0, MK(h, n)), Exists([j], And(0 <= j, j < acc(s, 'len'), acc(sel(acc(s, 'arr'), j), 'node') == n))), Select(h.arr(ML), n))


def QN(h, q):
    s = h(BK, q); j = fresh(IntSort(), 'j')
    return FA([j], Implies(And(0 <= j, j < acc(s, 'len')), acc(sel(acc(s, 'arr'), j), 'node') != 0), Select(acc(s, 'arr'), j))


def marks(c, P):
    """P(n, before): the marking after the call"""
    n = fresh(IntSort(), 'n')
    return FA([n], Implies(n != 0, MK(c.post, n) == P(n, MK(c.pre, n))), Select(c.post.arr(ML), n))


def node(h, g, k): return sel(acc(h(NODES, g), 'arr'), k)
def oedge(h, n, j, A=None): return sel(acc(h(A or OUT, n), 'arr'), j)
def sat(h, e): return h(POT, h(TO, e)) <= h(POT, h(FROM, e)) + h(LEN, e)


def WF(h, A=None):
    """adjacency lists: counts agree, entries are edges that leave the node"""
    n, j = fresh(IntSort(), 'n'), fresh(IntSort(), 'j')
    A = A or OUT; N = INN if A == IN else OUTN; me, it = (TO, FROM) if A == IN else (FROM, TO)
    e = oedge(h, n, j, A)
    return [('counts agree (%s)' % A, FA([n], And(h(N, n) == acc(h(A, n), 'len'), h(N, n) >= 0), Select(h.arr(N), n), Select(h.arr(A), n))),
            ('entries belong to the node (%s)' % A, FA([n, j], Implies(And(0 <= j, j < h(N, n)), And(e != 0, h(me, e) == n, h(it, e) != 0)), e))]


def NN(h, g):
    k = fresh(IntSort(), 'k')
    return FA([k], Implies(And(0 <= k, k < acc(h(NODES, g), 'len')), node(h, g, k) != 0), node(h, g, k))


def allsat(h, g, cond=None, S=sat, A=None):
    """every edge leaving a node of the graph (for which cond) is satisfied"""
    k, j = fresh(IntSort(), 'k'), fresh(IntSort(), 'j')
    n = node(h, g, k); e = oedge(h, n, j, A)
    return FA([k, j], Implies(And(0 <= k, k < acc(h(NODES, g), 'len'), 0 <= j, j < h(INN if A == IN else OUTN, n), cond(n) if cond else T_), S(h, e)), e)


def build(reg, db):
    F = lambda cls, short, nargs=None, sub=None: find1(db, E + cls, short, nargs, sub)

    def add(key, **kw): reg.add(key, prop='P10' if key and 'TemporalNetwork::' in key else 'P09', **kw)
    G = lambda n, a=None, sub=None: F('DistanceGraph', n, a, sub)
    B = lambda n, a=None, sub=None: F('BucketQueue', n, a, sub)
    # ---- the priority queue
    kq = lambda c: [('?def', QDEF(c.pre, c.this)), ('queue covers the marked nodes', QI(c.pre, c.this)), ('entries are nodes', QN(c.pre, c.this))]
    kq2 = lambda c: [('?def', QDEF(c.post, c.this)), ('queue covers the marked nodes', QI(c.post, c.this)), ('entries are nodes', QN(c.post, c.this))]
    past = lambda c: ('marks stay in the past', (lambda n: FA([n], Or(c.post(ML, n) == c.pre(ML, n), c.post(ML, n) <= c.post.glob(GLOB)), Select(c.post.arr(ML), n)))(fresh(IntSort(), 'n')))
    lemk = lambda c: ('no mark from the future', LEM(c.post))
    ins = dict(requires=kq, modifies=lambda c: [(BK, c.this), (KEY, c.a(0)), (ML, c.a(0))], throws=lambda c: F_,
               ensures=lambda c: kq2(c) + [past(c), ('exactly this node becomes marked', marks(c, lambda n, o: Or(o, n == c.a(0))))])
    add(B('insertInQueue', 2), **ins)
    add(B('insertInQueue', 1), **ins)

    def l_pop(L):
        c = L.eng.ctx0
        yield from state(lambda st, ent: QDEF2(HV(L.eng, st), c.this), 'cover')(L)
        yield from state(lambda st, ent: QN(HV(L.eng, st), c.this), 'nonnull')(L)
    add(B('popMinFromQueue', 0), requires=kq, modifies=lambda c: [(BK, c.this), (ML, ANY)], throws=lambda c: F_, loops=[l_pop],
        ensures=lambda c: kq2(c) + [past(c), ('a marked node leaves the queue, the others stay; nothing only if none is marked',
                                     If(c.r == 0, marks(c, lambda n, o: F_), And(MK(c.pre, c.r), marks(c, lambda n, o: And(o, n != c.r))))),
                                    ('no queued node is lost', Implies(c.r == 0, (lambda n: FA([n], Implies(n != 0, Not(MK(c.pre, n))), Select(c.pre.arr(ML), n)))(fresh(IntSort(), 'n'))))])
    fewer = ('marks do not overflow', )
    nomark = lambda c: (lambda n: FA([n], Not(MK(c.post, n)), Select(c.post.arr(ML), n)))(fresh(IntSort(), 'n'))
    add(B('reset', 0), requires=lambda c: [('no mark from the future', LEM(c.pre))], modifies=lambda c: [(BK, c.this), ('global', GLOB)], throws=lambda c: F_,
        ensures=lambda c: kq2(c) + [('no node is marked', nomark(c)), ('no mark from the future', LEM(c.post)), ('one generation later', c.post.glob(GLOB) == c.pre.glob(GLOB) + 1)])
    few = lambda c, k=0: ('fewer than 2^31 resets', c.pre.glob(GLOB) < INTMAX - k)
    bq = lambda h, c: h(BQ, c.this)
    add(G('initializeBqueue', 0), requires=lambda c: [few(c), ('no mark from the future', LEM(c.pre)), ('the queue', bq(c.pre, c) != 0)], modifies=lambda c: [(BK, bq(c.pre, c)), ('global', GLOB)], throws=lambda c: F_,
        ensures=lambda c: [('the queue of the graph', c.r == bq(c.pre, c)), ('no node is marked', nomark(c)), ('no mark from the future', LEM(c.post)), ('empty cover', QI(c.post, c.r)), ('entries are nodes', QN(c.post, c.r)), ('one generation later', c.post.glob(GLOB) == c.pre.glob(GLOB) + 1)])
    # ---- hooks of the propagation, overridden by the temporal network
    UPD = 'TemporalNetwork.m_updatedTimepoints'
    both = [E + 'DistanceGraph', E + 'TemporalNetwork']
    add(G('handleNodeUpdate', 1), interface=True, this=both, requires=lambda c: [('!a temporal network has its origin', acc(c.pre(NODES, c.this), 'len') > 0)], modifies=lambda c: [(UPD, c.this)], throws=lambda c: T_,
        ensures=lambda c: [('at most this node is recorded as updated', (lambda x: FA([x], Implies(And(sel(acc(c.post(UPD, c.this), 'mem'), x), Not(sel(acc(c.pre(UPD, c.this), 'mem'), x))), x == c.a(0)), Select(acc(c.post(UPD, c.this), 'mem'), x)))(fresh(IntSort(), 'x')))])
    add(G('cycleDetected', 1), interface=True, this=both, throws=lambda c: F_, ensures=lambda c: [('only the source of the propagation signals a cycle', Implies(c.r, c.a(0) == c.pre('TemporalNetwork.incrementalSource', c.this)))])
    def l_past(L):
        c = L.eng.ctx0
        yield ('past', lambda st: LEM(HV(L.eng, st)))
    add(G('updateNogoodList', 1), requires=lambda c: [few(c), ('no mark from the future', LEM(c.pre))], modifies=lambda c: [(NOGOOD, c.this), (ML, ANY), ('global', GLOB)], throws=lambda c: T_, loops=[l_past],
        ensures=lambda c: [lemk(c), ('one generation later', c.post.glob(GLOB) == c.pre.glob(GLOB) + 1)])

    # ---- Bellman-Ford: nothing pending means every edge is satisfied
    def st_loop(P, name):
        return lambda L: state(lambda st, ent: P(HV(L.eng, st), HV(L.eng, ent), L, st), name)(L)

    def l_bf(L):
        c = L.eng.ctx0
        h0 = c.pre; q = h0(BQ, c.this)
        yield from st_loop(lambda h, e, L, st: QI(h, q), 'cover')(L)
        yield from st_loop(lambda h, e, L, st: QN(h, q), 'nonnull')(L)
        yield ('past', lambda st: LEM(HV(L.eng, st)))
        yield from st_loop(lambda h, e, L, st: allsat(h, c.this, lambda n: Not(MK(h, n))), 'unmarked nodes have satisfied edges')(L)
        yield from expanding(L, sat, lambda h, n: MK(h, n))
        yield ('potentials fall', lambda st: (lambda n, h: FA([n], h(POT, n) <= h0(POT, n), Select(h.arr(POT), n)))(fresh(IntSort(), 'n'), HV(L.eng, st)))
        for kn, nf in L.refs(E + 'Dnode') + L.refs(E + 'Tnode'):
            for kp in L.nums(changed=False):
                yield ('potential:%s:%s' % (kn[1], kp[1]), lambda st, nf=nf, kp=kp: Or(MK(HV(L.eng, st), nf(st)), HV(L.eng, st)(POT, nf(st)) == st.env[kp]))

    def expanding(L, S, again, A=None):
        """the node being expanded: its edges below the counter are satisfied unless it is queued again; the other unqueued nodes are satisfied"""
        c = L.eng.ctx0
        for kn, nf in L.refs(E + 'Dnode') + L.refs(E + 'Tnode'):
            for ki in L.nums(changed=True):
                def f(st, nf=nf, ki=ki):
                    h = HV(L.eng, st); n = nf(st); i = st.env[ki]; j = fresh(IntSort(), 'j')
                    return And(i >= 0, Or(again(h, n), FA([j], Implies(And(0 <= j, j < i, j < h(INN if A == IN else OUTN, n)), S(h, oedge(h, n, j, A))), oedge(h, n, j, A))))
                yield ('expanding:%s:%s' % (kn[1], ki[1]), f)

            def g(st, nf=nf):
                h = HV(L.eng, st); n = nf(st)
                return allsat(h, c.this, lambda m: And(m != n, Not(again(h, m))), S, A)
            yield ('others:%s' % (kn[1],), g)
    graph = lambda c: [('queue of the graph', bq(c.pre, c) != 0), ('nodes', NN(c.pre, c.this))] + WF(c.pre)
    bfm = lambda c: [(BK, bq(c.pre, c)), (KEY, ANY), (ML, ANY), (POT, ANY), (DIST, ANY), (DEPTH, ANY), (PRED, ANY), (GEN, ANY), (GDIJ, c.this), (NOGOOD, c.this), (UPD, ANY), ('global', GLOB)]
    def failure(c, inc):
        n = fresh(IntSort(), 'n'); N = acc(c.pre(NODES, c.this), 'len')
        back = And(n == c.pre('TemporalNetwork.incrementalSource', c.this), c.post(POT, n) < c.pre(POT, n)) if inc else n == c.pre('TemporalNetwork.incrementalSource', c.this)
        return ('failure is reported only after a path with as many edges as there are nodes, or one back to the source of the propagation', Implies(Not(c.r), Exists([n], Or(c.post(DEPTH, n) >= N, back))))
    add(G('incBellmanFord', 0), requires=lambda c: graph(c) + [few(c), ('no mark from the future', LEM(c.pre)), ('queue covers the marked nodes', QI(c.pre, bq(c.pre, c))), ('entries are nodes', QN(c.pre, bq(c.pre, c))), ('what is not queued is satisfied', allsat(c.pre, c.this, lambda n: Not(MK(c.pre, n))))],
        modifies=bfm, throws=lambda c: T_, loops=[l_bf], ensures=lambda c: [lemk(c), ('at most one generation later', And(c.post.glob(GLOB) >= c.pre.glob(GLOB), c.post.glob(GLOB) <= c.pre.glob(GLOB) + 1)), ('consistent means every edge is satisfied', Implies(c.r, allsat(c.post, c.this))), failure(c, True)])

    def l_init(L):
        c = L.eng.ctx0

        def fm(st, ent, n):
            return MK(HV(L.eng, st), n)
        yield from walk(fm, 'nodes passed are queued')(L)
        yield from index(fm, lambda st: HV(L.eng, st)(NODES, c.this), 'nodes passed are queued')(L)
    add(G('bellmanFord', 0), requires=lambda c: graph(c) + [few(c, 1), ('no mark from the future', LEM(c.pre))], modifies=bfm, throws=lambda c: T_, loops=[l_bf, l_init],
        ensures=lambda c: [lemk(c), ('at most two generations later', And(c.post.glob(GLOB) >= c.pre.glob(GLOB), c.post.glob(GLOB) <= c.pre.glob(GLOB) + 2)), ('consistent means every edge is satisfied', Implies(c.r, allsat(c.post, c.this))), failure(c, False)])

    # ---- Dijkstra: labelled nodes have walks of their distance, and no edge could improve a distance
    WALK = WALK0 = z3.Function('walkOfLength', IntSort(), IntSort(), IntSort(), BoolSort())
    MAXD = z3.IntVal(TIME_MAX // 2)

    def LAB(h, g, n): return h(GEN, n) == h(GDIJ, g)
    def gens(h, g): n = fresh(IntSort(), 'n'); return FA([n], h(GEN, n) <= h(GDIJ, g), Select(h.arr(GEN), n))
    def tri(g, bound=None, pot=None, A=None):
        """the edge cannot improve a distance any more"""
        me, it = (TO, FROM) if A == IN else (FROM, TO)

        def S(h, e):
            n, m = h(me, e), h(it, e); d = h(DIST, n) + h(LEN, e)
            far = d > MAXD if bound is None else d + (pot - h(POT, m) if A != IN else h(POT, m) - pot) >= bound
            return Implies(LAB(h, g, n), Or(far, And(LAB(h, g, m), h(DIST, m) <= d)))
        return S

    def walks(h, g, s): n = fresh(IntSort(), 'n'); return FA([n], Implies(LAB(h, g, n), WALK(s, n, h(DIST, n))), Select(h.arr(GEN), n))

    def closed(h, s, A=None, W=None):
        """assumed of an arbitrary relation: it contains the walks from s (so every walk proved below is a real one)"""
        A = A or OUT; n, j, d, d2 = fresh(IntSort(), 'n'), fresh(IntSort(), 'j'), fresh(IntSort(), 'd'), fresh(IntSort(), 'd')
        e = oedge(h, n, j, A); WALK = W or WALK0
        return And(WALK(s, s, 0), FA([n, j, d], Implies(And(WALK(s, n, d), 0 <= j, j < h(INN if A == IN else OUTN, n)), WALK(s, h(FROM if A == IN else TO, e), d + h(LEN, e))), (WALK(s, n, d), e)))

    def l_dij(bound=None, pot=None, A=None):
        def f(L):
            if L.eng.case is not None and L.eng.case != ('backward' if A == IN else 'forward'): return
            c = L.eng.ctx0; g = c.this; q = c.pre(BQ, g); s = c.a(0)
            S = tri(g, bound(c) if bound else None, pot(c) if pot else None, A)
            yield from st_loop(lambda h, e, L, st: QI(h, q), 'cover')(L)
            yield from st_loop(lambda h, e, L, st: QN(h, q), 'nonnull')(L)
            yield from st_loop(lambda h, e, L, st: gens(h, g), 'no label from the future')(L)
            yield from st_loop(lambda h, e, L, st: walks(h, g, s), 'distances are walks')(L)
            yield from st_loop(lambda h, e, L, st: And(LAB(h, g, s), h(DIST, s) <= 0), 'source')(L)
            yield from st_loop(lambda h, e, L, st: allsat(h, g, lambda n: Not(MK(h, n)), S, A), 'unqueued nodes cannot improve others')(L)
            yield from st_loop(lambda h, e, L, st: (lambda n: FA([n], Implies(And(n != 0, MK(h, n)), LAB(h, g, n)), Select(h.arr(GEN), n), Select(h.arr(ML), n)))(fresh(IntSort(), 'n')), 'queued nodes are labelled')(L)
            yield from expanding(L, S, lambda h, n: MK(h, n), A)
            for kn, nf in L.refs(E + 'Dnode') + L.refs(E + 'Tnode'):
                if ('e', kn) not in L.W or True:
                    yield ('labelled:%s' % (kn[1],), lambda st, nf=nf: LAB(HV(L.eng, st), g, nf(st)))
                for kp in L.nums(changed=False):
                    yield ('walk:%s:%s' % (kn[1], kp[1]), lambda st, nf=nf, kp=kp: And(WALK(s, nf(st), st.env[kp]), Or(MK(HV(L.eng, st), nf(st)), HV(L.eng, st)(DIST, nf(st)) == st.env[kp])))
        return f
    fewg = lambda c: ('fewer than 2^31 searches', c.pre(GDIJ, c.this) < INTMAX)
    dijm = lambda c: [(BK, bq(c.pre, c)), (KEY, ANY), (ML, ANY), (DIST, ANY), (DEPTH, ANY), (PRED, ANY), (GEN, ANY), (GDIJ, c.this), (UPD, ANY), ('global', GLOB)]
    add(G('dijkstra', 2), requires=lambda c: graph(c) + [few(c), fewg(c), ('no mark from the future', LEM(c.pre)), ('no label from the future', gens(c.pre, c.this)), ('source', c.a(0) != 0), ('?walks', closed(c.pre, c.a(0)))],
        modifies=dijm, throws=lambda c: T_, loops=[l_dij()],
        ensures=lambda c: [('the source is at distance zero or less', And(LAB(c.post, c.this, c.a(0)), c.post(DIST, c.a(0)) <= 0)),
                           ('no label from the future', gens(c.post, c.this)),
                           ('distances are lengths of walks from the source', walks(c.post, c.this, c.a(0))),
                           ('without a destination no edge improves a distance', Implies(c.a(1) == 0, allsat(c.post, c.this, None, tri(c.this))))])

    fwd = lambda c: c.a(3) == 1
    def bd(A, d):
        bnd = lambda c: c.a(1)
        pot = lambda c: c.a(2)
        return lambda c: allsat(c.post, c.this, None, tri(c.this, bnd(c), pot(c), A), A)
    add(G('boundedDijkstra', 4), requires=lambda c: graph(c) + WF(c.pre, IN) + [few(c), fewg(c), ('no mark from the future', LEM(c.pre)), ('no label from the future', gens(c.pre, c.this)), ('source', c.a(0) != 0), ('a direction', Or(c.a(3) == 1, c.a(3) == -1)),
                                                                     ('?walks', And(closed(c.pre, c.a(0))) if False else If(c.a(3) == 1, closed(c.pre, c.a(0)), closed(c.pre, c.a(0), IN)))],
        modifies=dijm, throws=lambda c: T_, loops=[l_dij(lambda c: c.a(1), lambda c: c.a(2)), l_dij(lambda c: c.a(1), lambda c: c.a(2), IN)], opts=dict(cases={'forward': lambda c: c.a(3) == 1, 'backward': lambda c: c.a(3) != 1}),
        ensures=lambda c: [('the source is at distance zero or less', And(LAB(c.post, c.this, c.a(0)), c.post(DIST, c.a(0)) <= 0)), ('no label from the future', gens(c.post, c.this)),
                           ('distances are lengths of walks', walks(c.post, c.this, c.a(0))),
                           ('no edge within the bound improves a distance', If(c.a(3) == 1, bd(OUT, 1)(c), bd(IN, -1)(c)))])

    # ---- edges: the length of an edge is the least of its specified lengths
    SP = lambda h, e: h(SPECS, e)
    def least(h, e):
        s = SP(h, e); j, k = fresh(IntSort(), 'j'), fresh(IntSort(), 'k')
        return And(FA([j], Implies(And(0 <= j, j < acc(s, 'len')), h(LEN, e) <= sel(acc(s, 'arr'), j)), Select(acc(s, 'arr'), j)),
                   Exists([k], And(0 <= k, k < acc(s, 'len'), sel(acc(s, 'arr'), k) == h(LEN, e))))
    EM = lambda h, n, m: sel(acc(h(EMAP, n), 'val'), m)
    EH = lambda h, n, m: And(sel(acc(h(EMAP, n), 'mem'), m), EM(h, n, m) != 0)
    def emok(h):
        n, m = fresh(IntSort(), 'n'), fresh(IntSort(), 'm')
        e = EM(h, n, m)
        return [('the edge map is right', FA([n, m], Implies(EH(h, n, m), And(h(FROM, e) == n, h(TO, e) == m, h(OUTN, n) > 0)), e))]
    add(G('findEdge', 2), requires=lambda c: emok(c.pre), modifies=lambda c: [(EMAP, c.a(0))], throws=lambda c: T_,
        ensures=lambda c: emok(c.post) + [('the edge between the nodes, null if there is none', c.r == If(EH(c.pre, c.a(0), c.a(1)), EM(c.pre, c.a(0), c.a(1)), 0)),
                                          ('no edge appears or vanishes', (lambda m: FA([m], And(EH(c.post, c.a(0), m) == EH(c.pre, c.a(0), m), Implies(EH(c.pre, c.a(0), m), EM(c.post, c.a(0), m) == EM(c.pre, c.a(0), m))), EM(c.post, c.a(0), m)))(fresh(IntSort(), 'm')))])

    # ---- the temporal network: bounds of the timepoints
    T = lambda n, a=None, sub=None: F('TemporalNetwork', n, a, sub)
    UB, LB, REF = 'Tnode.upperBound', 'Tnode.lowerBound', 'Tnode.reftime'
    PINF = TIME_MAX // 2 + 1
    org = lambda h, g: node(h, g, 0)
    timepoints = lambda c: ('!nodes of a temporal network are timepoints', (lambda n: FA([n], DT(n) != c.eng.cid(E + 'Dnode'), DT(n)))(fresh(IntSort(), 'n')))

    def satb(fld, A):
        """the edge cannot tighten the bound any more (a node that was not reached gives no bound)"""
        me, it = (TO, FROM) if A == IN else (FROM, TO)
        v = (lambda h, n: h(fld, n)) if A != IN else (lambda h, n: -h(fld, n))
        return lambda h, e: Or(v(h, h(me, e)) >= PINF, v(h, h(it, e)) <= v(h, h(me, e)) + h(LEN, e)), v

    def reached(h, v, s, A):
        """reached nodes have a walk of that length"""
        n = fresh(IntSort(), 'n')
        return FA([n], Implies(v(h, n) < PINF, WALK(s, n, v(h, n))), Select(h.arr(UB if A != IN else LB), n))

    def queuedreached(h, v):
        n = fresh(IntSort(), 'n')
        return FA([n], Implies(And(n != 0, MK(h, n)), v(h, n) < PINF), Select(h.arr(ML), n))

    ATMOST = {OUT: z3.Function('walkFromOriginAtMost', IntSort(), IntSort(), BoolSort()), IN: z3.Function('walkToOriginAtMost', IntSort(), IntSort(), BoolSort())}

    def atmost(h, A):
        """definition of an arbitrary relation that contains 'there is a walk from (to) the origin no longer than d'"""
        n, j, d, d2 = fresh(IntSort(), 'n'), fresh(IntSort(), 'j'), fresh(IntSort(), 'd'), fresh(IntSort(), 'd')
        e = oedge(h, n, j, A); W = ATMOST[A]
        return FA([n, j, d], Implies(And(W(n, d), 0 <= j, j < h(INN if A == IN else OUTN, n)), W(h(FROM if A == IN else TO, e), d + h(LEN, e))), (W(n, d), e))

    def REACHOF(fld, A):
        v = (lambda h, n: h(fld, n)) if A != IN else (lambda h, n: -h(fld, n))

        def reach(h):
            n = fresh(IntSort(), 'n')
            return FA([n], Implies(v(h, n) < PINF, ATMOST[A](n, v(h, n))), Select(h.arr(fld), n))
        return reach
    bounded = lambda h, fld: (lambda n: FA([n], (h(fld, n) if fld != LB else -h(fld, n)) <= PINF, Select(h.arr(fld), n)))(fresh(IntSort(), 'n'))
    lower = lambda h, h0, fld, A: (lambda n: FA([n], (h(fld, n) <= h0(fld, n)) if A == OUT else (h(fld, n) >= h0(fld, n)), Select(h.arr(fld), n)))(fresh(IntSort(), 'n'))
    nomarks = lambda h: (lambda n: FA([n], Implies(n != 0, Not(MK(h, n))), Select(h.arr(ML), n)))(fresh(IntSort(), 'n'))

    def incd(name, fld, A):
        S, v = satb(fld, A)

        reach = REACHOF(fld, A)

        def l(L):
            c = L.eng.ctx0; g = c.this; q = c.pre(BQ, g); s = org(c.pre, g)
            yield from st_loop(lambda h, e, L, st: QI(h, q), 'cover')(L)
            yield from st_loop(lambda h, e, L, st: QN(h, q), 'nonnull')(L)
            yield from st_loop(lambda h, e, L, st: queuedreached(h, v), 'queued nodes are reached')(L)
            yield from st_loop(lambda h, e, L, st: Implies(reach(c.pre), reach(h)), 'bounds are walks')(L)
            yield ('past', lambda st: LEM(HV(L.eng, st)))
            yield from st_loop(lambda h, e, L, st: lower(h, c.pre, fld, A), 'tighter')(L)
            yield from st_loop(lambda h, e, L, st: allsat(h, g, lambda n: Not(MK(h, n)), S, A), 'unqueued nodes cannot tighten others')(L)
            yield from expanding(L, S, lambda h, n: MK(h, n), A)
            for kn, nf in L.refs(E + 'Dnode') + L.refs(E + 'Tnode'):
                yield ('reached:%s' % (kn[1],), lambda st, nf=nf: v(HV(L.eng, st), nf(st)) < PINF)
        add(T(name, 0), requires=lambda c: graph(c) + WF(c.pre, A) + [timepoints(c), ('no mark from the future', LEM(c.pre)), ('queue covers the marked nodes', QI(c.pre, bq(c.pre, c))), ('entries are nodes', QN(c.pre, bq(c.pre, c))), ('queued nodes are reached', queuedreached(c.pre, v)),
                                                     ('unqueued nodes cannot tighten others', allsat(c.pre, c.this, lambda n: Not(MK(c.pre, n)), S, A)), ('?walks', atmost(c.pre, A))],
            modifies=lambda c: [(BK, bq(c.pre, c)), (KEY, ANY), (ML, ANY), (fld, ANY), (DEPTH, ANY), (UPD, c.this)], throws=lambda c: T_, loops=[l],
            ensures=lambda c: [('no edge can tighten a bound', allsat(c.post, c.this, None, S, A)), ('bounds are no tighter than the walks', Implies(reach(c.pre), reach(c.post))), ('queue covers the marked nodes', QI(c.post, bq(c.pre, c))), ('entries are nodes', QN(c.post, bq(c.pre, c))),
                               lemk(c), ('bounds only tighten', lower(c.post, c.pre, fld, A)), ('nothing is queued', nomarks(c.post))])
    incd('incDijkstraForward', UB, OUT)
    incd('incDijkstraBackward', LB, IN)
    incd('incDijkstraReftime', REF, OUT)
    incd('incDijkstraRefBack', REF, IN)
    CONSI, HASD, UPDT, INCS, REFP = ['TemporalNetwork.' + f for f in ('consistent', 'hasDeletions', 'm_updatedTimepoints', 'incrementalSource', 'm_refpoint')]
    satU, satL = satb(UB, OUT)[0], satb(LB, IN)[0]
    reachU, reachL = REACHOF(UB, OUT), REACHOF(LB, IN)
    fixed = lambda h, g: [('every edge is satisfied by the potentials', allsat(h, g)), ('no edge can tighten an upper bound', allsat(h, g, None, satU, OUT)), ('no edge can tighten a lower bound', allsat(h, g, None, satL, IN))]
    netm = lambda c: bfm(c) + [(UB, ANY), (LB, ANY), (REF, ANY), (CONSI, c.this), (HASD, c.this), (INCS, c.this)]
    tn = lambda c: graph(c) + WF(c.pre, IN) + [timepoints(c), ('the origin exists', acc(c.pre(NODES, c.this), 'len') > 0), ('no mark from the future', LEM(c.pre))]
    net2 = lambda c: [lemk(c), ('few generations later', And(c.post.glob(GLOB) >= c.pre.glob(GLOB), c.post.glob(GLOB) <= c.pre.glob(GLOB) + 4))]

    def l_unreached(L):
        c = L.eng.ctx0
        un = lambda st, ent, n: And(HV(L.eng, st)(UB, n) == PINF, HV(L.eng, st)(LB, n) == -PINF)
        unr = lambda st, ent, n: HV(L.eng, st)(REF, n) == If(c.pre(INN, c.pre(REFP, c.this)) == 0, z3.IntVal(PINF), z3.IntVal(-PINF))
        sq = lambda st: HV(L.eng, st)(NODES, c.this)
        for f, nm in ((un, 'not reached yet'), (unr, 'not reached yet (reference)')):
            yield from walk(f, nm)(L)
            yield from index(f, sq, nm)(L)
        yield ('past', lambda st: LEM(HV(L.eng, st)))
        yield ('nomarks', lambda st: nomarks(HV(L.eng, st)))
    INGRAPH, POS = z3.Function('nodeOfTheNetwork', IntSort(), BoolSort()), z3.Function('placeInTheNetwork', IntSort(), IntSort())

    def apart(c):
        """no edge joins a node of the network and a node outside it"""
        n, j = fresh(IntSort(), 'n'), fresh(IntSort(), 'j'); h = c.pre
        return [('no edge leaves or enters the network (%s)' % A, FA([n, j], Implies(And(Not(INGRAPH(n)), 0 <= j, j < h(INN if A == IN else OUTN, n)), Not(INGRAPH(h(FROM if A == IN else TO, oedge(h, n, j, A))))), oedge(h, n, j, A))) for A in (OUT, IN)]

    def membership(c):
        n, k, d = fresh(IntSort(), 'n'), fresh(IntSort(), 'k'), fresh(IntSort(), 'd'); L = acc(c.pre(NODES, c.this), 'len')
        return [('?nodes of the network', And(FA([k], Implies(And(0 <= k, k < L), INGRAPH(node(c.pre, c.this, k))), node(c.pre, c.this, k)), FA([n], Implies(INGRAPH(n), And(0 <= POS(n), POS(n) < L, node(c.pre, c.this, POS(n)) == n)), INGRAPH(n)))),
                ('?nodes outside it do not matter', And(*[FA([n, d], Implies(Not(INGRAPH(n)), ATMOST[A](n, d)), ATMOST[A](n, d)) for A in (OUT, IN)]))]
    add(T('fullPropagate', 0), requires=lambda c: tn(c) + apart(c) + membership(c) + [few(c, 4), ('?walks out', And(atmost(c.pre, OUT), ATMOST[OUT](org(c.pre, c.this), 0))), ('?walks in', And(atmost(c.pre, IN), ATMOST[IN](org(c.pre, c.this), 0)))], modifies=netm, throws=lambda c: T_, loops=[l_unreached],
        ensures=lambda c: net2(c) + [('nothing is left to propagate', Not(c.post(HASD, c.this)))] + [(a, Implies(c.post(CONSI, c.this), b)) for a, b in fixed(c.post, c.this) + [
            ('upper bounds are no tighter than the walks from the origin', reachU(c.post)), ('lower bounds are no tighter than the walks to the origin', reachL(c.post)),
            ('the origin is at zero', And(c.post(UB, org(c.pre, c.this)) <= 0, c.post(LB, org(c.pre, c.this)) >= 0))]])
    add(T('startNode', 5), requires=lambda c: emok(c.pre) + [('two nodes', c.a(0) != c.a(2))], modifies=lambda c: [('arg', 1), ('arg', 3), (EMAP, c.a(0)), (EMAP, c.a(2)), (DEPTH, c.a(0)), (DEPTH, c.a(2))], throws=lambda c: T_,
        ensures=lambda c: (lambda e, r, hd, fd, hd2, fd2, he, hr: [
            ('the edge between the two that is not satisfied is propagated first', Or(And(c.r == c.a(2), he, hd < PINF, hd + c.pre(LEN, e) < fd, fd2 == hd + c.pre(LEN, e), hd2 == hd),
                                                                                     And(c.r == c.a(0), Not(And(he, hd < PINF, hd + c.pre(LEN, e) < fd)), hr, fd < PINF, fd + c.pre(LEN, r) < hd, hd2 == fd + c.pre(LEN, r), fd2 == fd),
                                                                                     And(c.r == 0, Not(And(he, hd < PINF, hd + c.pre(LEN, e) < fd)), Not(And(hr, fd < PINF, fd + c.pre(LEN, r) < hd)), hd2 == hd, fd2 == fd)))] + emok(c.post) + [
            ('no edge appears or vanishes', (lambda n, m: FA([n, m], And(EH(c.post, n, m) == EH(c.pre, n, m), Implies(EH(c.pre, n, m), EM(c.post, n, m) == EM(c.pre, n, m))), EM(c.post, n, m)))(fresh(IntSort(), 'n'), fresh(IntSort(), 'm')))])(
                If(c.a(4), EM(c.pre, c.a(0), c.a(2)), EM(c.pre, c.a(2), c.a(0))), If(c.a(4), EM(c.pre, c.a(2), c.a(0)), EM(c.pre, c.a(0), c.a(2))), c.a(1), c.a(3), c.ap(1), c.ap(3),
                If(c.a(4), EH(c.pre, c.a(0), c.a(2)), EH(c.pre, c.a(2), c.a(0))), If(c.a(4), EH(c.pre, c.a(2), c.a(0)), EH(c.pre, c.a(0), c.a(2)))))

    # ---- incremental propagation after one constraint changed
    def but(c, S):
        """satisfied, except perhaps between the two ends of the changed constraint"""
        a, b = c.a(0), c.a(1)
        return lambda h, e: Or(And(h(FROM, e) == a, h(TO, e) == b), And(h(FROM, e) == b, h(TO, e) == a), S(h, e))

    def inmap(h, A):
        n, j = fresh(IntSort(), 'n'), fresh(IntSort(), 'j'); e = oedge(h, n, j, A)
        return ('edges are in the map (%s)' % A, FA([n, j], Implies(And(0 <= j, j < h(INN if A == IN else OUTN, n)), And(EH(h, h(FROM, e), h(TO, e)), EM(h, h(FROM, e), h(TO, e)) == e)), e))
    live = lambda c: And(c.pre(CONSI, c.this), Not(c.pre(HASD, c.this)))
    fixedbut = lambda c: [('the potentials satisfy every edge but perhaps the changed ones', allsat(c.pre, c.this, None, but(c, sat))), ('the upper bounds too', allsat(c.pre, c.this, None, but(c, satU), OUT)), ('the lower bounds too', allsat(c.pre, c.this, None, but(c, satL), IN))]
    def mapped(h):
        n, m, d = [fresh(IntSort(), x) for x in 'nmd']
        return And(FA([n, m, d], Implies(And(ATMOST[OUT](n, d), EH(h, n, m)), ATMOST[OUT](m, d + h(LEN, EM(h, n, m)))), (ATMOST[OUT](n, d), EM(h, n, m))),
                   FA([n, m, d], Implies(And(ATMOST[IN](m, d), EH(h, n, m)), ATMOST[IN](n, d + h(LEN, EM(h, n, m)))), (ATMOST[IN](m, d), EM(h, n, m))))
    add(T('incPropagate', 2), requires=lambda c: tn(c) + emok(c.pre) + [inmap(c.pre, OUT), inmap(c.pre, IN), few(c, 4), ('two nodes', And(c.a(0) != 0, c.a(1) != 0, c.a(0) != c.a(1))), ('potentials are finite', (lambda n: FA([n], c.pre(POT, n) < PINF, Select(c.pre.arr(POT), n)))(fresh(IntSort(), 'n'))), ('upper bounds are at most infinite', bounded(c.pre, UB)), ('lower bounds are at least minus infinite', bounded(c.pre, LB)),
                                                                    ('reference times are within the infinities', And(bounded(c.pre, REF), (lambda n: FA([n], c.pre(REF, n) >= -PINF, Select(c.pre.arr(REF), n)))(fresh(IntSort(), 'n')))),] +
                                     [(a, Implies(live(c), b)) for a, b in fixedbut(c)] + [('!reference times (not claimed)', And(allsat(c.pre, c.this, None, but(c, satb(REF, OUT)[0]), OUT), allsat(c.pre, c.this, None, but(c, satb(REF, IN)[0]), IN))),
                                     ('?walks by the edge map', mapped(c.pre)), ('?walks out', And(atmost(c.pre, OUT), ATMOST[OUT](org(c.pre, c.this), 0))), ('?walks in', And(atmost(c.pre, IN), ATMOST[IN](org(c.pre, c.this), 0)))],
        modifies=lambda c: netm(c) + [(EMAP, c.a(0)), (EMAP, c.a(1))], throws=lambda c: T_,
        ensures=lambda c: net2(c) + [('deletions stay to be propagated', c.post(HASD, c.this) == c.pre(HASD, c.this)), ('an inconsistent network stays so until it is propagated in full', Implies(c.post(CONSI, c.this), c.pre(CONSI, c.this)))] +
                [(a, Implies(And(c.post(CONSI, c.this), Not(c.post(HASD, c.this))), b)) for a, b in fixed(c.post, c.this)] +
                [(a, Implies(And(live(c), c.post(CONSI, c.this)), Implies(b, d))) for a, b, d in (('upper bounds stay no tighter than the walks', reachU(c.pre), reachU(c.post)), ('lower bounds stay no tighter than the walks', reachL(c.pre), reachL(c.post)))])

    # ---- edges come and go with the specifications of their length
    PAIRS = lambda h: (fresh(IntSort(), 'n'), fresh(IntSort(), 'm'))
    def sameedges(c, n0=None, m0=None):
        """every other pair of nodes keeps its edge, every other edge its length"""
        n, m = fresh(IntSort(), 'n'), fresh(IntSort(), 'm')
        other = T_ if n0 is None else Or(n != n0, m != m0)
        return ('every other pair of nodes keeps its edge', FA([n, m], Implies(other, And(EH(c.post, n, m) == EH(c.pre, n, m), Implies(EH(c.pre, n, m), EM(c.post, n, m) == EM(c.pre, n, m)))), EM(c.post, n, m)))
    def edgeval(h):
        n, m = fresh(IntSort(), 'n'), fresh(IntSort(), 'm'); e = EM(h, n, m)
        return ('the length of every edge is the least of its specifications', FA([n, m], Implies(EH(h, n, m), least(h, e)), e))
    ATT = ('Dnode.outArray', 'Dnode.inArray', 'Dnode.outCount', 'Dnode.inCount', 'Dnode.outArraySize', 'Dnode.inArraySize')
    add(G('attachEdge'), modifies=lambda c: [('arg', 0), ('arg', 1), ('arg', 2)], throws=lambda c: T_,
        ensures=lambda c: (lambda k, a, b: [('one edge more', And(acc(b, 'len') >= 1, acc(b, 'len') == acc(a, 'len') + 1, c.ap(2) == acc(b, 'len'), sel(acc(b, 'arr'), acc(a, 'len')) == c.a(3))),
                                            ('the others stay', FA([k], Implies(And(0 <= k, k < acc(a, 'len')), sel(acc(b, 'arr'), k) == sel(acc(a, 'arr'), k)), Select(acc(b, 'arr'), k)))])(fresh(IntSort(), 'k'), c.a(0), c.ap(0)))
    add(G('detachEdge'), requires=lambda c: [('the edge is there', Exists([z3.Int('k!d')], And(0 <= z3.Int('k!d'), z3.Int('k!d') < acc(c.a(0), 'len'), sel(acc(c.a(0), 'arr'), z3.Int('k!d')) == c.a(2))))],
        modifies=lambda c: [('arg', 0), ('arg', 1)], throws=lambda c: T_,
        ensures=lambda c: (lambda k, a, b: [('one edge less', And(acc(b, 'len') == acc(a, 'len') - 1, c.ap(1) == acc(b, 'len'))),
                                            ('the others stay', FA([k], Implies(And(0 <= k, k < acc(b, 'len')), Or(sel(acc(b, 'arr'), k) == sel(acc(a, 'arr'), k), sel(acc(b, 'arr'), k) == sel(acc(a, 'arr'), k + 1))), Select(acc(b, 'arr'), k)))])(fresh(IntSort(), 'k'), c.a(0), c.ap(0)))
    add(G('createEdge'), requires=lambda c: emok(c.pre) + [('!edges in the map exist', (lambda n, m: FA([n, m], Implies(EH(c.pre, n, m), And(EM(c.pre, n, m) > 0, EM(c.pre, n, m) < c.pre.alloc)), EM(c.pre, n, m)))(fresh(IntSort(), 'n'), fresh(IntSort(), 'm'))), ('no edge yet', Not(EH(c.pre, c.a(0), c.a(1)))), ('nodes', And(c.a(0) > 0, c.a(1) > 0))],
        modifies=lambda c: [(EMAP, c.a(0)), ('DistanceGraph.edges', c.this), 'alloc'] + [(f, r) for f in ATT for r in (c.a(0), c.a(1))], throws=lambda c: T_,
        ensures=lambda c: (lambda n, m: [('other map edges are right', FA([n, m], Implies(And(n != c.a(0), EH(c.pre, n, m)), And(EH(c.post, n, m), EM(c.post, n, m) == EM(c.pre, n, m), c.post(FROM, EM(c.pre, n, m)) == n, c.post(TO, EM(c.pre, n, m)) == m, c.post(OUTN, n) > 0)), EM(c.pre, n, m))),
            ('map edges here are right', FA([m], Implies(EH(c.post, c.a(0), m), And(Or(m == c.a(1), And(EH(c.pre, c.a(0), m), EM(c.post, c.a(0), m) == EM(c.pre, c.a(0), m))))), EM(c.post, c.a(0), m))), ('the node has an edge', c.post(OUTN, c.a(0)) > 0)])(fresh(IntSort(), 'n'), fresh(IntSort(), 'm')) + [sameedges(c, c.a(0), c.a(1))] + emok(c.post) + [('a new edge of that length', And(c.r > 0, EH(c.post, c.a(0), c.a(1)), EM(c.post, c.a(0), c.a(1)) == c.r, c.post(FROM, c.r) == c.a(0), c.post(TO, c.r) == c.a(1), c.post(LEN, c.r) == c.a(2), acc(SP(c.post, c.r), 'len') == 0, c.r >= c.pre.alloc))])
    add(G('addEdgeSpec'), requires=lambda c: emok(c.pre) + [edgeval(c.pre), ('nodes', And(c.a(0) > 0, c.a(1) > 0))],
        modifies=lambda c: [(EMAP, c.a(0)), ('DistanceGraph.edges', c.this), 'alloc', (LEN, EM(c.pre, c.a(0), c.a(1))), (SPECS, EM(c.pre, c.a(0), c.a(1)))] + [(f, r) for f in ATT for r in (c.a(0), c.a(1))], throws=lambda c: T_,
        ensures=lambda c: emok(c.post) + [sameedges(c, c.a(0), c.a(1)), edgeval(c.post),
            ('the edge is as tight as the specification asks, and no tighter', And(EH(c.post, c.a(0), c.a(1)), c.post(LEN, EM(c.post, c.a(0), c.a(1))) == If(And(EH(c.pre, c.a(0), c.a(1)), c.pre(LEN, EM(c.pre, c.a(0), c.a(1))) <= c.a(2)), c.pre(LEN, EM(c.pre, c.a(0), c.a(1))), c.a(2))))])
    among = lambda h, n, e, A: (lambda k: Exists([k], And(0 <= k, k < acc(h(A, n), 'len'), sel(acc(h(A, n), 'arr'), k) == e)))(fresh(IntSort(), 'k'))
    edgeok = lambda h, e: [('the edge is attached to its nodes', And(among(h, h(FROM, e), e, OUT), among(h, h(TO, e), e, IN)))]
    ATTOF = lambda h, e: [('Dnode.outArray', h(FROM, e)), ('Dnode.outCount', h(FROM, e)), ('Dnode.inArray', h(TO, e)), ('Dnode.inCount', h(TO, e))]
    add(G('eraseEdge'), modifies=lambda c: [(LEN, c.a(0)), ('DistanceGraph.edges', c.this)], throws=lambda c: T_, requires=lambda c: [('the graph owns the edge', sel(acc(c.pre('DistanceGraph.edges', c.this), 'mem'), c.a(0)))],
        ensures=lambda c: [('the graph drops this edge and no other', (lambda x: FA([x], sel(acc(c.post('DistanceGraph.edges', c.this), 'mem'), x) == And(x != c.a(0), sel(acc(c.pre('DistanceGraph.edges', c.this), 'mem'), x)), sel(acc(c.post('DistanceGraph.edges', c.this), 'mem'), x)))(fresh(IntSort(), 'x')))])
    owned = lambda h, g, e: sel(acc(h('DistanceGraph.edges', g), 'mem'), e)
    add(G('deleteEdge'), requires=lambda c: emok(c.pre) + edgeok(c.pre, c.a(0)) + [('the graph owns the edge', owned(c.pre, c.this, c.a(0))), ('the edge is in the map', And(EH(c.pre, c.pre(FROM, c.a(0)), c.pre(TO, c.a(0))), EM(c.pre, c.pre(FROM, c.a(0)), c.pre(TO, c.a(0))) == c.a(0))),
            ('an edge in the map is attached', (lambda n, m: FA([n, m], Implies(EH(c.pre, n, m), among(c.pre, n, EM(c.pre, n, m), OUT)), EM(c.pre, n, m)))(fresh(IntSort(), 'n'), fresh(IntSort(), 'm')))],
        modifies=lambda c: [(LEN, c.a(0)), ('DistanceGraph.edges', c.this), (EMAP, c.pre(FROM, c.a(0)))] + ATTOF(c.pre, c.a(0)), throws=lambda c: T_,
        ensures=lambda c: (emok(c.post) if False else []) + [sameedges(c, c.pre(FROM, c.a(0)), c.pre(TO, c.a(0))), ('the edge is gone', And(Not(EH(c.post, c.pre(FROM, c.a(0)), c.pre(TO, c.a(0)))), Not(owned(c.post, c.this, c.a(0)))))])
    others = lambda c, n0, m0: (lambda n, m: FA([n, m], Implies(And(EH(c.pre, n, m), Or(n != n0, m != m0)), least(c.post, EM(c.pre, n, m))), EM(c.pre, n, m)))(fresh(IntSort(), 'n'), fresh(IntSort(), 'm'))
    def removed(L):
        """the list of specifications is searched from the front"""
        c = L.eng.ctx0
        e = EM(c.pre, c.a(0), c.a(1))
        arr = acc(c.pre(SPECS, e), 'arr'); j = fresh(IntSort(), 'j')
        for k in L.locals(lambda v: isinstance(v, Iter) and v.kind == 'seq', True):
            yield ('not yet:%s' % k[1], lambda st, k=k: FA([j], Implies(And(0 <= j, j < st.env[k].pos[0]), sel(arr, j) != c.a(2)), sel(arr, j)))
            yield ('range:%s' % k[1], lambda st, k=k: And(0 <= st.env[k].pos[0], st.env[k].pos[0] <= acc(c.pre(SPECS, e), 'len')))
        yield ('specs', lambda st: HV(L.eng, st)(SPECS, e) == c.pre(SPECS, e))
    add(G('removeEdgeSpec'), requires=lambda c: emok(c.pre) + [edgeval(c.pre), ('nodes', And(c.a(0) > 0, c.a(1) > 0)), ('the specification is there', (lambda k: And(EH(c.pre, c.a(0), c.a(1)), Exists([k], And(0 <= k, k < acc(SP(c.pre, EM(c.pre, c.a(0), c.a(1))), 'len'), sel(acc(SP(c.pre, EM(c.pre, c.a(0), c.a(1))), 'arr'), k) == c.a(2)))))(fresh(IntSort(), 'k'))),
            ('the graph owns the edge', owned(c.pre, c.this, EM(c.pre, c.a(0), c.a(1)))), ] + edgeok(c.pre, EM(c.pre, c.a(0), c.a(1))) + [
            ('an edge in the map is attached', (lambda n, m: FA([n, m], Implies(EH(c.pre, n, m), among(c.pre, n, EM(c.pre, n, m), OUT)), EM(c.pre, n, m)))(fresh(IntSort(), 'n'), fresh(IntSort(), 'm')))],
        modifies=lambda c: [(EMAP, c.a(0)), ('DistanceGraph.edges', c.this), (LEN, EM(c.pre, c.a(0), c.a(1))), (SPECS, EM(c.pre, c.a(0), c.a(1)))] + ATTOF(c.pre, EM(c.pre, c.a(0), c.a(1))), throws=lambda c: T_, loops=[removed],
        ensures=lambda c: (lambda e: [sameedges(c, c.a(0), c.a(1)), ('one specification less', acc(SP(c.post, e), 'len') == acc(SP(c.pre, e), 'len') - 1),
            ('the edge goes with its last specification', EH(c.post, c.a(0), c.a(1)) == (acc(SP(c.post, e), 'len') > 0)), edgeval(c.post)])(EM(c.pre, c.a(0), c.a(1))))

    # ---- queries of the temporal network answer from an up-to-date network
    walkdef = lambda c, s=None: [('?walks out', And(atmost(c.pre, OUT), ATMOST[OUT](s if s is not None else org(c.pre, c.this), 0))), ('?walks in', And(atmost(c.pre, IN), ATMOST[IN](s if s is not None else org(c.pre, c.this), 0)))]
    def uptodate(h, c):
        return fixed(h, c.this) + [('upper bounds are no tighter than the walks from the origin', reachU(h)), ('lower bounds are no tighter than the walks to the origin', reachL(h)), ('the origin is at zero', And(h(UB, org(c.pre, c.this)) <= 0, h(LB, org(c.pre, c.this)) >= 0))]
    query = lambda c: tn(c) + apart(c) + membership(c) + [few(c, 5)] + walkdef(c) + [('incremental propagation kept up: ' + a, Implies(live(c), b)) for a, b in uptodate(c.pre, c)]
    answered = lambda c: net2(c) + [(a, Implies(c.post(CONSI, c.this), b)) for a, b in [('nothing is left to propagate', Not(c.post(HASD, c.this)))] + uptodate(c.post, c)]
    add(T('propagate', 0), requires=query, modifies=netm, throws=lambda c: T_, ensures=lambda c: answered(c) + [('answers whether the network is consistent', c.r == c.post(CONSI, c.this))])
    add(T('getTimepointBounds', 3), requires=query, modifies=lambda c: netm(c) + [('arg', 1), ('arg', 2)], throws=lambda c: T_,
        ensures=lambda c: answered(c) + [('the bounds of the timepoint, an empty interval if the network is inconsistent', If(c.post(CONSI, c.this), And(c.ap(1) == c.post(LB, c.a(0)), c.ap(2) == c.post(UB, c.a(0))), c.ap(1) > c.ap(2)))])
    def l_from(L):
        c = L.eng.ctx0
        un = lambda st, ent, n: And(HV(L.eng, st)(UB, n) == PINF, HV(L.eng, st)(LB, n) == -PINF)
        sq = lambda st: HV(L.eng, st)(NODES, c.this)
        yield from walk(un, 'not reached yet')(L)
        yield from index(un, sq, 'not reached yet')(L)
    add(T('propagateBoundsFrom', 1), requires=lambda c: tn(c) + apart(c) + membership(c) + [few(c, 3), ('a node of the network', And(c.a(0) > 0, INGRAPH(c.a(0))))] + walkdef(c, c.a(0)), modifies=lambda c: bfm(c) + [(UB, ANY), (LB, ANY)], throws=lambda c: T_, loops=[l_from],
        ensures=lambda c: [lemk(c)] + fixed(c.post, c.this)[1:] + [('upper bounds are no tighter than the walks from the node', reachU(c.post)), ('lower bounds are no tighter than the walks to the node', reachL(c.post)),
            ('the node is at zero', And(c.post(UB, c.a(0)) <= 0, c.post(LB, c.a(0)) >= 0))])
