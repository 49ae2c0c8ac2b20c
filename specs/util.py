"""helpers shared by the specifications: loop invariants over containers, ghost fields"""
import z3
from z3 import *
from cv.engine import T_, F_, sel, acc, fresh, Iter, kind
from cv.stl import pat_ok


def ghost(db, cls, *fields):
    """ghost fields (history of calls): they exist only in the specification"""
    k = db.classes.get(cls)
    if k is None: return
    for f in fields:
        f, s = f if isinstance(f, tuple) else (f, IntSort())
        if f in k.fields: continue
        t = type(next(iter(db.funcs.values())).rtype)()
        t.k = 'int'; t.s = 'ghost'; t.c = False; t.n = None; t.tn = None; t.bits = None; t.sg = True; t.t = None; t.a = None; t._sz = s
        k.fields[f] = t


def FA(xs, b, *pats):
    ps = []
    for p in pats:
        if isinstance(p, (tuple, list)):
            if all(pat_ok(q) for q in p): ps.append(MultiPattern(*p))
        elif pat_ok(p): ps.append(p)
    return ForAll(xs, b, patterns=ps) if ps else ForAll(xs, b)


def walk(P, name='passed', rest=None):
    """P(st, entry_st, x): holds of every element an iterating loop has passed (x: element or key);
    rest(st, entry_st, x): holds of every element still to come"""
    def sp(L):
        eng = L.eng
        for k in L.locals(lambda v: isinstance(v, Iter)):
            if ('e', k) not in L.W: continue

            def f(st, k=k, P=P, passed=True):
                it = st.env[k]
                c = eng.rv(it.loc, st)
                if it.kind == 'seq':
                    j = fresh(IntSort(), 'j'); a = acc(c, 'arr'); pos = it.pos[0]
                    rng = And(0 <= j, j < pos) if passed else And(pos <= j, j < acc(c, 'len'))
                    b = P(st, L.entry, sel(a, j))
                    return None if b is None else FA([j], Implies(rng, b), Select(a, j))
                m = acc(c, 'mem'); x = fresh(m.domain(), 'x')
                before = Or(it.pos[0], x < it.pos[1])
                b = P(st, L.entry, x)
                return None if b is None else FA([x], Implies(And(sel(m, x), before if passed else Not(before)), b), Select(m, x))
            yield ('walk:%s:%s' % (name, k[1]), f)
            if rest is not None:
                yield ('rest:%s:%s' % (name, k[1]), lambda st, f=f: f(st, P=rest, passed=False))
    return sp


def index(P, seqf, name='idx'):
    """loops counting an integer local upwards: P(st, entry, x) of every element of the sequence seqf(st) below it"""
    def sp(L):
        for k in L.locals(lambda v: isinstance(v, z3.ExprRef) and z3.is_int(v), changed=True):
            def f(st, k=k):
                s = seqf(st); i = st.env[k]
                j = fresh(IntSort(), 'j')
                b = P(st, L.entry, sel(acc(s, 'arr'), j))
                return And(i >= 0, i <= acc(s, 'len'), FA([j], Implies(And(0 <= j, j < i), b), Select(acc(s, 'arr'), j)))
            yield ('index:%s:%s' % (name, k[1]), f)
    return sp


def state(F, name='state'):
    """F(st, entry): a loop-independent relation between the current state and the loop entry"""
    def sp(L):
        yield ('state:' + name, lambda st: F(st, L.entry))
    return sp
