"""Contracts and the context they are written against."""
import z3
from z3 import *
from .engine import (Unsupported, Loc, LFld, LVar, LTmp, Obj, Ptr, acc, sel, fresh, is_true, is_false, T_, F_, INF, DT, mk, kind, INFO, conj)

ANY = object()


def K_(k):
    """short field name -> heap key: 'IntervalDomain.m_lb' -> 'EUROPA::IntervalDomain::m_lb'"""
    if '.' in k:
        c, f = k.rsplit('.', 1)
        if not c.startswith('EUROPA::') and '::' not in c and not c.startswith('~'):
            c = 'EUROPA::' + c
        return c.lstrip('~') + '::' + f
    return k


class HV:
    """heap view: h('IntervalDomain.m_lb', ref)"""

    def __init__(self, eng, st):
        self.eng = eng; self.st = st

    def __call__(self, k, ref):
        return sel(self.arr(k), ref)

    def arr(self, k):
        key = K_(k)
        if key in self.st.heap:
            return self.st.heap[key]
        if key == '@alive':
            return z3.Const('H0@@alive', z3.ArraySort(IntSort(), BoolSort()))
        t = self.eng.hkeyty(key)
        s = IntSort() if t.k == 'ref' else self.eng.so.sort(t)
        a = z3.Const('H0@' + key, z3.ArraySort(IntSort(), s))
        return a

    def glob(self, k, sort=None):
        key = 'G@' + (k if k.startswith('EUROPA::') else 'EUROPA::' + k)
        return self.st.heap[key] if key in self.st.heap else z3.Const(key, sort or IntSort())

    def isa(self, ref, cls):
        cls = cls if '::' in cls else 'EUROPA::' + cls
        d = self.st.dt.get(ref.get_id())
        if d is not None:
            return BoolVal(cls == d or cls in self.eng.db.supers(d))
        return self.eng.isa(ref, cls)

    def is_exact(self, ref, cls):
        d = self.st.dt.get(ref.get_id())
        if d is not None:
            return BoolVal((cls if '::' in cls else 'EUROPA::' + cls) == d)
        return DT(ref) == self.eng.cid(cls if '::' in cls else 'EUROPA::' + cls)

    def emb(self, k, ref):
        key = K_(k)
        return self.eng.emb(None, key, ref, self.eng.hkeyty(key).n) if False else self._emb(key, ref)

    def _emb(self, key, ref):
        return self.eng.emb(self.st, key, ref, self.eng.hkeyty(key).n)

    @property
    def alloc(self):
        return self.st.alloc

    def cls(self, c):
        return self.eng.cid(c if '::' in c else 'EUROPA::' + c)


class Ctx:
    def __init__(self, eng, fn, this, args, st, pre):
        self.eng = eng; self.fn = fn; self.this = this; self.args = args; self.st = st
        self.prest = pre if pre is not None else st
        self.pre = HV(eng, self.prest)
        self.post = HV(eng, st)
        self.ret = None

    def _val(self, a, st):
        if isinstance(a, Loc): return a.read(st)
        if isinstance(a, Obj): return a.ref
        if isinstance(a, Ptr): return a.loc.read(st)
        return a

    def a(self, i):
        """argument value on entry (a Ref for class objects)"""
        return self._val(self.args[i], self.prest)

    def ap(self, i):
        """value of reference argument i on exit"""
        return self._val(self.args[i], self.st)

    @property
    def r(self):
        v = self.ret
        if isinstance(v, Obj): return v.ref
        if isinstance(v, Loc): return v.read(self.st)
        return v

    @property
    def thisval(self):
        """value of *this for value classes, on entry"""
        return self._val(self.this, self.prest)

    @property
    def thisval_post(self):
        return self._val(self.this, self.st)


def norm(l):
    out = []
    for i, x in enumerate(l or []):
        if isinstance(x, tuple): out.append(x)
        else: out.append(('#%d' % (i + 1), x))
    return [(a, b if isinstance(b, z3.ExprRef) else BoolVal(bool(b))) for a, b in out]


class Contract:
    def __init__(self, key, requires=None, ensures=None, modifies=None, throws=None, this=None, interface=False, trusted=None, loops=None,
                 prop=None, noreturn=False, ret_fn=None, cond=None, note='', opts=None, aux=None, fresh_this=False, exc_ensures=None, inst=None, also=()):
        self.key = key; self.requires = requires; self.ensures = ensures; self.modifies = modifies; self.throws = throws
        self.this = this; self.interface = interface; self.trusted = trusted; self.loops = loops or []; self.prop = prop
        self.noreturn = noreturn; self.ret_fn = ret_fn; self.cond = cond; self.note = note; self.opts = opts or {}
        self.fresh_this = fresh_this; self.exc_ensures = exc_ensures; self.inst = inst; self.also = set(also)

    def get_requires(self, c): return norm(self.requires(c)) if self.requires else []
    def get_ensures(self, c): return norm(self.ensures(c)) if self.ensures else []

    def get_throws(self, c):
        if self.throws is None: return None
        if self.throws is True: return T_
        return self.throws(c)

    def mods(self, c):
        return list(self.modifies(c)) if self.modifies else []

    def havoc(self, c):
        eng, st = c.eng, c.st
        bykey = {}
        for m in self.mods(c):
            if m == 'alloc':
                na = fresh(IntSort(), 'alloc'); st.assume(na >= st.alloc); st.alloc = na
            elif m[0] == 'arg':
                a = c.args[m[1]]
                if isinstance(a, Ptr): a = a.loc
                if isinstance(a, Loc):
                    v = a.read(st)
                    n = fresh(v.sort(), 'out'); a.write(st, n); eng.typefacts(st, n, a.ty)
            elif m[0] == 'global':
                key = 'G@' + (m[1] if m[1].startswith('EUROPA::') else 'EUROPA::' + m[1])
                b = c.post.glob(m[1]); st.heap[key] = fresh(b.sort(), 'glob')
            elif m[0] == 'this':
                v = c.this.read(st); n = fresh(v.sort(), 'out'); c.this.write(st, n); eng.typefacts(st, n, c.this.ty)
            else:
                bykey.setdefault(K_(m[0]), []).append(m[1])
        for key, ws in bykey.items():
            old = c.post.arr(key)
            if all(isinstance(w, z3.ExprRef) for w in ws):
                a = old
                for w in ws:
                    a = Store(a, w, fresh(old.sort().range(), 'hv'))
                st.heap[key] = a
            else:
                a = fresh(old.sort(), 'H' + key.split('::')[-1])
                st.heap[key] = a
                p = modpred(ws)
                if p is not None:
                    r = fresh(IntSort(), 'r')
                    st.assume(ForAll([r], Implies(And(r < c.prest.alloc, Not(p(r))), sel(a, r) == sel(old, r)), patterns=[Select(a, r)]))


def modpred(ws):
    """None means everything"""
    if any(w is ANY for w in ws): return None
    return lambda r: Or(*[(r == w) if isinstance(w, z3.ExprRef) else w(r) for w in ws])


class Registry(dict):
    def __init__(self):
        super().__init__()
        self.hooks = {}; self.opaque = set(); self.selfid = set(); self.sources = []; self.notes = []

    def add(self, key, **kw):
        c = Contract(key, **kw)
        if key in self: raise Exception('duplicate contract ' + key)
        self[key] = c
        return c
