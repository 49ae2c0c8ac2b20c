"""Symbolic executor over the extracted ASTs.  Values are z3 terms; class
objects live in a Burstall heap (one array per Class::field); standard
containers are mathematical values; loops are cut by inductive invariants;
calls use contracts, or are inlined when the callee has no contract."""
import re
from fractions import Fraction
import z3; z3.set_param("warning", False)
from z3 import (And, Or, Not, Implies, If, Int, Real, Bool, IntSort, RealSort, BoolSort, IntVal, RealVal, BoolVal,
                Select, Store, K, ForAll, Exists, is_true, is_false, ToReal, ToInt)
from .front import Ty


class Unsupported(Exception):
    pass


ISI = z3.Function('isInt', z3.RealSort(), z3.BoolSort())


_il = {}


def int_args(f):
    """ground arguments of isInt and of to_int in a formula"""
    r = _il.get(f.get_id())
    if r is not None and r[0].eq(f): return r[1:]
    a = {}; t = {}; seen = set(); todo = [(f, False)]; q = False
    while todo:
        x, inq = todo.pop()
        if z3.is_quantifier(x): x, inq = x.body(), True
        if (x.get_id(), inq) in seen: continue
        seen.add((x.get_id(), inq))
        if z3.is_app(x):
            if x.decl().eq(ISI):
                if hasvar(x): q = True
                else: a[x.arg(0).get_id()] = x.arg(0)
            elif x.decl().kind() == z3.Z3_OP_TO_INT and not hasvar(x): t[x.get_id()] = x
            todo += [(y, inq) for y in x.children()]
    _il[f.get_id()] = (f, a, t, q)
    return a, t, q


def hasvar(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if z3.is_var(y): return True
        todo += y.children()
    return False


def int_lemmas(fs):
    """instances of true facts about integers for the terms of fs (isInt(x): x is an integer)"""
    A = {}; T = {}; Q = False
    for f in fs:
        a, t, q = int_args(f)
        A.update(a); T.update(t); Q = Q or q
    out = []
    if not A and not Q: return out
    for t in T.values():
        e = t.arg(0); r = ToReal(t)
        A.setdefault(r.get_id(), r); A.setdefault((-r).get_id(), -r)
        out.append(ISI(r)); out.append(z3.Implies(ISI(e), e == r))
    # open conditionals and numerals
    todo = list(A.values()) + [RealVal(0), RealVal(1)]; terms = {}
    while todo:
        x = todo.pop()
        if x.get_id() in terms: continue
        terms[x.get_id()] = x
        d = z3.simplify(x)
        if not d.eq(x) and not z3.is_app_of(d, z3.Z3_OP_ITE):
            out.append(z3.And(d == x, ISI(d) == ISI(x))); todo.append(d)
        if z3.is_rational_value(x): out.append(ISI(x) if x.denominator_as_long() == 1 else z3.Not(ISI(x)))
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            out.append(ISI(x) == z3.If(x.arg(0), ISI(x.arg(1)), ISI(x.arg(2))))
            todo += [x.arg(1), x.arg(2)]
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
            out.append(ISI(x) == ISI(x.arg(0))); todo.append(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and x.arg(0).denominator_as_long() == 1:
            out.append(z3.Implies(ISI(x.arg(1)), ISI(x))); todo.append(x.arg(1))
            if abs(x.arg(0).numerator_as_long()) == 1: out.append(z3.Implies(ISI(x), ISI(x.arg(1))))
        elif z3.is_app_of(x, z3.Z3_OP_TO_REAL): out.append(ISI(x))
        elif z3.is_app_of(x, z3.Z3_OP_ADD) or z3.is_app_of(x, z3.Z3_OP_SUB):
            out.append(z3.Implies(z3.And(*[ISI(y) for y in x.children()]), ISI(x))); todo += x.children()
            if z3.is_app_of(d, z3.Z3_OP_ADD) and d.num_args() == 2 and z3.is_rational_value(d.arg(0)) and d.arg(0).denominator_as_long() == 1:
                out.append(ISI(x) == ISI(d.arg(1))); todo.append(d.arg(1))
    ts = [x for x in terms.values() if not z3.is_app_of(x, z3.Z3_OP_ITE)]
    if len(ts) <= 16:
        for i, x in enumerate(ts):
            for j, y in enumerate(ts):
                if i == j or (z3.is_rational_value(x) and z3.is_rational_value(y)): continue
                out.append(z3.Implies(z3.And(ISI(x), ISI(y), x < y), x + 1 <= y))
    if Q or len(ts) > 16:
        x, y = z3.Reals('il!x il!y')
        out.append(z3.ForAll([x, y], z3.Implies(z3.And(ISI(x), ISI(y), x < y), x + 1 <= y), patterns=[z3.MultiPattern(ISI(x), ISI(y))]))
    return out


INF = 4503599627370495
T_, F_ = BoolVal(True), BoolVal(False)


def conj(l):
    l = [x for x in l if not is_true(x)]
    if not l:
        return T_
    return l[0] if len(l) == 1 else And(*l)


_ctr = [0]


def uid():
    _ctr[0] += 1
    return _ctr[0]


def fresh(sort, name='k'):
    return z3.Const('%s!%d' % (name, uid()), sort)


# ---------------------------------------------------------------- sorts
IDLIKE = {'EUROPA::Id', 'boost::shared_ptr', 'std::shared_ptr', 'boost::weak_ptr', 'std::auto_ptr', 'std::unique_ptr',
          'boost::scoped_ptr'}
SEQ = {'std::vector', 'std::list', 'std::deque', 'std::stack', 'std::queue', 'std::priority_queue', 'std::__cxx11::list'}
SET = {'std::set', 'boost::unordered_set', 'std::unordered_set', 'boost::unordered::unordered_set'}
MAP = {'std::map', 'boost::unordered_map', 'std::unordered_map', 'boost::unordered::unordered_map'}
MMAP = {'std::multimap'}
STRN = {'std::basic_string', 'std::__cxx11::basic_string', 'EUROPA::LabelStr'}
PAIR = {'std::pair'}
ITERS = re.compile(r'(_Rb_tree_(const_)?iterator|__normal_iterator|_List_(const_)?iterator|reverse_iterator)$')
VALUE_STRUCTS = {'EUROPA::Bucket'}
_sorts = {}
INFO = {}  # sort name -> (kind, elem sorts...)


def mksort(kind, *el):
    nm = kind + '<' + ','.join(str(x) for x in el) + '>'
    if nm in _sorts:
        return _sorts[nm]
    D = z3.Datatype(nm)
    if kind == 'seq':
        D.declare('mk', ('len', IntSort()), ('arr', z3.ArraySort(IntSort(), el[0])))
    elif kind == 'set':
        D.declare('mk', ('mem', z3.ArraySort(el[0], BoolSort())), ('card', IntSort()))
    elif kind == 'map':
        D.declare('mk', ('mem', z3.ArraySort(el[0], BoolSort())), ('card', IntSort()), ('val', z3.ArraySort(el[0], el[1])))
    elif kind == 'pair':
        D.declare('mk', ('first', el[0]), ('second', el[1]))
    s = D.create()
    _sorts[nm] = s
    INFO[nm] = (kind,) + el
    return s


def mkstruct(cname, fields):
    nm = 'struct ' + cname
    if nm in _sorts:
        return _sorts[nm]
    D = z3.Datatype(nm)
    D.declare('mk', *[(f, s) for f, s in fields])
    s = D.create()
    _sorts[nm] = s
    INFO[nm] = ('struct', cname, [f for f, _ in fields])
    return s


def kind(v):
    i = INFO.get(str(v.sort()))
    return i[0] if i else None


def isseq(v): return kind(v) == 'seq'
def isset(v): return kind(v) == 'set'
def ismap(v): return kind(v) == 'map'


def acc(v, name):
    """datatype accessor with simplification"""
    s = v.sort()
    i = INFO[str(s)]
    names = {'seq': ['len', 'arr'], 'set': ['mem', 'card'], 'map': ['mem', 'card', 'val'], 'pair': ['first', 'second']}.get(i[0]) or i[2]
    k = names.index(name)
    if v.decl().eq(s.constructor(0)):
        return v.arg(k)
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = v.arg(1), v.arg(2)
        if a.decl().eq(s.constructor(0)) or b.decl().eq(s.constructor(0)):
            x, y = acc(a, name), acc(b, name)
            return x if x.eq(y) else If(v.arg(0), x, y)
    return s.accessor(0, k)(v)


def mk(s, *a):
    return s.constructor(0)(*a)


def upd(v, name, x):
    s = v.sort(); i = INFO[str(s)]
    names = {'seq': ['len', 'arr'], 'set': ['mem', 'card'], 'map': ['mem', 'card', 'val'], 'pair': ['first', 'second']}.get(i[0]) or i[2]
    return mk(s, *[x if n == name else acc(v, n) for n in names])


def sel(a, i):
    """Select with a little simplification through Store/K"""
    while True:
        if z3.is_app_of(a, z3.Z3_OP_STORE):
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if z3.is_int_value(i) and z3.is_int_value(j) or z3.is_rational_value(i) and z3.is_rational_value(j):
                a = a.arg(0); continue
        elif z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return a.arg(0)
        return Select(a, i)


class Sorts:
    def __init__(self, db):
        self.db = db

    def cat(self, ty):
        """val | obj | iter | opaque"""
        k = ty.k
        if k in ('bool', 'int', 'enum', 'float', 'ptr', 'void'):
            return 'val'
        if k == 'ref':
            return self.cat(ty.t)
        if k == 'rec':
            tn = ty.tn
            if tn in ('EUROPA::edouble', 'EUROPA::eint') or tn in IDLIKE or tn in SEQ or tn in SET or tn in MAP or tn in STRN or tn in PAIR:
                return 'val'
            if tn in VALUE_STRUCTS or ty.n in VALUE_STRUCTS:
                return 'val'
            if ITERS.search(tn):
                return 'iter'
            if tn.startswith('std::') or tn.startswith('boost::') or tn.startswith('__gnu'):
                return 'opaque'
            return 'obj'
        if k == 'arr':
            return 'opaque'
        return 'opaque'

    def sort(self, ty):
        if ty._sz is not None:
            return ty._sz
        r = self._sort(ty)
        ty._sz = r
        return r

    def _sort(self, ty):
        k = ty.k
        if k == 'bool':
            return BoolSort()
        if k in ('int', 'enum', 'ptr'):
            return IntSort()
        if k == 'float':
            return RealSort()
        if k == 'ref':
            return self.sort(ty.t)
        if k == 'rec':
            tn = ty.tn
            if tn == 'EUROPA::edouble':
                return RealSort()
            if tn == 'EUROPA::eint' or tn in IDLIKE or tn in STRN:
                return IntSort()
            if tn in SEQ:
                return mksort('seq', self.sort(ty.a[0]))
            if tn in SET:
                return mksort('set', self.sort(ty.a[0]))
            if tn in MAP:
                return mksort('map', self.sort(ty.a[0]), self.sort(ty.a[1]))
            if tn in PAIR:
                return mksort('pair', self.sort(ty.a[0]), self.sort(ty.a[1]))
            if tn in VALUE_STRUCTS or ty.n in VALUE_STRUCTS:
                c = self.db.classes[ty.n]
                return mkstruct(ty.n, [(f, self.sort(t)) for f, t in self.allfields(ty.n)])
            if self.cat(ty) == 'obj':
                return IntSort()
        raise Unsupported('no sort for type ' + ty.s)

    def allfields(self, cn):
        r = []
        for c in reversed(self.db.supers(cn)):
            k = self.db.classes.get(c)
            if k:
                for f, t in k.fields.items():
                    r.append((f, t))
        return r


# ---------------------------------------------------------------- values
class Obj:
    """an identity-class object (lvalue or prvalue)"""
    __slots__ = ('ref', 'ty')

    def __init__(self, ref, ty=None):
        self.ref = ref; self.ty = ty

    def same(self, o):
        return isinstance(o, Obj) and self.ref.eq(o.ref)


class Loc:
    ty = None


class LVar(Loc):
    def __init__(self, key, ty): self.key = key; self.ty = ty
    def read(self, st): return st.env[self.key]
    def write(self, st, v): st.env[self.key] = v
    def same(self, o): return isinstance(o, LVar) and o.key == self.key
    def mergekey(self): return ('v', self.key)
    def terms(self): return []
    def rebuild(self, t): return self


class LGlob(Loc):
    def __init__(self, key, ty, sort): self.key = key; self.ty = ty; self.sort = sort
    def read(self, st):
        k = 'G@' + self.key
        if k not in st.heap:
            st.heap[k] = z3.Const(k, self.sort)
        return st.heap[k]
    def write(self, st, v):
        self.read(st); st.heap['G@' + self.key] = v
    def mergekey(self): return ('g', self.key)
    def terms(self): return []
    def rebuild(self, t): return self


class LFld(Loc):
    def __init__(self, eng, key, ref, ty): self.eng = eng; self.key = key; self.ref = ref; self.ty = ty
    def read(self, st):
        if self.key in self.eng.selfid:
            self.eng.assumed.add('%s is the handle of the object itself (set once, by its constructor)' % self.key)
            return self.ref
        return sel(self.eng.harr(st, self.key, self.ty), self.ref)
    def write(self, st, v):
        if self.key in self.eng.selfid: raise Unsupported('write of own handle ' + self.key)
        st.heap[self.key] = Store(self.eng.harr(st, self.key, self.ty), self.ref, v)
    def mergekey(self): return ('f', self.key)
    def terms(self): return [self.ref]
    def rebuild(self, t): return LFld(self.eng, self.key, t[0], self.ty)


class LElem(Loc):
    def __init__(self, base, idx, ty): self.base = base; self.idx = idx; self.ty = ty
    def read(self, st): return sel(acc(self.base.read(st), 'arr'), self.idx)
    def write(self, st, v):
        b = self.base.read(st)
        self.base.write(st, upd(b, 'arr', Store(acc(b, 'arr'), self.idx, v)))
    def mergekey(self): return ('e', self.base.mergekey())
    def terms(self): return [self.idx] + self.base.terms()
    def rebuild(self, t): return LElem(self.base.rebuild(t[1:]), t[0], self.ty)


class LKey(Loc):
    """value slot of a map entry"""
    def __init__(self, base, key, ty): self.base = base; self.key = key; self.ty = ty
    def read(self, st): return sel(acc(self.base.read(st), 'val'), self.key)
    def write(self, st, v):
        b = self.base.read(st)
        self.base.write(st, upd(b, 'val', Store(acc(b, 'val'), self.key, v)))
    def mergekey(self): return ('k', self.base.mergekey())
    def terms(self): return [self.key] + self.base.terms()
    def rebuild(self, t): return LKey(self.base.rebuild(t[1:]), t[0], self.ty)


class LProj(Loc):
    def __init__(self, base, name, ty): self.base = base; self.name = name; self.ty = ty
    def read(self, st): return acc(self.base.read(st), self.name)
    def write(self, st, v): self.base.write(st, upd(self.base.read(st), self.name, v))
    def mergekey(self): return ('p', self.name, self.base.mergekey())
    def terms(self): return self.base.terms()
    def rebuild(self, t): return LProj(self.base.rebuild(t), self.name, self.ty)


class LTmp(Loc):
    def __init__(self, v, ty): self.v = v; self.ty = ty
    def read(self, st): return self.v
    def write(self, st, v): raise Unsupported('write to temporary')
    def mergekey(self): return ('t',) if isinstance(self.v, z3.ExprRef) else ('t', id(self))
    def terms(self): return [self.v] if isinstance(self.v, z3.ExprRef) else []
    def rebuild(self, t): return LTmp(t[0], self.ty) if t else self


class Entry:
    """*it for a map iterator"""
    def __init__(self, loc, key, ty): self.loc = loc; self.key = key; self.ty = ty
    def mergekey(self): return ('en', self.loc.mergekey())
    def terms(self): return [self.key] + self.loc.terms()
    def rebuild(self, t): return Entry(self.loc.rebuild(t[1:]), t[0], self.ty)


class Ptr:
    """pointer to a value-class location"""
    def __init__(self, loc): self.loc = loc
    def mergekey(self): return ('ptr', self.loc.mergekey())
    def terms(self): return self.loc.terms()
    def rebuild(self, t): return Ptr(self.loc.rebuild(t))


class Iter:
    """iterator over the container at loc. pos: [idx] (seq) or [end, key] (set/map)"""
    def __init__(self, loc, kind, pos, rev=False): self.loc = loc; self.kind = kind; self.pos = pos; self.rev = rev
    def mergekey(self): return ('it', self.kind, self.rev, self.loc.mergekey())
    def terms(self): return list(self.pos) + self.loc.terms()
    def rebuild(self, t):
        n = len(self.pos)
        return Iter(self.loc.rebuild(t[n:]), self.kind, t[:n], self.rev)


class FnV:
    def __init__(self, key): self.key = key


class Opaque:
    def __init__(self, what=''): self.what = what
    def mergekey(self): return ('op',)
    def terms(self): return []
    def rebuild(self, t): return self


VOID = Opaque('void')


class State:
    __slots__ = ('env', 'heap', 'alloc', 'pc', 'facts', 'dt')

    def __init__(self):
        self.env = {}; self.heap = {}; self.alloc = None; self.pc = []; self.facts = frozenset(); self.dt = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.heap = dict(self.heap); s.alloc = self.alloc; s.pc = list(self.pc); s.facts = self.facts
        s.dt = dict(self.dt)
        return s

    def assume(self, f):
        if not is_true(f):
            self.pc.append(f)


class Frame:
    def __init__(self, fn, this, thiscls):
        self.id = uid(); self.fn = fn; self.tu = fn.tu; self.this = this; self.cls = thiscls


# functions on refs
DT = z3.Function('dtype', IntSort(), IntSort())
ROOT = z3.Function('root', IntSort(), IntSort())


class Engine:
    def __init__(self, db, contracts, opts=None):
        self.db = db
        self.so = Sorts(db)
        self.contracts = contracts
        self.frames = []
        self.sinks = [[]]
        self.clsid = {}
        self.embf = {}
        self.strs = {}
        self.obls = []          # (label, pc, goal, info)
        self.dry = 0
        self.drops = set()      # (loopid, candname)
        self.newdrops = set()
        self.loopspecs = []
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.quick = None       # feasibility callback
        self.prove = None
        self.alloc0 = Int('alloc0')
        self.safety = True
        self.inline_depth = 0
        self.loops_seen = set()
        self.loop_report = {}
        self.opaque = set(); self.selfid = set()
        self.max_inline = 40
        from . import stl
        self.stl = stl
        self.prune = True
        self.vartypes = {}
        self.visits = {}; self.entryfails = set()

    # ------------------------------------------------------------ utilities
    def T(self, i):
        return self.frames[-1].tu.types[i]

    def cid(self, c):
        if c not in self.clsid:
            self.clsid[c] = len(self.clsid) + 1
        return IntVal(self.clsid[c])

    def dt(self, ref):
        return DT(ref)

    def isa(self, ref, cls):
        cs = self.db.concrete(cls) or [cls]
        return Or(*[DT(ref) == self.cid(c) for c in cs]) if cs else F_

    def harr(self, st, key, ty):
        a = st.heap.get(key)
        if a is None:
            a = z3.Const('H0@' + key, z3.ArraySort(IntSort(), self.so.sort(ty)))
            st.heap[key] = a
        return a

    def fieldty(self, cls, f):
        k = self.db.classes.get(cls)
        if k and f in k.fields:
            return k.fields[f]
        raise Unsupported('no field %s::%s' % (cls, f))

    def hkeyty(self, key):
        c, f = key.rsplit('::', 1)
        return self.fieldty(c, f)

    def emb(self, st, key, ref, cls):
        f = self.embf.get(key)
        if f is None:
            f = self.embf[key] = (z3.Function('emb@' + key, IntSort(), IntSort()), z3.Function('embinv@' + key, IntSort(), IntSort()), len(self.embf) + 1)
        r = f[0](ref)
        fid = ('emb', r.get_id())
        if st is not None and fid not in st.facts:
            st.facts = st.facts | {fid}
            st.assume(And(r < 0, f[1](r) == ref, z3.Function('embtag', IntSort(), IntSort())(r) == f[2],
                          ROOT(r) == If(ref < 0, ROOT(ref), ref), DT(r) == self.cid(cls)))
        return r

    def strconst(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs) + 1
        return IntVal(-self.strs[s])

    def typefacts(self, st, v, ty):
        """facts every well-typed value satisfies"""
        if not isinstance(v, z3.ExprRef) or ty is None:
            return
        k = ty.k
        if k == 'ref':
            ty = ty.t; k = ty.k
        if z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_bool(v):
            return
        fid = (v.get_id(), ty.s)
        if fid in st.facts:
            return
        fs = []
        if k == 'int' and ty.sg is False:
            fs.append(v >= 0)
        elif k == 'rec':
            if ty.tn in ('EUROPA::edouble', 'EUROPA::eint'):
                fs.append(v >= -INF); fs.append(v <= INF)
            elif ty.tn in IDLIKE and ty.a and ty.a[0] is not None:
                self.ptrfacts(st, v, ty.a[0], fs)
            elif ty.tn in SEQ:
                fs.append(acc(v, 'len') >= 0)
            elif ty.tn in SET or ty.tn in MAP:
                fs += self.stl.setfacts(v)
        elif k == 'ptr' and ty.t.k == 'rec':
            self.ptrfacts(st, v, ty.t, fs)
        elif k == 'enum':
            ev = self.db.enums.get(ty.n)
            if ev:
                fs.append(And(v >= min(ev.values()), v <= max(ev.values())))
        if fs:
            st.facts = st.facts | {fid}
            self.keep.append(v)
            for f in fs:
                st.assume(f)

    keep = []

    def ptrfacts(self, st, v, cty, fs):
        if self.so.cat(cty) != 'obj':
            return
        fs.append(v < st.alloc)
        cs = self.db.concrete(cty.n)
        if 0 < len(cs) <= 14:
            fs.append(Or(v == 0, *[DT(v) == self.cid(c) for c in cs]))

    def objfacts(self, st, ref, cls):
        fid = ('obj', ref.get_id(), cls)
        if fid in st.facts:
            return
        self.keep.append(ref)
        st.facts = st.facts | {fid}
        cs = self.db.concrete(cls)
        if 0 < len(cs) <= 14:
            st.assume(Or(*[DT(ref) == self.cid(c) for c in cs]))
        st.assume(And(ref != 0, ref < st.alloc))

    def new_obj(self, st, cls):
        ref = fresh(IntSort(), 'new')
        st.assume(ref == st.alloc)
        st.assume(st.alloc > 0)
        na = fresh(IntSort(), 'alloc')
        st.assume(na == st.alloc + 1)
        st.alloc = na
        st.assume(DT(ref) == self.cid(cls))
        st.dt[ref.get_id()] = cls
        self.keep.append(ref)
        return ref

    def rv(self, v, st):
        if isinstance(v, Loc):
            r = v.read(st)
            if isinstance(r, z3.ExprRef):
                self.typefacts(st, r, v.ty)
            return r
        return v

    def throw(self, st, why, line=None):
        fr = self.frames[-1]
        self.sinks[-1].append((st, why, '%s:%s' % (fr.fn.d.get('f', '?').split('/')[-1], line)))

    def oblige(self, label, st, goal, info=None):
        if self.dry or is_true(goal):
            if not self.dry:
                self.trivial = getattr(self, 'trivial', 0) + 1
            return
        self.obls.append((label, list(st.pc), goal, info))

    # ------------------------------------------------------------ merging
    def vsame(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef):
            return isinstance(b, z3.ExprRef) and a.eq(b)
        if isinstance(a, Obj):
            return a.same(b)
        if hasattr(a, 'mergekey') and hasattr(b, 'mergekey') and a.mergekey() == b.mergekey():
            return all(self.vsame(x, y) for x, y in zip(a.terms(), b.terms()))
        return False

    def vmerge(self, gs, vs):
        v0 = vs[0]
        if all(self.vsame(v0, v) for v in vs[1:]):
            return v0
        if all(isinstance(v, z3.ExprRef) for v in vs):
            if any(v.sort() != v0.sort() for v in vs):
                return None
            return self.ite(gs, vs)
        if all(isinstance(v, Obj) for v in vs):
            return Obj(self.ite(gs, [v.ref for v in vs]), v0.ty)
        if all(isinstance(v, Opaque) for v in vs):
            return v0
        if all(hasattr(v, 'mergekey') for v in vs):
            mk0 = v0.mergekey()
            if all(v.mergekey() == mk0 for v in vs):
                ts = [v.terms() for v in vs]
                nt = []
                for col in zip(*ts):
                    if all(c.eq(col[0]) for c in col):
                        nt.append(col[0])
                    else:
                        nt.append(self.ite(gs, list(col)))
                return v0.rebuild(nt)
        return None

    def ite(self, gs, vs):
        r = vs[-1]
        for g, v in reversed(list(zip(gs[:-1], vs[:-1]))):
            if v.eq(r):
                continue
            if z3.is_bool(r):
                if is_true(v) and is_false(r):
                    r = g; continue
                if is_false(v) and is_true(r):
                    r = Not(g); continue
                if is_false(r):
                    r = And(g, v); continue
                if is_false(v):
                    r = And(Not(g), r); continue
            r = If(g, v, r)
        return r

    def merge(self, svs):
        """svs: list of (state, val) ; returns a (hopefully shorter) list"""
        if len(svs) <= 1:
            return svs
        out = []
        rest = list(svs)
        while rest:
            grp = [rest.pop(0)]
            i = 0
            # greedy: merge everything mergeable with the first
            cand = grp + rest
            m = self.try_merge(cand)
            if m is not None:
                out.append(m); rest = []
                break
            j = 0
            while j < len(rest):
                m = self.try_merge([grp[0], rest[j]])
                if m is not None:
                    grp = [m]; rest.pop(j)
                else:
                    j += 1
            out.append(grp[0])
        return out

    def try_merge(self, svs):
        sts = [s for s, _ in svs]
        s0 = sts[0]
        # values first (cheap failure)
        p = 0
        n = min(len(s.pc) for s in sts)
        while p < n and all(s.pc[p] is s0.pc[p] or s.pc[p].eq(s0.pc[p]) for s in sts[1:]):
            p += 1
        gl = [s.pc[p:] for s in sts]
        two = len(sts) == 2 and gl[0] and gl[1] and (Not(gl[0][0]).eq(gl[1][0]) or Not(gl[1][0]).eq(gl[0][0]))
        named = not two and not any(len(g) == 0 for g in gl)
        if named:
            # one fresh boolean per merged path; it implies that path's conditions
            gs = [fresh(BoolSort(), 'mg') for g in gl]
        else:
            gs = [conj(g) for g in gl]
        val = self.vmerge(gs, [v for _, v in svs])
        if val is None:
            return None
        keys = set(s0.env)
        for s in sts[1:]:
            keys &= set(s.env)
        env = {}
        for k in keys:
            v = self.vmerge(gs, [s.env[k] for s in sts])
            if v is None:
                return None
            env[k] = v
        hk = set()
        for s in sts:
            hk |= set(s.heap)
        heap = {}
        for k in hk:
            vs = []
            dead = False
            for s in sts:
                if k in s.heap:
                    vs.append(s.heap[k])
                else:
                    src = next(t.heap[k] for t in sts if k in t.heap)
                    vs.append(z3.Const(('' if k.startswith('G@') else 'H0@') + k, src.sort()))
            if not all(isinstance(v, z3.ExprRef) for v in vs):
                raise Unsupported('heap merge ' + k)
            heap[k] = self.vmerge(gs, vs)
        m = State()
        m.env = env; m.heap = heap
        m.alloc = self.vmerge(gs, [s.alloc for s in sts])
        m.facts = frozenset.intersection(*[s.facts for s in sts])
        m.dt = {k: v for k, v in s0.dt.items() if all(s.dt.get(k) == v for s in sts[1:])}
        m.pc = list(s0.pc[:p])
        if two:
            b0, b1 = gl[0][0], gl[1][0]
            # guards for ITEs: use the branch literal only
            if len(gl[0]) > 1:
                m.pc.append(Implies(b0, conj(gl[0][1:])))
            if len(gl[1]) > 1:
                m.pc.append(Implies(b1, conj(gl[1][1:])))
            # rebuild values with short guards
            if len(gl[0]) > 1:
                g2 = [b0, b1]
                val = self.vmerge(g2, [v for _, v in svs])
                m.env = {k: self.vmerge(g2, [s.env[k] for s in sts]) for k in keys}
                m.alloc = self.vmerge(g2, [s.alloc for s in sts])
                for k in hk:
                    vs = [s.heap[k] if k in s.heap else z3.Const(('' if k.startswith('G@') else 'H0@') + k, heap[k].sort()) for s in sts]
                    m.heap[k] = self.vmerge(g2, vs)
        elif named:
            m.pc.append(Or(*gs))
            for g, l in zip(gs, gl):
                for f in l: m.pc.append(Implies(g, f))
        return (m, val)

    # ------------------------------------------------------------ branching
    def branch(self, st, c):
        """returns (true-state or None, false-state or None)"""
        c = self.simp(c)
        if is_true(c):
            return st, None
        if is_false(c):
            return None, st
        nc = c.arg(0) if z3.is_not(c) else Not(c)
        for p in reversed(st.pc[-60:]):
            if p.eq(c):
                return st, None
            if p.eq(nc):
                return None, st
        if self.prune:
            if not self.quick(st.pc, c):
                st.assume(nc)
                return None, st
            if not self.quick(st.pc, nc):
                st.assume(c)
                return st, None
        f = st.copy()
        st.pc.append(c); f.pc.append(nc)
        return st, f

    def simp(self, c):
        if z3.is_true(c) or z3.is_false(c):
            return c
        if z3.is_not(c):
            a = self.simp(c.arg(0))
            if is_true(a): return F_
            if is_false(a): return T_
            if z3.is_not(a): return a.arg(0)
            return Not(a)
        if z3.is_eq(c) and c.arg(0).eq(c.arg(1)):
            return T_
        if (z3.is_eq(c) or z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c)) and all(z3.is_int_value(x) or z3.is_rational_value(x) for x in c.children()):
            return z3.simplify(c)
        return c

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        if e is None:
            return [(st, VOID)]
        m = getattr(self, 'ev_' + e['e'], None)
        if m is None:
            raise Unsupported('expression kind ' + e['e'] + ' ' + str(e.get('k')))
        self.line = e.get('l')
        return m(e, st)

    def evr(self, e, st):
        return [(s, self.rv(v, s)) for s, v in self.ev(e, st)]

    def evs(self, es, st, cur=None):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def ev_int(self, e, st):
        t = self.T(e['t'])
        if t.k == 'bool':
            return [(st, BoolVal(e['v'] not in ('0', 'false')))]
        return [(st, IntVal(int(e['v'])))]

    def ev_bool(self, e, st):
        return [(st, BoolVal(bool(e['v'])))]

    def ev_flt(self, e, st):
        f = Fraction(e['v']) if e.get('v') and 'E' not in e['v'] and 'e' not in e['v'] else Fraction(float.fromhex(e['h']))
        try:
            f = Fraction(str(float.fromhex(e['h'])))
        except Exception:
            pass
        return [(st, RealVal(str(f)))]

    def ev_str(self, e, st):
        return [(st, self.strconst(e['v']))]

    def ev_null(self, e, st):
        return [(st, IntVal(0))]

    def ev_zero(self, e, st):
        return [(st, self.zero(st, self.T(e['t'])))]

    def zero(self, st, ty):
        s = self.so.sort(ty)
        if s == BoolSort(): return F_
        if s == IntSort(): return IntVal(0)
        if s == RealSort(): return RealVal(0)
        return self.stl.empty_container(self, s)

    def ev_this(self, e, st):
        t = self.frames[-1].this
        if isinstance(t, Loc):
            return [(st, Ptr(t))]
        return [(st, t)]

    def ev_fn(self, e, st):
        return [(st, FnV(e['f']))]

    def ev_list(self, e, st):
        ty = self.T(e['t'])
        if len(e['a']) == 1:
            return self.evr(e['a'][0], st)
        raise Unsupported('init list')

    def ev_ref(self, e, st):
        fr = self.frames[-1]
        key = (fr.id, e['i'])
        if key not in st.env:
            raise Unsupported('unbound variable ' + e['n'])
        v = st.env[key]
        vt = self.T(e['vt'])
        if vt.k == 'ref':
            return [(st, v)]
        if isinstance(v, (Obj,)):
            return [(st, v)]
        return [(st, LVar(key, vt))]

    def ev_gref(self, e, st):
        ty = self.T(e['vt'])
        g = self.db.globals.get(e['q'])
        if ty.k == 'ref':
            ty = ty.t
        if g and 'v' in g[0]:
            v = int(g[0]['v'])
            return [(st, LTmp(BoolVal(bool(v)) if ty.k == 'bool' else IntVal(v), ty))]
        if g and 'h' in g[0]:
            return [(st, LTmp(RealVal(str(Fraction(float.fromhex(g[0]['h'])))), ty))]
        if self.so.cat(ty) == 'obj':
            r = z3.Const('Gobj@' + e['q'], IntSort())
            self.objfacts(st, r, ty.n)
            st.assume(DT(r) == self.cid(ty.n))
            st.assume(r < self.alloc0)
            return [(st, Obj(r, ty))]
        if self.so.cat(ty) == 'opaque':
            return [(st, Opaque(e['q']))]
        if ty.c:
            c = z3.Const('Gc@' + e['q'], self.so.sort(ty))
            return [(st, LTmp(c, ty))]
        return [(st, LGlob(e['q'], ty, self.so.sort(ty)))]

    def ev_sref(self, e, st):
        fr = self.frames[-1]
        key = (fr.id, e['i'])
        if key in st.env:
            return self.ev_ref(e, st)
        return self.ev_gref(e, st)

    def ev_mat(self, e, st):
        out = []
        for s, v in self.ev(e['x'], st):
            if isinstance(v, z3.ExprRef):
                v = LTmp(v, self.T(e['t']))
            out.append((s, v))
        return out

    def objref(self, v, st):
        """Ref term of an object expression value (object lvalue or pointer)"""
        if isinstance(v, Obj):
            return v.ref
        v = self.rv(v, st)
        if isinstance(v, Obj):
            return v.ref
        if isinstance(v, z3.ExprRef) and v.sort() == IntSort():
            return v
        raise Unsupported('object reference expected, got %r' % (v,))

    def ev_mem(self, e, st):
        out = []
        for s, o in self.ev(e['o'], st):
            out.append((s, self.member(s, o, e['c'], e['n'], self.T(e['ft']))))
        return out

    def member(self, st, o, cls, name, fty):
        if isinstance(o, Loc) and e_isptrloc(o):
            o = self.rv(o, st)
        if isinstance(o, Ptr):
            o = o.loc
        pv = o.v if isinstance(o, LTmp) else st.env.get(o.key) if isinstance(o, LVar) else o
        if isinstance(pv, self.stl.PairIB):
            return LTmp(pv.it, fty) if name == 'first' else LTmp(pv.b, fty)
        if cls in ('EUROPA::edouble', 'EUROPA::eint') and name == 'm_v':
            if isinstance(o, z3.ExprRef):
                return LTmp(o, fty)
            return o
        if isinstance(o, Entry):
            if name == 'first':
                return LTmp(o.key, fty)
            return LKey(o.loc, o.key, fty)
        if isinstance(o, Loc) and o.ty is not None and o.ty.noref.k == 'rec' and self.so.cat(o.ty.noref) == 'val' and o.ty.noref.tn not in IDLIKE:
            if name in ('first', 'second') or o.ty.noref.tn in VALUE_STRUCTS or o.ty.noref.n in VALUE_STRUCTS:
                return LProj(o, name, fty)
            raise Unsupported('member %s of value class %s' % (name, o.ty.s))
        if isinstance(o, z3.ExprRef) and kind(o) in ('pair', 'struct'):
            return LTmp(acc(o, name), fty)
        if isinstance(o, Opaque):
            return Opaque(name)
        ref = self.objref(o, st)
        key = cls + '::' + name
        if fty.k == 'ref':
            # reference member: stores a Ref
            if self.so.cat(fty.t) == 'obj':
                a = self.harr2(st, key, IntSort())
                r = sel(a, ref)
                self.objfacts(st, r, fty.t.n)
                return Obj(r, fty.t)
            raise Unsupported('reference member ' + key)
        c = self.so.cat(fty)
        if c == 'obj':
            return Obj(self.emb(st, key, ref, fty.n), fty)
        if c == 'val':
            return LFld(self, key, ref, fty)
        return Opaque(key)

    def harr2(self, st, key, sort):
        a = st.heap.get(key)
        if a is None:
            a = z3.Const('H0@' + key, z3.ArraySort(IntSort(), sort))
            st.heap[key] = a
        return a

    def ev_un(self, e, st):
        op = e['op']
        out = []
        ty = self.T(e['t'])
        if op == '&':
            for s, v in self.ev(e['x'], st):
                if isinstance(v, Obj):
                    out.append((s, v.ref))
                elif isinstance(v, FnV):
                    out.append((s, v))
                else:
                    out.append((s, Ptr(v)))
            return out
        if op == '*':
            for s, v in self.evr(e['x'], st):
                out.append((s, self.deref(s, v, ty)))
            return out
        if op in ('++', '--'):
            for s, l in self.ev(e['x'], st):
                v = self.rv(l, s)
                if isinstance(v, Iter):
                    raise Unsupported('builtin ++ on iterator')
                if isinstance(v, Ptr) :
                    raise Unsupported('pointer arithmetic')
                one = RealVal(1) if v.sort() == RealSort() else IntVal(1)
                nv = v + one if op == '++' else v - one
                if op == '--' and v.sort() == IntSort() and ty is not None and ty.noref is not None and ty.noref.sg is False and ty.noref.bits:
                    nv = If(v >= 1, v - 1, v - 1 + IntVal(2 ** ty.noref.bits))   # unsigned decrement wraps
                l.write(s, nv)
                out.append((s, v if e.get('post') else l))
            return out
        for s, v in self.evr(e['x'], st):
            if op == '!':
                v = self.tobool(v)
                out.append((s, self.simp(Not(v))))
            elif op == '-':
                if z3.is_int_value(v):
                    out.append((s, IntVal(-v.as_long())))
                else:
                    out.append((s, -v))
            elif op == '+':
                out.append((s, v))
            else:
                raise Unsupported('unary ' + op)
        return out

    def deref(self, st, v, ty=None):
        if isinstance(v, Ptr):
            return v.loc
        if isinstance(v, Obj):
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == IntSort():
            if ty is not None and ty.k == 'rec' and self.so.cat(ty) == 'obj':
                self.objderef(st, v, ty.n)
                return Obj(v, ty)
            if ty is not None and ty.k == 'rec' and self.so.cat(ty) == 'val':
                # pointer to a heap-allocated value (e.g. new std::list): one cell heap per type
                return LFld(self, 'cell@' + ty.s, v, ty)
        raise Unsupported('deref')

    def objderef(self, st, ref, cls):
        fid = ('obj', ref.get_id(), cls)
        if fid in st.facts:
            return
        self.keep.append(ref)
        st.facts = st.facts | {fid}
        cs = self.db.concrete(cls)
        if 0 < len(cs) <= 14:
            st.assume(Implies(ref != 0, Or(*[DT(ref) == self.cid(c) for c in cs])))

    def tobool(self, v):
        if z3.is_bool(v):
            return v
        if isinstance(v, z3.ExprRef):
            return v != 0
        raise Unsupported('tobool')

    def ev_cast(self, e, st):
        k = e['k']
        ty = self.T(e['t'])
        if k == 'ToVoid':
            return [(s, VOID) for s, v in self.ev(e['x'], st)]
        if k in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            out = []
            for s, v in self.ev(e['x'], st):
                out.append((s, v))
            return out
        if k == 'LValueToRValue':
            return self.evr(e['x'], st)
        out = []
        for s, v in self.ev(e['x'], st):
            if k == 'Dynamic':
                ptr = ty.k == 'ptr'
                tgt = (ty.t if ptr or ty.k == 'ref' else ty)
                if ptr:
                    r = self.rv(v, s)
                    if isinstance(r, Obj): r = r.ref
                    out.append((s, If(And(r != 0, self.isa(r, tgt.n)), r, IntVal(0))))
                else:
                    r = self.objref(v, s)
                    ok = self.isa(r, tgt.n)
                    t, f = self.branch(s, ok)
                    if f is not None: self.throw(f, 'bad_cast', e.get('l'))
                    if t is not None: out.append((t, Obj(r, tgt)))
                continue
            if e.get('lv'):
                out.append((s, v)); continue
            v = self.rv(v, s)
            out.append((s, self.conv(v, k, ty, self.xt(e['x']))))
        return out

    def xt(self, e):
        return self.T(e['t'])

    def conv(self, v, k, ty, fr):
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if isinstance(v, Ptr): return T_
            return self.tobool(v)
        if k in ('IntegralCast', 'BooleanToSignedIntegral'):
            if z3.is_bool(v):
                if is_true(v): return IntVal(1)
                if is_false(v): return IntVal(0)
                return If(v, IntVal(1), IntVal(0))
            return v
        if k == 'IntegralToFloating':
            if z3.is_bool(v):
                v = If(v, IntVal(1), IntVal(0))
            if z3.is_int_value(v):
                return RealVal(v.as_long())
            return ToReal(v)
        if k == 'FloatingToIntegral':
            return trunc(v)
        if k in ('FloatingCast', 'BitCast', 'NoOp', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'PointerToIntegral', 'IntegralToPointer', 'LValueBitCast', 'Dependent'):
            return v
        if k in ('NullToPointer', 'NullToMemberPointer'):
            return IntVal(0)
        raise Unsupported('cast ' + k)

    def ev_bin(self, e, st):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, l in self.evr(e['x'], st):
                l = self.simp(self.tobool(l))
                stop = is_false(l) if op == '&&' else is_true(l)
                go = is_true(l) if op == '&&' else is_false(l)
                if stop:
                    out.append((s, l)); continue
                if go:
                    for s2, r in self.evr(e['y'], s):
                        out.append((s2, self.tobool(r)))
                    continue
                s2 = s.copy()
                nl = l.arg(0) if z3.is_not(l) else Not(l)
                s2.pc.append(l if op == '&&' else nl)
                n = len(s2.pc)
                h0 = dict(s2.heap); e0 = dict(s2.env); a0 = s2.alloc
                ths = len(self.sinks[-1])
                rs = self.evr(e['y'], s2)
                if len(rs) == 1:
                    s3, r = rs[0]
                    pure = s3.alloc is a0 and all(k in h0 and (h0[k] is v or h0[k].eq(v)) or k not in h0 for k, v in s3.heap.items()) \
                        and all(k in s3.env and self.vsame(s3.env[k], v) for k, v in e0.items())
                    if pure:
                        r = self.simp(self.tobool(r))
                        g = s3.pc[n - 1]
                        extra = s3.pc[n:]
                        for x in extra:
                            s.assume(Implies(g, x))
                        for k, v in s3.heap.items():
                            s.heap.setdefault(k, v)
                        if op == '&&':
                            out.append((s, F_ if is_false(r) else l if is_true(r) else And(l, r)))
                        else:
                            out.append((s, T_ if is_true(r) else l if is_false(r) else Or(l, r)))
                        continue
                s.pc.append(nl if op == '&&' else l)
                rs = [(a, self.tobool(b)) for a, b in rs] + [(s, F_ if op == '&&' else T_)]
                out += self.merge(rs)
            return out
        out = []
        if op == ',':
            for s, l in self.ev(e['x'], st):
                out += self.ev(e['y'], s)
            return out
        for s, l in self.evr(e['x'], st):
            for s2, r in self.evr(e['y'], s):
                out.append((s2, self.binop(s2, op, l, r, self.T(e['t']))))
        return out

    def binop(self, st, op, l, r, ty):
        if isinstance(l, Obj): l = l.ref
        if isinstance(r, Obj): r = r.ref
        if isinstance(l, Ptr) or isinstance(r, Ptr):
            if op in ('==', '!='):
                if isinstance(l, Ptr) and isinstance(r, Ptr):
                    eq = self.loceq(l.loc, r.loc)
                else:
                    eq = F_
                return eq if op == '==' else Not(eq)
            raise Unsupported('pointer arithmetic')
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            raise Unsupported('binop on opaque')
        if z3.is_bool(l) and z3.is_bool(r):
            if op == '==': return l == r
            if op == '!=': return l != r
            if op in ('&', '&&'): return And(l, r)
            if op in ('|', '||'): return Or(l, r)
            if op == '^': return l != r
        if z3.is_bool(l): l = If(l, IntVal(1), IntVal(0))
        if z3.is_bool(r): r = If(r, IntVal(1), IntVal(0))
        if l.sort() != r.sort():
            if l.sort() == IntSort(): l = ToReal(l)
            elif r.sort() == IntSort(): r = ToReal(r)
        if op == '==': return self.simp(l == r)
        if op == '!=': return self.simp(Not(l == r))
        if op == '<': return self.simp(l < r)
        if op == '<=': return self.simp(l <= r)
        if op == '>': return self.simp(l > r)
        if op == '>=': return self.simp(l >= r)
        if op == '+': return lit(l + r, l, r)
        if op == '-':
            if ty is not None and getattr(ty, 'sg', None) is False and getattr(ty, 'bits', None) and l.sort() == IntSort() and not is_true(self.simp(l >= r)):
                return If(l >= r, l - r, l - r + IntVal(2 ** ty.bits))   # unsigned subtraction wraps
            return lit(l - r, l, r)
        if op == '*': return lit(l * r, l, r)
        if op == '/':
            if l.sort() == RealSort(): return l / r
            return cdiv(l, r)
        if op == '%':
            if not (z3.is_int_value(r) and r.as_long() > 0): return If(l >= 0, l % r, -((-l) % r))   # takes the sign of the dividend
            return l - r * cdiv(l, r)
        if op in ('&', '|', '^', '<<', '>>'):
            if z3.is_int_value(l) and z3.is_int_value(r):
                a, b = l.as_long(), r.as_long()
                return IntVal({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
            f = z3.Function('bit' + op, IntSort(), IntSort(), IntSort())
            return f(l, r)
        raise Unsupported('binop ' + op)

    def loceq(self, a, b):
        if a.mergekey() != b.mergekey():
            return F_
        return conj([x == y for x, y in zip(a.terms(), b.terms())])

    def ev_asg(self, e, st):
        out = []
        for s, r in self.evr(e['y'], st):
            for s2, l in self.ev(e['x'], s):
                self.assign(s2, l, r)
                out.append((s2, l))
        return out

    def assign(self, st, l, v):
        if isinstance(l, Loc):
            if isinstance(v, Obj):
                v = v.ref
            l.write(st, v)
        elif isinstance(l, Opaque):
            pass
        else:
            raise Unsupported('assignment target')

    def ev_casg(self, e, st):
        out = []
        for s, r in self.evr(e['y'], st):
            for s2, l in self.ev(e['x'], s):
                v = self.rv(l, s2)
                lt = self.T(e['x']['t'])
                ct = self.T(e['ct'])
                a = v
                if z3.is_bool(a):
                    if e['op'] in ('|', '&', '^'):
                        rb = self.tobool(r)
                        l.write(s2, Or(a, rb) if e['op'] == '|' else And(a, rb) if e['op'] == '&' else a != rb)
                        out.append((s2, l)); continue
                    a = If(a, IntVal(1), IntVal(0))
                if ct.k == 'float' and a.sort() == IntSort(): a = ToReal(a)
                res = self.binop(s2, e['op'], a, r, ct)
                if lt.k in ('int', 'enum') and res.sort() == RealSort(): res = trunc(res)
                if lt.k == 'float' and res.sort() == IntSort(): res = ToReal(res)
                if lt.k == 'bool': res = self.tobool(res)
                l.write(s2, res)
                out.append((s2, l))
        return out

    def ev_cond(self, e, st):
        out = []
        for s, c in self.evr(e['x'], st):
            t, f = self.branch(s, self.tobool(c))
            rs = []
            if t is not None: rs += self.ev(e['y'], t)
            if f is not None: rs += self.ev(e['z'], f)
            ty = self.T(e['t'])
            if not e.get('lv'):
                rs = [(a, self.rv(b, a)) for a, b in rs]
            out += self.merge(rs)
        return out

    def ev_idx(self, e, st):
        raise Unsupported('raw array subscript')

    def ev_throw(self, e, st):
        self.throw(st, 'throw', e.get('l'))
        return []

    def ev_typeid(self, e, st):
        return [(st, Opaque('typeid'))]

    def ev_unk(self, e, st):
        raise Unsupported('AST node ' + str(e.get('k')))

    def ev_ucall(self, e, st):
        raise Unsupported('indirect call')

    def ev_del(self, e, st):
        out = []
        for s, v in self.evr(e['x'], st):
            if isinstance(v, Opaque):
                out.append((s, VOID)); continue
            ref = self.objref(v, s)
            self.kill(s, ref)
            c = self.contracts.get(e.get('f', ''))
            if c is not None:
                for s2, _ in self.apply_contract(c, s, self.db.funcs[e['f']], ref, [], e):
                    out.append((s2, VOID))
            else:
                out.append((s, VOID))
        return out

    def kill(self, st, ref):
        a = st.heap.get('@alive')
        if a is None:
            a = z3.Const('H0@@alive', z3.ArraySort(IntSort(), BoolSort()))
        st.heap['@alive'] = Store(a, ref, F_)

    def alive(self, st, ref):
        a = st.heap.get('@alive')
        if a is None:
            a = z3.Const('H0@@alive', z3.ArraySort(IntSort(), BoolSort()))
            st.heap['@alive'] = a
        return sel(a, ref)

    def ev_new(self, e, st):
        at = self.T(e['at'])
        if e.get('arr'):
            raise Unsupported('new[]')
        cat = self.so.cat(at)
        if cat == 'opaque':
            return [(st, Opaque('new'))]
        if cat != 'obj':
            out = []
            ref = None
            for s, v in (self.evr(e['x'], st) if e.get('x') else [(st, self.zero(st, at))]):
                ref = self.new_obj(s, at.s)
                LFld(self, 'cell@' + at.s, ref, at).write(s, v)
                out.append((s, ref))
            return out
        x = e.get('x')
        if x is None or x['e'] != 'ctor':
            ref = self.new_obj(st, at.n)
            return [(st, ref)]
        return [(s, o.ref) for s, o in self.construct(x, st, at)]

    def ev_ctor(self, e, st):
        return self.construct(e, st, self.T(e['t']))

    def construct(self, e, st, ty, into=None):
        """evaluate constructor expression; into: existing ref (base/member init)"""
        while ty.k == 'ref': ty = ty.t
        if ty.k == 'arr':
            return [(st, Opaque('array'))]
        cat = self.so.cat(ty)
        fn = self.db.funcs[e['f']]
        out = []
        for s, args in self.evs(e['a'], st):
            if cat == 'iter':
                if args:
                    v = self.rv(args[0], s)
                    out.append((s, v)); continue
                out.append((s, Opaque('singular iterator'))); continue
            if cat == 'opaque':
                h = self.stl.opaque_ctor(self, s, ty, args)
                out.append((s, h)); continue
            if cat == 'val':
                if ty.tn in VALUE_STRUCTS or ty.n in VALUE_STRUCTS:
                    out += self.construct_value(e, s, ty, fn, args)
                    continue
                out += self.stl.ctor(self, s, ty, fn, args, e)
                continue
            # identity class
            if into is None:
                ref = self.new_obj(s, ty.n)
            else:
                ref = into
            for s2 in self.run_ctor(s, fn, ref, ty.n, args, e):
                out.append((s2, Obj(ref, ty)))
        return out

    def construct_value(self, e, st, ty, fn, args):
        """a struct modelled as a value: its constructor runs on a temporary location"""
        if fn.d.get('cpy') or (len(args) == 1 and isinstance(self.rv(args[0], st), z3.ExprRef) and self.rv(args[0], st).sort() == self.so.sort(ty)):
            return [(st, self.rv(args[0], st))]
        k = ('tmp', uid())
        st.env[k] = fresh(self.so.sort(ty), 'tmp')
        out = []
        for s, _ in self.inline(fn, st, LVar(k, ty), args, ty.n):
            v = s.env.pop(k)
            out.append((s, v))
        return out

    def run_ctor(self, st, fn, ref, cls, args, e):
        c = self.contracts.get(fn.key)
        if c is not None and not (self.frames and self.frames[0].fn is fn and self.inline_depth == 0):
            return [s for s, _ in self.apply_contract(c, st, fn, ref, args, e)]
        d = fn.d
        if d.get('cpy') and (d.get('imp') or d.get('dft')) and fn.body is None or (d.get('cpy') and d.get('imp')):
            src = self.objref(args[0], st)
            self.copyfields(st, ref, src, cls)
            return [st]
        if fn.body is None:
            if d.get('imp') or d.get('dft'):
                # implicit default ctor without recorded body: class members default-construct
                return self.default_init(st, ref, fn.cls, cls)
            raise Unsupported('constructor without body: ' + fn.key)
        return [s for s, _ in self.inline(fn, st, ref, args, cls)]

    def default_init(self, st, ref, cname, dyn):
        k = self.db.classes.get(cname)
        if k is None: raise Unsupported('default ctor of ' + cname)
        sts = [st]
        for f, t in k.fields.items():
            if t.k == 'rec' and self.so.cat(t) == 'val':
                for s in sts:
                    LFld(self, cname + '::' + f, ref, t).write(s, self.zero(s, t))
            elif t.k == 'rec' and self.so.cat(t) == 'obj':
                raise Unsupported('implicit default ctor with object member ' + cname)
        for b in k.bases:
            n = []
            for s in sts: n += self.default_init(s, ref, b, dyn)
            sts = n
        return sts

    def copyfields(self, st, dst, src, cls):
        for c in self.db.supers(cls):
            k = self.db.classes.get(c)
            for f, t in (k.fields.items() if k else ()):
                cat = self.so.cat(t)
                if t.k == 'ref':
                    a = self.harr2(st, c + '::' + f, IntSort())
                    st.heap[c + '::' + f] = Store(a, dst, sel(a, src))
                elif cat == 'val':
                    l = LFld(self, c + '::' + f, src, t)
                    LFld(self, c + '::' + f, dst, t).write(st, l.read(st))
                elif cat == 'obj':
                    self.copyfields(st, self.emb(st, c + '::' + f, dst, t.n), self.emb(st, c + '::' + f, src, t.n), t.n)

    # ------------------------------------------------------------ calls
    def ev_call(self, e, st):
        fn = self.db.funcs[e['f']]
        out = []
        if fn.name == '__assert_fail' or fn.short == '__assert_fail':
            self.throw(st, 'assert', e.get('l'))
            return []
        if self.skipcall(fn, e):
            return [(st, Opaque('skipped'))]
        for s, args in self.evs(e['a'], st):
            out += self.do_call(fn, s, None, args, e, False)
        return out

    def skipcall(self, fn, e):
        return fn.name in ('EUROPA::operator<<', 'std::operator<<', 'Error::printWarning', 'std::endl') or fn.short == 'printWarning'

    def ev_mcall(self, e, st):
        fn = self.db.funcs[e['f']]
        out = []
        if fn.short == 'handleAssert':
            self.throw(st, 'assert', e.get('l'))
            return []
        for s, o in self.ev(e['o'], st):
            for s2, args in self.evs(e['a'], s):
                out += self.do_call(fn, s2, o, args, e, e.get('v', False))
        return out

    def do_call(self, fn, st, o, args, e, virt):
        r = self.stl.intrinsic(self, st, fn, o, args, e)
        if r is not None:
            return r
        this = None
        if o is not None:
            if isinstance(o, (Ptr,)):
                this = o.loc
            elif isinstance(o, Loc) and o.ty is not None and o.ty.noref.k == 'rec' and self.so.cat(o.ty.noref) == 'val' and o.ty.noref.tn not in IDLIKE:
                this = o
            elif isinstance(o, Opaque):
                raise Unsupported('method %s on opaque object' % fn.key)
            elif isinstance(o, z3.ExprRef) and o.sort() != IntSort():
                this = LTmp(o, None)
            else:
                this = self.objref(o, st)
        if virt and isinstance(this, z3.ExprRef):
            return self.vcall(fn, st, this, args, e)
        return self.scall(fn, st, this, args, e, exact=not virt)

    def overridden_here(self, fn, st, this):
        """a statically bound call of a method that the dynamic class of this overrides (Base::f() in an override)"""
        if not isinstance(this, z3.ExprRef) or not fn.cls: return False
        cls = self.dyn(st, this)
        if cls is None and self.frames and isinstance(self.frames[-1].this, z3.ExprRef) and this.eq(self.frames[-1].this):
            cls = self.frames[-1].cls
        for k in [cls] if cls is not None else self.db.concrete(fn.cls):
            if self.db.resolve(k, fn.key) != fn.key: return True
        return False

    def dyn(self, st, ref):
        return st.dt.get(ref.get_id())

    def vcall(self, fn, st, ref, args, e):
        cls = self.dyn(st, ref)
        if cls is None and self.frames and isinstance(self.frames[-1].this, z3.ExprRef) and ref.eq(self.frames[-1].this):
            cls = self.frames[-1].cls
        if cls is not None:
            k = self.db.resolve(cls, fn.key)
            ic = self.icontract(fn)
            if ic is not None and k not in self.contracts:
                return self.apply_contract(ic, st, fn, ref, args, e)
            return self.scall(self.db.funcs[k], st, ref, args, e, cls)
        ic = self.icontract(fn)
        if ic is not None:
            return self.apply_contract(ic, st, fn, ref, args, e)
        # closed-world dispatch
        groups = {}
        for cn in self.db.concrete(fn.cls):
            groups.setdefault(self.db.resolve(cn, fn.key), []).append(cn)
        if len(groups) == 1:
            return self.scall(self.db.funcs[list(groups)[0]], st, ref, args, e)
        if not groups:
            return self.scall(fn, st, ref, args, e)
        out = []
        cur = st
        items = list(groups.items())
        for i, (k, cns) in enumerate(items):
            g = Or(*[DT(ref) == self.cid(c) for c in cns])
            if not self.quick(cur.pc, g):
                continue
            s2 = cur.copy()
            s2.pc.append(g)
            if len(cns) == 1:
                s2.dt[ref.get_id()] = cns[0]
            rs = self.scall(self.db.funcs[k], s2, ref, args, e, cns[0] if len(cns) == 1 else None)
            for s3, v in rs:
                s3.dt = dict(cur.dt)
            out += rs
            cur = cur.copy() if False else cur
            cur.pc.append(Not(g))
        return self.merge(out)

    def icontract(self, fn):
        """interface contract of a virtual function or of one it overrides"""
        c = self.contracts.get(fn.key)
        if c is not None and c.interface: return c
        if fn.cls:
            for k in self.db.overrides(fn.key):
                c = self.contracts.get(k)
                if c is not None and c.interface: return c
        return None

    def scall(self, fn, st, this, args, e, cls=None, exact=False):
        c = self.contracts.get(fn.key)
        if c is not None and exact and c.interface and not c.trusted and fn.body is not None and self.overridden_here(fn, st, this):
            c = None   # the contract speaks of the overriding function: go through this body
        if c is not None and (not c.cond or c.cond(self, st, this, args)):
            return self.apply_contract(c, st, fn, this, args, e)
        if fn.key in self.opaque or fn.name in self.opaque:
            return self.opaque_call(fn, st, args)
        if fn.d.get('casg') and (fn.body is None or fn.d.get('imp') or fn.d.get('dft')) and isinstance(this, z3.ExprRef):
            self.copyfields(st, this, self.objref(args[0], st), fn.cls)
            return [(st, Obj(this))]
        if fn.body is None:
            raise Unsupported('call to function without body or contract: ' + fn.key)
        if cls is None:
            cls = fn.cls
            if isinstance(this, z3.ExprRef):
                cls = self.dyn(st, this)
                if cls is None and self.frames and isinstance(self.frames[-1].this, z3.ExprRef) and this.eq(self.frames[-1].this):
                    cls = self.frames[-1].cls
        return self.inline(fn, st, this, args, cls)

    def opaque_call(self, fn, st, args):
        rt = fn.rtype
        self.assumed.add('opaque call (no effect on verified state, arbitrary result): ' + fn.key)
        if rt.k == 'void':
            return [(st, VOID)]
        if rt.k == 'ref' and self.so.cat(rt.t) == 'obj':
            r = fresh(IntSort(), 'opq'); self.objfacts(st, r, rt.t.n)
            return [(st, Obj(r, rt.t))]
        if self.so.cat(rt) in ('opaque', 'iter'):
            return [(st, Opaque(fn.key))]
        if self.so.cat(rt) == 'obj':
            r = self.new_obj(st, rt.n)
            return [(st, Obj(r, rt))]
        v = fresh(self.so.sort(rt), 'opq')
        self.typefacts(st, v, rt)
        return [(st, LTmp(v, rt.t) if rt.k == 'ref' else v)]

    def inline(self, fn, st, this, args, cls):
        if self.inline_depth > self.max_inline or sum(1 for f in self.frames if f.fn is fn) > 2:
            raise Unsupported('recursion or inlining too deep at ' + fn.key)
        self.inlined.add(fn.key)
        fr = Frame(fn, this, cls)
        ps = fn.d['p']
        if len(args) < len(ps):
            raise Unsupported('arity ' + fn.key)
        self.frames.append(fr)
        self.inline_depth += 1
        try:
            for p, a in zip(ps, args):
                t = self.T(p['t'])
                self.vartypes[(fr.id, p['i'])] = t
                st.env[(fr.id, p['i'])] = self.bindarg(st, a, t)
            outs = self.run_body(fn, st, fr)
        finally:
            self.frames.pop()
            self.inline_depth -= 1
        res = []
        for kd, s, v in outs:
            if kd == 'norm':
                v = VOID
            elif kd != 'ret':
                raise Unsupported('stray ' + kd)
            for k in [k for k in s.env if k[0] == fr.id]:
                if not (isinstance(v, LVar) and v.key == k):
                    del s.env[k]
            res.append((s, v))
        return self.merge(res)

    def bindarg(self, st, a, t):
        if t.k == 'ref':
            if isinstance(a, z3.ExprRef):
                if self.so.cat(t.t) == 'obj':
                    return Obj(a, t.t)
                return LTmp(a, t.t)
            return a
        v = self.rv(a, st)
        if isinstance(v, Obj) and t.k == 'ptr':
            v = v.ref
        return v

    def run_body(self, fn, st, fr):
        sts = [st]
        if fn.d.get('ctor'):
            for i in fn.d.get('in', []):
                nxt = []
                for s in sts:
                    nxt += self.run_init(i, s, fr, fn)
                sts = nxt
            sts = [s for s, _ in self.merge([(s, VOID) for s in sts])]
        outs = []
        for s in sts:
            outs += self.ex(fn.body, s)
        return outs

    def run_init(self, i, st, fr, fn):
        x = i['x']
        if x is None:
            return [st]
        if 'b' in i:
            bt = self.T(i['b'])
            if self.so.cat(bt) != 'obj':
                return [st]
            if x['e'] == 'ctor':
                return [s for s, _ in self.construct(x, st, bt, into=fr.this)]
            return [s for s, _ in self.ev(x, st)]
        if i.get('d'):
            return [s for s, _ in self.construct(x, st, self.T(x['t']), into=fr.this)]
        f = i['f']
        cls = fn.cls
        fty = self.fieldty(cls, f)
        if isinstance(fr.this, Loc):
            out = []
            l = self.member(st, fr.this, cls, f, fty)
            for s, v in self.evr(x, st):
                self.assign(s, l, v); out.append(s)
            return out
        key = cls + '::' + f
        if fty.k == 'ref':
            out = []
            for s, v in self.ev(x, st):
                if isinstance(v, Opaque):
                    out.append(s); continue
                r = self.objref(v, s)
                a = self.harr2(s, key, IntSort())
                s.heap[key] = Store(a, fr.this, r)
                out.append(s)
            return out
        cat = self.so.cat(fty)
        if cat == 'obj':
            ref = self.emb(st, key, fr.this, fty.n)
            st.dt[ref.get_id()] = fty.n; self.keep.append(ref)
            if x['e'] == 'ctor':
                return [s for s, _ in self.construct(x, st, fty, into=ref)]
            out = []
            for s, v in self.ev(x, st):
                self.copyfields(s, ref, self.objref(v, s), fty.n); out.append(s)
            return out
        out = []
        for s, v in self.evr(x, st):
            if cat == 'val' and isinstance(v, (z3.ExprRef, Obj)):
                LFld(self, key, fr.this, fty).write(s, v.ref if isinstance(v, Obj) else v)
            out.append(s)
        return out

    # ------------------------------------------------------------ contracts at call sites
    def apply_contract(self, c, st, fn, this, args, e):
        from .spec import Ctx
        self.used_contracts.add(c.key)
        pre = st.copy()
        ps = fn.ptypes()
        cargs = []
        for a, t in zip(args, ps):
            if t.k == 'ref':
                cargs.append(self.bindarg(st, a, t))
            else:
                cargs.append(self.bindarg(st, a, t))
        ctx = Ctx(self, fn, this, cargs, st, pre=None)
        for lab, g in c.get_requires(ctx):
            if lab.startswith('?'): continue        # definition of an abstract predicate: known to the function under contract only
            if lab.startswith('!'):     # facts about every finite container: assumed, never proved
                st.assume(g); continue
            self.oblige('requires %s of %s (call in %s line %s)' % (lab, fn.key, self.frames[-1].fn.key, e.get('l') if e else '?'), st, g)
            st.assume(g)
        outs = []
        thr = c.get_throws(ctx)
        if thr is not None and not is_false(thr):
            ts = st.copy(); ts.assume(thr)
            if is_true(thr) or self.quick(st.pc, thr):
                self.throw(ts, 'callee %s may throw' % fn.key, e.get('l') if e else None)
        pre = st.copy()
        ctx = Ctx(self, fn, this, cargs, st, pre=pre)
        c.havoc(ctx)
        rt = fn.rtype
        ret = VOID
        if fn.d.get('ctor'):
            ret = VOID
        elif c.ret_fn is not None:
            ret = c.ret_fn(ctx)
        elif rt.k == 'void':
            ret = VOID
        elif rt.k == 'ref':
            cat = self.so.cat(rt.t)
            if cat == 'obj':
                r = fresh(IntSort(), 'ret'); self.objfacts(st, r, rt.t.n)
                ret = Obj(r, rt.t)
            elif cat == 'val':
                v = fresh(self.so.sort(rt.t), 'ret'); self.typefacts(st, v, rt.t)
                ret = LTmp(v, rt.t)
            else:
                ret = Opaque(fn.key)
        else:
            cat = self.so.cat(rt)
            if cat == 'val':
                ret = fresh(self.so.sort(rt), 'ret'); self.typefacts(st, ret, rt)
            elif cat == 'obj':
                r = self.new_obj(st, rt.n)
                ret = Obj(r, rt)
            else:
                ret = Opaque(fn.key)
        ctx.ret = ret
        for lab, g in c.get_ensures(ctx):
            if not lab.startswith('?'): st.assume(g)
        if c.noreturn:
            return []
        return [(st, ret)]

    # ------------------------------------------------------------ statements
    DBG = re.compile(r'(^|<)(debugMsg|condDebugMsg|debugStmt|condDebugStmt|debugMsgLvl|debugMsgS|europaWarn|condWarning|checkDebug|condDebugMsgLvl)(<|$)')
    CHK = re.compile(r'(check_error|checkError|check_runtime_error|checkRuntimeError|assert)\d?$')

    def ex(self, s, st):
        if s is None:
            return [('norm', st, None)]
        m = s.get('m')
        if m:
            if self.DBG.search(m):
                return [('norm', st, None)]
            if s['s'] == 'if' and self.CHK.search(m):
                return self.ex_check(s, st)
        f = getattr(self, 'ex_' + s['s'], None)
        if f is None:
            raise Unsupported('statement ' + s['s'] + ' ' + str(s.get('k')))
        return f(s, st)

    def ex_check(self, s, st):
        out = []
        for s1, c in self.evr(s['c'], st):
            c = self.simp(self.tobool(c))
            if is_false(c):
                out.append(('norm', s1, None)); continue
            bad = s1.copy(); bad.pc.append(c)
            self.throw(bad, 'check_error', s.get('l'))
            if not is_true(c):
                s1.assume(self.simp(Not(c)))
                out.append(('norm', s1, None))
        return out

    def ex_nop(self, s, st):
        return [('norm', st, None)]

    def ex_expr(self, s, st):
        return [('norm', a, None) for a, _ in self.merge([(a, VOID) for a, v in self.ev(s['x'], st)])]

    def ex_blk(self, s, st):
        cur = [st]
        outs = []
        decl = []
        fr = self.frames[-1]
        for x in s['a']:
            if x is None: continue
            if x['s'] == 'decl':
                decl += [(fr.id, d['i']) for d in x['a']]
            nxt = []
            for c in cur:
                for o in self.ex(x, c):
                    if o[0] == 'norm':
                        nxt.append(o[1])
                    else:
                        outs.append(o)
            if len(nxt) > 1:
                nxt = [a for a, _ in self.merge([(a, VOID) for a in nxt])]
            cur = nxt
            if not cur:
                break
        for c in cur:
            for k in decl:
                c.env.pop(k, None)
            outs.append(('norm', c, None))
        for o in outs:
            if o[0] in ('brk', 'cont'):
                for k in decl:
                    o[1].env.pop(k, None)
        return outs

    def ex_decl(self, s, st):
        cur = [st]
        fr = self.frames[-1]
        for d in s['a']:
            nxt = []
            for c in cur:
                nxt += self.declare(d, c, fr)
            cur = nxt
        return [('norm', c, None) for c in cur]

    def declare(self, d, st, fr):
        ty = self.T(d['t'])
        key = (fr.id, d['i'])
        self.vartypes[key] = ty
        if d.get('st'):
            # static local: arbitrary value set up once
            q = d['q'] + '@' + fr.fn.key
            cat = self.so.cat(ty)
            if cat == 'obj':
                r = z3.Const('Sobj@' + q, IntSort())
                self.objfacts(st, r, ty.n)
                st.env[key] = Obj(r, ty)
            elif cat == 'val':
                if ty.c and d.get('x') is not None:
                    out = []
                    for s, v in self.evr(d['x'], st):
                        s.env[key] = v; out.append(s)
                    return out
                v = z3.Const('Sval@' + q, self.so.sort(ty))
                self.typefacts(st, v, ty)
                st.env[key] = v
            else:
                st.env[key] = Opaque(q)
            return [st]
        x = d.get('x')
        out = []
        if x is None:
            cat = self.so.cat(ty)
            if cat == 'val':
                st.env[key] = fresh(self.so.sort(ty), d['n'])
            elif cat == 'obj':
                st.env[key] = Obj(self.new_obj(st, ty.n), ty)
            else:
                st.env[key] = Opaque(d['n'])
            return [st]
        if ty.k == 'ref':
            for s, v in self.ev(x, st):
                s.env[key] = self.bindarg(s, v, ty)
                out.append(s)
            return out
        for s, v in self.evr(x, st):
            if isinstance(v, Obj) and ty.k == 'ptr':
                v = v.ref
            s.env[key] = v
            out.append(s)
        return out

    def ex_if(self, s, st):
        outs = []
        pre = [st]
        if s.get('cv'):
            pre = self.declare(s['cv'], st, self.frames[-1])
        for p in pre:
            for s1, c in self.evr(s['c'], p):
                t, f = self.branch(s1, self.tobool(c))
                if t is not None: outs += self.ex(s['a'], t)
                if f is not None:
                    if s.get('b'): outs += self.ex(s['b'], f)
                    else: outs.append(('norm', f, None))
        return self.mergeouts(outs)

    def mergeouts(self, outs):
        norm = [(o[1], VOID) for o in outs if o[0] == 'norm']
        if len(norm) > 1:
            norm = self.merge(norm)
        return [('norm', a, None) for a, _ in norm] + [o for o in outs if o[0] != 'norm']

    def ex_ret(self, s, st):
        rt = self.frames[-1].fn.rtype
        if s.get('x') is None:
            return [('ret', st, VOID)]
        out = []
        for a, v in self.ev(s['x'], st):
            if rt.k != 'ref':
                v = self.rv(v, a)
                if isinstance(v, Obj) and rt.k == 'ptr':
                    v = v.ref
            elif isinstance(v, z3.ExprRef):
                v = LTmp(v, rt.t)
            out.append(('ret', a, v))
        return out

    def ex_break(self, s, st):
        return [('brk', st, None)]

    def ex_cont(self, s, st):
        return [('cont', st, None)]

    def ex_try(self, s, st):
        self.sinks.append([])
        outs = self.ex(s['a'], st)
        caught = self.sinks.pop()
        for ts, why, where in caught:
            for h in s['h'][:1]:
                if h.get('v'):
                    ts.env[(self.frames[-1].id, h['v']['i'])] = Opaque('exception')
                outs += self.ex(h['a'], ts)
        return self.mergeouts(outs)

    def ex_switch(self, s, st):
        body = s['a']['a'] if s['a']['s'] == 'blk' else [s['a']]
        # flatten case labels
        items = []
        for x in body:
            labs = []
            while x is not None and x['s'] in ('case', 'default'):
                labs.append(int(x['v']) if x['s'] == 'case' else None)
                x = x['a']
            items.append((labs, x))
        outs = []
        for s1, c in self.evr(s['c'], st):
            if z3.is_bool(c): c = If(c, IntVal(1), IntVal(0))
            rest = s1
            alllabs = [l for labs, _ in items for l in labs if l is not None]
            entries = []
            for i, (labs, x) in enumerate(items):
                for l in labs:
                    if l is not None:
                        entries.append((i, c == l))
            dfl = next((i for i, (labs, x) in enumerate(items) if None in labs), None)
            entries.append((dfl, None))
            for i, g in entries:
                if rest is None: break
                if g is None:
                    t, rest2 = rest, None
                else:
                    t, rest2 = self.branch(rest, g)
                rest = rest2
                if t is None: continue
                if i is None:
                    outs.append(('norm', t, None)); continue
                cur = [t]
                for labs, x in items[i:]:
                    nxt = []
                    for cst in cur:
                        for o in (self.ex(x, cst) if x else [('norm', cst, None)]):
                            if o[0] == 'norm': nxt.append(o[1])
                            elif o[0] == 'brk': outs.append(('norm', o[1], None))
                            else: outs.append(o)
                    cur = nxt
                    if not cur: break
                outs += [('norm', c2, None) for c2 in cur]
        return self.mergeouts(outs)

    # ------------------------------------------------------------ loops
    def ex_while(self, s, st):
        return self.loop(s, st, s['c'], None, s['a'], False)

    def ex_do(self, s, st):
        return self.loop(s, st, s['c'], None, s['a'], True)

    def ex_for(self, s, st):
        outs = []
        pre = self.ex(s['i'], st) if s.get('i') else [('norm', st, None)]
        for o in pre:
            outs += self.loop(s, o[1], s.get('c'), s.get('n'), s['a'], False)
        if s.get('i') and s['i']['s'] == 'decl':
            for o in outs:
                if o[0] == 'norm':
                    for d in s['i']['a']: o[1].env.pop((self.frames[-1].id, d['i']), None)
        return outs

    def ex_rfor(self, s, st):
        cur = [st]
        for k in ('r', 'bg', 'en'):
            nxt = []
            for c in cur:
                nxt += [o[1] for o in self.ex(s[k], c)]
            cur = nxt
        outs = []
        body = {'s': 'blk', 'l': s['l'], 'a': [{'s': 'decl', 'l': s['l'], 'a': [s['v']]}, s['a']]}
        for c in cur:
            outs += self.loop(s, c, s['c'], s['n'], body, False)
        for o in outs:
            if o[0] == 'norm':
                for k in ('r', 'bg', 'en'):
                    for d in s[k]['a']: o[1].env.pop((self.frames[-1].id, d['i']), None)
        return outs

    def loop_ordinal(self, s):
        if '_lid' not in s:
            fn = self.frames[-1].fn
            n = [0]

            def walk(x):
                if isinstance(x, dict):
                    if x.get('s') in ('while', 'do', 'for', 'rfor') and '_lid' not in x:
                        x['_lid'] = n[0]; n[0] += 1
                    for k, v in x.items():
                        if isinstance(v, (dict, list)): walk(v)
                elif isinstance(x, list):
                    for v in x: walk(v)
            walk(fn.body)
        return s['_lid']

    def body_once(self, st, cond, inc, body, post):
        """one iteration: returns (continue_states, exit_states, other outcomes)"""
        conts, exits, others = [], [], []
        if post:
            outs = self.ex(body, st)
            ends = []
            for o in outs:
                if o[0] in ('norm', 'cont'): ends.append((o[1], VOID))
                elif o[0] == 'brk': exits.append(o[1])
                else: others.append(o)
            for s, _ in self.merge(ends):
                for s1, c in self.evr(cond, s):
                    t, f = self.branch(s1, self.tobool(c))
                    if t is not None: conts.append(t)
                    if f is not None: exits.append(f)
            return conts, exits, others
        for s1, c in (self.evr(cond, st) if cond is not None else [(st, T_)]):
            t, f = self.branch(s1, self.tobool(c))
            if f is not None: exits.append(f)
            if t is None: continue
            ends = []
            for o in self.ex(body, t):
                if o[0] in ('norm', 'cont'): ends.append((o[1], VOID))
                elif o[0] == 'brk': exits.append(o[1])
                else: others.append(o)
            for s, _ in self.merge(ends):
                if inc is not None:
                    for s2, _ in self.ev(inc, s): conts.append(s2)
                else:
                    conts.append(s)
        return conts, exits, others

    def try_unroll(self, st, cond, inc, body, post):
        return None

    def loop(self, s, st, cond, inc, body, post):
        lid = (self.frames[-1].fn.key, self.loop_ordinal(s))
        entry = st.copy()
        mark = uid()
        # 1. write set by repeated dry runs
        W = {}
        while True:
            hs, ok = self.havoc(entry, W)
            self.dry += 1
            self.sinks.append([])
            nobl = len(self.obls)
            try:
                base = hs.copy()
                conts, exits, others = self.body_once(hs, cond, inc, body, post)
                if post: conts = conts + exits
            finally:
                self.sinks.pop()
                self.dry -= 1
                del self.obls[nobl:]
            if not self.grow(W, base, conts, mark):
                break
        # 2. invariants
        hs, hav = self.havoc(entry, W)
        L = LoopCtx(self, lid, entry, hs, W)
        cands = []
        for sp in self.loopspecs:
            for nm, fn in sp(L):
                if (lid, nm) in self.drops: continue
                cands.append((nm, fn))
        for nm, fn in self.auto_cands(L):
            if (lid, nm) in self.drops: continue
            cands.append((nm, fn))
        good = []
        if not self.dry: self.visits[lid] = self.visits.get(lid, 0) + 1
        for nm, fn in cands:
            ek = (lid, self.visits.get(lid), nm)
            if not self.dry and ek in self.entryfails: continue      # did not hold on entry in an earlier round (later rounds only assume less)
            try:
                f0 = fn(entry)
            except Exception as ex:
                if isinstance(ex, (Unsupported, KeyError, z3.Z3Exception, IndexError, AttributeError)):
                    continue
                raise
            if f0 is None: continue
            if is_true(f0) or self.dry or self.prove(entry.pc, f0, 'cand'):
                good.append((nm, fn))
            else: self.entryfails.add(ek)
        for nm, fn in good:
            f = fn(hs)
            if f is not None: hs.assume(f)
        # 3. one arbitrary iteration
        conts, exits, others = self.body_once(hs.copy(), cond, inc, body, post)
        if not self.dry:
            for nm, fn in good:
                for c in conts:
                    try:
                        f = fn(c)
                    except KeyError:
                        f = F_
                    if f is None or is_true(f): continue
                    if not self.prove(c.pc, f, 'cand'):
                        self.drops.add((lid, nm)); self.newdrops.add((lid, nm))
                        break
            self.loop_report[lid] = [nm for nm, _ in good if (lid, nm) not in self.drops]
        outs = list(others)
        outs += [('norm', a, None) for a, _ in self.merge([(x, VOID) for x in exits])]
        return outs

    def grow(self, W, base, conts, mark):
        changed = False
        for c in conts:
            for k, v in base.env.items():
                if k in c.env and not self.vsame(c.env[k], v) and ('e', k) not in W:
                    W[('e', k)] = 'var'; changed = True
            for k, v in c.heap.items():
                b = base.heap.get(k)
                if b is None:
                    b = z3.Const(('' if k.startswith('G@') else 'H0@') + k, v.sort())
                if v.eq(b): continue
                idx = store_indices(v, b)
                old = W.get(('h', k))
                if old == 'all': continue
                if idx is None or k.startswith('G@'):
                    W[('h', k)] = 'all'; changed = True; continue
                hv = self.havocvars
                new = list(old or [])
                grew = False
                for i in idx:
                    if any(i.eq(j) for j in new): continue
                    if depends(i, hv, mark):
                        W[('h', k)] = 'all'; changed = True; grew = None; break
                    new.append(i); grew = True
                if grew:
                    if len(new) > 4:
                        W[('h', k)] = 'all'
                    else:
                        W[('h', k)] = new
                    changed = True
            if not c.alloc.eq(base.alloc) and ('a',) not in W:
                W[('a',)] = 'alloc'; changed = True
        # an index that becomes loop-dependent after more havocking is detected on the next round
        return changed

    def havoc(self, entry, W):
        hs = entry.copy()
        hv = set()
        for w, how in W.items():
            if w[0] == 'e':
                k = w[1]
                v = hs.env.get(k)
                if v is None: continue
                hs.env[k] = self.havocval(hs, v, k, hv)
            elif w[0] == 'a':
                na = fresh(IntSort(), 'alloc'); hs.assume(na >= hs.alloc); hs.alloc = na; hv.add(na.get_id())
        for w, how in W.items():
            if w[0] == 'h':
                k = w[1]
                a = hs.heap.get(k)
                if a is None:
                    a = z3.Const('H0@' + k, self.hsort(k))
                if how == 'all':
                    n = fresh(a.sort(), 'L' + k.split('::')[-1]); hv.add(n.get_id())
                    hs.heap[k] = n
                else:
                    for i in how:
                        x = fresh(a.sort().range(), 'v' + k.split('::')[-1]); hv.add(x.get_id())
                        self.keep.append(x)
                        a = Store(a, i, x)
                    hs.heap[k] = a
                self.keep.append(hs.heap[k])
        self.havocvars = hv
        return hs, hv

    def hsort(self, k):
        if k == '@alive': return z3.ArraySort(IntSort(), BoolSort())
        t = self.hkeyty(k)
        return z3.ArraySort(IntSort(), IntSort() if t.k == 'ref' else self.so.sort(t))

    def havocval(self, st, v, k, hv):
        if isinstance(v, z3.ExprRef):
            n = fresh(v.sort(), 'h'); hv.add(n.get_id()); self.keep.append(n)
            return n
        if isinstance(v, Obj):
            n = fresh(IntSort(), 'h'); hv.add(n.get_id()); self.keep.append(n)
            return Obj(n, v.ty)
        if isinstance(v, Iter):
            pos = []
            for p in v.pos:
                n = fresh(p.sort(), 'it'); hv.add(n.get_id()); self.keep.append(n); pos.append(n)
            it = Iter(v.loc, v.kind, pos, v.rev)
            return it
        if isinstance(v, Opaque):
            return v
        if hasattr(v, 'terms'):
            ts = []
            for p in v.terms():
                n = fresh(p.sort(), 'lt'); hv.add(n.get_id()); self.keep.append(n); ts.append(n)
            return v.rebuild(ts)
        raise Unsupported('cannot havoc loop variable')

    def auto_cands(self, L):
        W = L.W
        for w, how in W.items():
            if w[0] == 'e':
                v = L.entry.env.get(w[1])
                key = w[1]
                if isinstance(v, Iter):
                    yield ('auto:iterwf:%s' % (key[1],), lambda st, key=key: self.stl.iterwf(self, st, st.env[key]))
                    if v.kind == 'seq':
                        yield ('auto:iterge:%s' % (key[1],), lambda st, key=key, v=v: st.env[key].pos[0] >= v.pos[0])
                elif isinstance(v, z3.ExprRef) and v.sort() == IntSort():
                    yield ('auto:ge:%s' % (key[1],), lambda st, key=key, v=v: st.env[key] >= v)
                    yield ('auto:ne0:%s' % (key[1],), lambda st, key=key, v=v: st.env[key] != 0)
                    yield ('auto:alloc:%s' % (key[1],), lambda st, key=key, v=v: st.env[key] < st.alloc)
                elif isinstance(v, z3.ExprRef) and isseq(v):
                    yield ('auto:seqlen:%s' % (key[1],), lambda st, key=key: acc(st.env[key], 'len') >= 0)
                elif isinstance(v, z3.ExprRef) and (isset(v) or ismap(v)):
                    yield ('auto:card:%s' % (key[1],), lambda st, key=key: acc(st.env[key], 'card') >= 0)
            elif w[0] == 'h' and how == 'all' and not w[1].startswith('G@'):
                k = w[1]
                fp = self.frame_pred(k) if self.frame_pred else None
                if fp is not None and not k.startswith('@'):
                    def fr(st, k=k, fp=fp):
                        if k not in st.heap: return T_
                        r = fresh(IntSort(), 'r')
                        h0 = self.pre_heap(k)
                        ok = self.stl.pat_ok(st.heap[k])
                        body = Implies(And(self.existed(r), Not(fp(r))), sel(st.heap[k], r) == sel(h0, r))
                        if ok or z3.is_const(st.heap[k]) or st.heap[k].decl().kind() == z3.Z3_OP_STORE and self.stl.pat_ok(st.heap[k].arg(1)) and self.stl.pat_ok(st.heap[k].arg(2)):
                            try: return ForAll([r], body, patterns=[Select(st.heap[k], r)])
                            except z3.Z3Exception: pass
                        return ForAll([r], body)
                    yield ('auto:frame:%s' % k, fr)

    frame_pred = None
    release_hook = None
    track_alive = False
    hooks = {}
    noint = set()

    def existed(self, r):
        return And(r < self.alloc0, Implies(r < 0, ROOT(r) < self.alloc0))


class LoopCtx:
    """what a loop-invariant template sees"""

    def __init__(self, eng, lid, entry, hs, W):
        self.eng = eng; self.lid = lid; self.entry = entry; self.hs = hs; self.W = W

    def locals(self, pred=None, changed=None):
        """env keys of locals (all frames), optionally only those the loop changes"""
        r = []
        for k, v in self.entry.env.items():
            if changed is not None and (('e', k) in self.W) != changed: continue
            if pred is None or pred(v): r.append(k)
        return r

    def nm(self, k):
        return str(k[1])

    def refs(self, cls):
        """locals that denote an object of the class: [(key, st -> ref)]"""
        r = []
        for k, v in self.entry.env.items():
            t = self.eng.vartypes.get(k)
            if t is None: continue
            t = t.noref
            if t.k == 'ptr' or t.k == 'rec' and t.tn in IDLIKE: t = t.t if t.k == 'ptr' else (t.a[0] if t.a else None)
            if t is None or t.noref.k != 'rec' or t.noref.n != cls: continue
            if isinstance(v, Obj): r.append((k, lambda st, k=k: st.env[k].ref))
            elif isinstance(v, z3.ExprRef) and v.sort() == IntSort(): r.append((k, lambda st, k=k: st.env[k]))
        return r

    def nums(self, changed=None):
        """integer locals that are numbers"""
        return [k for k in self.locals(lambda v: isinstance(v, z3.ExprRef) and v.sort() == IntSort(), changed)
                if self.eng.vartypes.get(k) is None or self.eng.vartypes[k].noref.k == 'int']


def e_isptrloc(o):
    t = o.ty
    if t is None: return False
    t = t.noref
    return t.k == 'ptr' or (t.k == 'rec' and t.tn in IDLIKE)


def lit(r, l, rr):
    if (z3.is_int_value(l) or z3.is_rational_value(l)) and (z3.is_int_value(rr) or z3.is_rational_value(rr)):
        return z3.simplify(r)
    return r


def trunc(v):
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
        return v.arg(0)
    return If(v >= 0, ToInt(v), -ToInt(-v))


def cdiv(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return If(a >= 0, a / b, -((-a) / b))
    return If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))


def store_indices(v, b):
    """indices of the Store chain from b to v, or None"""
    idx = []
    seen = set()

    def walk(x):
        if x.eq(b): return True
        if x.get_id() in seen: return True
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_STORE):
            idx.append(x.arg(1))
            return walk(x.arg(0))
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return walk(x.arg(1)) and walk(x.arg(2))
        return False
    return idx if walk(v) else None


def depends(t, ids, mark=1 << 60):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name() and int(x.decl().name().rsplit('!', 1)[1]) > mark:
            return True
        todo += x.children()
    return False
