"""Models (trusted contracts) of the standard library containers, iterators and
algorithms, of Id<>/shared_ptr handles, and of edouble/eint (the latter two are
proved separately from Number.hh)."""
import z3
from z3 import *
from .engine import (Unsupported, mksort, mk, acc, upd, sel, kind, isseq, isset, ismap, fresh, INFO, INF, T_, F_, Loc, LVar, LFld, LElem,
                     LKey, LProj, LTmp, Entry, Ptr, Iter, Obj, Opaque, VOID, IDLIKE, SEQ, SET, MAP, STRN, PAIR, ITERS, trunc, cdiv, conj, FnV, uid)


def base(cname):
    return cname.split('<', 1)[0] if cname else ''


def K0(s, v):
    return K(s, v)


def ksort(s):
    return INFO[str(s)][1]


def setfacts(v):
    """facts true of every (finite) set/map value"""
    s = ksort(v.sort())
    mem, card = acc(v, 'mem'), acc(v, 'card')
    # witnesses are choice functions of the value, so the facts can be restated anywhere
    w, w1, w2 = [z3.Function('setw%d_%s' % (i, v.sort()), v.sort(), s)(v) for i in range(3)]
    e = K(s, F_)
    x = fresh(s, 'x')
    return [card >= 0, Implies(card == 0, mem == e), Implies(card != 0, sel(mem, w)),
            Implies(card == 1, mem == Store(e, w, T_)),
            Implies(card >= 2, And(sel(mem, w1), sel(mem, w2), w1 != w2))]


def empty_container(eng, s):
    i = INFO.get(str(s))
    if not i: raise Unsupported('zero of sort %s' % s)
    if i[0] == 'seq': return mk(s, IntVal(0), z3.Const('arr0@' + str(s), ArraySort(IntSort(), i[1])))
    if i[0] == 'set': return mk(s, K(i[1], F_), IntVal(0))
    if i[0] == 'map': return mk(s, K(i[1], F_), IntVal(0), z3.Const('val0@' + str(s), ArraySort(i[1], i[2])))
    if i[0] == 'pair': return mk(s, zero_of(eng, i[1]), zero_of(eng, i[2]))
    if i[0] == 'struct':
        return mk(s, *[zero_of(eng, s.constructor(0).domain(k)) for k in range(s.constructor(0).arity())])


def zero_of(eng, s):
    if s == BoolSort(): return F_
    if s == IntSort(): return IntVal(0)
    if s == RealSort(): return RealVal(0)
    return empty_container(eng, s)


def lt(a, b):
    return a < b


def iterwf(eng, st, it):
    c = it.loc.read(st)
    if it.kind == 'seq':
        return And(it.pos[0] >= 0, it.pos[0] <= acc(c, 'len'))
    return Or(it.pos[0], sel(acc(c, 'mem'), it.pos[1]))


def keyty(ty):
    return ty.noref.a[0]


def elemty(loc):
    t = loc.ty.noref if loc.ty is not None else None
    return t.a[0] if t is not None and t.a else None


def valty(loc):
    t = loc.ty.noref if loc.ty is not None else None
    return t.a[1] if t is not None and t.a else None


def asloc(eng, st, o):
    if isinstance(o, Ptr): return o.loc
    if isinstance(o, Loc):
        v = o.ty.noref if o.ty is not None else None
        if v is not None and v.k == 'ptr':
            p = eng.rv(o, st)
            if isinstance(p, Ptr): return p.loc
            return LFld(eng, 'cell@' + v.t.s, p, v.t)
        return o
    if isinstance(o, z3.ExprRef): return LTmp(o, None)
    raise Unsupported('container location')


def coerce(v, s):
    if isinstance(v, Obj): v = v.ref
    if isinstance(v, z3.ExprRef) and v.sort() != s:
        if s == RealSort() and v.sort() == IntSort(): return ToReal(v)
        if s == IntSort() and v.sort() == BoolSort(): return If(v, IntVal(1), IntVal(0))
    if not isinstance(v, z3.ExprRef):
        raise Unsupported('container element value %r' % type(v).__name__)
    return v


# ---------------------------------------------------------------- first/next in ordered containers
def first_ge(eng, st, cont, lo=None, strict=False, reuse=None):
    """iterator position (end, key) of the least key > / >= lo (or least key)"""
    s = ksort(cont.sort())
    mem = acc(cont, 'mem')
    end = fresh(BoolSort(), 'end'); k = fresh(s, 'key'); x = fresh(s, 'x')
    ok = T_ if lo is None else (x > lo if strict else x >= lo)
    okk = T_ if lo is None else (k > lo if strict else k >= lo)
    st.assume(Implies(Not(end), And(sel(mem, k), okk)))
    st.assume(ForAll([x], Implies(And(sel(mem, x), ok), And(Not(end), k <= x)), patterns=[Select(mem, x)] if pat_ok(mem) else []))
    if lo is None:
        st.assume(end == (acc(cont, 'card') == 0))
        for f in setfacts(cont): st.assume(f)
    return [end, k]


def last_lt(eng, st, cont, hi, strict=True):
    s = ksort(cont.sort())
    mem = acc(cont, 'mem')
    none = fresh(BoolSort(), 'none'); k = fresh(s, 'key'); x = fresh(s, 'x')
    ok = T_ if hi is None else x < hi
    st.assume(Implies(Not(none), And(sel(mem, k), T_ if hi is None else k < hi)))
    st.assume(ForAll([x], Implies(And(sel(mem, x), ok), And(Not(none), k >= x)), patterns=[Select(mem, x)] if pat_ok(mem) else []))
    return none, k


def pat_ok(a):
    todo = [a]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return False
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_STORE, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_CONST_ARRAY): return False
        todo += x.children()
    return True


def contkind(eng, loc, st):
    v = loc.read(st)
    if isinstance(v, z3.ExprRef): return kind(v)
    return None


def begin(eng, st, loc):
    c = eng.rv(loc, st)
    if isseq(c): return Iter(loc, 'seq', [IntVal(0)])
    return Iter(loc, kind(c), first_ge(eng, st, c))


def end(eng, st, loc):
    c = eng.rv(loc, st)
    if isseq(c): return Iter(loc, 'seq', [acc(c, 'len')])
    return Iter(loc, kind(c), [T_, fresh(ksort(c.sort()), 'endk')])


def advance(eng, st, it, back=False):
    if it.rev: back = not back
    if it.kind == 'seq':
        n = it.pos[0] + (-1 if back else 1)
        return Iter(it.loc, 'seq', [z3.simplify(n) if z3.is_int_value(it.pos[0]) else n], it.rev)
    c = eng.rv(it.loc, st)
    if back:
        if z3.is_true(it.pos[0]):
            none, k = last_lt(eng, st, c, None)
        elif z3.is_false(it.pos[0]):
            none, k = last_lt(eng, st, c, it.pos[1])
        else:
            n1, k1 = last_lt(eng, st, c, None); n2, k2 = last_lt(eng, st, c, it.pos[1])
            none, k = If(it.pos[0], n1, n2), If(it.pos[0], k1, k2)
        eng.oblige('decrement of begin iterator', st, Not(none))
        st.assume(Not(none))
        return Iter(it.loc, it.kind, [F_, k])
    eng.oblige('increment of end iterator', st, Not(it.pos[0]))
    st.assume(Not(it.pos[0]))
    return Iter(it.loc, it.kind, first_ge(eng, st, c, it.pos[1], True))


def itereq(eng, st, a, b):
    if a.kind == 'seq':
        if a.rev != b.rev: raise Unsupported('mixed reverse iterators')
        return a.pos[0] == b.pos[0]
    return If(Or(a.pos[0], b.pos[0]), a.pos[0] == b.pos[0], a.pos[1] == b.pos[1])


def ideref(eng, st, it):
    c = eng.rv(it.loc, st)
    if it.kind == 'seq':
        idx = it.pos[0] - 1 if it.rev else it.pos[0]
        if eng.safety:
            eng.oblige('dereference of iterator in range', st, And(idx >= 0, idx < acc(c, 'len')))
            st.assume(And(idx >= 0, idx < acc(c, 'len')))
        return elemval(eng, st, LElem(it.loc, idx, elemty(it.loc)))
    if eng.safety:
        eng.oblige('dereference of end iterator', st, Not(it.pos[0]))
        st.assume(Not(it.pos[0]))
    st.assume(sel(acc(c, 'mem'), it.pos[1]))
    if it.kind == 'set':
        l = LTmp(it.pos[1], elemty(it.loc))
        eng.typefacts(st, it.pos[1], l.ty)
        return l
    e = Entry(it.loc, it.pos[1], None)
    eng.typefacts(st, it.pos[1], elemty(it.loc))
    return e


def elemval(eng, st, l):
    return l


# ---------------------------------------------------------------- edouble/eint semantics
def r_(v):
    return ToReal(v) if v.sort() == IntSort() else v


def arith_sem(op, a, b, real):
    """extended-number arithmetic as specified: (result, overflow condition). Property P01 proves
    that Number.hh computes exactly this; everything else relies on it."""
    A, B = r_(a), r_(b)
    ai, bi = A >= INF, B >= INF
    am, bm = A <= -INF, B <= -INF
    mkc = (lambda x: RealVal(str(x))) if real else (lambda x: IntVal(x))
    if op in '+-':
        b_inf, b_minf = (bi, bm) if op == '+' else (bm, bi)
        raw = (a + b if op == '+' else a - b) if a.sort() == b.sort() else (A + B if op == '+' else A - B)
        if raw.sort() != (RealSort() if real else IntSort()): raw = ToReal(raw) if real else trunc(raw)
        res = If(And(ai, Not(b_minf)), mkc(INF), If(And(am, Not(b_inf)), mkc(-INF), If(And(b_inf, Not(am)), mkc(INF), If(And(b_minf, Not(ai)), mkc(-INF), raw))))
        sat = Or(And(ai, Not(b_minf)), And(am, Not(b_inf)), And(b_inf, Not(am)), And(b_minf, Not(ai)))
        thr = And(Not(sat), Or(raw > INF, raw < -INF))
    elif op == '*':
        raw = a * b if a.sort() == b.sort() else A * B
        if raw.sort() != (RealSort() if real else IntSort()): raw = ToReal(raw) if real else trunc(raw)
        zero = Or(A == 0, B == 0)
        anyinf = Or(ai, am, bi, bm)
        pos = (A > 0) == (B > 0)
        # a zero factor yields exactly zero
        res = If(zero, mkc(0), If(anyinf, If(pos, mkc(INF), mkc(-INF)), raw))
        thr = And(Not(anyinf), Or(raw > INF, raw < -INF))
    elif op == '/':
        fb = And(Not(bi), Not(bm))
        q = A / B
        raw = q if real else trunc(q)
        res = If(And(ai, fb), If(B > 0, mkc(INF), mkc(-INF)), If(And(am, fb), If(B > 0, mkc(-INF), mkc(INF)),
              If(And(Or(bi, bm), Not(ai), Not(am)), mkc(0), raw)))
        sat = Or(And(Or(ai, am), fb), And(Or(bi, bm), Not(ai), Not(am)))
        thr = And(Not(sat), Or(q > INF, q < -INF))
    else:
        raise Unsupported('num op ' + op)
    return res, thr


def mod_sem(a, b):
    return If(Or(a >= INF, a <= -INF), IntVal(0), If(b == INF, a, If(b == -INF, -a, a - b * cdiv(a, b))))


def num_arith(eng, st, op, a, b, real, e):
    if op == '/':
        eng.oblige('division by zero', st, r_(b) != 0)
        st.assume(r_(b) != 0)
    res, thr = arith_sem(op, a, b, real)
    if not z3.is_false(thr) and eng.quick(st.pc, thr):
        bad = st.copy()
        bad.pc.append(thr)
        eng.throw(bad, 'overflow_error', e.get('l'))
        st.assume(Not(thr))
    sr = z3.simplify(res)
    if z3.is_rational_value(sr) or z3.is_int_value(sr):
        return sr
    return res


NUMT = {'EUROPA::edouble', 'EUROPA::eint'}
CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b,
       '!=': lambda a, b: Not(a == b)}


def isnum(ty):
    t = ty.noref
    return t.k == 'rec' and t.tn in NUMT


def isreal(ty):
    t = ty.noref
    return t.k == 'float' or (t.k == 'rec' and t.tn == 'EUROPA::edouble')


def num_val(eng, st, v):
    v = eng.rv(v, st)
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v): v = If(v, IntVal(1), IntVal(0))
        return v
    raise Unsupported('number value')


def num_bin(eng, st, op, a, b, rty, e):
    if op in CMP:
        if a.sort() != b.sort(): a, b = r_(a), r_(b)
        return eng.simp(CMP[op](a, b))
    real = isreal(rty)
    if op in '+-*/': return num_arith(eng, st, op, a, b, real, e)
    if op == '%':
        if real: raise Unsupported('% on edouble')
        return mod_sem(a, b)
    raise Unsupported('number op ' + op)


def num_intrinsic(eng, st, fn, o, args, e):
    short = fn.short
    cls = fn.cls
    if cls in NUMT and o is not None:
        l = o.loc if isinstance(o, Ptr) else o
        v = num_val(eng, st, l)
        real = cls == 'EUROPA::edouble'
        if short.startswith('operator') and fn.d.get('conv'):
            rt = fn.rtype
            if isnum(rt) or rt.k in ('int', 'float', 'bool'):
                if rt.k == 'bool': return [(st, v != 0)]
                if isreal(rt): return [(st, r_(v))]
                return [(st, trunc(v) if v.sort() == RealSort() else v)]
            return None
        op = short[8:] if short.startswith('operator') else None
        if op == '=':
            w = num_val(eng, st, args[0])
            l.write(st, coerce(w, RealSort() if real else IntSort()))
            return [(st, l)]
        if op in ('+=', '-=', '*=', '/=', '%='):
            w = num_val(eng, st, args[0])
            r = num_bin(eng, st, op[0], v, w, fn.rtype if isnum(fn.rtype) else fn.rtype, e)
            if r.sort() != v.sort(): r = ToReal(r) if real else trunc(r)
            l.write(st, r)
            return [(st, r)]
        if op in ('++', '--'):
            nv = If(Or(v >= INF, v <= -INF), v, v + (1 if op == '++' else -1))
            l.write(st, nv)
            return [(st, v if args else l)]
        if op == '-' and not args: return [(st, z3.simplify(-v) if z3.is_rational_value(v) or z3.is_int_value(v) else -v)]
        if op == '+' and not args: return [(st, v)]
        if op == '!': return [(st, v == 0)]
        if op is not None and len(args) == 1:
            return [(st, num_bin(eng, st, op, v, num_val(eng, st, args[0]), fn.rtype, e))]
        return None
    if cls and base(cls) == 'std::numeric_limits' and '<EUROPA::e' in cls:
        real = 'edouble' in cls
        c = (lambda x: RealVal(str(x))) if real else (lambda x: IntVal(x))
        if short == 'infinity': return [(st, c(INF))]
        if short == 'minus_infinity': return [(st, c(-INF))]
        if short == 'max': return [(st, c(INF - 1))]
        if short == 'min': return [(st, c(-(INF - 1)))]
        if short == 'epsilon': return [(st, RealVal('1/100000') if real else IntVal(0))]
        return None
    pt = fn.ptypes()
    if pt and any(isnum(t) for t in pt) and o is None:
        if short.startswith('operator') and len(args) == 2:
            op = short[8:]
            if op in CMP or op in '+-*/%':
                return [(st, num_bin(eng, st, op, num_val(eng, st, args[0]), num_val(eng, st, args[1]), fn.rtype, e))]
            return None
        if short.startswith('cast_'):
            v = num_val(eng, st, args[0])
            if isreal(fn.rtype): return [(st, r_(v))]
            return [(st, trunc(v) if v.sort() == RealSort() else v)]
    return None


def math_intrinsic(eng, st, fn, args, e):
    n = fn.name
    s = fn.short
    if n in ('std::min', 'std::max') or (n.startswith(('std::min<', 'std::max<'))):
        if len(args) == 2:
            a, b = num_val(eng, st, args[0]), num_val(eng, st, args[1])
            if a.sort() != b.sort(): a, b = r_(a), r_(b)
            r = If(b < a, b, a) if 'min' in n[:9] else If(a < b, b, a)
            if fn.rtype.k == 'ref': r = LTmp(r, fn.rtype.t)
            return [(st, r)]
        return None
    if s in ('abs', 'fabs') and len(args) == 1 and fn.cls is None:
        v = num_val(eng, st, args[0])
        return [(st, If(v >= 0, v, -v))]
    if s == 'floor' and fn.cls is None:
        v = num_val(eng, st, args[0]); return [(st, v if v.sort() == IntSort() else ToReal(ToInt(v)))]
    if s == 'ceil' and fn.cls is None:
        v = num_val(eng, st, args[0]); return [(st, v if v.sort() == IntSort() else -ToReal(ToInt(-v)))]
    if s in ('rint', 'round') and fn.cls is None and len(args) == 1:
        v = num_val(eng, st, args[0])
        if v.sort() == IntSort(): return [(st, v)]
        # round half to even / away: any nearest integer
        r = fresh(IntSort(), 'rint')
        st.assume(And(ToReal(r) - v <= RealVal('1/2'), v - ToReal(r) <= RealVal('1/2')))
        return [(st, ToReal(r))]
    if s in ('isnan', 'isinf') and fn.cls is None:
        return [(st, F_)]
    if n.startswith('EUROPA::finite<'):
        v = num_val(eng, st, args[0])
        return [(st, And(v < INF, v > -INF) if False else And(Not(v == INF), Not(v == -INF)))]
    return None


# ---------------------------------------------------------------- handles
def id_intrinsic(eng, st, fn, o, args, e):
    s = fn.short
    if s == 'noId': return [(st, IntVal(0))]
    if s == 'convertable':
        v = eng.rv(args[0], st)
        # static bool convertable(const Id<X>&): T from class name
        t = fn.cls[fn.cls.index('<') + 1:-1]
        return [(st, And(v != 0, eng.isa(v, t)))]
    if o is None: return None
    l = o.loc if isinstance(o, Ptr) else o
    v = eng.rv(l, st)
    if isinstance(v, Obj): v = v.ref
    if isinstance(v, Opaque): return None
    if s == 'isNoId': return [(st, v == 0)]
    if s == 'operator!': return [(st, v == 0)]
    if s == 'isId': return [(st, v != 0)]
    if s == 'isValid':
        if eng.track_alive:
            return [(st, And(v != 0, eng.alive(st, v)))]
        return [(st, v != 0)]
    if s == 'isInvalid':
        if eng.track_alive:
            return [(st, Not(And(v != 0, eng.alive(st, v))))]
        return [(st, v == 0)]
    if s in ('operator->', 'get'): return [(st, v)]
    if s == 'operator*':
        return [(st, eng.deref(st, v, fn.rtype.t))]
    if s in ('operator==', 'operator!=', 'operator<', 'operator>', 'equals'):
        w = eng.rv(args[0], st)
        if isinstance(w, Obj): w = w.ref
        if isinstance(w, Ptr): return None
        if s == 'operator<': return [(st, v < w)]
        if s == 'operator>': return [(st, v > w)]
        r = eng.simp(v == w)
        return [(st, r if s != 'operator!=' else eng.simp(Not(r)))]
    if s == 'operator=':
        w = eng.rv(args[0], st)
        if isinstance(w, Obj): w = w.ref
        if isinstance(w, Ptr): raise Unsupported('Id = local address')
        l.write(st, w)
        return [(st, l)]
    if s in ('release', 'remove', 'reset'):
        if s == 'reset':
            if args: l.write(st, eng.rv(args[0], st))
            else: l.write(st, IntVal(0))
            return [(st, VOID)]
        eng.kill(st, v)
        # the destructor of the released object
        dk = eng.release_hook(st, fn, v, e) if eng.release_hook else None
        if isinstance(l, Loc) and not isinstance(l, LTmp):
            l.write(st, IntVal(0))
        return [(st, VOID)]
    if s in ('getKey', 'key'):
        return [(st, z3.Function('idkey', IntSort(), IntSort())(v))]
    if fn.d.get('conv'):
        if fn.rtype.k == 'bool' or fn.rtype.k == 'memptr': return [(st, v != 0)]
        if isreal(fn.rtype): return [(st, ToReal(v))]
        return [(st, v)]
    return None


def str_intrinsic(eng, st, fn, o, args, e):
    s = fn.short
    l = o.loc if isinstance(o, Ptr) else o
    v = eng.rv(l, st)
    if isinstance(v, Opaque): return None
    if s in ('operator==', 'operator!=', 'operator<', 'operator>', 'compare'):
        w = eng.rv(args[0], st)
        if not isinstance(w, z3.ExprRef): return None
        if s == 'compare': return [(st, If(v == w, IntVal(0), fresh(IntSort(), 'cmp')))]
        if s == 'operator<': return [(st, v < w)]
        if s == 'operator>': return [(st, v > w)]
        return [(st, v == w if s == 'operator==' else Not(v == w))]
    if s == 'operator=':
        w = eng.rv(args[0], st)
        if not isinstance(w, z3.ExprRef): w = fresh(IntSort(), 'str')
        l.write(st, w); return [(st, l)]
    if s in ('c_str', 'data', 'toString', 'getKey', 'str', 'operator double', 'operator eint', 'operator edouble'):
        if fn.rtype.k == 'ref': return [(st, LTmp(v, fn.rtype.t))]
        if isreal(fn.rtype): return [(st, ToReal(v))]
        return [(st, v)]
    if fn.d.get('conv'):
        if isreal(fn.rtype): return [(st, ToReal(v))]
        return [(st, v)]
    if s in ('empty',): return [(st, v == eng.strconst(''))]
    if s in ('operator+=', 'append', 'push_back', 'clear', 'erase', 'insert', 'replace'):
        l.write(st, fresh(IntSort(), 'str')); return [(st, l)]
    if s in ('size', 'length', 'find', 'find_first_of', 'rfind', 'find_last_of', 'countElements'):
        r = fresh(IntSort(), 'strn'); st.assume(r >= 0); return [(st, r)]
    if s in ('substr', 'getElement', 'at', 'operator[]'):
        r = fresh(IntSort(), 'str')
        return [(st, LTmp(r, None) if fn.rtype.k == 'ref' else r)]
    if s in ('contains',): return [(st, fresh(BoolSort(), 'strb'))]
    return None


# ---------------------------------------------------------------- constructors of value classes
def opaque_ctor(eng, st, ty, args):
    return Opaque(ty.s)


def ctor(eng, st, ty, fn, args, e):
    tn = ty.tn
    if tn in PAIR and len(args) == 1 and isinstance(eng.rv(args[0], st), PairIB):
        return [(st, eng.rv(args[0], st))]
    s = eng.so.sort(ty)
    if tn in NUMT:
        if not args: return [(st, zero_of(eng, s))]
        v = num_val(eng, st, args[0])
        if tn == 'EUROPA::edouble': v = r_(v)
        elif v.sort() == RealSort(): v = trunc(v)
        if len(args) == 1 and not fn.d.get('cpy') and not isnum(fn.ptypes()[0]):
            # public conversions assert the value is within the infinities
            oob = z3.simplify(Or(v > INF, v < -INF))
            if not z3.is_false(oob) and eng.quick(st.pc, oob):
                bad = st.copy(); bad.pc.append(oob); eng.throw(bad, 'assert (number range)', e.get('l'))
                st.assume(Not(oob))
        return [(st, v)]
    if tn in IDLIKE:
        if not args: return [(st, IntVal(0))]
        v = eng.rv(args[0], st)
        if isinstance(v, Obj): v = v.ref
        if isinstance(v, Opaque): v = fresh(IntSort(), 'opqptr')
        if isinstance(v, Ptr): raise Unsupported('Id of local')
        if v.sort() == RealSort(): v = ToInt(v)
        return [(st, v)]
    if tn in STRN:
        if not args: return [(st, eng.strconst(''))]
        v = eng.rv(args[0], st)
        if not isinstance(v, z3.ExprRef): return [(st, fresh(IntSort(), 'str'))]
        if v.sort() == RealSort(): return [(st, ToInt(v))]
        return [(st, v)]
    if tn in PAIR:
        i = INFO[str(s)]
        if not args: return [(st, zero_of(eng, s))]
        if len(args) == 1:
            v = eng.rv(args[0], st)
            if isinstance(v, Entry): v = mk(s, v.key, eng.rv(LKey(v.loc, v.key, None), st))
            if v.sort() == s: return [(st, v)]
            return [(st, mk(s, coerce(acc(v, 'first'), i[1]), coerce(acc(v, 'second'), i[2])))]
        return [(st, mk(s, coerce(eng.rv(args[0], st), i[1]), coerce(eng.rv(args[1], st), i[2])))]
    if tn in SEQ or tn in SET or tn in MAP:
        i = INFO[str(s)]
        if not args: return [(st, empty_container(eng, s))]
        v = eng.rv(args[0], st)
        if isinstance(v, z3.ExprRef) and v.sort() == s: return [(st, v)]
        if isinstance(v, Opaque) and len(args) == 1: return [(st, empty_container(eng, s))]
        if isinstance(v, Iter):
            w = eng.rv(args[1], st)
            return [(st, from_range(eng, st, s, v, w))]
        if i[0] == 'seq' and isinstance(v, z3.ExprRef) and v.sort() == IntSort():
            fill = eng.rv(args[1], st) if len(args) > 1 and not isinstance(eng.rv(args[1], st), Opaque) else zero_of(eng, i[1])
            return [(st, mk(s, v, K(IntSort(), coerce(fill, i[1]))))]
        raise Unsupported('container constructor ' + fn.key)
    # value struct
    if fn.d.get('cpy') or (len(args) == 1 and isinstance(eng.rv(args[0], st), z3.ExprRef) and eng.rv(args[0], st).sort() == s):
        return [(st, eng.rv(args[0], st))]
    if fn.body is not None:
        tmpk = (0, 'vs%d' % uid())
        st.env[tmpk] = empty_container(eng, s)
        l = LVar(tmpk, ty)
        out = []
        for s2, _ in eng.inline(fn, st, l, args, ty.n):
            v = s2.env.pop(tmpk)
            out.append((s2, v))
        return out
    if not args: return [(st, empty_container(eng, s))]
    raise Unsupported('value-class constructor ' + fn.key)


def from_range(eng, st, s, a, b):
    i = INFO[str(s)]
    c = eng.rv(a.loc, st)
    j = fresh(IntSort(), 'j')
    if i[0] == 'seq':
        if a.kind == 'seq' and not a.rev:
            n = b.pos[0] - a.pos[0]
            if z3.is_int_value(a.pos[0]) and a.pos[0].as_long() == 0: return mk(s, b.pos[0], acc(c, 'arr'))
            arr = fresh(ArraySort(IntSort(), i[1]), 'arr')
            st.assume(ForAll([j], sel(arr, j) == sel(acc(c, 'arr'), j + a.pos[0])))
            return mk(s, n, arr)
        if a.kind == 'set':
            return set_to_seq(eng, st, s, c)
    if i[0] == 'set':
        v = fresh(s, 'set'); x = fresh(i[1], 'x')
        if a.kind == 'seq':
            lo, hi = a.pos[0], b.pos[0]
            st.assume(ForAll([j], Implies(And(lo <= j, j < hi), sel(acc(v, 'mem'), sel(acc(c, 'arr'), j)))))
            sk = fresh(ArraySort(i[1], IntSort()), 'at')
            st.assume(ForAll([x], Implies(sel(acc(v, 'mem'), x), And(lo <= sel(sk, x), sel(sk, x) < hi, sel(acc(c, 'arr'), sel(sk, x)) == x)), patterns=[sel(acc(v, 'mem'), x)]))
            for f in setfacts(v): st.assume(f)
            return v
        if a.kind == 'set': return c
    raise Unsupported('range constructor')


def set_to_seq(eng, st, s, c):
    i = INFO[str(s)]
    n = acc(c, 'card'); j = fresh(IntSort(), 'j'); x = fresh(i[1], 'x'); j2 = fresh(IntSort(), 'j')
    arr = fresh(ArraySort(IntSort(), i[1]), 'arr')
    sk = fresh(ArraySort(i[1], IntSort()), 'at')
    st.assume(n >= 0)
    st.assume(ForAll([j], Implies(And(0 <= j, j < n), sel(acc(c, 'mem'), sel(arr, j)))))
    st.assume(ForAll([j, j2], Implies(And(0 <= j, j < j2, j2 < n), sel(arr, j) < sel(arr, j2))))
    st.assume(ForAll([x], Implies(sel(acc(c, 'mem'), x), And(0 <= sel(sk, x), sel(sk, x) < n, sel(arr, sel(sk, x)) == x)), patterns=[sel(acc(c, 'mem'), x)] if pat_ok(acc(c, 'mem')) else []))
    return mk(s, n, arr)


# ---------------------------------------------------------------- containers
def set_add(c, x):
    m = acc(c, 'mem')
    return upd2(c, Store(m, x, T_), If(sel(m, x), acc(c, 'card'), acc(c, 'card') + 1))


def set_del(c, x):
    m = acc(c, 'mem')
    return upd2(c, Store(m, x, F_), If(sel(m, x), acc(c, 'card') - 1, acc(c, 'card')))


def upd2(c, mem, card):
    if ismap(c): return mk(c.sort(), mem, card, acc(c, 'val'))
    return mk(c.sort(), mem, card)


def set_removed_range(eng, st, c, pred):
    """remove all keys satisfying pred(x)"""
    s = ksort(c.sort())
    mem = fresh(ArraySort(s, BoolSort()), 'mem'); card = fresh(IntSort(), 'card'); x = fresh(s, 'x')
    om = acc(c, 'mem')
    pats = [Select(mem, x)] + ([Select(om, x)] if pat_ok(om) else [])
    st.assume(ForAll([x], sel(mem, x) == And(sel(om, x), Not(pred(x))), patterns=pats))
    st.assume(card <= acc(c, 'card'))
    n = upd2(c, mem, card)
    y = fresh(s, 'y')
    # card unchanged iff nothing removed
    st.assume(Implies(card == acc(c, 'card'), mem == om))
    st.assume(Implies(mem == om, card == acc(c, 'card')))
    for f in setfacts(n): st.assume(f)
    return n


def seq_remove_at(eng, st, loc, idx):
    c = loc.read(st)
    arr = acc(c, 'arr'); n = acc(c, 'len')
    na = fresh(arr.sort(), 'arr'); j = fresh(IntSort(), 'j')
    st.assume(ForAll([j], sel(na, j) == If(j < idx, sel(arr, j), sel(arr, j + 1)), patterns=[Select(na, j)]))
    if pat_ok(arr):
        st.assume(ForAll([j], And(Implies(j < idx, sel(na, j) == sel(arr, j)), Implies(j > idx, sel(na, j - 1) == sel(arr, j))), patterns=[Select(arr, j)]))
    loc.write(st, mk(c.sort(), n - 1, na))


def seq_insert_at(eng, st, loc, idx, v):
    c = loc.read(st)
    arr = acc(c, 'arr'); n = acc(c, 'len')
    na = fresh(arr.sort(), 'arr'); j = fresh(IntSort(), 'j')
    st.assume(ForAll([j], sel(na, j) == If(j < idx, sel(arr, j), If(j == idx, v, sel(arr, j - 1))), patterns=[Select(na, j)]))
    if pat_ok(arr):
        st.assume(ForAll([j], And(Implies(j < idx, sel(na, j) == sel(arr, j)), Implies(j >= idx, sel(na, j + 1) == sel(arr, j))), patterns=[Select(arr, j)]))
    st.assume(sel(na, idx) == v)
    loc.write(st, mk(c.sort(), n + 1, na))


def is_list(loc):
    t = loc.ty.noref if loc.ty is not None else None
    return t is not None and t.tn is not None and 'list' in t.tn


def adjust_iters(st, loc, pred, delta):
    """std::list: iterators designate nodes, so positions of other iterators shift"""
    for k, v in list(st.env.items()):
        if isinstance(v, Iter) and v.kind == 'seq' and v.loc.mergekey() == loc.mergekey() and all(x.eq(y) for x, y in zip(v.loc.terms(), loc.terms())):
            p = v.pos[0]
            st.env[k] = Iter(v.loc, 'seq', [If(pred(p), p + delta, p)], v.rev)


def container_intrinsic(eng, st, fn, o, args, e):
    s = fn.short
    loc = asloc(eng, st, o)
    c = eng.rv(loc, st)
    if not isinstance(c, z3.ExprRef) or kind(c) not in ('seq', 'set', 'map'):
        if isinstance(c, Opaque): return None
        if s == 'operator=' and False: pass
        raise Unsupported('container value for ' + fn.key)
    k = kind(c)
    i = INFO[str(c.sort())]
    rt = fn.rtype

    def wr(v): loc.write(st, v)
    if s == 'operator=':
        v = eng.rv(args[0], st); wr(v); return [(st, loc)]
    if s == 'swap':
        l2 = asloc(eng, st, args[0]); v2 = l2.read(st); l2.write(st, c); wr(v2); return [(st, VOID)]
    if s in ('begin', 'cbegin'): return [(st, begin(eng, st, loc))]
    if s in ('end', 'cend'): return [(st, end(eng, st, loc))]
    if s in ('rbegin', 'rend'):
        if k == 'seq':
            return [(st, Iter(loc, 'seq', [acc(c, 'len') if s == 'rbegin' else IntVal(0)], True))]
        if s == 'rbegin':
            none, key = last_lt(eng, st, c, None)
            for f in setfacts(c): st.assume(f)
            st.assume(none == (acc(c, 'card') == 0))
            return [(st, Iter(loc, k, [none, key], 'r'))]
        return [(st, Iter(loc, k, [T_, fresh(i[1], 'rend')], 'r'))]
    if s in ('operator==', 'operator!='):
        return None
    if k == 'seq':
        n = acc(c, 'len'); arr = acc(c, 'arr'); ety = elemty(loc)
        if s == 'size': return [(st, n)]
        if s == 'empty': return [(st, eng.simp(n == 0))]
        if s in ('operator[]', 'at'):
            idx = num_val(eng, st, args[0])
            if eng.safety and s != 'at':
                eng.oblige('index in range', st, And(idx >= 0, idx < n))
                st.assume(And(idx >= 0, idx < n))
            if s == 'at':
                oob = Not(And(idx >= 0, idx < n))
                if eng.quick(st.pc, oob):
                    bad = st.copy(); bad.pc.append(oob); eng.throw(bad, 'out_of_range', e.get('l')); st.assume(Not(oob))
            return [(st, LElem(loc, idx, ety))]
        if s in ('push_back', 'push', 'emplace_back'):
            v = coerce(eng.rv(args[0], st), i[1])
            wr(mk(c.sort(), n + 1, Store(arr, n, v))); return [(st, VOID)]
        if base(fn.cls) == 'std::priority_queue' and s in ('top', 'pop'):
            # some element of the queue, the same for top() and the pop() that follows it
            ix = z3.Function('TOP_' + str(c.sort()), c.sort(), IntSort())(c)
            if eng.safety:
                eng.oblige('%s() of non-empty' % s, st, n > 0); st.assume(n > 0)
            st.assume(And(ix >= 0, ix < n))
            if s == 'top': return [(st, LElem(loc, ix, ety))]
            seq_remove_at(eng, st, loc, ix)
            return [(st, VOID)]
        if s in ('back', 'top') and not (s == 'top' and False):
            if eng.safety:
                eng.oblige('back() of non-empty', st, n > 0); st.assume(n > 0)
            return [(st, LElem(loc, n - 1, ety))]
        if s == 'front':
            if eng.safety:
                eng.oblige('front() of non-empty', st, n > 0); st.assume(n > 0)
            return [(st, LElem(loc, IntVal(0), ety))]
        if s == 'pop_back' or (s == 'pop' and base(fn.cls) == 'std::stack'):
            if eng.safety:
                eng.oblige('pop of non-empty', st, n > 0); st.assume(n > 0)
            wr(mk(c.sort(), n - 1, arr)); return [(st, VOID)]
        if s in ('pop_front', 'pop'):
            if eng.safety:
                eng.oblige('pop of non-empty', st, n > 0); st.assume(n > 0)
            seq_remove_at(eng, st, loc, IntVal(0))
            if is_list(loc): adjust_iters(st, loc, lambda p: p > 0, -1)
            return [(st, VOID)]
        if s == 'push_front':
            seq_insert_at(eng, st, loc, IntVal(0), coerce(eng.rv(args[0], st), i[1]))
            if is_list(loc): adjust_iters(st, loc, lambda p: p >= 0, 1)
            return [(st, VOID)]
        if s == 'clear': wr(mk(c.sort(), IntVal(0), arr)); return [(st, VOID)]
        if s in ('reserve', 'shrink_to_fit'): return [(st, VOID)]
        if s == 'capacity':
            r = fresh(IntSort(), 'capacity'); st.assume(r >= n); return [(st, r)]
        if s == 'resize':
            m = num_val(eng, st, args[0])
            fill = coerce(eng.rv(args[1], st), i[1]) if len(args) > 1 else zero_of(eng, i[1])
            na = fresh(arr.sort(), 'arr'); j = fresh(IntSort(), 'j')
            st.assume(ForAll([j], sel(na, j) == If(j < n, sel(arr, j), fill), patterns=[Select(na, j)]))
            wr(mk(c.sort(), m, na)); return [(st, VOID)]
        if s == 'insert' and len(args) == 2:
            it = eng.rv(args[0], st)
            seq_insert_at(eng, st, loc, it.pos[0], coerce(eng.rv(args[1], st), i[1]))
            if is_list(loc): adjust_iters(st, loc, lambda p, q=it.pos[0]: p >= q, 1)
            return [(st, Iter(loc, 'seq', [it.pos[0]]))]
        if s == 'erase' and len(args) == 1:
            it = eng.rv(args[0], st)
            if eng.safety:
                g = And(it.pos[0] >= 0, it.pos[0] < n)
                eng.oblige('erase of valid iterator', st, g); st.assume(g)
            seq_remove_at(eng, st, loc, it.pos[0])
            if is_list(loc): adjust_iters(st, loc, lambda p, q=it.pos[0]: p > q, -1)
            return [(st, Iter(loc, 'seq', [it.pos[0]]))]
        if s == 'erase' and len(args) == 2:
            a, b = eng.rv(args[0], st).pos[0], eng.rv(args[1], st).pos[0]
            if eng.safety:
                g = And(0 <= a, a <= b, b <= n)
                eng.oblige('erase of valid range', st, g); st.assume(g)
            na = fresh(arr.sort(), 'arr'); j = fresh(IntSort(), 'j')
            st.assume(ForAll([j], sel(na, j) == If(j < a, sel(arr, j), sel(arr, j + (b - a))), patterns=[Select(na, j)]))
            if pat_ok(arr): st.assume(ForAll([j], And(Implies(j < a, sel(na, j) == sel(arr, j)), Implies(j >= b, sel(na, j - (b - a)) == sel(arr, j))), patterns=[Select(arr, j)]))
            if is_list(loc): raise Unsupported('list range erase')
            wr(mk(c.sort(), n - (b - a), na)); return [(st, Iter(loc, 'seq', [a]))]
        if s == 'remove':
            raise Unsupported('list::remove')
        return None
    mem, card = acc(c, 'mem'), acc(c, 'card')
    if s == 'size': return [(st, card)]
    if s == 'empty': return [(st, eng.simp(card == 0))]
    if s == 'clear': wr(empty_container(eng, c.sort()) if k == 'set' else mk(c.sort(), K(i[1], F_), IntVal(0), acc(c, 'val'))); return [(st, VOID)]
    if s == 'count':
        x = coerce(eng.rv(args[0], st), i[1])
        return [(st, If(sel(mem, x), IntVal(1), IntVal(0)))]
    if s == 'find':
        x = coerce(eng.rv(args[0], st), i[1])
        return [(st, Iter(loc, k, [eng.simp(Not(sel(mem, x))), x]))]
    if s in ('lower_bound', 'upper_bound'):
        x = coerce(eng.rv(args[0], st), i[1])
        return [(st, Iter(loc, k, first_ge(eng, st, c, x, s == 'upper_bound')))]
    if s == 'erase':
        a = eng.rv(args[0], st)
        if isinstance(a, Iter):
            if len(args) == 2:
                b = eng.rv(args[1], st)
                pred = lambda x: And(Not(a.pos[0]), x >= a.pos[1], Or(b.pos[0], x < b.pos[1]))
                wr(set_removed_range(eng, st, c, pred))
                return [(st, b)]
            if eng.safety:
                eng.oblige('erase of valid iterator', st, Not(a.pos[0])); st.assume(Not(a.pos[0]))
            nx = None
            if rt.k != 'void':
                nx = advance(eng, st, a)
            n = set_del(c, a.pos[1]); wr(n)
            eng.typefacts(st, n, loc.ty)
            return [(st, nx if nx is not None else VOID)]
        x = coerce(a, i[1])
        n = set_del(c, x); wr(n); eng.typefacts(st, n, loc.ty)
        return [(st, If(sel(mem, x), IntVal(1), IntVal(0)))]
    if s == 'insert' and k == 'set':
        a0 = eng.rv(args[0], st)
        if len(args) == 2 and isinstance(a0, Iter):
            b = eng.rv(args[1], st)
            if isinstance(b, Iter):
                src = eng.rv(a0.loc, st)
                v = fresh(c.sort(), 'set'); x = fresh(i[1], 'x')
                if a0.kind == 'set':
                    inr = lambda x: And(sel(acc(src, 'mem'), x), Not(a0.pos[0]), x >= a0.pos[1], Or(b.pos[0], x < b.pos[1]))
                    st.assume(ForAll([x], sel(acc(v, 'mem'), x) == Or(sel(mem, x), inr(x))))
                else:
                    other = from_range(eng, st, c.sort(), a0, b)
                    st.assume(ForAll([x], sel(acc(v, 'mem'), x) == Or(sel(mem, x), sel(acc(other, 'mem'), x))))
                for f in setfacts(v): st.assume(f)
                st.assume(acc(v, 'card') >= card)
                wr(v); return [(st, VOID)]
            x = coerce(b, i[1]); n = set_add(c, x); wr(n); eng.typefacts(st, n, loc.ty)
            return [(st, Iter(loc, k, [F_, x]))]
        x = coerce(a0, i[1])
        n = set_add(c, x); wr(n); eng.typefacts(st, n, loc.ty)
        return [(st, PairIB(Iter(loc, k, [F_, x]), Not(sel(mem, x))))]
    if k == 'map':
        val = acc(c, 'val')
        if s == 'operator[]':
            x = coerce(eng.rv(args[0], st), i[1])
            dflt = zero_of(eng, i[2])
            wr(mk(c.sort(), Store(mem, x, T_), If(sel(mem, x), card, card + 1), If(sel(mem, x), val, Store(val, x, dflt))))
            return [(st, LKey(loc, x, valty(loc)))]
        if s == 'at':
            x = coerce(eng.rv(args[0], st), i[1])
            bad = st.copy(); bad.pc.append(Not(sel(mem, x))); eng.throw(bad, 'out_of_range', e.get('l')); st.assume(sel(mem, x))
            return [(st, LKey(loc, x, valty(loc)))]
        if s in ('insert', 'emplace'):
            a = eng.rv(args[-1], st) if s == 'insert' else None
            if s == 'emplace': kx, vx = coerce(eng.rv(args[0], st), i[1]), coerce(eng.rv(args[1], st), i[2])
            elif isinstance(a, z3.ExprRef) and kind(a) == 'pair': kx, vx = coerce(acc(a, 'first'), i[1]), coerce(acc(a, 'second'), i[2])
            else: raise Unsupported('map insert')
            had = sel(mem, kx)
            wr(mk(c.sort(), Store(mem, kx, T_), If(had, card, card + 1), If(had, val, Store(val, kx, vx))))
            if len(args) == 2 and s == 'insert': return [(st, Iter(loc, k, [F_, kx]))]
            return [(st, PairIB(Iter(loc, k, [F_, kx]), Not(had)))]
    return None


class PairIB:
    """pair<iterator,bool>"""
    def __init__(self, it, b): self.it = it; self.b = b
    def mergekey(self): return ('pib', self.it.mergekey())
    def terms(self): return [self.b] + self.it.terms()
    def rebuild(self, t): return PairIB(self.it.rebuild(t[1:]), t[0])


def iter_intrinsic(eng, st, fn, o, args, e):
    s = fn.short
    l = o.loc if isinstance(o, Ptr) else o
    it = eng.rv(l, st)
    if not isinstance(it, Iter):
        if s == 'operator=':
            v = eng.rv(args[0], st); l.write(st, v); return [(st, l)]
        return None
    if s == 'operator=':
        v = eng.rv(args[0], st); l.write(st, v); return [(st, l)]
    if s == 'operator*': return [(st, ideref(eng, st, it))]
    if s == 'operator->':
        d = ideref(eng, st, it)
        if isinstance(d, LElem) or isinstance(d, LTmp):
            v = eng.rv(d, st)
            t = d.ty.noref if d.ty is not None else None
            if t is not None and t.k == 'rec' and eng.so.cat(t) == 'val' and t.tn not in IDLIKE:
                return [(st, Ptr(d))]
            if t is not None and t.tn in IDLIKE: return [(st, Ptr(d))]
        return [(st, Ptr(d)) if isinstance(d, Loc) else (st, d)]
    if s in ('operator++', 'operator--'):
        back = s == 'operator--'
        if it.rev == 'r':
            nit = advance_r(eng, st, it, back)
        else:
            nit = advance(eng, st, it, back)
        if not isinstance(l, Loc):      # increment of a temporary, as in *--c.end()
            return [(st, it if args else nit)]
        l.write(st, nit)
        return [(st, it if args else l)]
    if s in ('operator==', 'operator!='):
        w = eng.rv(args[0], st)
        q = itereq(eng, st, it, w)
        return [(st, q if s == 'operator==' else Not(q))]
    if it.kind == 'seq':
        if s in ('operator+', 'operator-') and not isinstance(eng.rv(args[0], st), Iter):
            d = num_val(eng, st, args[0])
            if it.rev: d = -d
            return [(st, Iter(it.loc, 'seq', [it.pos[0] + d if s == 'operator+' else it.pos[0] - d], it.rev))]
        if s in ('operator+=', 'operator-='):
            d = num_val(eng, st, args[0])
            if it.rev: d = -d
            l.write(st, Iter(it.loc, 'seq', [it.pos[0] + d if s == 'operator+=' else it.pos[0] - d], it.rev))
            return [(st, l)]
        if s in ('base',): return [(st, Iter(it.loc, 'seq', [it.pos[0]], False))]
    return None


def advance_r(eng, st, it, back):
    c = eng.rv(it.loc, st)
    if back: raise Unsupported('-- on reverse iterator')
    eng.oblige('increment of rend iterator', st, Not(it.pos[0])); st.assume(Not(it.pos[0]))
    none, k = last_lt(eng, st, c, it.pos[1])
    return Iter(it.loc, it.kind, [none, k], 'r')


ALGO = {}


def algo(n):
    def d(f):
        ALGO[n] = f
        return f
    return d


@algo('stable_sort')
@algo('sort')
def a_sort(eng, st, fn, args, e):
    """a permutation of the range; the order of the result is not modelled"""
    a, b = eng.rv(args[0], st), eng.rv(args[1], st)
    if not isinstance(a, Iter) or not isinstance(b, Iter) or a.kind != 'seq': return None
    c = eng.rv(a.loc, st); lo, hi = a.pos[0], b.pos[0]; arr = acc(c, 'arr')
    new = fresh(arr.sort(), 'sorted'); p_, q_ = [z3.Function(str(fresh(IntSort(), n)), IntSort(), IntSort()) for n in ('perm', 'inv')]
    i = fresh(IntSort(), 'i'); rng = lambda x: And(lo <= x, x < hi)
    st.assume(ForAll([i], sel(new, i) == If(rng(i), sel(arr, p_(i)), sel(arr, i)), patterns=[Select(new, i)]))
    st.assume(ForAll([i], Implies(rng(i), And(rng(p_(i)), q_(p_(i)) == i)), patterns=[p_(i)]))
    ps = [q_(i)] + ([Select(arr, i)] if pat_ok(arr) else [])
    st.assume(ForAll([i], Implies(rng(i), And(rng(q_(i)), p_(q_(i)) == i, sel(new, q_(i)) == sel(arr, i))), patterns=ps))
    a.loc.write(st, upd(c, 'arr', new))
    return [(st, VOID)]


@algo('find')
def a_find(eng, st, fn, args, e):
    a, b = eng.rv(args[0], st), eng.rv(args[1], st)
    x = eng.rv(args[2], st)
    if not isinstance(a, Iter): return None
    c = eng.rv(a.loc, st)
    if a.kind == 'set':
        x = coerce(x, ksort(c.sort()))
        return [(st, Iter(a.loc, 'set', [Not(sel(acc(c, 'mem'), x)), x]))]
    if a.kind != 'seq': return None
    arr = acc(c, 'arr'); x = coerce(x, arr.sort().range())
    i = fresh(IntSort(), 'fi'); j = fresh(IntSort(), 'j')
    st.assume(And(i >= a.pos[0], i <= b.pos[0]))
    st.assume(ForAll([j], Implies(And(a.pos[0] <= j, j < i), Not(sel(arr, j) == x)), patterns=[Select(arr, j)] if pat_ok(arr) else []))
    st.assume(Or(i == b.pos[0], sel(arr, i) == x))
    return [(st, Iter(a.loc, 'seq', [i]))]


def functor(eng, st, p):
    """the predicate object as a formula over an element; its operator() must be free of effects"""
    if not isinstance(p, Obj): return None
    ops = [f for f in eng.db.funcs.values() if f.cls == p.ty.noref.n and f.short == 'operator()' and f.body is not None]
    if len(ops) != 1: return None

    def P(x):
        s2 = st.copy(); n0 = len(s2.pc); h0 = dict(s2.heap)
        pt = ops[0].ptypes()[0].noref
        a = Obj(x, pt) if eng.so.cat(pt) == 'obj' else LTmp(x, pt)
        rs = eng.scall(ops[0], s2, p.ref, [a], {})
        if len(rs) != 1 or any(k in h0 and not v.eq(h0[k]) for k, v in rs[0][0].heap.items()): raise Unsupported('predicate object with effects')
        return eng.tobool(eng.rv(rs[0][1], rs[0][0]))
    return P


@algo('find_if')
def a_find_if(eng, st, fn, args, e):
    a, b = eng.rv(args[0], st), eng.rv(args[1], st)
    P = functor(eng, st, args[2])
    if P is None or not isinstance(a, Iter): return None
    c = eng.rv(a.loc, st)
    if a.kind == 'set':
        mem = acc(c, 'mem'); x = fresh(mem.domain(), 'fx'); y = fresh(mem.domain(), 'y'); end = fresh(BoolSort(), 'fend')
        rng = lambda y: And(sel(mem, y), Not(a.pos[0]), y >= a.pos[1], Or(b.pos[0], y < b.pos[1]))
        st.assume(If(end, ForAll([y], Implies(rng(y), Not(P(y))), patterns=[Select(mem, y)] if pat_ok(mem) else []), And(rng(x), P(x))))
        return [(st, Iter(a.loc, 'set', [And(end, b.pos[0]), If(end, b.pos[1], x)]))]
    if a.kind != 'seq': return None
    arr = acc(c, 'arr')
    i = fresh(IntSort(), 'fi'); j = fresh(IntSort(), 'j')
    st.assume(And(i >= a.pos[0], i <= b.pos[0]))
    st.assume(ForAll([j], Implies(And(a.pos[0] <= j, j < i), Not(P(sel(arr, j)))), patterns=[Select(arr, j)] if pat_ok(arr) else []))
    st.assume(Or(i == b.pos[0], P(sel(arr, i))))
    return [(st, Iter(a.loc, 'seq', [i]))]


def removed(eng, st, a, b, P):
    """std::remove: the kept elements move to the front in their order; returns the new end"""
    c = eng.rv(a.loc, st); arr = acc(c, 'arr'); lo, hi = a.pos[0], b.pos[0]
    m = fresh(IntSort(), 'newend'); na = fresh(arr.sort(), 'arr'); j, k = fresh(IntSort(), 'j'), fresh(IntSort(), 'k')
    src = z3.Function('rmsrc!%d' % uid(), IntSort(), IntSort()); dst = z3.Function('rmdst!%d' % uid(), IntSort(), IntSort())
    st.assume(And(lo <= m, m <= hi))
    st.assume(ForAll([j], Implies(And(lo <= j, j < m), And(Not(P(sel(na, j))), lo <= src(j), src(j) < hi, src(j) >= j, sel(na, j) == sel(arr, src(j)), dst(src(j)) == j)), patterns=[Select(na, j)]))
    st.assume(ForAll([j, k], Implies(And(lo <= j, j < k, k < m), src(j) < src(k)), patterns=[z3.MultiPattern(src(j), src(k))]))
    if pat_ok(arr): st.assume(ForAll([j], Implies(And(lo <= j, j < hi, Not(P(sel(arr, j)))), And(lo <= dst(j), dst(j) < m, dst(j) <= j, sel(na, dst(j)) == sel(arr, j))), patterns=[Select(arr, j)]))
    st.assume(ForAll([j], Implies(Or(j < lo, j >= hi), sel(na, j) == sel(arr, j)), patterns=[Select(na, j)]))
    a.loc.write(st, mk(c.sort(), acc(c, 'len'), na))
    return [(st, Iter(a.loc, 'seq', [m]))]


@algo('remove_if')
def a_remove_if(eng, st, fn, args, e):
    a, b = eng.rv(args[0], st), eng.rv(args[1], st)
    P = functor(eng, st, args[2])
    if P is None or not isinstance(a, Iter) or a.kind != 'seq': return None
    return removed(eng, st, a, b, P)


@algo('remove')
def a_remove(eng, st, fn, args, e):
    if len(args) != 3: return None
    a, b, x = eng.rv(args[0], st), eng.rv(args[1], st), eng.rv(args[2], st)
    if not isinstance(a, Iter) or a.kind != 'seq': return None
    x = coerce(x, acc(eng.rv(a.loc, st), 'arr').sort().range())
    return removed(eng, st, a, b, lambda y: y == x)


def a_extreme(eng, st, args, less):
    if len(args) != 2: return None
    a, b = eng.rv(args[0], st), eng.rv(args[1], st)
    if not isinstance(a, Iter) or a.kind != 'seq': return None
    arr = acc(eng.rv(a.loc, st), 'arr')
    if arr.sort().range() not in (IntSort(), RealSort()): return None
    i = fresh(IntSort(), 'xi'); j = fresh(IntSort(), 'j'); lo, hi = a.pos[0], b.pos[0]
    st.assume(If(lo == hi, i == hi, And(lo <= i, i < hi)))
    st.assume(ForAll([j], Implies(And(lo <= j, j < hi), Not(less(sel(arr, j), sel(arr, i)))), patterns=[Select(arr, j)] if pat_ok(arr) else []))
    return [(st, Iter(a.loc, 'seq', [i]))]


@algo('min_element')
def a_min_element(eng, st, fn, args, e): return a_extreme(eng, st, args, lambda x, y: x < y)


@algo('max_element')
def a_max_element(eng, st, fn, args, e): return a_extreme(eng, st, args, lambda x, y: x > y)


@algo('swap')
def a_swap(eng, st, fn, args, e):
    a, b = args
    if not (isinstance(a, Loc) and isinstance(b, Loc)): return None
    x, y = eng.rv(a, st), eng.rv(b, st)
    a.write(st, y); b.write(st, x)
    return [(st, VOID)]


@algo('distance')
def a_distance(eng, st, fn, args, e):
    a, b = eng.rv(args[0], st), eng.rv(args[1], st)
    if isinstance(a, Iter) and a.kind == 'seq': return [(st, b.pos[0] - a.pos[0])]
    return None


def a_setop(eng, st, fn, args, e, pred):
    a, b, c, d = [eng.rv(x, st) for x in args[:4]]
    out = args[4]
    if not all(isinstance(z, Iter) and z.kind == 'set' for z in (a, c)): return None
    return None


def intrinsic(eng, st, fn, o, args, e):
    """returns list of (state, value) or None"""
    cls = fn.cls
    h = eng.hooks.get(fn.key) or eng.hooks.get(fn.name)
    if h is not None:
        r = h(eng, st, fn, o, args, e)
        if r is not None: return r
    if fn.key not in eng.noint:
        r = num_intrinsic(eng, st, fn, o, args, e)
        if r is not None: return r
        r = math_intrinsic(eng, st, fn, args, e)
        if r is not None: return r
    if cls is not None and o is not None:
        b = base(cls)
        if b in IDLIKE: return id_intrinsic(eng, st, fn, o, args, e)
        if b in STRN: return str_intrinsic(eng, st, fn, o, args, e)
        if ITERS.search(b): return iter_intrinsic(eng, st, fn, o, args, e)
        if b in SEQ or b in SET or b in MAP: return container_intrinsic(eng, st, fn, o, args, e)
        if b in PAIR and fn.short == 'operator=':
            l = o.loc if isinstance(o, Ptr) else o
            v = eng.rv(args[0], st)
            if isinstance(v, PairIB) : raise Unsupported('pair<iterator,bool> assign')
            l.write(st, v); return [(st, l)]
        if b.startswith('__shared_ptr') or b.startswith('std::__shared_ptr') or b.startswith('std::__shared_ptr_access'):
            return id_intrinsic(eng, st, fn, o, args, e)
        if b.startswith(('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::ios')):
            if fn.rtype.k == 'rec' and fn.rtype.tn in STRN: return [(st, fresh(IntSort(), 'str'))]
            return [(st, Opaque(fn.key))]
        t = o.ty if isinstance(o, Loc) else None
        if fn.d.get('casg') and isinstance(o, Loc) and t is not None and eng.so.cat(t.noref) == 'val' and fn.body is None:
            o.write(st, eng.rv(args[0], st)); return [(st, o)]
    elif cls is not None:
        b = base(cls)
        if b in IDLIKE: return id_intrinsic(eng, st, fn, o, args, e)
        if b == 'std::numeric_limits':
            ty = cls[cls.index('<') + 1:-1]
            lim = {'int': 2**31 - 1, 'long': 2**63 - 1, 'unsigned long': 2**64 - 1, 'unsigned int': 2**32 - 1}
            if ty in lim:
                if fn.short == 'max': return [(st, IntVal(lim[ty]))]
                if fn.short in ('min',): return [(st, IntVal(0 if 'unsigned' in ty else -lim[ty] - 1))]
            if ty == 'double':
                big = z3.Const('DBL_MAX', RealSort())
                st.assume(big > INF)
                if fn.short in ('max', 'infinity'): return [(st, big)]
    else:
        n = fn.name
        if n.startswith('std::') or n.startswith('__gnu_cxx::') or n.startswith('boost::'):
            s = fn.short
            if s in ALGO:
                r = ALGO[s](eng, st, fn, args, e)
                if r is not None: return r
            if s in ('operator==', 'operator!=', 'operator<', 'operator-') and len(args) == 2:
                a, b = eng.rv(args[0], st), eng.rv(args[1], st)
                if isinstance(a, Iter) and isinstance(b, Iter):
                    if s == 'operator-': return [(st, a.pos[0] - b.pos[0])]
                    if s == 'operator<': return [(st, a.pos[0] < b.pos[0])]
                    q = itereq(eng, st, a, b)
                    return [(st, q if s == 'operator==' else Not(q))]
                if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
                    k = kind(a)
                    if k in ('set', 'map', None, 'pair') and s in ('operator==', 'operator!='):
                        if k == 'map': return None
                        if k == 'set':
                            ma, mb = acc(a, 'mem'), acc(b, 'mem'); j = fresh(ma.domain(), 'j')
                            ps = [Select(m_, j) for m_ in (ma, mb) if pat_ok(m_)]
                            q = ForAll([j], sel(ma, j) == sel(mb, j), patterns=ps)
                        else: q = a == b
                        return [(st, q if s == 'operator==' else Not(q))]
                    if k == 'seq' and s in ('operator==', 'operator!='):
                        j = fresh(IntSort(), 'j')
                        q = And(acc(a, 'len') == acc(b, 'len'), ForAll([j], Implies(And(0 <= j, j < acc(a, 'len')), sel(acc(a, 'arr'), j) == sel(acc(b, 'arr'), j))))
                        return [(st, q if s == 'operator==' else Not(q))]
                    if k is None and s == 'operator<' : return [(st, a < b)]
            if s in ('operator+',) and fn.rtype.k == 'rec' and fn.rtype.tn in STRN:
                a, b = [eng.rv(x, st) for x in args]
                if all(isinstance(x, z3.ExprRef) and x.sort() == IntSort() for x in (a, b)):
                    return [(st, z3.Function('strcat', IntSort(), IntSort(), IntSort())(a, b))]
                return [(st, fresh(IntSort(), 'str'))]
            if s == 'make_pair':
                sort = eng.so.sort(fn.rtype)
                i = INFO[str(sort)]
                return [(st, mk(sort, coerce(eng.rv(args[0], st), i[1]), coerce(eng.rv(args[1], st), i[2])))]
            if s in ('ref', 'cref') and n.startswith(('boost::', 'std::')) and len(args) == 1: return [(st, args[0])]
            if s == 'make_shared' and fn.rtype.k == 'rec' and fn.rtype.a:
                t = fn.rtype.a[0]
                cs = [f for f in eng.db.funcs.values() if f.cls == t.n and f.d.get('ctor') and len(f.ptypes()) == len(args) and not f.d.get('cpy')]
                if len(cs) == 1:
                    ref = eng.new_obj(st, t.n)
                    return [(s2, ref) for s2 in eng.run_ctor(st, cs[0], ref, t.n, args, e)]
            if s in ('move', 'forward'): return [(st, args[0])]
            if s in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast'):
                v = eng.rv(args[0], st)
                t = fn.rtype.a[0]
                if s == 'dynamic_pointer_cast': return [(st, If(And(v != 0, eng.isa(v, t.n)), v, IntVal(0)))]
                return [(st, v)]
            if fn.rtype.k == 'ref' and 'basic_ostream' in fn.rtype.s: return [(st, Opaque('ostream'))]
    if fn.rtype.k == 'ref' and 'basic_ostream' in fn.rtype.s: return [(st, Opaque('ostream'))]
    return None
