"""P01: edouble/eint arithmetic (Utils/Number.hh) against the extended-number semantics."""
import z3
from z3 import *
from cv.engine import INF, T_, F_, trunc
from cv import stl
from cv.stl import arith_sem, mod_sem, r_, CMP

TUS = ['ConstraintEngine/component/Domains.cc']
PROP = 'P01'


def inb(v):
    return And(v >= -INF, v <= INF)


def build(reg, db):
    fns = [f for k, f in sorted(db.funcs.items()) if f.d.get('f', '').endswith('/Number.hh')]
    keys = {f.key for f in fns}
    skip = []

    def add(f, **kw):
        kw.setdefault('throws', False)
        if kw['throws'] is False: kw['throws'] = lambda c: F_
        reg.add(f.key, prop=PROP, opts=dict(noint=keys, final_ms=20000), **kw)

    for f in fns:
        s = f.short; cls = f.cls; ps = f.ptypes(); n = f.name
        real_r = stl.isreal(f.rtype)
        num_this = cls in stl.NUMT
        if s.startswith('~') or f.d.get('mov') or '&&' in f.key:
            continue
        if f.d.get('imp') or (f.body is None):
            continue
        if s in ('quiet_NaN', 'signaling_NaN', 'denorm_min', 'pow', 'sin', 'sqrt', 'fmod', 'round_error') or 'stream' in f.key or cls and cls.startswith('boost::hash'):
            skip.append(f.key); continue
        if cls and cls.startswith('std::numeric_limits'):
            real = 'edouble' in cls
            want = {'infinity': INF, 'minus_infinity': -INF, 'max': INF - 1, 'min': -(INF - 1), 'epsilon': RealVal('1/100000') if real else 0}
            if s in want:
                add(f, ensures=lambda c, w=want[s]: [('constant', c.r == w)])
            else: skip.append(f.key)
            continue
        if f.d.get('ctor'):
            if len(ps) == 0: continue
            if stl.isnum(ps[0]) and f.d.get('cpy'): continue
            private = len(ps) == 2
            isint = cls.endswith('eint')

            def ens(c, isint=isint):
                v = r_(c.a(0))
                return [('holds the given value', r_(c.thisval_post) == v), ('within the infinities', inb(r_(c.a(0))))]

            def ens2(c):
                return [('holds the given value', r_(c.thisval_post) == r_(c.a(0)))]
            add(f, modifies=lambda c: [('this',)], throws=(lambda c: Not(inb(r_(c.a(0))))) if not private else False,
                ensures=ens2 if private else ens)
            continue
        if s.startswith('cast_') or s == 'asLong' or f.d.get('conv') and not cls is None:
            src = (lambda c: c.a(0)) if ps else (lambda c: c.thisval)

            def ens(c, src=src):
                v = src(c)
                if c.r.sort() == IntSort() and v.sort() == RealSort():
                    return [('truncation toward zero', c.r == trunc(v))]
                return [('same value', r_(c.r) == r_(v))]
            add(f, ensures=ens); continue
        if n in ('std::abs', 'std::ceil', 'std::floor', 'std::max', 'std::min'):
            def ens(c, n=n):
                a = c.a(0)
                if n == 'std::abs': return [('absolute value', c.r == If(a >= 0, a, -a))]
                if n == 'std::floor': return [('greatest integer below', And(c.r <= a, a < c.r + 1, c.r == ToReal(ToInt(c.r))))]
                if n == 'std::ceil': return [('least integer above', And(c.r >= a, a > c.r - 1, c.r == ToReal(ToInt(c.r))))]
                b = c.a(1)
                if n == 'std::max': return [('max', And(c.r >= a, c.r >= b, Or(c.r == a, c.r == b)))]
                return [('min', And(c.r <= a, c.r <= b, Or(c.r == a, c.r == b)))]
            add(f, ensures=ens); continue
        if not s.startswith('operator'):
            skip.append(f.key); continue
        op = s[8:]
        if num_this and not ps:
            if op == '-': add(f, ensures=lambda c: [('negation', c.r == -c.thisval)])
            elif op == '+': add(f, ensures=lambda c: [('identity', c.r == c.thisval)])
            elif op == '!': add(f, ensures=lambda c: [('is zero', c.r == (c.thisval == 0))])
            elif op in ('++', '--'):
                def ens(c, d=1 if op == '++' else -1):
                    v = c.thisval
                    nv = If(Or(v >= INF, v <= -INF), v, v + d)
                    return [('steps by one, infinities absorb', c.thisval_post == nv), ('returns the new value', c.r == nv)]
                add(f, modifies=lambda c: [('this',)], ensures=ens)
            else: skip.append(f.key)
            continue
        if num_this and op in ('++', '--'):
            def ens(c, d=1 if op == '++' else -1):
                v = c.thisval
                return [('steps by one, infinities absorb', c.thisval_post == If(Or(v >= INF, v <= -INF), v, v + d)), ('returns the old value', c.r == v)]
            add(f, modifies=lambda c: [('this',)], ensures=ens)
            continue
        if num_this and len(ps) == 1:
            L = lambda c: c.thisval
            R = lambda c: c.a(0)
        elif len(ps) == 2:
            L = lambda c: c.a(0)
            R = lambda c: c.a(1)
        else:
            skip.append(f.key); continue
        if op in CMP:
            def ens(c, op=op, L=L, R=R):
                return [('numeric comparison', c.r == CMP[op](r_(L(c)), r_(R(c))))]
            # comparison members declared non-const still leave *this alone (frame)
            add(f, ensures=ens); continue
        if op == '=':
            continue
        comp = op.endswith('=')
        o = op[0]
        if o in '+-*/':
            def thr(c, o=o, L=L, R=R, real=real_r):
                return arith_sem(o, L(c), R(c), real)[1]

            def ens(c, o=o, L=L, R=R, real=real_r, comp=comp):
                res = arith_sem(o, L(c), R(c), real)[0]
                out = [('extended %s' % o, c.r == res)]
                if comp: out.append(('stored back', c.thisval_post == res))
                return out
            req = None
            if o == '/':
                req = lambda c, R=R: [('nonzero divisor', r_(R(c)) != 0)]
            add(f, requires=req, ensures=ens, throws=thr, modifies=(lambda c: [('this',)]) if comp else None)
        elif o == '%':
            def ens(c, L=L, R=R, comp=comp):
                res = mod_sem(L(c), R(c))
                out = [('extended %', c.r == res)]
                if comp: out.append(('stored back', c.thisval_post == res))
                return out
            add(f, requires=lambda c, R=R: [('nonzero divisor', R(c) != 0)], ensures=ens, modifies=(lambda c: [('this',)]) if comp else None)
        else:
            skip.append(f.key)
    reg.notes.append('P01 not under contract (formatting, transcendental, NaN): ' + ', '.join(skip))
