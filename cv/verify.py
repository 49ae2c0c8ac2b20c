"""Verification of functions against their contracts, and parallel driver."""
import multiprocessing as mp, os, re, subprocess, tempfile, time, traceback, hashlib, signal
import z3
from z3 import *
from .engine import *
from .engine import T_, F_
from .stl import iterwf
from .spec import Ctx, HV, modpred, K_, ANY


def mksolver():
    # the plain SMT core: the default solver rewrites definitions into lambdas in place
    return z3.SimpleSolver()


def tosmt(fs):
    s = z3.Solver()
    for f in fs: s.add(f)
    return s.to_smt2()


def has_quant(f, cache={}):
    i = f.get_id()
    seen = set()
    todo = [f]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        todo += x.children()
    return False


class Solve:
    def __init__(self, cand_ms=2500, final_ms=20000):
        self.cand_ms = cand_ms; self.final_ms = final_ms
        self.time = 0.0; self.nq = 0; self.cvc5 = 0
        self._hq = {}
        self._q = {}

    def hq(self, f):
        k = f.get_id()
        r = self._hq.get(k)
        if r is None or not r[0].eq(f):
            r = (f, has_quant(f)); self._hq[k] = r
        return r[1]

    def quick(self, pc, c):
        key = (tuple(p.get_id() for p in pc), c.get_id())
        r = self._q.get(key)
        if r is not None: return r[0]
        t = time.time()
        s = mksolver(); s.set('timeout', 150)
        for p in pc:
            if not self.hq(p): s.add(p)
        if not self.hq(c): s.add(c)
        r = s.check() != z3.unsat
        self.time += time.time() - t; self.nq += 1
        self._q[key] = (r, list(pc), c)
        return r

    def prove(self, pc, goal, mode='cand'):
        return self.check(pc, goal, self.cand_ms if mode == 'cand' else self.final_ms, final=(mode != 'cand'))[0] == 'proved'

    def groups(self, pc, goal):
        """newest merge point on a path: the conditions of its branches"""
        for f in reversed(pc):
            if z3.is_or(f) and all(z3.is_const(x) and x.decl().name().startswith('mg!') for x in f.children()):
                return [[(x, True)] + [(y, False) for y in f.children() if y is not x] for x in f.children()]
        # dynamic classes the goal distinguishes
        dts = {}
        seen = set(); todo = [goal] if goal is not None else []
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): todo.append(x.body()); continue
            if z3.is_app(x) and x.decl().eq(DT) and not hasvar(x): dts[x.get_id()] = x
            todo += x.children()
        for f in pc:
            if z3.is_or(f) and all(z3.is_eq(e) for e in f.children()):
                ch = [(e.arg(0), e.arg(1)) if z3.is_int_value(e.arg(1)) else (e.arg(1), e.arg(0)) for e in f.children()]
                if ch[0][0].get_id() in dts and all(x.eq(ch[0][0]) and z3.is_int_value(k) for x, k in ch):
                    return [[(x, k)] for x, k in ch]
        # conditions under which the heap in the goal differs
        seen = set(); todo = [goal] if goal is not None else []
        while todo:
            x = todo.pop(0)
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): todo.append(x.body()); continue
            if z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort().kind() in (z3.Z3_ARRAY_SORT, z3.Z3_DATATYPE_SORT):
                b = x.arg(0)
                if z3.is_not(b): b = b.arg(0)
                if not hasvar(b) and not self.hq(b): return [[(b, True)], [(b, False)]]
            todo += x.children()
        return None

    def split(self, pc, goal, ms, depth=0, t0=None):
        """prove separately along each merged path"""
        t0 = t0 or time.time()
        gr = self.groups(pc, goal)
        if not gr or depth > 6 or time.time() - t0 > 2 * ms / 1000: return ('unknown', '', None)
        by = 'z3'
        for i, g in enumerate(gr):
            sub = [(y, v if isinstance(v, z3.ExprRef) else BoolVal(v)) for y, v in g]
            lits = [(y == v) if isinstance(v, z3.ExprRef) else y if v else Not(y) for y, v in g if not (z3.is_const(y) and y.decl().name().startswith('mg!'))]
            pc2 = []
            for f in pc:
                f2 = z3.simplify(z3.substitute(f, *sub), elim_and=False) if not any(f.eq(l) for l in lits) else f
                if z3.is_true(f2): continue
                if z3.is_false(f2): break
                pc2 += f2.children() if z3.is_and(f2) else [f2]
            else:
                pc2 = lits + pc2
                g2 = z3.simplify(z3.substitute(goal, *sub))
                if z3.is_true(g2): continue
                s = mksolver(); s.set('timeout', 1500)
                fs = pc2 + int_lemmas(pc2 + [g2]) + [Not(g2)]
                for f in fs: s.add(f)
                r = s.check()
                if r == z3.sat: return ('refuted', 'z3', s.model())
                if r == z3.unknown:
                    r2 = self.split(pc2, g2, ms, depth + 1, t0)
                    if r2[0] == 'unknown':
                        r3, b = self.external(fs, ms // 2)
                        if r3 != 'unsat':
                            if os.environ.get('CV_DUMP'):
                                open(os.environ['CV_DUMP'] + '/split%d_%d_%s.smt2' % (depth, i, hashlib.md5(str(g2).encode()).hexdigest()[:6]), 'w').write(tosmt(fs))
                            return ('unknown', '', None)
                        r2 = ('proved', b, None)
                    if r2[0] != 'proved': return r2
                    by = r2[1]
        return ('proved', by, None)

    def check(self, pc, goal, ms, final=True):
        if final and z3.is_and(goal) and goal.num_args() > 1:
            by = 'z3'
            for g in goal.children():
                r = self.check(pc, g, ms, final)
                if r[0] != 'proved': return r
                if r[1] != 'z3': by = r[1]
            return ('proved', by, None)
        t = time.time()
        self.nq += 1
        try:
            s = mksolver(); s.set('timeout', 1000 if final else ms)
            fs = list(pc) + [Not(goal)] + int_lemmas(list(pc) + [goal])
            for p in fs: s.add(p)
            r = s.check()
            if r == z3.unsat: return ('proved', 'z3', None)
            if r == z3.sat:
                if os.environ.get('CV_DUMP') and final: open(os.environ['CV_DUMP'] + '/refuted.smt2', 'w').write(tosmt(fs))
                return ('refuted', 'z3', s.model())
            if not final:
                if os.environ.get('CV_DUMPC'): open(os.environ['CV_DUMPC'] + '/c%s.smt2' % hashlib.md5(str(goal).encode()).hexdigest()[:8], 'w').write('; %s\n' % str(goal)[:300].replace('\n', ' ') + tosmt(fs))
                return ('unknown', 'z3', None)
            r = self.split(pc, goal, ms)
            if r[0] == 'proved' or r[0] == 'refuted': return r
            # independent back ends, then long z3
            r, by = self.external(fs, ms)
            if r == 'unsat':
                self.cvc5 += 1
                return ('proved', by, None)
            s.set('timeout', ms)
            r = s.check()
            if r == z3.unsat: return ('proved', 'z3', None)
            if r == z3.sat: return ('refuted', 'z3', s.model())
            return ('unknown', 'z3+cvc5: ' + s.reason_unknown(), None)
        finally:
            self.time += time.time() - t

    def external(self, fs, ms):
        """z3 4.8.12 and cvc5 as independent processes, first 'unsat' wins"""
        txt = tosmt(fs)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        ps = []
        try:
            for nm, cmd in (('z3-4.8.12', ['/usr/bin/z3', '-T:%d' % max(1, ms // 1000), f.name]), ('cvc5', ['cvc5', '--force-logic=ALL', '--tlimit=%d' % ms, f.name])):
                try:
                    ps.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            t0 = time.time()
            left = list(ps)
            while left and time.time() - t0 < ms / 1000 + 5:
                for x in list(left):
                    if x[1].poll() is not None:
                        left.remove(x)
                        out = x[1].stdout.read().strip().split('\n')[0]
                        if out == 'unsat': return 'unsat', x[0]
                        if out == 'sat': return 'sat', x[0]
                time.sleep(0.01)
            return 'unknown', ''
        finally:
            for _, p in ps:
                if p.poll() is None: p.kill()
                p.wait()
            os.unlink(f.name)


def model_nums(m):
    """numeric values of the constants in a model, as seeds for replay"""
    vals = set()
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v) or z3.is_rational_value(v):
                    vals.add(float(v.as_fraction()) if z3.is_rational_value(v) else v.as_long())
            txt = str(m[d])
            for x in re.findall(r'-?\d+(?:/\d+)?', txt)[:50]:
                if '/' in x:
                    a, b = x.split('/'); vals.add(int(a) / int(b))
                else: vals.add(int(x))
    except Exception:
        pass
    return sorted(v for v in vals if abs(v) < 1e16)[:80]


def model_text(m, ctx):
    out = []
    try:
        for d in sorted(m.decls(), key=lambda d: d.name()):
            if d.arity() == 0 and ('!' not in d.name()) :
                out.append('%s = %s' % (d.name(), str(m[d])[:200]))
    except Exception as ex:
        out.append(str(ex))
    return out[:60]


def prop_of(c, cls):
    """property whose check proves this contract (for this dynamic class)"""
    if isinstance(c.prop, dict): return c.prop.get((cls or '').split('::')[-1])
    return c.prop


def relevant(label, c, cls, prop):
    """clauses labelled @PROP are proved by that property's check, all others by the contract's own"""
    m = re.search(r'@([A-Z][0-9]{2,3})\b', label)
    if prop is None: return True
    if m: return m.group(1) == prop
    return prop_of(c, cls) == prop


def verify_one(db, reg, c, cls, opts):
    """verify contract c for dynamic class cls (or None). returns a result dict"""
    t0 = time.time()
    fn = db.find(c.key)
    case = None
    if cls and cls.startswith('case:'): case = cls[5:]; cls = None
    res = dict(function=c.key, cls=cls or case, status='?', obligations=[], prop=c.prop)
    if fn is None:
        res['status'] = 'missing'; res['why'] = 'function not found in the current tree'
        return res
    if c.interface or cls is not None:
        tgt = db.resolve(cls, fn.key) if cls else fn.key
        fn2 = db.funcs.get(tgt, fn)
    else:
        fn2 = fn
    if fn2.body is None and not fn2.d.get('imp'):
        res['status'] = 'missing'; res['why'] = 'no body for ' + fn2.key
        return res
    res['verified_body'] = fn2.key; res['loc'] = fn2.loc
    sv = Solve(c.opts.get('cand_ms', 2500), c.opts.get('final_ms', opts.get('final_ms', 20000)))
    drops = set(); entryfails = set()
    for rnd in range(14):
        if time.time() - t0 > opts.get('fn_s', 300):
            res['status'] = 'timeout'; res['why'] = 'loop-invariant inference exceeded its time budget'
            break
        eng = Engine(db, {k: v for k, v in reg.items() if v is not c or c.opts.get('recursive') or True})
        eng.self_contract = c
        eng.hooks = reg.hooks; eng.opaque = reg.opaque; eng.selfid = reg.selfid
        eng.noint = set(c.opts.get('noint', ()))
        eng.safety = c.opts.get('safety', True)
        eng.track_alive = c.opts.get('alive', False)
        eng.release_hook = c.opts.get('release_hook')
        eng.quick = sv.quick; eng.prove = sv.prove
        eng.drops = drops; eng.entryfails = entryfails; eng.loopspecs = list(c.loops)
        eng.max_inline = c.opts.get('max_inline', 40)
        try:
            run_body_check(eng, db, c, fn2, cls, sv, res, case)
        except Unsupported as ex:
            res['status'] = 'unsupported'; res['why'] = '%s (line %s in %s)' % (ex, getattr(eng, 'line', '?'), eng.frames[-1].fn.key if eng.frames else '?')
            break
        if not eng.newdrops:
            eng.obls = [o for o in eng.obls if relevant(o[0], c, cls, opts.get('prop'))]
            discharge(eng, sv, res, c)
            break
    else:
        res['status'] = 'timeout'; res['why'] = 'invariant inference did not converge'
    res['time'] = round(time.time() - t0, 2); res['solver_time'] = round(sv.time, 2); res['queries'] = sv.nq; res['cvc5'] = sv.cvc5
    try:
        res['inlined'] = sorted(eng.inlined); res['used'] = sorted(eng.used_contracts); res['assumed'] = sorted(eng.assumed)
        res['loops'] = {str(k): v for k, v in eng.loop_report.items()}
    except Exception:
        pass
    return res


def run_body_check(eng, db, c, fn, cls, sv, res, case=None):
    st = State()
    st.alloc = eng.alloc0
    st.assume(eng.alloc0 > 0)
    fr = None
    this = None
    d = fn.d
    st0_env = []
    eng.frames = [Frame(fn, None, cls)]
    if fn.cls and not d.get('st'):
        k = db.classes.get(fn.cls)
        isval = False
        for t in fn.tu.types:
            if t.k == 'rec' and t.n == fn.cls:
                isval = eng.so.cat(t) == 'val'; vty = t
                break
        if isval:
            key = (0, 'this')
            st.env[key] = z3.Const('this', eng.so.sort(vty))
            eng.typefacts(st, st.env[key], vty)
            this = LVar(key, vty)
        else:
            this = z3.Int('this')
            dyn = cls or fn.cls
            if cls is not None:
                st.assume(DT(this) == eng.cid(dyn)); st.dt[this.get_id()] = dyn
            if d.get('ctor'):
                st.assume(this == eng.alloc0)
                st.alloc = z3.Int('alloc1'); st.assume(st.alloc == eng.alloc0 + 1)
                if cls is None:
                    st.assume(DT(this) == eng.cid(dyn)); st.dt[this.get_id()] = dyn
            else:
                eng.objfacts(st, this, fn.cls)
    eng.frames = []
    fr = Frame(fn, this, cls or fn.cls)
    eng.frames = [fr]
    args = []
    for n, p in enumerate(d['p']):
        t = fn.tu.types[p['t']]
        nm = 'arg%d' % n; eng.vartypes[(fr.id, p['i'])] = t
        tt = t.noref
        cat = eng.so.cat(tt)
        key = (fr.id, p['i'])
        if cat == 'obj':
            ref = z3.Int(nm)
            eng.objfacts(st, ref, tt.n)
            st.env[key] = Obj(ref, tt); args.append(st.env[key])
        elif cat == 'val':
            if tt.k == 'ptr' and eng.so.cat(tt.t) != 'obj':
                raise Unsupported('pointer parameter to value')
            v = z3.Const(nm, eng.so.sort(tt))
            if t.k == 'ref':
                ck = (0, nm)
                st.env[ck] = v
                l = LVar(ck, tt)
                st.env[key] = l; args.append(l)
            else:
                st.env[key] = v; args.append(v)
            eng.typefacts(st, v, tt)
        elif n in c.opts.get('iters', {}):
            # an iterator parameter ranges over the container the contract names
            src = c.opts['iters'][n]
            fk = src if isinstance(src, int) or '::' in src else fn.cls + '::' + src
            loc = args[src] if isinstance(src, int) else LFld(eng, fk, this, eng.hkeyty(fk))
            cv = loc.read(st)
            kd = kind(cv)
            it = Iter(loc, 'seq', [z3.Int(nm)]) if kd == 'seq' else Iter(loc, kd, [z3.Bool(nm + '.end'), z3.Const(nm, acc(cv, 'mem').domain())])
            st.env[key] = it; args.append(it); st.assume(iterwf(eng, st, it))
        else:
            st.env[key] = Opaque(nm); args.append(Opaque(nm))
    ctx = Ctx(eng, fn, this, args, st, pre=None)
    pre_heap_state = st
    for lab, g in c.get_requires(ctx):
        st.assume(g)
    eng.case = case
    if case is not None:
        # the function is verified once per case; together the cases cover every input
        cs = c.opts['cases']
        if case == next(iter(cs)):
            dt0, fs = dict(st.dt), []
            for f in cs.values():
                fs.append(f(ctx)); st.dt.clear(); st.dt.update(dt0)
            eng.obls.append(('the cases cover every input', list(st.pc), Or(*fs), None))
        st.assume(cs[case](ctx))
    pre = st.copy()
    # vacuity guard: the precondition must be satisfiable (never refuted)
    vs = mksolver(); vs.set('timeout', 3000)
    for p in st.pc: vs.add(p)
    vr = vs.check()
    res['precondition'] = str(vr)
    if vr == z3.unsat:
        raise Unsupported('vacuous precondition')
    mods = c.mods(ctx)
    bykey = {}
    modargs = set(); modglobs = set()
    for m in mods:
        if m == 'alloc': continue
        if m[0] == 'arg': modargs.add(m[1])
        elif m[0] == 'global': modglobs.add('G@' + (m[1] if m[1].startswith('EUROPA::') else 'EUROPA::' + m[1]))
        elif m[0] == 'this': modargs.add('this')
        else: bykey.setdefault(K_(m[0]), []).append(m[1])

    def frame_pred(k):
        ws = bykey.get(k)
        if ws is None: return lambda r: F_
        p = modpred(ws)
        return p
    eng.frame_pred = frame_pred
    eng.pre_heap = lambda k: HV(eng, pre).arr(k)
    eng.self_pre = pre
    eng.sinks = [[]]
    eng.ctx0 = ctx; eng.self_args = args
    ctx.prest = pre; ctx.pre = HV(eng, pre)   # st itself is executed in place
    if c.inst:
        for f in c.inst(ctx): st.assume(f)
    outs = eng.run_body(fn, st, fr)
    rets = []
    for kd, s, v in outs:
        rets.append((s, VOID if kd == 'norm' else v))
    rets = eng.merge(rets)
    if eng.newdrops: return
    thr_ok = None
    if c.throws is not None:
        thr_ok = c.get_throws(Ctx(eng, fn, this, args, pre.copy(), pre=None))
    for ts, why, where in eng.sinks[0]:
        if thr_ok is not None and is_true(thr_ok):
            if c.exc_ensures:
                cx = Ctx(eng, fn, this, args, ts, pre=pre)
                for lab, g in norm_(c.exc_ensures(cx)): eng.oblige('on exceptional exit: ' + lab, ts, g)
            continue
        eng.obls.append(('no exceptional exit (%s at %s)' % (why, where), list(ts.pc), thr_ok if thr_ok is not None else F_, None))
    res['returns'] = len(rets)
    if not rets and not c.noreturn:
        eng.obls.append(('function returns normally', [T_], F_, None))
    reach = False
    for s, v in rets:
        if fn.rtype.k == 'ref' and isinstance(v, z3.ExprRef): v = LTmp(v, fn.rtype.t)
        cx = Ctx(eng, fn, this, args, s, pre=pre)
        cx.ret = v
        n0 = len(s.pc)
        ens = c.get_ensures(cx)
        for lab, g in ens:
            if lab[0] in '!?': s.assume(g)
        for lab, g in ens:
            if lab[0] in '!?': continue
            eng.oblige('ensures ' + lab, s, g)
        # frame
        for k, a in s.heap.items():
            if k.startswith('@') and k != '@alive': continue
            if k.startswith('G@'):
                b = pre.heap.get(k)
                if b is None: b = z3.Const(k, a.sort())
                if not a.eq(b) and k not in c.opts.get('globals', ()) and k not in modglobs:
                    eng.oblige('frame: global %s unchanged' % k, s, a == b)
                continue
            if k == '@alive' and not eng.track_alive: continue
            if k.startswith('cell@'): continue
            b = pre.heap.get(k)
            if b is None: b = HV(eng, pre).arr(k)
            if a.eq(b): continue
            p = frame_pred(k)
            if p is None: continue
            r = fresh(IntSort(), 'fr')
            g = Implies(And(eng.existed(r), Not(p(r))), sel(a, r) == sel(b, r))
            g = frame_goal(a, b, p, r, eng) or g
            eng.oblige('frame: %s only where allowed' % k, s, g)
        for n, ar in enumerate(args):
            if isinstance(ar, Loc) and n not in modargs:
                if not s.env[ar.key].eq(pre.env[ar.key]):
                    eng.oblige('frame: argument %d unchanged' % n, s, s.env[ar.key] == pre.env[ar.key])
        if isinstance(this, Loc) and 'this' not in modargs:
            if not s.env[this.key].eq(pre.env[this.key]):
                eng.oblige('frame: *this unchanged', s, s.env[this.key] == pre.env[this.key])
    # reachability guard: some normal exit must not be refutable
    if rets:
        ok = False
        for s, v in rets:
            vs = mksolver(); vs.set('timeout', 2000)
            for p in s.pc: vs.add(p)
            r = vs.check()
            if r != z3.unsat: ok = True; res['exit_reachable'] = str(r); break
        if not ok:
            eng.obls.append(('some normal exit is reachable', [T_], F_, None))
    res['_args'] = None


def norm_(l):
    from .spec import norm
    return norm(l)


def frame_goal(a, b, p, r, eng):
    """exact goal for Store chains: every written index is allowed or fresh"""
    idx = store_indices(a, b)
    if idx is None or not idx: return None
    seen = []
    for i in idx:
        if not any(i.eq(j) for j in seen): seen.append(i)
    return None


def discharge(eng, sv, res, c):
    todo = eng.obls
    out = []
    _PART.append(out)
    # goals false with the same path condition etc. are proved one by one
    failed = False
    for lab, pc, g, info in todo:
        t = time.time()
        st, by, m = sv.check(pc, g, sv.final_ms)
        o = dict(label=lab, status=st, by=by, t=round(time.time() - t, 3))
        if st != 'proved':
            failed = True
            if m is not None:
                o['model'] = model_text(m, None); o['nums'] = model_nums(m)
            dbg = os.environ.get('CV_DUMP')
            if dbg:
                s = mksolver()
                for p in pc: s.add(p)
                s.add(Not(g))
                for p in int_lemmas(list(pc) + [g]): s.add(p)
                fnm = '%s/%s.smt2' % (dbg, hashlib.md5((lab + res['function'] + str(res['cls'])).encode()).hexdigest()[:10])
                open(fnm, 'w').write('; %s\n; %s %s\n' % (lab, res['function'], res['cls']) + s.to_smt2())
                o['dump'] = fnm
            if sum(1 for x in out if x['status'] != 'proved') > 3:
                out.append(o); break
        out.append(o)
    res['trivial'] = getattr(eng, 'trivial', 0)
    res['obligations'] = out
    if not out and not res['trivial']:
        res['status'] = 'empty'; res['why'] = 'no obligations generated'
    else:
        res['status'] = 'failed' if failed else 'proved'


_G = {}


def _work(i):
    signal.signal(signal.SIGALRM, _alarm)
    c, cls = _G['tasks'][i]
    left = _G['opts'].get('deadline', 1e18) - time.time()
    if left < 2:
        return dict(function=c.key, cls=cls, status='timeout', obligations=[], why='overall time budget exhausted', time=0, prop=c.prop)
    signal.alarm(int(min(_G['opts'].get('task_s', 400), left)))
    _PART.clear()
    try:
        return verify_one(_G['db'], _G['reg'], c, cls, _G['opts'])
    except _TO:
        if _PART and any(o['status'] != 'proved' for o in _PART[0]):
            return dict(function=c.key, cls=cls, status='failed', obligations=list(_PART[0]), why='time budget exceeded after a failed obligation', time=_G['opts'].get('task_s', 400), prop=c.prop)
        return dict(function=c.key, cls=cls, status='timeout', obligations=[], why='task time budget exceeded', time=_G['opts'].get('task_s', 400), prop=c.prop)
    except Exception:
        return dict(function=c.key, cls=cls, status='error', obligations=[], why=traceback.format_exc()[-3000:], prop=c.prop)
    finally:
        signal.alarm(0)


_PART = []


class _TO(BaseException):
    pass


def _alarm(*a):
    raise _TO()


def tasks_for(db, c):
    """(contract, dynamic class) pairs to verify"""
    if c.trusted is not None: return []
    if c.opts.get('cases'): return [(c, 'case:' + k) for k in c.opts['cases']]
    if c.this is not None: return [(c, k if '::' in k else 'EUROPA::' + k) for k in c.this]
    return [(c, None)]


def tasks_of_prop(db, reg, prop):
    out = []
    for c in reg.values():
        for t in tasks_for(db, c):
            if prop_of(c, t[1]) == prop or prop in c.also: out.append(t)
    return out


def run_all(db, reg, contracts, opts, procs=8, tasks=None):
    if tasks is None:
        tasks = []
        for c in contracts: tasks += tasks_for(db, c)
    _G.update(db=db, reg=reg, tasks=tasks, opts=opts)
    if procs == 1 or len(tasks) == 1:
        return [_work(i) for i in range(len(tasks))]
    with mp.get_context('fork').Pool(min(procs, max(1, len(tasks))), maxtasksperchild=1) as p:
        return list(p.imap(_work, range(len(tasks))))
