"""Front end: runs the clang-based extractor over /repo's current sources and
loads the resulting typed ASTs as one program database."""
import hashlib, json, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CV_REPO', '/repo')
SRC = REPO + '/src/PLASMA'
BUILD = os.environ.get('CV_BUILD', VERIF + '/build')
MODS = ['Utils', 'TinyXml', 'ConstraintEngine', 'PlanDatabase', 'RulesEngine', 'TemporalNetwork',
        'NDDL', 'Solvers', 'Resource', 'System']
LLVM = '/usr/lib/llvm-18'


def incs():
    r = []
    for m in MODS:
        for s in ('', '/base', '/component'):
            p = SRC + '/' + m + s
            if os.path.isdir(p):
                r.append('-I' + p)
    return r


DEFS = ['-DEUROPA_64_BIT_PLATFORM', '-DTIXML_USE_STL=1']


def flags():
    return ['-std=gnu++17', '-w', '-I' + LLVM + '/lib/clang/18/include'] + DEFS + incs()


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = VERIF + '/extractor/extract.cc'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = BUILD + '/extract-' + h
    if os.path.exists(exe):
        return exe
    tmp = exe + '.%d.tmp' % os.getpid()
    cmd = ['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I' + LLVM + '/include',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           src, '-o', tmp, LLVM + '/lib/libclang-cpp.so.18.1', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so']
    subprocess.run(cmd, check=True)
    os.rename(tmp, exe)
    return exe


_hh = None


def header_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        for root, ds, fs in sorted(os.walk(SRC)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hh', '.h', '.hpp', '.ipp')):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
        _hh = h.hexdigest()
    return _hh


class ExtractError(Exception):
    pass


def extract(rel):
    """rel: path relative to src/PLASMA; '!name:code' is a synthetic TU (an #include list)."""
    exe = build_extractor()
    d = BUILD + '/ast'
    os.makedirs(d, exist_ok=True)
    if rel.startswith('!'):
        name, code = rel[1:].split(':', 1)
        body = code.encode()
    else:
        src = SRC + '/' + rel
        if not os.path.exists(src):
            raise ExtractError('no such source file: ' + src)
        body = open(src, 'rb').read()
    key = hashlib.sha256((exe + header_hash() + rel + REPO).encode() + body).hexdigest()[:24]
    out = d + '/' + key + '.json'
    if not os.path.exists(out):
        if rel.startswith('!'):
            src = d + '/' + name + '-' + key + '.cc'
            open(src, 'w').write(code)
        tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        r = subprocess.run([exe, REPO + '/src', tmp, src, '--'] + flags(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
            raise ExtractError('extraction of %s failed:\n%s' % (rel, r.stdout[-3000:]))
        os.rename(tmp, out)
    return json.load(open(out))


class Ty:
    __slots__ = ('k', 's', 'c', 't', 'n', 'tn', 'a', 'bits', 'sg', '_sz')

    def __repr__(self):
        return self.s

    @property
    def noref(self):
        return self.t if self.k == 'ref' else self


class TU:
    def __init__(self, name, data, db):
        self.name = name
        raw = data['types']
        self.types = [None] * len(raw)
        for i, o in enumerate(raw):
            t = Ty()
            t.k = o['k']; t.s = o['s']; t.c = o.get('c', False); t.n = o.get('n'); t.tn = o.get('tn')
            t.bits = o.get('bits'); t.sg = o.get('sg'); t.t = None; t.a = None; t._sz = None
            self.types[i] = t
        for i, o in enumerate(raw):
            if isinstance(o.get('t'), int):
                self.types[i].t = self.types[o['t']]
            if o.get('a') is not None:
                self.types[i].a = [None if x is None else self.types[x] for x in o['a']]


class Fn:
    __slots__ = ('key', 'd', 'tu', 'name', 'cls', 'short')

    def __init__(self, key, d, tu):
        self.key = key; self.d = d; self.tu = tu; self.name = d['n']; self.cls = d.get('c'); self.short = d['sn']

    @property
    def body(self):
        return self.d.get('b')

    def ptypes(self):
        return [self.tu.types[p['t']] for p in self.d['p']]

    @property
    def rtype(self):
        return self.tu.types[self.d['r']]

    @property
    def loc(self):
        return '%s:%s-%s' % (self.d.get('f', '?').replace(REPO + '/', ''), self.d.get('l'), self.d.get('el'))


class Cls:
    def __init__(self, name, d, tu):
        self.name = name; self.d = d; self.tu = tu; self.inrepo = d.get('in', False)
        self.bases = [tu.types[i].n for i in d.get('b', [])]
        self.fields = {f['n']: tu.types[f['t']] for f in d.get('f', [])}
        self.methods = d.get('m', [])
        self.abstract = d.get('abs', False)
        self.poly = d.get('poly', False)


class DB:
    def __init__(self):
        self.funcs = {}; self.classes = {}; self.globals = {}; self.enums = {}; self.byname = {}; self.byclass = {}
        self.rels = []

    def load(self, rels):
        rels = [r for r in rels if r not in self.rels]
        build_extractor(); header_hash()
        with ThreadPoolExecutor(8) as ex:
            datas = list(ex.map(extract, rels))
        for rel, data in zip(rels, datas):
            tu = TU(rel, data, self)
            for k, d in data['funcs'].items():
                old = self.funcs.get(k)
                if old is None or (old.body is None and 'b' in d):
                    self.funcs[k] = Fn(k, d, tu)
            for k, d in data['classes'].items():
                if k not in self.classes or (d.get('in') and not self.classes[k].inrepo):
                    self.classes[k] = Cls(k, d, tu)
            for k, d in data['globals'].items():
                self.globals.setdefault(k, (d, tu))
                if 'v' in d or 'h' in d:
                    self.globals[k] = (d, tu)
            self.enums.update(data['enums'])
            self.rels.append(rel)
        self.byname = {}
        self.byclass = {}
        for k, f in self.funcs.items():
            self.byname.setdefault(f.name, []).append(f)
            if f.cls:
                self.byclass.setdefault(f.cls, {}).setdefault(f.short, []).append(f)
        self._sub = {}
        for c in self.classes.values():
            for b in c.bases:
                self._sub.setdefault(b, set()).add(c.name)
        self._mro = {}
        return self

    def subs(self, c):
        """all classes (incl. c) derived from c"""
        r = [c]; seen = {c}
        for x in r:
            for y in sorted(self._sub.get(x, ())):
                if y not in seen:
                    seen.add(y); r.append(y)
        return r

    def supers(self, c):
        r = [c]; seen = {c}
        for x in r:
            k = self.classes.get(x)
            for y in (k.bases if k else []):
                if y not in seen:
                    seen.add(y); r.append(y)
        return r

    def concrete(self, c):
        return [x for x in self.subs(c) if x in self.classes and not self.classes[x].abstract]

    def overrides(self, mkey):
        """transitive set of method keys overridden by mkey"""
        f = self.funcs.get(mkey)
        out = {mkey}
        if not f or not f.cls:
            return out
        todo = [mkey]
        while todo:
            k = todo.pop()
            g = self.funcs.get(k)
            c = self.classes.get(g.cls if g else k.rsplit('(', 1)[0].rsplit('::', 1)[0])
            if not c:
                continue
            for m in c.methods:
                if m['k'] == k:
                    for o in m['ov']:
                        if o not in out:
                            out.add(o); todo.append(o)
        return out

    def resolve(self, cls, mkey):
        """final overrider of virtual method mkey in dynamic class cls"""
        for c in self.supers(cls):
            k = self.classes.get(c)
            if not k:
                continue
            for m in k.methods:
                if m['k'] == mkey or mkey in self.overrides(m['k']):
                    return m['k']
        return mkey

    def find(self, key):
        if key in self.funcs:
            return self.funcs[key]
        c = self.byname.get(key, [])
        if len(c) == 1:
            return c[0]
        return None
