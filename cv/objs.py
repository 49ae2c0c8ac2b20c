"""Compiles /repo's current sources into cached objects and links harnesses against them."""
import glob, hashlib, os, re, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from .front import VERIF, REPO, SRC, BUILD, MODS, DEFS, incs, header_hash

CXX = ['g++', '-O1', '-g0', '-w', '-m64', '-pthread']
SKIP = {'Resource/ModuleResource.cc', 'Resource/component/NDDL/InterpreterResources.cc', 'Resource/component/NDDL/NddlResource.cc'}


class BuildError(Exception):
    pass


def sources(mods):
    """the source lists of the project's own CMake files (modules without CMake lists: every source)"""
    out = []
    for m in mods:
        d = SRC + '/' + m
        txt = open(d + '/CMakeLists.txt').read()
        n = 0
        for var, sub in (('root_sources', ''), ('base_sources', '/base'), ('component_sources', '/component')):
            for mt in re.finditer(r'set\(%s\s+([^)]*)\)' % var, txt):
                for f in mt.group(1).replace('"', ' ').split():
                    p = d + sub + '/' + f
                    if not f.startswith('$') and os.path.exists(p) and m + sub + '/' + f not in SKIP and p not in out:
                        out.append(p); n += 1
        if not n:
            for sub in ('', '/base', '/component'):
                out += sorted(glob.glob(d + sub + '/*.cc') + glob.glob(d + sub + '/*.cpp'))
    return out


def _compile(src, extra=()):
    d = BUILD + '/obj'
    os.makedirs(d, exist_ok=True)
    key = hashlib.sha256((header_hash() + src + ' '.join(CXX) + ' '.join(extra)).encode() + open(src, 'rb').read()).hexdigest()[:24]
    o = d + '/' + key + '.o'
    if os.path.exists(o):
        os.utime(o); return o
    tmp = o + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    r = subprocess.run(CXX + DEFS + incs() + list(extra) + ['-c', src, '-o', tmp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise BuildError('%s: %s' % (os.path.relpath(src, SRC), r.stderr.decode(errors='replace')[-1500:]))
    os.rename(tmp, o)
    return o


def harness(name, mods, procs=8):
    """build harness/<name>.cc against the given modules of /repo; returns the executable"""
    srcs = sources(mods)
    h = VERIF + '/harness/' + name + '.cc'
    hh = hashlib.sha256(b''.join(open(f, 'rb').read() for f in sorted(glob.glob(VERIF + '/harness/*.hh')))).hexdigest()
    with ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(_compile, h, ('-I' + VERIF + '/harness', '-DHH=' + hh[:8]))] + [ex.submit(_compile, s) for s in srcs]
        os_ = [f.result() for f in fs]
    exe = BUILD + '/bin'
    os.makedirs(exe, exist_ok=True)
    exe += '/%s-%s' % (name, hashlib.sha256(' '.join(os_).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', '-m64', '-pthread'] + os_ + ['-ldl', '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0: raise BuildError('link of %s: %s' % (name, r.stdout.decode(errors='replace')[-3000:]))
        os.rename(tmp, exe)
    return exe


def run(exe, prop, tier, seed, extra=(), timeout=None):
    a = [exe, 'prop=' + prop, 'tier=' + tier, 'seed=%d' % seed]
    if extra: a.append('extra=' + ','.join(str(x) for x in extra))
    t = time.time()
    scratch = BUILD + '/scratch-%d-%s' % (os.getpid(), prop)
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout or (840 if tier == 'thorough' else 300), cwd=scratch)
        out, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b'').decode(errors='replace') + '\nFAIL %s hang | harness did not finish\n' % prop, 99
    finally:
        subprocess.run(['find', scratch, '-delete'])
    r = dict(cmd=' '.join(a), fails=[], stat={}, samples=[], rc=rc, wall=round(time.time() - t, 2))
    for l in out.splitlines():
        if l.startswith('FAIL '):
            _, p_, rest = l.split(' ', 2); sig, _, det = rest.partition(' | ')
            if p_ == prop: r['fails'].append((sig.strip(), det))
        elif l.startswith('STAT '):
            for kv in l.split()[1:]:
                k, v = kv.split('='); r['stat'][k] = r['stat'].get(k, 0) + int(v)
        elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
    if rc not in (0, 1) and not r['fails']: r['fails'].append(('crash', 'harness ended with status %d' % rc))
    return r
