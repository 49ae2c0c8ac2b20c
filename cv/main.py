"""Decides one property: discharges every proof obligation generated from /repo's current sources and
replays/looks for failing inputs on the real compiled code.  Exit 0: held.  Exit 1: VIOLATION printed."""
import importlib, json, os, re, subprocess, sys, time, traceback
from .front import DB, VERIF, REPO, BUILD, build_extractor, ExtractError
from . import objs

KF = VERIF + '/known-findings.json'


def known():
    try:
        return json.load(open(KF))
    except FileNotFoundError:
        return []


def harness_child(prop, tier, seed, extra):
    """child process: build and run the harnesses of prop; JSON on stdout"""
    from specs.props import PROPS
    out = dict(runs=[], error=None)
    try:
        for name, mods in PROPS[prop]['harness']:
            t = time.time()
            exe = objs.harness(name, mods, 6)
            r = objs.run(exe, prop, tier, seed, extra)
            r['name'] = name; r['build_s'] = round(time.time() - t - r['wall'], 2)
            out['runs'].append(r)
    except objs.BuildError as e:
        out['error'] = str(e)
    except Exception:
        out['error'] = traceback.format_exc()[-2000:]
    print(json.dumps(out))


def start_harness(prop, tier, seed, extra=()):
    return subprocess.Popen([sys.executable, '-m', 'cv.main', '--harness', prop, tier, str(seed), ','.join(str(x) for x in extra)],
                            stdout=subprocess.PIPE, cwd=VERIF, text=True)


def end_harness(p):
    o = p.communicate()[0]
    try:
        return json.loads(o.strip().splitlines()[-1])
    except Exception:
        return dict(runs=[], error='harness driver produced no result')


def prune(d, keep_s=6 * 3600, maxn=4000):
    try:
        fs = sorted((os.path.getmtime(d + '/' + f), f) for f in os.listdir(d))
        for t, f in fs[:max(0, len(fs) - maxn)]: os.unlink(d + '/' + f)
    except OSError:
        pass


def prove(prop, tier, note):
    """every specification module is a registry of its own: what one assumes of a shared function need not be worded as another proves it"""
    from .spec import Registry
    from .verify import run_all, tasks_of_prop
    from specs.props import PROPS
    rs, trusted, assumed, notes = [], set(), set(), []
    note.update(extract_s=0, skipped_sources=[], missing=[], prove_s=0)
    quick = tier == 'quick'
    opts = dict(prop=prop, task_s=240 if quick else 600, deadline=time.time() + (420 if quick else 700))
    for name in PROPS[prop]['specs']:
        m = importlib.import_module('specs.' + name)
        db = DB(); t = time.time()
        try:
            db.load(m.TUS)
        except ExtractError:
            for tu in m.TUS:               # a source file that is gone or cannot be parsed: the rest still counts
                try: db.load([tu])
                except ExtractError as e: note['skipped_sources'].append((tu, str(e)[:300]))
        note['extract_s'] += round(time.time() - t, 2)
        reg = Registry()
        m.build(reg, db)
        note['missing'] += [dict(function=k, why=w) for k, w in getattr(reg, 'missing', [])]
        tasks = tasks_of_prop(db, reg, prop)
        t = time.time()
        rs += run_all(db, reg, None, opts, 8, tasks)
        note['prove_s'] += round(time.time() - t, 2)
        trusted |= {'%s: %s' % (c.key, c.trusted) for c in reg.values() if c.trusted is not None}
        used = {c.key for c, k in tasks}
        assumed |= {c.key for c in reg.values() if c.trusted is None and c.key not in used}
        notes += [n for n in reg.notes if n not in notes]
    return notes, rs, sorted(trusted), sorted(assumed)


def main(a):
    if a[0] == '--harness':
        ex = [float(x) for x in a[4].split(',')] if len(a) > 4 and a[4] else []
        return harness_child(a[1], a[2], int(a[3]), ex)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    for d in ('ast', 'obj', 'bin'): prune(BUILD + '/' + d, maxn=400 if d == 'bin' else 6000)
    build_extractor()
    hp = start_harness(prop, tier, seed)
    note = {}
    perr = None
    try:
        notes, rs, trusted, assumed = prove(prop, tier, note)
    except Exception:
        perr = traceback.format_exc()
        rs, trusted, assumed = [], [], []
    h = end_harness(hp)
    failed = [r for r in rs if r['status'] == 'failed']
    beyond = [r for r in rs if r['status'] not in ('failed', 'proved')] + [dict(function=m['function'], cls=None, status='missing', why=m['why'], obligations=[]) for m in note.get('missing', [])]
    # counterexample values from the verifier are replayed on the real code
    replays = []
    nums = []
    for r in failed:
        for o in r['obligations']:
            for v in (o.get('nums') or []):
                if v not in nums: nums.append(v)
    if failed and nums and not any(x['fails'] for x in h['runs']) and not h['error']:
        h2 = end_harness(start_harness(prop, tier, seed, nums[:24]))
        replays = h2['runs']
    fails = [(x['name'], s, d, x['cmd']) for x in h['runs'] + replays for s, d in x['fails']]
    kf = [k for k in known() if k.get('property') == prop and k.get('kind') == 'finding']
    shown, real_f, real_o = set(), [], []

    def match(sig, det=''):
        for k in kf:
            if re.search(k['match'], sig + ' | ' + det):
                shown.add(k['what']); return True
        return False
    for n, s, d, c in fails:
        if not match(n + ':' + s, d): real_f.append((n, s, d, c))
    for r in failed:
        bad = [o for o in r['obligations'] if o['status'] != 'proved' and not match('%s[%s]:%s' % (r['function'], r['cls'], o['label']))]
        if bad: real_o.append((r, bad))
    for w in sorted(shown): print('KNOWN-FINDING: property=%s %s' % (prop, w))

    nobl = sum(len(r['obligations']) + r.get('trivial', 0) for r in rs)
    ndis = sum(sum(1 for o in r['obligations'] if o['status'] == 'proved') + r.get('trivial', 0) for r in rs)
    by = {}
    for r in rs:
        by['syntactic simplification'] = by.get('syntactic simplification', 0) + r.get('trivial', 0)
        for o in r['obligations']:
            if o['status'] == 'proved': by[o['by'] or 'z3'] = by.get(o['by'] or 'z3', 0) + 1
    st = sum(o['t'] for r in rs for o in r['obligations'])
    viol = len(real_f) + len(real_o)
    from specs.trust import ASSUMPTIONS, TRUSTED
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=nobl, discharged=ndis,
                            checker_cmd='./check %s %s' % (prop, tier),
                            trusted_base=TRUSTED + ['contract taken on trust: ' + t for t in trusted],
                            functions_under_contract=sorted({r['function'] + (' [%s]' % r['cls'].split('::')[-1] if r['cls'] else '') for r in rs if r['status'] == 'proved'}),
                            functions_total=len(rs), functions_proved=sum(r['status'] == 'proved' for r in rs),
                            discharged_by=by, solver_s=round(st, 2), extract_s=note.get('extract_s'), prove_s=note.get('prove_s'),
                            contracts_used_here_proved_by_other_checks=len(assumed),
                            outside_the_verifier=[dict(function=r['function'], cls=r['cls'], status=r['status'], why=(r.get('why') or '')[-300:]) for r in beyond],
                            bounded_stand_in=[dict(harness=x['name'], cases=x['stat'].get('cases', 0), nontrivial=x['stat'].get('nontrivial', 0), wall_s=x['wall'], samples=x['samples'],
                                                   note='bounded: explores the cases the harness enumerates, never counted as proved') for x in h['runs'] + replays],
                            skipped_sources=note.get('skipped_sources', []), prover_error=perr, harness_error=h['error']),
              assumptions=ASSUMPTIONS + (notes if not perr else []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)

    for r in beyond: print('note: %s [%s] is outside the verifier here (%s): %s' % (r['function'], r['cls'], r['status'], (r.get('why') or '').strip().splitlines()[-1:] or ''))
    print('%s %s: %d/%d obligations discharged in %d functions, %s harness cases, %.1f s' % (
        prop, tier, ndis, nobl, len(rs), sum(x['stat'].get('cases', 0) for x in h['runs']), time.time() - t0))
    if h['error'] and perr:
        print(perr); print(h['error']); return 2
    if perr: print('note: proof part could not run:\n' + perr[-1500:])
    if h['error']: print('note: harness could not be built or run: ' + h['error'][-1500:])
    if not viol:
        if h['error'] or (perr and not h['runs']): return 2
        return 0
    rd = BUILD + '/replay'
    os.makedirs(rd, exist_ok=True)
    path = '%s/%s-%d.txt' % (rd, prop, os.getpid())
    with open(path, 'w') as f:
        f.write('property %s violated on the current tree of %s\n\n' % (prop, REPO))
        for n, s, d, c in real_f[:40]:
            f.write('FAILING INPUT (harness %s, %s): %s\n   rerun: %s\n' % (n, s, d, c))
        for r, bad in real_o:
            f.write('\nFAILED OBLIGATIONS in %s [this: %s] (%s)\n' % (r['function'], r['cls'], r.get('loc')))
            for o in bad:
                f.write('   %s: %s (back end %s, %.1f s)\n' % (o['status'], o['label'], o['by'], o['t']))
                if o.get('model'): f.write('     verifier counterexample: %s\n' % str(o['model'])[:3000])
    for n, s, d, c in real_f[:10]: print('  failing input [%s] %s' % (s, d))
    for r, bad in real_o[:10]:
        for o in bad[:4]: print('  failed obligation %s [%s]: %s (%s)' % (r['function'], r['cls'], o['label'], o['status']))
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if real_f else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]) or 0)
