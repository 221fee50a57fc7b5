#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import sys
import os
import json
import time
import subprocess
import multiprocessing as mp
import hashlib

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'contracts')]
sys.setrecursionlimit(20000)
T0 = time.time()


def worker(q, ir, prop, name, func):
    import spec
    r = spec.run_unit(ir, prop, name, func)
    q.put(r)


def run_units(ir, prop, units, limit, jobs):
    """each unit in its own process with a hard time limit."""
    import threading
    ctx = mp.get_context('fork')
    out = {}
    todo = list(units)
    live = []
    while todo or live:
        while todo and len(live) < jobs:
            name, func = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(q, ir, prop, name, func))
            p.start()
            live.append((name, p, q, time.time()))
        nl = []
        for name, p, q, t in live:
            if not q.empty():
                out[name] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                if not q.empty():
                    out[name] = q.get()
                else:
                    out[name] = dict(unit=name, status='error', info='worker died (%s)' % p.exitcode, results=[], assumptions=[], fns=[], top=[], lossy=[], wall=0, contracts=[])
            elif time.time() - t > limit:
                p.kill()
                out[name] = dict(unit=name, status='timeout', info='unit time limit %d s' % limit, results=[], assumptions=[], fns=[], top=[], lossy=[], wall=limit, contracts=[])
            else:
                nl.append((name, p, q, t))
        live = nl
        time.sleep(0.02)
    return [out[n] for n, _ in units]


def native_build(src, build):
    """compile a native harness against the current tree; cached by content."""
    import extract
    h = hashlib.sha256()
    h.update(extract.tree_hash().encode())
    for f in sorted(os.listdir(os.path.join(V, 'native'))):
        if f == src or f.endswith('.h'):
            h.update(open(os.path.join(V, 'native', f), 'rb').read())
    exe = os.path.join(build, '%s-%s' % (src.replace('.cpp', ''), h.hexdigest()[:16]))
    if os.path.exists(exe):
        return exe, ''
    tmp = exe + '.tmp%d' % os.getpid()
    p = subprocess.run(['g++', '-std=c++17', '-O1', '-g0', '-w', '-fno-access-control', '-I%s/printemps' % extract.REPO, '-I%s/native' % V,
                        os.path.join(V, 'native', src), '-o', tmp, '-pthread'], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-1500:]
    os.rename(tmp, exe)
    olds = sorted((os.path.getmtime(os.path.join(build, f)), f) for f in os.listdir(build) if f.startswith(src.replace('.cpp', '') + '-'))
    for _, f in olds[:-2]:
        try:
            os.unlink(os.path.join(build, f))
        except OSError:
            pass
    return exe, ''


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    import extract
    import ir as IRM
    os.makedirs(extract.BUILD, exist_ok=True)
    rep_dir = os.path.join(V, 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    mod = None
    try:
        mod = importlib.import_module(prop.lower())
    except ModuleNotFoundError as e:
        if e.name != prop.lower():
            raise
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == prop]
    # ---- native build in the background
    nsrc = prop.lower() + '.cpp'
    nat = None
    if os.path.exists(os.path.join(V, 'native', nsrc)):
        pool = mp.get_context('fork').Pool(1)
        nat = pool.apply_async(native_build, (nsrc, extract.BUILD))
    # ---- deductive part
    irp, notes = extract.extract()
    units, res = [], []
    ir = None
    if mod is not None and irp is not None:
        ir = IRM.IR(irp)
        units = mod.UNITS if hasattr(mod, 'UNITS') else mod.units(ir)
        limit = 150 if tier == 'quick' else 600
        res = run_units(ir, prop, units, limit, 7 if nat else 8)
        # a failed obligation is retried once, alone, before it counts
        bad = [r['unit'] for r in res if r['status'] in ('timeout', 'error') or any(x['result'] != 'proved' for x in r['results'])]
        if bad:
            again = run_units(ir, prop, [u for u in units if u[0] in bad], limit, 4)
            am = {r['unit']: r for r in again}
            res = [better(r, am.get(r['unit'])) for r in res]
    alarms, undecided, knownhit = [], [], []
    for r in res:
        lossy = bool(r['lossy'])
        if r['status'] != 'done':
            undecided.append((r['unit'], r['status'] + ': ' + r['info']))
        for x in r['results']:
            if x['result'] == 'proved':
                continue
            if x['result'] == 'timeout' or (x.get('lossy') and lossy) or x.get('vacuity'):
                undecided.append((x['name'], x['result'] + (' (abstracted loop: %s)' % r['lossy'][0] if lossy else '')))
                continue
            k = [k for k in known if k.get('obligation') and k['obligation'] == x['name']]
            if k:
                knownhit.append(k[0])
            else:
                alarms.append(x)
    # ---- native part
    native = {'ran': False}
    nviol = None
    if nat is not None:
        exe, err = nat.get()
        pool.close()
        if exe is None:
            native = {'ran': False, 'why': 'harness does not compile against this tree: ' + err[:600]}
        else:
            budget = 60 if tier == 'quick' else 900
            if alarms:
                budget = budget * 2
            t1 = time.time()
            try:
                p = subprocess.run([exe, str(seed), str(budget)], capture_output=True, text=True, timeout=budget * 4 + 120, cwd=extract.BUILD)
                so, rc = p.stdout, p.returncode
            except subprocess.TimeoutExpired as e:
                so, rc = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'
            native = {'ran': True, 'rc': rc, 'wall': round(time.time() - t1, 1), 'evaluations': 0, 'distinct': 0, 'samples': []}
            for l in so.split('\n'):
                if l.startswith('EVAL '):
                    w = l.split()
                    native['evaluations'] += int(w[1])
                    native['distinct'] += int(w[2])
                elif l.startswith('SAMPLE '):
                    native['samples'].append(l[7:500])
            fails = [l for l in so.split('\n') if l.startswith('FAIL ')]
            unknown = [l for l in fails if not any(k.get('native') and l.startswith('FAIL [%s]' % k['native']) for k in known)]
            knownhit += [k for k in known if k.get('native') and any(l.startswith('FAIL [%s]' % k['native']) for l in fails)]
            if unknown:
                nviol = unknown
            elif rc not in (0, 1) and rc != 'timeout':
                # a crash of the real code on a generated input is a failure of the property
                nviol = ['FAIL [crash] harness ended with code %s; last line: %s' % (rc, [l for l in so.split('\n') if l][-1:] or '')]
            native['fails'] = len(fails)
    # ---- verdict
    nob = sum(1 for r in res for x in r['results'] if not x.get('vacuity'))
    nok = sum(1 for r in res for x in r['results'] if x['result'] == 'proved' and not x.get('vacuity'))
    fns = sorted({f for r in res for f in r['fns']})
    tops = sorted({f for r in res for f in r['top']})
    shown = set()
    for k in knownhit:
        if k['id'] not in shown:
            shown.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol = 0
    rp = os.path.join(rep_dir, prop + '.json')
    if nviol:
        viol = 1
        json.dump({'property': prop, 'kind': 'failing input on the real code', 'inputs': nviol[:20],
                   'rerun': 'VERIF_SEED=%d python3-vt check.py %s %s' % (seed, prop, tier),
                   'failed_obligations': alarms[:20]}, open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  ' + nviol[0][:400])
    elif alarms:
        viol = 1
        json.dump({'property': prop, 'kind': 'failed obligation', 'failed_obligations': alarms[:50],
                   'note': 'the verifier rejected these obligations generated from the current source; the bounded native harness found no failing input'},
                  open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        for a in alarms[:5]:
            print('  obligation %s: %s' % (a['name'], a['result']))
    man = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
    level = man.get(prop, {}).get('level', 'proof')
    import discharge
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'obligations': nob, 'discharged': nok,
              'checker_cmd': 'python3-vt check.py %s %s' % (prop, tier),
              'trusted_base': ['extractor/vx.cpp (clang AST to IR)', 'engine/*.py (symbolic execution, loop closed forms, sum lemma schemas)', 'z3', 'clang front end', 'g++ for the native stand-ins'],
              'back_end': 'z3 ' + __import__('z3').get_version_string(),
              'solver_seconds': round(sum(x['s'] for r in res for x in r['results']), 2),
              'units': [{'unit': r['unit'], 'status': r['status'], 'obligations': len(r['results']), 'discharged': sum(x['result'] == 'proved' for x in r['results']),
                         'wall_s': r['wall'], 'contracts_used_at_calls': r['contracts']} for r in res],
              'functions_under_contract': tops, 'functions_executed': len(fns),
              'undecided': [{'what': a, 'why': b[:300]} for a, b in undecided],
              'extraction_notes': [n for n in notes if n],
              'evaluations': native.get('evaluations', 0), 'distinct_nontrivial': native.get('distinct', 0),
              'rule': getattr(mod, 'NATIVE_RULE', 'bounded native stand-in: random and enumerated small instances run on the real code against an executable oracle; distinct non-trivial ones counted by hash of the instance'),
              'samples': native.get('samples', [])[:5],
              'bounded_standin': {k: v for k, v in native.items() if k != 'samples'},
              'explanation': 'obligations generated from the current source and discharged by z3; the native runs are bounded and never counted as proved'},
          'assumptions': sorted({a for r in res for a in r['assumptions']} | set(getattr(mod, 'ASSUMPTIONS', [])) | set(GENERAL)),
          'wall_s': round(time.time() - T0, 2), 'violations': viol}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: obligations %d discharged %d, undecided %d, native evaluations %d, %.1f s' %
          (prop, 'VIOLATED' if viol else 'held', nob, nok, len(undecided), native.get('evaluations', 0), time.time() - T0))
    for a, b in undecided[:10]:
        print('  undecided %s: %s' % (a, b[:200]))
    if native.get('why'):
        print('  native: ' + native['why'][:300])
    sys.exit(1 if viol else 0)


def better(r, a):
    if a is None:
        return r
    bad = lambda u: (u['status'] != 'done', sum(x['result'] != 'proved' for x in u['results']))
    return a if bad(a) <= bad(r) else r


GENERAL = ['machine integers treated as mathematical integers (no overflow)', 'double arithmetic treated as real arithmetic',
           'std library containers and algorithms behave as specified (engine/builtins_std.py)', 'loops terminate',
           'template instantiation <int, double> stands for the code (the one IPModel uses)']

if __name__ == '__main__':
    main()
