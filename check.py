#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] [--unit SUBSTR] [-v]

Decides one property on /repo's current tree.  Exit 0: held on everything explored;
exit 1 with a VIOLATION line: a counterexample that reproduces on the real code;
exit 2: nothing could be decided.
"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
REAL = '/opt/venv/bin/python'
sys.dont_write_bytecode = True


def reexec():
    try:
        import z3  # noqa
        return
    except ImportError:
        pass
    if os.path.realpath(sys.executable) != os.path.realpath(VT) and os.environ.get('BF_REEXEC') != '1':
        os.environ['BF_REEXEC'] = '1'
        os.execv(VT, [VT] + sys.argv)
    raise SystemExit('z3 is not available')


def worker(conn, loader, unit, tier, deadline, nwit):
    import gc
    gc.disable()
    from engine import explore, hooks
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    hooks.ENTERED.clear()
    try:
        r = explore.Engine(loader, unit, tier, deadline, nwit).run()
    except BaseException as e:
        import traceback
        r = {'unit': unit.name, 'crash': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-3000:]}
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def replay(jobs, env):
    """outcomes of the jobs on the real code"""
    if not jobs:
        return []
    p = subprocess.run([REAL, '-B', os.path.join(VERIF, 'engine', 'concrete.py'), '-'], input=json.dumps(jobs), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=35 * len(jobs) + 60)
    if p.returncode != 0:
        return [{'outcome': 'error', 'msg': p.stderr[-400:]}] * len(jobs)
    return json.loads(p.stdout)


def safe_replay(jobs, env, budget):
    """batched; a batch that dies is retried one by one; jobs beyond the time budget, or after five violations, are left out"""
    out = []
    end = time.time() + budget
    for i in range(0, len(jobs), 12):
        b = jobs[i:i + 12]
        if time.time() > end or sum(1 for x in out if x['outcome'] == 'violation') >= 5:
            out += [{'outcome': 'left out'}] * len(b)
            continue
        try:
            r = replay(b, env)
        except subprocess.TimeoutExpired:
            r = [{'outcome': 'error', 'msg': 'timeout'}] * len(b)
        if len(b) > 1 and any(x['outcome'] == 'error' for x in r):
            r = []
            for j in b:
                try:
                    r += replay([j], env)
                except subprocess.TimeoutExpired:
                    r.append({'outcome': 'error', 'msg': 'timeout'})
        out += r
    return out


def hunt(wanted, env, seconds, jobs):
    """concrete realizations for the wanted (unit, base inputs), or None, on the real code"""
    if not wanted:
        return []
    each = max(1, jobs // len(wanted))
    running = []
    todo = [(u, bases, i) for i in range(each) for u, bases in wanted]
    rounds = (len(todo) + jobs - 1) // jobs
    share = max(4.0, seconds / rounds)
    end = time.time() + seconds + 20
    out = {}
    while (todo or running) and time.time() < end:
        while todo and len(running) < jobs:
            u, bases, i = todo.pop(0)
            if u.name in out:
                continue
            p = subprocess.Popen([REAL, '-B', os.path.join(VERIF, 'engine', 'hunt.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True, env=env)
            p.stdin.write(json.dumps({'prop': u.prop, 'unit': u.name, 'bases': bases, 'seconds': share, 'seed': i + 1}))
            p.stdin.close()
            running.append((p, u, time.time()))
        time.sleep(0.05)
        still = []
        for p, u, ts in running:
            if p.poll() is None:
                if u.name in out or time.time() > ts + share + 15:
                    p.kill()
                    p.wait()
                else:
                    still.append((p, u, ts))
                continue
            try:
                r = json.loads(p.stdout.read())
            except ValueError:
                continue
            if r['found'] and u.name not in out:
                out[u.name] = r['found']
        running = still
    for p, u, ts in running:
        p.kill()
    return [(u, out[u.name]) for u, _ in wanted if u.name in out]


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(path)) if os.path.exists(path) else {'known': [], 'fixed': []}


def main():
    reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--unit')
    ap.add_argument('--limit', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(5000)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    quick = a.tier != 'thorough'
    limit = a.limit or (300.0 if quick else 5400.0)

    from engine import core, loader as ld
    core.set_state(core.State([]))
    import_error = None
    L = ld.Loader()
    try:
        L.load('bitforge')
    except BaseException as e:
        import_error = '%s: %s' % (type(e).__name__, e)
    units = []
    if import_error is None:
        L.load('harness.api')
        for u in L.mods['harness.api'].load_all():
            if u.prop == a.prop and (u.tier == 'quick' or not quick) and (not a.unit or a.unit in u.name):
                units.append(u)
        L.snapshot()
    core.set_state(None)
    if import_error is not None:
        units = []

    # longest first
    units.sort(key=lambda u: -u.opts.get('cost', 1))
    deadline = t0 + limit
    results = []
    ctx = mp.get_context('fork')
    todo = list(units)
    running = []
    nwit = 6 if quick else 12
    while todo or running:
        while todo and len(running) < a.jobs:
            u = todo.pop(0)
            rc, wc = ctx.Pipe(False)
            udl = min(deadline, time.time() + u.opts.get('budget', 240 if quick else 3600))
            p = ctx.Process(target=worker, args=(wc, L, u, a.tier, udl, nwit))
            p.start()
            wc.close()
            running.append((p, rc, u, udl, time.time()))
        time.sleep(0.01)
        still = []
        for p, rc, u, udl, ts in running:
            got = None
            if rc.poll():
                try:
                    got = rc.recv()
                except EOFError:
                    got = {'unit': u.name, 'crash': 'worker died'}
            elif not p.is_alive():
                got = {'unit': u.name, 'crash': 'worker died'}
            elif time.time() > udl + 60:
                p.kill()
                got = {'unit': u.name, 'crash': 'time limit'}
            if got is None:
                still.append((p, rc, u, udl, ts))
                continue
            p.join(5)
            rc.close()
            got['wall'] = round(time.time() - ts, 2)
            results.append((u, got))
            if a.v:
                print('%-60s %s' % (u.name, {k: got.get(k) for k in ('complete', 'paths', 'infeasible', 'checked', 'queries', 'wall',
                      'unknown_checks', 'crash', 'truncated')}), len(got.get('witnesses', [])), got.get('unwitnessed'), flush=True)
                for x in got.get('unsupported', [])[:3]:
                    print('   UNSUPPORTED', x['why'], x['inputs'] is not None)
                for x in got.get('candidates', [])[:5]:
                    print('   CANDIDATE', x['msg'][:300], str(x['inputs'])[:300])
                if got.get('tb'):
                    print(got['tb'])
        running = still

    # replay candidates, then paths the encoding could not finish, then witnesses
    jobs = []
    for u, r in results:
        for kind in ('candidates', 'unsupported', 'witnesses'):
            for c in r.get(kind, []):
                if c.get('inputs') is not None:
                    jobs.append((kind, u, c, {'prop': u.prop, 'unit': u.name, 'inputs': c['inputs'], 'rng': c['rng']}))
    jobs.sort(key=lambda j: ('candidates', 'unsupported', 'witnesses').index(j[0]))
    outcomes = safe_replay([j[3] for j in jobs], env, 150 if quick else 1200)
    violations = []
    inconclusive = []
    validated = 0
    known_seen = set()
    confirmed = set()
    for (kind, u, c, job), o in zip(jobs, outcomes):
        known_seen.update(o.get('known', []))
        if o['outcome'] == 'violation':
            if (u.name, o.get('msg')) in confirmed:
                continue
            # confirm in a fresh process
            try:
                o2 = replay([job], env)[0]
            except subprocess.TimeoutExpired:
                o2 = {'outcome': 'error'}
            if o2['outcome'] == 'violation':
                confirmed.add((u.name, o.get('msg')))
                violations.append({'unit': u.name, 'found_by': kind, 'solver_says': c.get('msg') or c.get('why', 'witness path'),
                                   'real_code': o2.get('msg', ''), 'job': job})
            else:
                inconclusive.append('%s: %s only reproduced in sequence' % (u.name, o.get('msg')))
        elif kind == 'candidates' and o['outcome'] != 'left out':
            inconclusive.append('%s: solver counterexample did not reproduce (%s): %s' % (u.name, o['outcome'], c['msg'][:160]))
        elif o['outcome'] == 'ok' and kind == 'witnesses':
            validated += 1
        if a.v and o['outcome'] not in ('ok', 'violation'):
            print('   REPLAY', kind, u.name, o['outcome'], o.get('msg', '')[:300], str(c.get('msg'))[:200])
    # where the encoding left something open, look for inputs that realize it
    if not violations:
        wanted = []
        for u, r in results:
            if r.get('crash') or r.get('unsupported') or r.get('candidates') or r.get('unknown_checks') or r.get('complete') is False:
                bases = [c['inputs'] for k in ('candidates', 'unsupported', 'witnesses') for c in r.get(k, []) if c.get('inputs') is not None]
                wanted.append((u, bases[:20]))
        for u, job in hunt(wanted, env, 60 if quick else 600, a.jobs):
            try:
                o = replay([job], env)[0]
            except subprocess.TimeoutExpired:
                continue
            if o['outcome'] == 'violation' and (u.name, o.get('msg')) not in confirmed:
                confirmed.add((u.name, o.get('msg')))
                r = dict((x.name, y) for x, y in results)[u.name]
                why = [c['msg'] for c in r.get('candidates', [])] + ['not encodable: ' + x['why'] for x in r.get('unsupported', [])] + ['left open']
                violations.append({'unit': u.name, 'found_by': 'realization', 'solver_says': why[0], 'real_code': o.get('msg', ''), 'job': job})
    for u, r in results:
        if r.get('crash'):
            inconclusive.append('%s: %s' % (u.name, r['crash'][:200]))
        for x in r.get('unsupported', []):
            inconclusive.append('%s: not encodable: %s' % (u.name, x['why']))
        if r.get('complete') is False:
            inconclusive.append('%s: exploration not finished within its budget' % u.name)
        if r.get('unknown_checks'):
            inconclusive.append('%s: %d checks left open by the solver' % (u.name, r['unknown_checks']))
        for c in r.get('candidates', []):
            if c.get('inputs') is None:
                inconclusive.append('%s: solver counterexample could not be made concrete: %s' % (u.name, c['msg'][:160]))
    if import_error is not None:
        # does the real package import?
        p = subprocess.run([REAL, '-B', '-c', 'import sys; sys.path.insert(0, %r); import bitforge' % ld.REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        inconclusive.append('symbolic import failed: ' + import_error)
        if p.returncode != 0:
            violations.append({'unit': 'import', 'found_by': 'import', 'solver_says': import_error, 'real_code': p.stdout[-300:], 'job': {}})

    inconclusive = sorted(set(inconclusive))
    kf = {k['id']: k for k in known_findings()['known'] if k['property'] == a.prop}
    for u, r in results:
        known_seen.update(r.get('known', []))
    replays = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    for i, v in enumerate(violations[:10]):
        path = os.path.join(VERIF, 'evidence', 'replays', '%s-%d.json' % (a.prop, i))
        json.dump(dict(v['job'], note=v['solver_says'], real_code=v['real_code']), open(path, 'w'), indent=1)
        replays.append(path)
    for kid in sorted(known_seen):
        if kid in kf:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, kf[kid]['what']))
        else:
            violations.append({'unit': '?', 'real_code': 'unlisted finding ' + kid, 'job': {}})

    res = [r for _, r in results if not r.get('crash')]
    tot = lambda k: sum(r.get(k, 0) for r in res)
    decided = sum(1 for r in res if r.get('complete') and not r.get('unsupported') and not r.get('unknown_checks'))
    # a property is claimed by its level of evidence: bounded, symbolic
    functions = sorted(set(f for r in res for f in r['functions']))
    samples = []
    for u, r in results:
        for w in r.get('witnesses', [])[:1]:
            if len(samples) < 8:
                samples.append({'unit': u.name, 'inputs': json.loads(json.dumps(w['inputs'])[:1500]) if len(json.dumps(w['inputs'])) < 1500
                                else '(%d characters of inputs)' % len(json.dumps(w['inputs']))})
    bounds = []
    for u, r in results:
        d = u.fn.__doc__
        if d:
            bounds.append(' '.join(d.split()))
    ev = {
        'property': a.prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('decisions') + tot('paths') + tot('infeasible') or 1,
            'transitions': tot('steps') or 1,
            'traces_validated_against_impl': validated,
            'samples': samples,
            'units': len(units), 'units_decided': decided,
            'paths': tot('paths'), 'infeasible_paths': tot('infeasible'),
            'assertions_discharged': tot('checked'), 'branches_decided': tot('decisions'),
            'branches_folded_by_bounds': tot('folded'),
            'queries': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'),
            'solver_time_s': round(sum(r.get('solver_s', 0) for r in res), 3),
            'functions_encoded': functions,
            'bounds': sorted(set(bounds)),
            'unit_names': [u.name for u, _ in results],
            'reachability_witnesses': sum(len(r.get('witnesses', [])) for r in res),
            'labels_reached': sorted(set(l for r in res for l in r.get('labels', []))),
            'paths_cut_by_bound': sum(1 for r in res if r.get('truncated')),
            'inconclusive': inconclusive[:40],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': sorted(set(n for r in res for n in r.get('notes', []))) + [
            'integers are unbounded as in Python; byte strings and lists have the concrete lengths given by the bounds',
            'the symbolic interpreter executes the transformed source of /repo; replayed witnesses validate it against CPython'],
        'violations': [{'unit': v['unit'], 'what': v['real_code'], 'replay': p} for v, p in zip(violations, replays + [''] * 20)],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, sort_keys=True)
    if a.v:
        print('units %d decided %d, %d paths, %d checks, %d queries, %d witnesses validated, %.1fs' % (
            len(units), decided, tot('paths'), tot('checked'), tot('queries'), validated, time.time() - t0))
    for x in inconclusive[:12]:
        print('INCONCLUSIVE', x)
    if violations:
        for v, p in list(zip(violations, replays + [''] * 20))[:5]:
            print('  %s: %s' % (v['unit'], v['real_code'][:300]))
        print('VIOLATION property=%s replay=%s' % (a.prop, replays[0] if replays else ''))
        return 1
    if decided == 0 and validated == 0:
        print('nothing could be decided')
        return 2
    print('OK property=%s units=%d decided=%d paths=%d assertions=%d queries=%d validated=%d %.1fs' % (
        a.prop, len(units), decided, tot('paths'), tot('checked'), tot('queries'), validated, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
