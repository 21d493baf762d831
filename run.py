#!/usr/bin/env python
"""Decide one property:  run.py Cxx [--tier quick|thorough] [--only SUBSTRING] [-v]"""
import argparse
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')
REPO = os.environ.get('SX_REPO', '/repo')
WORK = os.path.join(HERE, 'evidence')


def decide(prop, name, kwargs, root, tier, budget):
    """Symbolic execution of one instance. Returns a plain result dictionary."""
    from sx import core, env, loader
    t0 = time.time()
    stats = {}
    viol = []
    funcs = set()
    wit = []
    cand = []
    late = []
    err = None
    kn = [k['check'] for k in known() if k.get('property') == prop.id]
    timeout_ms = 30000 if tier == 'quick' else 240000
    probed = []

    def run(ctx):
        E = env.SymEnv(ctx, root)

        def probe():
            # the solver needs long for this instance: see first whether a hinted input fails on the real code
            if probed:
                return
            probed.append(1)
            v = {'msg': 'hinted inputs', 'cands': E.candidates(None)}
            rep, path = replay(prop.id, {'name': name + ' probe', 'kwargs': kwargs}, v, kn)
            os.remove(path)
            if rep['candidate'] is not None:
                viol.append({'msg': rep['msg'], 'cands': [rep['values']], 'sat': False})
                raise core.Found()
        ctx.probe, ctx.started = probe, t0
        cwd = os.getcwd()
        try:
            os.chdir(E.root)
            try:
                prop.harness(E, **kwargs)
            except env.StopPath:
                pass
            except (core.Infeasible, core.Found):
                raise
            except BaseException:
                for c in E.candidates(None)[:12]:
                    if c not in late and len(late) < 12:
                        late.append(c)
                raise
            funcs.update(ctx.memo.get('functions', ()))
            for m, v, sat in E.violations:
                same = [x for x in viol if x['msg'] == m]
                if same and len(same[0]['cands']) < 24:
                    same[0]['cands'] += [c for c in E.candidates(v) if c not in same[0]['cands']]
                elif not same:
                    viol.append({'msg': m, 'cands': E.candidates(v), 'sat': sat})
            sat = ctx.check(full=False)
            if sat == core.z3.unknown:
                # too hard for the solver: a run of the real code has to show the path is not vacuous
                stats['unsure'] = stats.get('unsure', 0) + 1
                for c in E.candidates(None)[:6]:
                    if c not in cand and len(cand) < 6:
                        cand.append(c)
            if sat == core.z3.sat:
                stats['witnesses'] = stats.get('witnesses', 0) + 1
                if len(wit) < 3:
                    vals = E.values(ctx.solver.model())
                    wit.append(dict(list(vals.items())[:6]))
                    for c in E.candidates(vals)[:4]:
                        if c not in cand and len(cand) < 6:
                            cand.append(c)
            stats['checks'] = stats.get('checks', 0) + E.nchecks
        finally:
            os.chdir(cwd)
            E.close()
        return None

    try:
        core.explore(run, stats, max_paths=prop.opts.get('max_paths', 3000),
                     deadline=t0 + budget, timeout_ms=timeout_ms,
                     reset=lambda: (viol.clear(),))
    except core.Found:
        pass
    except core.Unsupported as e:
        err = 'unsupported: %s' % e
    except core.Budget as e:
        err = 'budget: %s' % e
    except core.MergeFail as e:
        err = 'merge: %s' % (e.site,)
    except BaseException as e:
        err = 'engine: ' + traceback.format_exc()[-1500:]
    if not err and not viol and not stats.get('checks'):
        err = 'no obligation was reached'
    if not err and not stats.get('witnesses') and not stats.get('unsure') and not viol:
        err = 'no feasible path (assumptions are contradictory)'
    if err and os.environ.get('SX_TRACE'):
        err += '\n' + traceback.format_exc()
    if err and late:
        cand = late
    return {'name': name, 'kwargs': kwargs, 'stats': stats, 'viol': viol, 'funcs': sorted(funcs),
            'wit': wit, 'cand': cand, 'err': err, 'time': time.time() - t0}


def worker(conn, prop, name, kwargs, root, tier, budget):
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    def late(*a):
        from sx import core
        raise core.Budget('time')
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, max(budget, 1), 7)     # also ends a loop that never ends in the code under test
    try:
        r = decide(prop, name, kwargs, root, tier, budget)
    except BaseException:
        r = {'name': name, 'kwargs': kwargs, 'stats': {}, 'viol': [], 'funcs': [], 'wit': [],
             'err': 'worker: ' + traceback.format_exc()[-1500:], 'time': 0}
    signal.setitimer(signal.ITIMER_REAL, 0)
    conn.send(r)
    conn.close()


def pool(jobs, n, prop, root, tier, budget, total):
    """Run instances in processes of their own (at most n at a time), yielding results as they come."""
    todo = list(jobs)
    live = {}
    end = time.time() + total

    def failed(name, kw, why, t=0):
        return {'name': name, 'kwargs': kw, 'stats': {}, 'viol': [], 'funcs': [], 'wit': [], 'err': why, 'time': t}

    try:
        while todo or live:
            while todo and len(live) < n and time.time() < end - 1:
                name, kw = todo.pop(0)
                a, b = mp.Pipe(False)
                share = min(budget, end - time.time())
                p = mp.Process(target=worker, args=(b, prop, name, kw, root, tier, share))
                p.start()
                b.close()
                live[p] = (a, name, kw, time.time(), share + 40)
            if todo and not live:
                for name, kw in todo:
                    yield failed(name, kw, 'not started: out of time')
                return
            mp.connection.wait([v[0] for v in live.values()], timeout=1.0)
            for p in list(live):
                a, name, kw, t0, hard = live[p]
                r = None
                if a.poll():
                    try:
                        r = a.recv()
                    except EOFError:
                        r = failed(name, kw, 'worker died', time.time() - t0)
                elif time.time() - t0 > hard:
                    p.kill()
                    r = failed(name, kw, 'timeout', time.time() - t0)
                if r is not None:
                    a.close()
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    del live[p]
                    yield r
    finally:
        for p in live:
            p.kill()
            p.join(5)


def known():
    """[(property, instance prefix, message)] of recorded findings."""
    res = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    d = {}
                    body, _, text = line[6:].partition('|')
                    for part in body.split():
                        k, _, v = part.partition('=')
                        d[k] = v
                    d['text'] = text.strip()
                    res.append(d)
    return res


def replay(pid, res, v, kn):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    tag = '%s_%s_%d' % (pid, ''.join(c if c.isalnum() else '_' for c in res['name'])[:40],
                        zlib.crc32(v['msg'].encode()) % 100000)
    path = os.path.join(d, tag + '.json')
    job = {'property': pid, 'instance': res['name'], 'kwargs': res['kwargs'], 'msg': v['msg'],
           'candidates': v['cands'], 'known': kn}
    with open(path, 'w') as f:
        json.dump(job, f)
    env = dict(os.environ, SX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run([sys.executable, '-m', 'sx.replay', path], cwd=HERE, env=env,
                           capture_output=True, text=True, timeout=120)
        lines = [l for l in p.stdout.splitlines() if l.startswith('{')]
        r = json.loads(lines[-1]) if lines else {'candidate': None, 'log': [p.stderr[-500:]]}
    except subprocess.TimeoutExpired:
        r = {'candidate': None, 'log': ['replay timeout']}
    if r['candidate'] is not None:
        job['candidates'] = [r['values']]
        job['observed'] = r['msg']
        with open(path, 'w') as f:
            json.dump(job, f, indent=1)
    return r, path


def validate(pid, results, kn):
    """Run the harness on the real code with concrete inputs of the explored paths.

    Returns the number of runs that agree, problems, and runs that violate the property."""
    jobs = [{'instance': r['name'], 'kwargs': r['kwargs'], 'candidates': r['cand']}
            for r in results if r.get('cand') and not r['viol']]
    if not jobs:
        return {}, [], []
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + '_validate.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'known': kn, 'batch': jobs}, f)
    env = dict(os.environ, SX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    held, notes, fails = {}, [], []
    p = None
    try:
        p = subprocess.run([sys.executable, '-m', 'sx.replay', path], cwd=HERE, env=env,
                           capture_output=True, text=True, timeout=180)
        for line in p.stdout.splitlines():
            if line.startswith('{'):
                r = json.loads(line)
                held[r['instance']] = r['held']
                notes += r['errors']
                for x in r['fails']:
                    x['path'] = save(pid, dict(x, property=pid, candidates=[x['values']], known=kn))
                    fails.append(x)
        if p.returncode:
            notes.append('validation ended with %d: %s' % (p.returncode, p.stderr[-500:]))
        os.remove(path)
    except Exception as e:
        notes.append('validation failed: %s %s' % (e, p is not None and p.stderr[-500:]))
    return held, notes[:5], fails


def save(pid, job):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    tag = '%s_%s_%d' % (pid, ''.join(c if c.isalnum() else '_' for c in job['instance'])[:40],
                        zlib.crc32(job['msg'].encode()) % 100000)
    path = os.path.join(d, tag + '.json')
    with open(path, 'w') as f:
        json.dump(job, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true', help='go on after a violation')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    from checks import registry
    prop = registry.get(a.prop)
    pid = a.prop
    jobs = prop.instances(tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j[0]]
    root = tempfile.mkdtemp(prefix='sx' + pid)
    os.makedirs(WORK, exist_ok=True)
    budget, total = (240, 480) if tier == 'quick' else (2400, 7200)
    kf = [k for k in known() if k.get('property') == pid]
    violations, inconclusive, findings, results = [], [], [], []
    try:
        for r in pool(jobs, a.j, prop, root, tier, budget, total):
            results.append(r)
            if r['err']:
                inconclusive.append('%s: %s' % (r['name'], r['err']))
            done = set()
            for v in r['viol']:
                key = v['msg']
                if key in done:
                    continue
                done.add(key)
                k = [x for x in kf if key.replace(' ', '_').startswith(x['check'])]
                if len(violations) >= 4 and not k:
                    continue
                if tier == 'quick' and time.time() - t0 > 700:
                    inconclusive.append('%s: no time to replay "%s"' % (r['name'], v['msg']))
                    continue
                rep, path = replay(pid, r, v, [] if k else [x['check'] for x in kf])
                if rep['candidate'] is None:
                    inconclusive.append('%s: solver reports "%s" (%s) but no candidate fails on the real code: %s' % (
                        r['name'], v['msg'], 'sat' if v['sat'] else 'unknown', '; '.join(rep['log'])[:600]))
                elif k:
                    findings.append((k[0], r['name'], rep['msg']))
                else:
                    violations.append((r['name'], rep['msg'], path))
            if r['err'] and r.get('cand'):
                # the engine could not finish: let the inputs at hand decide on the real code
                _, _, fails = validate(pid, [r], [x['check'] for x in kf])
                violations += [(x['instance'], x['msg'], x['path']) for x in fails][:4]
            if violations and not a.all:
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    # concrete inputs of the explored paths on the real code: it has to agree with the solver's verdict
    validated, bad, fails = validate(pid, [] if violations else results, [x['check'] for x in kf])
    inconclusive += bad
    for r in results:
        if violations:
            break
        if not r['err'] and not r['viol'] and not r['stats'].get('witnesses') and not validated.get(r['name']):
            r['err'] = 'neither the solver nor a run of the real code shows that the assumptions can be met'
            inconclusive.append('%s: %s' % (r['name'], r['err']))
    validated = sum(validated.values())
    for x in fails:
        if len(violations) < 4:
            violations.append((x['instance'], x['msg'], x['path']))
    st = {}
    for r in results:
        for k, x in r['stats'].items():
            st[k] = st.get(k, 0) + x
    funcs = sorted({f for r in results for f in r['funcs']})
    write_evidence(prop, pid, tier, t0, results, st, funcs, violations, inconclusive, findings, validated)
    for k, inst, msg in dedup(findings):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    if a.v or inconclusive:
        for m in inconclusive:
            print('INCONCLUSIVE %s %s' % (pid, m))
    print('%s: %d instances, %d paths, %d obligations (%d discharged), %d queries, solver %.1fs, wall %.1fs' % (
        pid, len(results), st.get('paths', 0), st.get('obligations', 0), st.get('discharged', 0),
        st.get('queries', 0), st.get('solver_s', 0.0), time.time() - t0))
    if a.v:
        for r in sorted(results, key=lambda r: -r['time'])[:12]:
            print('   %-40s %6.1fs paths %d' % (r['name'], r['time'], r['stats'].get('paths', 0)))
        print('   functions:', ', '.join(funcs))
    if violations:
        for inst, msg, path in violations[:4]:
            print('violated: instance %s: %s' % (inst, msg))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    decided = [r for r in results if not r['err'] and not r['viol']]
    return 2 if inconclusive and not decided else 0


def dedup(fs):
    seen, out = set(), []
    for f in fs:
        if f[0]['text'] not in seen:
            seen.add(f[0]['text'])
            out.append(f)
    return out


def write_evidence(prop, pid, tier, t0, results, st, funcs, violations, inconclusive, findings, validated):
    from sx import core, stubs, fun
    samples = []
    for r in results[:20]:
        samples.append({'instance': r['name'], 'paths': r['stats'].get('paths', 0),
                        'obligations': r['stats'].get('obligations', 0),
                        'queries': r['stats'].get('queries', 0),
                        'solver_s': round(r['stats'].get('solver_s', 0.0), 3),
                        'reachability_witness': r['wit'][0] if r['wit'] else None})
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': st.get('paths', 0), 'transitions': st.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'explanation': 'Symbolic execution of the current source of the functions listed; states are feasible '
                           'paths explored to their end, transitions are branch decisions taken on them, every '
                           'obligation is decided by z3 for all values of the symbolic inputs on its path. '
                           'traces_validated_against_impl: concrete inputs of those paths run through the same '
                           'harness on the real code.',
            'verdict': 'violation' if violations else ('inconclusive' if inconclusive else 'held'),
            'functions_encoded': funcs, 'bounds': prop.bounds,
            'instances': len(results), 'forks': st.get('forks', 0),
            'obligations': st.get('obligations', 0), 'discharged': st.get('discharged', 0),
            'discharged_by_simplification': st.get('trivial', 0),
            'solver_queries': st.get('queries', 0), 'solver_unknown': st.get('unknown', 0),
            'solver_s': round(st.get('solver_s', 0.0), 3), 'cvc5_queries': st.get('cvc5_queries', 0),
            'reachability_witnesses': st.get('witnesses', 0), 'reachability_by_real_run_only': st.get('unsure', 0),
            'inconclusive': inconclusive[:10],
            'known_findings': [f[0]['text'] for f in dedup(findings)],
            'violated': ['%s: %s' % v[:2] for v in violations][:10],
        },
        'assumptions': prop.opts.get('assume', []) + stubs.ASSUMED + fun.ASSUMED,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    path = os.path.join(WORK, pid + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    import multiprocessing.connection
    sys.exit(main())
