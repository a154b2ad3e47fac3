#!/opt/veriftools/pyvenv/bin/python
"""Decides one property: check.py PROPERTY [--tier quick|thorough]

Runs the deductive verifier on every theorem of the property, over the source
text of /repo as it is now.  Exit 0: every obligation was discharged.  Exit 1:
a VIOLATION line names the replay file.  check.py --replay FILE re-executes a
recorded violation on the real code.
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import resource
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
PYTHON = '/opt/venv/bin/python'     # the interpreter riemann is installed in
if not os.path.exists(PYTHON):
    PYTHON = sys.executable
sys.path[:0] = [ROOT, REPO]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
threads = 8


# ------------------------------------------------------------ the verifier

def prove_task(job):
    """runs in a forked process: prove one theorem"""
    key, tier, unroll, broken, seconds = job
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from dv import registry, prove, core
    if tier == 'thorough':
        core.RLIMIT *= 4
    thm = registry.load_map()[key]
    prove.BROKEN.update(broken)
    try:
        r = prove.prove(thm, deadline=time.time() + seconds, unroll=unroll,
                        share=tier != 'thorough')
        fails = [[f[0], f[1], str(f[2])[:6000], f[3]] for f in r.failures]
        out = {'key': key, 'obligations': r.obligations, 'labels': r.labels,
               'paths': r.paths, 'networks': r.networks,
               'covered': len(r.covered), 'functions': sorted(r.functions),
               'time': r.time, 'failures': fails}
    except Exception:
        out = {'key': key, 'obligations': 0, 'labels': {}, 'paths': 0,
               'networks': [], 'covered': 0, 'functions': [], 'time': 0.0,
               'failures': [[None, 'supported', 'verifier: '
                             + traceback.format_exc()[-3000:], None]]}
    out['queries'] = core.STATS.queries
    out['unknown'] = core.STATS.unknown
    out['solver_s'] = core.STATS.time
    out['contracts'] = sorted(core.STATS.contracts_used)
    out['loops'] = core.STATS.loops
    return out


def child(job, conn):
    try:
        conn.send(prove_task(job))
    except BaseException as e:
        try:
            conn.send({'key': job[0], 'crash': repr(e)})
        except Exception:
            pass
    conn.close()
    os._exit(0)


def run_jobs(jobs, seconds, until):
    """all jobs in parallel forked processes -> {key: result}"""
    ctx = multiprocessing.get_context('fork')
    todo = list(jobs)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < threads:
            j = todo.pop(0)
            left = max(20, min(seconds, until - time.time()))
            j = j[:4] + (left,)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, b))
            p.start()
            b.close()
            live[j[0]] = (p, a, time.time(), left)
        for k, (p, a, t, left) in list(live.items()):
            r = None
            if a.poll(0.005):
                try:
                    r = a.recv()
                except EOFError:
                    r = {'crash': 'the verifier process died'}
            elif time.time() - t > left + 20:
                p.kill()
                r = {'crash': 'timeout after %d s' % left}
            elif not p.is_alive() and not a.poll(0.05):
                r = {'crash': 'the verifier process died'}
            if r is not None:
                if 'crash' in r:
                    r = {'key': k, 'obligations': 0, 'labels': {},
                         'paths': 0, 'networks': [], 'covered': 0,
                         'functions': [], 'time': time.time() - t,
                         'queries': 0, 'unknown': 0, 'solver_s': 0.0,
                         'contracts': [], 'loops': 0,
                         'failures': [[None, 'supported', 'verifier: '
                                       + r['crash'], None]]}
                out[k] = r
                p.join(1)
                if p.is_alive():
                    p.kill()
                a.close()
                del live[k]
        time.sleep(0.01)
    return out


# ------------------------------------------- the real code, under CPython

def conc_start(cmd, req):
    env = dict(os.environ, REPO=REPO, PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0')
    p = subprocess.Popen(
        [PYTHON, os.path.join(ROOT, 'dv', 'conc.py'), cmd],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=env, cwd=ROOT)
    p.stdin.write(json.dumps(req).encode())
    p.stdin.close()
    return p


def conc_end(p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return None
    out = p.stdout.read()
    try:
        return json.loads(out)
    except ValueError:
        return None


def conc_many(cmd, reqs, timeout):
    """requests in parallel -> list of answers"""
    out = [None] * len(reqs)
    todo = list(enumerate(reqs))
    live = []
    while todo or live:
        while todo and len(live) < threads:
            i, r = todo.pop(0)
            live.append((i, conc_start(cmd, r), time.time()))
        for x in list(live):
            i, p, t = x
            # drain in a simple way: answers are small
            if p.poll() is not None or time.time() - t > timeout:
                out[i] = conc_end(p, 0.1)
                live.remove(x)
        time.sleep(0.01)
    return out


def replay_model(key, net, leaves):
    r = conc_end(conc_start('replay', {
        'theorem': key, 'network': net, 'leaves': leaves}), 120)
    return r and r.get('result')


# ------------------------------------------------------------------- main

def write_replay(prop, v):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    s = json.dumps(v, indent=1, sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (
        prop, hashlib.sha256(s.encode()).hexdigest()[:12]))
    with open(p, 'w') as f:
        f.write(s)
    return p


def find_input(thm_key, res, tier, broken, seed, log):
    """a failing input for a theorem that was not proved"""
    # 1. the verifier's counter-models
    seen = []

    def attempt(net, leaves):
        if leaves is None or (net, leaves) in seen:
            return None
        seen.append((net, leaves))
        r = replay_model(thm_key, net, leaves)
        if r:
            return {'theorem': thm_key, 'network': net, 'leaves': leaves,
                    'label': r[0], 'detail': r[1], 'found_by':
                    'counter-model of the verifier, replayed'}
    for f in res['failures']:
        v = attempt(f[0], f[3])
        if v:
            return v
    # 2. random search on the real code
    secs = 25 if tier == 'quick' else 90
    ans = conc_many('search', [
        {'theorem': thm_key, 'seed': '%s-%d' % (seed, i), 'seconds': secs,
         'nets': None} for i in range(threads)], secs + 60)
    for a in ans:
        if a and a['violation']:
            v = a['violation']
            r = conc_end(conc_start('replay', v), 120)
            v['replayed'] = bool(r and r.get('result'))
            v['found_by'] = 'search on the real code'
            return v
    log.append('%s: no failing input in %s trials' % (thm_key, sum(
        a['trials'] for a in ans if a)))
    # 3. counter-models with every loop unrolled
    r = run_jobs([(thm_key, tier, 6, broken, 60)], 60, time.time() + 60)[thm_key]
    for f in r['failures']:
        v = attempt(f[0], f[3])
        if v:
            return v
    return None


def known_findings(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    with open(p) as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='only theorems containing this text')
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            v = json.load(f)
        r = conc_end(conc_start('replay', v), 300)
        print(json.dumps(r, indent=1))
        return 1 if r and r.get('result') else 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    from dv import registry, api
    thms = {t.key: t for t in registry.load()
            if t.prop == a.property and (not a.only or a.only in t.key)}
    if not thms:
        print('no theorems for %s' % a.property)
        return 2
    log = []
    violations = []
    # per theorem; later rounds get what is left of the time
    secs = 400 if tier == 'quick' else 900
    proofs = {c.target: list(c.proof) for c in api.CONTRACTS}
    proofs.update({t: list(w[2]) for t, w in api.WEAK.items()})
    main_keys = [k for k, t in thms.items() if not t.known
                 and (tier == 'thorough' or t.tier == 'quick')]
    broken = []
    res_all = {}

    def needed(keys):
        """the theorems behind the contracts that the proofs of keys use"""
        out = []
        todo = list(keys)
        while todo:
            for c in res_all[todo.pop()]['contracts']:
                for k in proofs.get(c, ()):
                    if k not in out and k not in keys:
                        out.append(k)
                        if k in res_all:
                            todo.append(k)
        return out

    todo = list(main_keys)
    while todo:
        until = t0 + (560 if tier == 'quick' else 3600)
        res_all.update(run_jobs([(k, tier, 0, broken, secs) for k in todo],
                                secs, until))
        todo = [k for k in needed(main_keys) if k not in res_all]
        if todo:
            continue
        # a contract that is not established is not used
        used = {c for k in main_keys + needed(main_keys)
                for c in res_all[k]['contracts']}
        for c in sorted(used):
            if any(res_all[k]['failures'] for k in proofs.get(c, ())):
                broken.append(c)
                log.append('contract of %s not established: its body is '
                           'used instead' % c)
        todo = [k for k in main_keys + needed(main_keys)
                if set(res_all[k]['contracts']) & set(broken)]
    res = {k: res_all[k] for k in main_keys}
    support = needed(main_keys)
    res_c = {k: res_all[k] for k in support}
    used = {c for r in res_all.values() for c in r['contracts']}
    bad = [k for k in main_keys if res[k]['failures']]
    # cross-check: the same theorems, executed by CPython
    cross_s = 1.0 if tier == 'quick' else 20.0
    ans = conc_many('search', [
        {'theorem': k, 'seed': str(seed), 'seconds': cross_s, 'nets': None}
        for k in main_keys], cross_s + 120)
    trials = 0
    for k, x in zip(main_keys, ans):
        if x is None:
            log.append('%s: the CPython cross-check gave no answer' % k)
            continue
        trials += x['trials']
        if x['violation']:
            v = x['violation']
            v['found_by'] = 'CPython cross-check'
            v['obligation'] = [f[:3] for f in res[k]['failures']] or (
                'discharged by the verifier: cross-check disagrees')
            r = conc_end(conc_start('replay', v), 120)
            v['replayed'] = bool(r and r.get('result'))
            violations.append((k, v, True))
            if k in bad:
                bad.remove(k)
    start_search = time.time()
    for k in bad:
        r = res[k]
        for f in r['failures']:
            log.append('%s: %s: %s' % (k, f[1], f[2][:1500]))
        if any(v for _, v, ok in violations if ok) and \
                time.time() - start_search > 120:
            continue
        v = None
        if time.time() - t0 < 620 or tier == 'thorough':
            v = find_input(k, r, tier, broken, seed, log)
        if v:
            v['obligation'] = [f[:3] for f in r['failures']]
            violations.append((k, v, True))
            break
        violations.append((k, {
            'theorem': k, 'network': r['failures'][0][0],
            'leaves': r['failures'][0][3] or {},
            'label': r['failures'][0][1],
            'obligation': [f[:3] for f in r['failures']],
            'detail': 'the verifier does not discharge this obligation; no '
                      'failing input was found'}, False))
    # known findings: theorems on the specific failing inputs
    listed = {x['id']: x for x in known_findings(a.property)
              if x.get('status') == 'known'}
    for k, t in thms.items():
        if not t.known:
            continue
        x = conc_end(conc_start('search', {
            'theorem': k, 'seed': str(seed), 'seconds': 2, 'nets': None,
            'max_trials': 50}), 120)
        if x and x['violation']:
            if t.known in listed:
                print('KNOWN-FINDING: property=%s %s' % (
                    a.property, listed[t.known]['text']))
            else:
                violations.append((k, x['violation'], True))
    allres = dict(res_c)
    allres.update(res)
    discharged = sum(r['obligations'] for r in res.values())
    total = discharged + sum(len(r['failures']) for r in res.values())
    bounded = {k: thms[k].bounded for k in main_keys if thms[k].bounded}
    unb = sum(res[k]['obligations'] for k in main_keys
              if not thms[k].bounded)
    wall = time.time() - t0
    from dv import trust
    ev = {
        'property': a.property, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total,
            'discharged': discharged,
            'discharged_unbounded': unb,
            'discharged_bounded': discharged - unb,
            'bounded_theorems': bounded,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (
                a.property, tier),
            'trusted_base': trust.TRUSTED,
            'back_end': 'z3 %s through its Python API; byte-string and list '
                        'equalities by the verifier\'s own normaliser with '
                        'z3 deciding every side condition' % z3version(),
            'theorems': {k: {
                'obligations': res[k]['obligations'],
                'labels': res[k]['labels'],
                'paths': res[k]['paths'],
                'networks_explored': len(res[k]['networks']),
                'networks_covered_by_equal_observations':
                    res[k]['covered'],
                'loop_inductions': res[k]['loops'],
                'solver_queries': res[k]['queries'],
                'solver_unknown': res[k]['unknown'],
                'solver_s': round(res[k]['solver_s'], 3),
                'wall_s': round(res[k]['time'], 3),
                'failed': [f[1] for f in res[k]['failures']],
            } for k in main_keys},
            'contracts_established': [
                {'function': c, 'by': proofs.get(c), 'obligations': sum(
                    res_all[k]['obligations'] for k in proofs.get(c, ()))}
                for c in sorted(used) if c not in broken and c in proofs],
            'contracts_assumed': sorted(c for c in used if c not in proofs),
            'contracts_not_established': broken,
            'functions_executed_by_the_verifier': sorted(
                {f for r in res.values() for f in r['functions']}),
            'solver_s': round(sum(r['solver_s'] for r in allres.values()),
                              3),
            'cpython_cross_check_trials': trials,
            'log': log[:50],
        },
        'assumptions': trust.assumptions(a.property),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.property + '.json'),
              'w') as f:
        json.dump(ev, f, indent=1)
    for k in main_keys + support:
        r = res_all[k]
        print('%-44s %5d obligations %3d+%d networks %6.1f s%s' % (
            k, r['obligations'], len(r['networks']), r['covered'],
            r['time'], '  FAILED' if r['failures'] else ''))
    for x in log[:20]:
        print('  ' + x[:400])
    if not total:
        print('no obligations')
        return 2
    violations.sort(key=lambda x: not x[2])
    for k, v, ok in violations:
        v['property'] = a.property
        v['command'] = 'python3-vt check.py --replay FILE'
        p = write_replay(a.property, v)
        print('%s: %s: %s' % (k, v['label'], str(v['detail'])[:1200]))
        print('VIOLATION property=%s replay=%s%s' % (
            a.property, p, '' if ok else ' no-failing-input-found'))
        break
    return 1 if violations else 0


def z3version():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
