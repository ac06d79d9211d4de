"""Runner: seeded plans, one forked process image per simulated run, result
collection, minimisation, replay files and evidence."""
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import traceback

import numpy as np

from . import seams
from .seams import CTX, SimDeadlock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
now = seams.REAL_PERF    # never simulated; used for budgets only

CPU_LIMIT = 200            # CPU seconds one run may use (typical: 1)
WALL_LIMIT = 420           # wall seconds one run may use


class Out:
    """What one run observed."""

    def __init__(self):
        self.checks = 0
        self.probes = {}
        self._h = hashlib.sha1()
        self.trace = []
        self.sig = []

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def say(self, *a):
        """trace of the run, kept in the replay file"""
        self.trace.append(' '.join(str(x) for x in a)[:300])
        del self.trace[:-80]

    def see(self, x):
        """fold an observed value into the digest of the run"""
        if isinstance(x, dict):
            for k in sorted(x):
                self._h.update(str(k).encode())
                self.see(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.see(y)
        elif isinstance(x, np.ndarray):
            self._h.update(np.ascontiguousarray(x).tobytes())
        else:
            self._h.update(repr(x).encode())
        return x

    def ok(self, n=1):
        self.checks += n


def scenario(prop):
    return importlib.import_module('sim.scen.' + prop.lower())


def make_plan(scn, prop, seed, index, tier):
    rng = random.Random('%s/%d/%d' % (prop, seed, index))
    plan = scn.plan(rng, tier)
    plan.setdefault('np_seed', rng.randrange(1 << 30))
    # a plan is what its JSON says
    return json.loads(json.dumps(plan))


def classify(e):
    """violation (the package misbehaved) or harness error?"""
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    inside = any(f.filename.startswith(seams.PKG) for f in frames)
    return 'violation' if inside else 'error'


def short_tb(e):
    frames = traceback.extract_tb(e.__traceback__)
    return [' %s:%d %s' % (os.path.basename(f.filename), f.lineno or 0,
                           f.name) for f in frames][-14:]


def execute(scn, plan):
    """One simulated run, in this process."""
    from .world import Violation, Skip
    CTX.reset()
    np.random.seed(plan['np_seed'] % (1 << 31))
    random.seed(plan['np_seed'])
    out = Out()
    res = dict(status='ok')
    try:
        scn.run(plan, out)
    except Violation as v:
        res.update(status='violation', what=v.what, detail=v.detail,
                   tb=short_tb(v))
    except Skip as s:
        res.update(status='skip', what=str(s))
    except SimDeadlock as d:
        res.update(status='violation', what='deadlock', detail=str(d),
                   tb=short_tb(d))
    except BaseException as e:  # pylint: disable=broad-except
        what = 'unexpected %s' % type(e).__name__
        res.update(status=classify(e), what=what, detail=str(e)[:500],
                   tb=short_tb(e))
    sys.settrace(None)
    ev = hashlib.sha1(repr(CTX.events).encode() +
                      repr(out.sig).encode()).hexdigest()[:16]
    res.update(checks=out.checks, probes=out.probes, faults=CTX.fault_log,
               vtime=CTX.vtime, ev=ev, events=len(CTX.events),
               digest=out._h.hexdigest()[:16], solves=CTX.solves,
               tasks=CTX.tasks, pools=CTX.pools)
    if res['status'] != 'ok':
        res['trace'] = out.trace
    return res


def run_child(scn, plan, wall=WALL_LIMIT):
    """A run in a process of its own.  The interpreter under it crashes once
    in a great while (abort in its JIT or C layer); the run is repeated then,
    which is sound since a run depends on nothing but its plan."""
    for _ in range(3):
        res = run_once(scn, plan, wall)
        if res.get('what') != 'run process died':
            break
    return res


def run_once(scn, plan, wall):
    """fork; run; collect"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(dn, 2)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT))
            res = execute(scn, plan)
            data = json.dumps(res, default=str).encode()
            os.close(dn)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:  # pylint: disable=broad-except
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = now() + wall
    timed_out = False
    while True:
        left = end - now()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    st = None
    if not timed_out:
        _, st = os.waitpid(pid, 0)    # closed its end: it is ending
    try:
        os.killpg(pid, signal.SIGKILL)   # and whatever it left behind
    except OSError:
        pass
    if st is None:
        _, st = os.waitpid(pid, 0)
    base = dict(checks=0, probes={}, faults={}, vtime=0., ev='', events=0,
                digest='', solves=0, tasks=0, pools=0, trace=[])
    if chunks and not timed_out:
        try:
            return json.loads(b''.join(chunks).decode())
        except ValueError:
            pass
    if timed_out or (os.WIFSIGNALED(st) and
                     os.WTERMSIG(st) == signal.SIGXCPU):
        return dict(base, status='violation', what='no progress',
                    detail='the run did not end within its bound')
    return dict(base, status='error', what='run process died',
                detail='wait status %d' % st)


# ------------------------------------------------------------------- batches

def lane(scn, prop, seed, tier, todo, fd, deadline):
    w = os.fdopen(fd, 'wb', buffering=0)
    while now() < deadline:
        rec = os.read(todo, 4)     # the shared queue of run numbers
        if len(rec) < 4:
            break
        i = int.from_bytes(rec, 'little')
        plan = make_plan(scn, prop, seed, i, tier)
        t = now()
        res = run_child(scn, plan)
        res['i'] = i
        res['t'] = now() - t
        w.write(json.dumps(res).encode() + b'\n')
    w.close()


def batch(scn, prop, seed, tier, indices, lanes, budget, stop_on_violation):
    indices = list(indices)[:16000]
    deadline = now() + budget
    procs = {}
    todo, fill = os.pipe()
    os.write(fill, b''.join(i.to_bytes(4, 'little') for i in indices))
    os.close(fill)
    for _ in range(lanes):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                lane(scn, prop, seed, tier, todo, w, deadline)
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        procs[r] = [pid, b'']
    os.close(todo)
    results, bad = [], None
    pids = [p[0] for p in procs.values()]
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 5)
        for r in ready:
            b = os.read(r, 1 << 16)
            if not b:
                os.close(r)
                del procs[r]
                continue
            procs[r][1] += b
            while b'\n' in procs[r][1]:
                line, procs[r][1] = procs[r][1].split(b'\n', 1)
                res = json.loads(line.decode())
                results.append(res)
                if res['status'] == 'violation' and bad is None:
                    bad = now()
        if bad is not None and stop_on_violation:
            break
    for pid in pids:
        if procs:
            # a lane's current run is in a process group of its own
            for c in _children(pid):
                try:
                    os.killpg(c, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    for r in list(procs):
        os.close(r)
    return sorted(results, key=lambda x: x['i'])


def _children(pid):
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        return []


# -------------------------------------------------------------- minimisation

def _without(seq, i, n):
    return seq[:i] + seq[i + n:]


def default_shrink(plan):
    """Candidate smaller plans."""
    for key in ('ops', 'faults', 'switches'):
        seq = plan.get(key)
        if isinstance(seq, list) and seq:
            n = len(seq)
            while n >= 1:
                for i in range(0, len(seq), n):
                    q = dict(plan)
                    q[key] = _without(seq, i, n)
                    if len(q[key]) or key != 'ops':
                        yield q
                n //= 2
        elif isinstance(seq, dict) and seq:
            ks = sorted(seq)
            n = len(ks)
            while n >= 1:
                for i in range(0, len(ks), n):
                    q = dict(plan)
                    q[key] = {k: seq[k] for k in _without(ks, i, n)}
                    yield q
                n //= 2
    cfg = plan.get('cfg')
    if isinstance(cfg, dict):
        for k, v in (('trace', 1), ('metrics', False), ('normalize', False),
                     ('yscale', 1.), ('layout', '2d'), ('lo', None),
                     ('hi', None)):
            if k in cfg and cfg[k] != v:
                yield dict(plan, cfg=dict(cfg, **{k: v}))


def minimise(scn, plan, res, budget):
    end = now() + budget
    tries = 0
    shrink = getattr(scn, 'shrink', default_shrink)
    progress = True
    while progress and now() < end:
        progress = False
        for cand in shrink(plan):
            if now() > end:
                break
            tries += 1
            got = run_child(scn, cand, wall=60)
            if got['status'] == 'violation' and got['what'] == res['what']:
                plan, res = cand, got
                progress = True
                break
    return plan, res, tries


def write_replay(prop, seed, index, plan, res, tries):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%d-%d.json' % (prop, seed, index))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, index=index, plan=plan,
                       what=res['what'], detail=res.get('detail'),
                       faults=res['faults'], trace=res.get('trace'),
                       tb=res.get('tb'), digest=res['digest'],
                       event_digest=res['ev'], minimisation_runs=tries,
                       how='bash /verif/check.sh replay ' + path),
                  f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    scn = scenario(d['property'])
    res = run_child(scn, d['plan'])
    same = res['status'] == 'violation' and res['what'] == d['what']
    print(json.dumps({k: res.get(k) for k in (
        'status', 'what', 'detail', 'faults', 'digest', 'ev')}, indent=1))
    if res['status'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        print('reproduced %s (event log %s)' % (
            'exactly' if same else 'differently',
            'identical' if res['ev'] == d['event_digest'] else 'differs'))
        return 1
    return 0 if res['status'] in ('ok', 'skip') else 2


# --------------------------------------------------------------------- check

def findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    out.append(line[len('known: property=%s ' % prop):])
    return out


def merge(into, d):
    for k, v in d.items():
        into[k] = into.get(k, 0) + v


def check(prop, tier, seed, runs=None, lanes=None, verbose=False):
    t0 = now()
    scn = scenario(prop)
    n = runs or scn.RUNS[tier]
    lanes = lanes or min(8, seams.REAL_CPUS)
    budget = 420 if tier == 'quick' else 780
    results = batch(scn, prop, seed, tier, range(n), lanes, budget, True)
    viol = [r for r in results if r['status'] == 'violation']
    errs = [r for r in results if r['status'] == 'error']
    known_lines = []
    if not viol and hasattr(scn, 'known'):
        # genuine defects that are recorded rather than repaired
        for key, plan in scn.known():
            res = run_child(scn, json.loads(json.dumps(plan)))
            listed = [f for f in findings(prop) if f.startswith(key)]
            if res['status'] == 'violation':
                if listed:
                    known_lines.append(listed[0])
                else:
                    viol.append(dict(res, i=-1, plan=plan))
    determinism = dict(checked=0, differing=0)
    if not viol:
        # the same plans again, in other processes, must give identical runs
        again = batch(scn, prop, seed, tier,
                      [r['i'] for r in results[:max(4, n // 25)]],
                      max(1, lanes // 2), 120, False)
        first = {r['i']: r for r in results}
        for r in again:
            determinism['checked'] += 1
            a = first[r['i']]
            if (a['digest'], a['ev']) != (r['digest'], r['ev']):
                determinism['differing'] += 1
    path = None
    if viol:
        v = viol[0]
        i = v['i']
        plan = v.get('plan') or make_plan(scn, prop, seed, i, tier)
        mplan, mres, tries = minimise(
            scn, plan, v, 45 if tier == 'quick' else 180)
        path = write_replay(prop, seed, i, mplan, mres, tries)
        env = dict(os.environ)
        try:
            p = subprocess.run(
                [sys.executable, '-W', 'ignore', '-m', 'sim.main', 'replay',
                 path], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, timeout=240)
            again = p.returncode
        except subprocess.TimeoutExpired:
            again = 1
        if again != 1 and tries:
            path = write_replay(prop, seed, i, plan, v, 0)
        print('%s: %s: %s' % (prop, mres['what'], mres.get('detail')))
        for line in mres.get('tb') or []:
            print('   ', line)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    wall = now() - t0
    evidence(scn, prop, tier, seed, results, viol, wall, determinism,
             known_lines)
    for line in known_lines:
        print('KNOWN-FINDING: property=%s %s' % (prop, line))
    if verbose:
        for r in errs:
            print('ERROR run %d: %s %s' % (r['i'], r['what'], r['detail']))
            for line in r.get('tb') or []:
                print('   ', line)
    done = len(results)
    print('%s %s: %d runs (%d skipped), %d checks, %d harness errors, '
          '%.1f s' % (prop, tier, done,
                      sum(r['status'] == 'skip' for r in results),
                      sum(r['checks'] for r in results), len(errs), wall))
    if viol:
        return 1
    if errs:
        for r in errs[:3]:
            print('harness error in run %d: %s: %s' % (
                r['i'], r['what'], r['detail']))
            for line in r.get('tb') or []:
                print('   ', line)
        return 2
    if done < n // 4:
        print('too few runs completed')
        return 2
    return 0


def evidence(scn, prop, tier, seed, results, viol, wall, determinism, known):
    faults, probes = {}, {}
    for r in results:
        merge(faults, r['faults'])
        merge(probes, r['probes'])
    nontriv = [r for r in results if r['status'] == 'ok' and r['checks'] > 0]
    distinct = len({r['ev'] for r in nontriv})
    samples = []
    for r in nontriv[:2]:
        samples.append(dict(run=r['i'], plan=make_plan(
            scn, prop, seed, r['i'], tier), checks=r['checks'],
            faults=r['faults'], digest=r['digest']))
    if not samples and results:
        r = results[0]
        samples.append(dict(run=r['i'], plan=make_plan(
            scn, prop, seed, r['i'], tier), status=r['status']))
    cov = dict(
        evaluations=len(results),
        distinct_nontrivial=distinct,
        rule=scn.RULE,
        samples=samples,
        oracle_checks=sum(r['checks'] for r in results),
        skipped_runs=sum(r['status'] == 'skip' for r in results),
        runs_per_hour=round(len(results) / max(wall, 1e-9) * 3600),
        seeds_per_hour=round(len(results) / max(wall, 1e-9) * 3600),
        simulated_time=dict(
            virtual_seconds_of_worker_time=round(
                sum(r['vtime'] for r in results), 3),
            schedule_events=sum(r['events'] for r in results)),
        faults_injected=faults, probes=probes,
        linear_solves=sum(r['solves'] for r in results),
        pool_tasks=sum(r['tasks'] for r in results),
        simulated_pools=sum(r['pools'] for r in results),
        distinct_measure='digest of the schedule/fault event log and the '
                         'operation sequence of the run',
        determinism_recheck=determinism,
        known_findings=known,
        components_real=['all of /repo/runlmc', 'paramz', 'climin', 'numpy',
                         'scipy'] if not hasattr(scn, 'REAL') else scn.REAL,
        components_stub=scn.STUB)
    d = dict(property=prop, tier=tier, seed=seed,
             level=getattr(scn, 'LEVEL', 'exploration'), coverage=cov,
             assumptions=list(getattr(scn, 'ASSUME', ())),
             wall_s=round(wall, 3), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)
