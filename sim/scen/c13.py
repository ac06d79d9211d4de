"""C13: results depend only on inputs, numpy seed and call history."""
import gc
import os
import pickle
import random
import subprocess
import sys
import traceback
import warnings

import numpy as np

from .. import seams
from ..world import *  # noqa
from ..seams import CTX, SeamInjector, LineInjector, is_injected
from .c01 import gen_ops, gen_pool

RUNS = dict(quick=80, thorough=2200)
RULE = ('a run is a seeded history executed twice or three times in '
        'separate process images that differ in the environment alone '
        '(clock, pid, entropy, CPU count, hash seed, environment variables, '
        'working directory, other generators, collection points, earlier '
        'and interrupted work of the process); all answers, gradients, '
        'metrics, parameters and the state of the numpy generator are '
        'compared after each operation; non-trivial: at least one operation '
        'compared; distinct by history and environment')
STUB = ['clock, pid, os.urandom, cpu_count (seeded values)',
        'multiprocessing.Pool (simulated) for large models']
ASSUME = ('results are compared to a relative accuracy of 1e-6, generator '
          'states exactly',)

ENV = ('clock', 'pid', 'entropy', 'cpu', 'vars', 'cwd', 'pyrandom', 'gc',
       'prelude', 'interrupted', 'print', 'logging')


def gen_env(rng):
    e = dict(kinds=[k for k in ENV if rng.random() < 0.5],
             seed=rng.randrange(1 << 30), cpu=rng.choice((1, 2, 3, 8, 64)))
    if rng.random() < 0.5:
        e['kinds'] = list(ENV)
    return e


def plan(rng, tier):
    par = rng.random() < 0.1
    cfg = gen_config(rng, big=par, metrics=rng.random() < 0.3)
    ops = gen_ops(rng, cfg, rng.randrange(3, 8) if not par else 3)
    p = dict(cfg=cfg, ops=ops, par=par, seed=rng.randrange(1 << 30),
             env=gen_env(rng), fresh=rng.random() < 0.12,
             hashseed=rng.randrange(1, 1 << 31))
    if rng.random() < 0.4:
        p['interrupt'] = [rng.randrange(len(ops)), rng.random()]
        # debug logging evaluates queries inside updates: with it the same
        # count of events is another point of the update
        p['env']['kinds'] = [k for k in p['env']['kinds'] if k != 'logging']
    if par:
        p['pool'] = gen_pool(rng)
        p['pool']['isolation'] = 'inproc'
        p['fresh'] = False
    return p


# ------------------------------------------------------------- environments

def perturb(env, cfg, par):
    """Everything that must not matter."""
    r = random.Random(env['seed'])
    kinds = env['kinds']

    def on(k):
        if k in kinds:
            CTX.hit('env-' + k)
            return True
        return False
    if on('clock'):
        CTX.clock_rng = random.Random(env['seed'])
    if on('pid'):
        pid = r.randrange(2, 30000)
        os.getpid = lambda: pid
    if on('entropy'):
        er = random.Random(env['seed'] + 1)
        os.urandom = lambda n: bytes(er.randrange(256) for _ in range(n))
    if on('cpu') and not par:
        CTX.cpu = env['cpu']
    if on('vars'):
        for k, v in (('HOME', '/nonexistent'), ('TZ', 'Asia/Kathmandu'),
                     ('LANG', 'tr_TR.UTF-8'), ('COLUMNS', '7'),
                     ('USER', 'nobody'), ('OMP_NUM_THREADS', '3'),
                     ('HOSTNAME', 'elsewhere'), ('PYTHONHASHSEED', '77'),
                     ('TMPDIR', '/nonexistent'), ('DEBUG', '1')):
            if r.random() < 0.7:
                os.environ[k] = v
    if on('cwd'):
        os.chdir('/')
    if on('print'):
        np.set_printoptions(precision=2, threshold=3)
        warnings.simplefilter('always')
    if on('logging'):
        logging.getLogger('runlmc').setLevel(r.choice((
            logging.DEBUG, logging.INFO, logging.CRITICAL)))
        if logging.getLogger('runlmc').handlers == []:
            logging.getLogger('runlmc').addHandler(logging.NullHandler())
    if on('prelude'):
        for _ in range(r.randrange(1, 3)):
            c = cfg if r.random() < 0.4 else gen_config(
                r, allow2d=r.random() < 0.3)
            c = dict(c, lens=[min(n, 12) for n in c['lens']])
            o = Handle(c)
            settle(o, 3)
            audit(o, r, 'prelude', ('predict', 'K'))
            do_optimize(o, dict(its=1, rate=0.1))
            if r.random() < 0.5:
                KEEP.append(o)
            else:
                del o
                gc.collect()
    if on('interrupted'):
        c = dict(cfg, lens=[min(n, 12) for n in cfg['lens']])
        o = Handle(c)
        KEEP.append(o)
        for cls, at in ((SeamInjector, r.randrange(1, 30)),
                        (LineInjector, r.randrange(1, 900))):
            try:
                with cls(at, r.choice(('KeyboardInterrupt', 'LinAlgError',
                                       'MemoryError'))):
                    settle(o, 4)
                    audit(o, r, 'prelude', ('predict', 'quad'))
            except BaseException as e:  # pylint: disable=broad-except
                if not is_injected(e):
                    raise
    if on('gc'):
        n = [0]
        every = r.choice((3, 20, 60))

        def hook(_):
            n[0] += 1
            if n[0] % every == 0 and n[0] < every * 40:
                gc.collect()
        CTX.seam_hook = hook
    return r


KEEP = []


def state():
    s = np.random.get_state()
    return (s[1].tobytes(), int(s[2]), int(s[3]), float(s[4]))


def history(plan, env):
    """The history itself; returns what was observed."""
    r = random.Random(plan['seed'])
    if plan['par']:
        from .c01 import use_pool
        use_pool(plan['pool'])
    noise = perturb(env, plan['cfg'], plan['par']) if env else None
    pyr = env and 'pyrandom' in env['kinds']
    np.random.seed(plan['seed'] % (1 << 31))
    cfg = plan['cfg']
    seen = []
    h = Handle(cfg, own_rng=False, max_procs=(
        (env or plan['pool'])['cpu'] if plan['par'] else None))
    CTX.worst = h.resid = 0.

    def note(tag, ans=None, route=None):
        seen.append(dict(tag=tag, ans=ans, state=state(), route=route,
                         p={n: v for n, v in h.vals().items()},
                         grad=np.array(h.m.gradient, dtype=float),
                         metrics=None if h.m.metrics is None else {
                             k: np.array(v, dtype=float)
                             for k, v in vars(h.m.metrics).items()}))
    pending = False
    note('built')
    settle(h, cfg['init_seed'])
    note('settled')
    for i, op in enumerate(plan['ops']):
        if pyr:
            random.seed(noise.randrange(1 << 30))
            random.random()
            np.random.RandomState(i).rand(3)
        before = state()
        route = None
        inj = plan.get('interrupt')
        if inj and inj[0] == i and op['op'] != 'query':
            # an interruption that is part of the history itself
            hook, CTX.seam_hook = CTX.seam_hook, None
            box = SeamInjector(1 + int(inj[1] * 40), 'KeyboardInterrupt')
            try:
                with box:
                    apply(h, op)
            except KeyboardInterrupt as e:
                if not is_injected(e):
                    raise
            CTX.seam_hook = hook
            ans = None
            pending = box.fired is not None
            route = pending and box.route
        else:
            ans = apply(h, op)
        if op['op'] == 'query':
            if state() != before and pending:
                pending = False      # it made up for the interrupted update
            elif state() != before:
                return dict(bad='a query consumed the numpy generator',
                            detail=str(op['q']), seen=seen)
        note(op['op'], ans, route)
    # the amount an update draws depends on the shape only
    ends = []
    for s in (1, 2):
        np.random.seed(99)
        settle(h, s)
        ends.append(state())
    if ends[0] != ends[1]:
        return dict(bad='the draws of an update depend on more than the '
                        'shape of the model', detail='', seen=seen)
    return dict(seen=seen, faults=CTX.fault_log, events=len(CTX.events))


# ----------------------------------------------------------------- execution

def in_fork(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = f()
            except Skip as s:
                res = dict(skip=str(s))
            except BaseException as e:  # pylint: disable=broad-except
                res = dict(exc=repr(e), inside=any(
                    x.filename.startswith(seams.PKG)
                    for x in traceback.extract_tb(e.__traceback__)),
                    tb=traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as o:
                o.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else dict(exc='process died',
                                                inside=False)


def fresh(plan):
    """The history in a new interpreter with another hash seed."""
    env = dict(os.environ, VERIF_HASHSEED=str(plan['hashseed']),
               PYTHONHASHSEED=str(plan['hashseed']))
    p = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c',
         'import sys; sys.path.insert(0, %r); '
         'from sim import seams; seams.install(); '
         'from sim.scen import c13; c13.serve()' % os.path.dirname(
             os.path.dirname(os.path.dirname(os.path.abspath(__file__))))],
        input=pickle.dumps(plan), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=env, timeout=150)
    if p.returncode:
        return dict(exc=p.stderr.decode()[-300:], inside=False)
    CTX.hit('env-fresh-interpreter')
    return pickle.loads(p.stdout)


def serve():
    plan = pickle.loads(sys.stdin.buffer.read())
    fd = os.dup(1)
    os.dup2(2, 1)
    CTX.reset()
    res = in_fork(lambda: history(plan, None))
    with os.fdopen(fd, 'wb') as f:
        f.write(pickle.dumps(res))


def judge(res, what):
    if 'skip' in res:
        raise Skip(res['skip'])
    if 'exc' in res:
        if res['inside']:
            raise Violation('the history fails', '%s: %s' % (what,
                                                             res['exc']))
        raise RuntimeError('%s: %s %s' % (what, res['exc'], res.get('tb')))
    if 'bad' in res:
        raise Violation(res['bad'], '%s %s' % (what, res['detail']))
    return res['seen']


def compare(a, b, what, out):
    must(len(a) == len(b), 'length of the history', what)
    for i, (x, y) in enumerate(zip(a, b)):
        w = '%s, after %s (%d)' % (what, x['tag'], i)
        if x['route'] != y['route']:
            # interrupted elsewhere: not the same history from here on
            out.probe('interrupted-elsewhere')
            return
        must(x['state'] == y['state'],
             'state of the numpy generator depends on the environment', w)
        same(y['p'], x['p'], 'parameters depend on the environment: ' + w,
             1e-6, 1e-9)
        same(y['grad'], x['grad'], 'gradient depends on the environment: '
             + w, 1e-6, 1e-8)
        if x['metrics'] is not None:
            k = ('log_likely', 'grad_norms', 'iterations')
            same({q: y['metrics'][q] for q in k},
                 {q: x['metrics'][q] for q in k},
                 'metrics depend on the environment: ' + w, 1e-6, 1e-7)
        if x['ans'] is not None:
            same(y['ans'], x['ans'], 'answer depends on the environment: '
                 + w, 1e-6, 1e-8)
        out.ok()


def run(plan, out):
    base = judge(in_fork(lambda: history(plan, None)), 'plain')
    res = in_fork(lambda: history(plan, plan['env']))
    other = judge(res, 'perturbed')
    for k, v in res['faults'].items():
        CTX.fault_log[k] = CTX.fault_log.get(k, 0) + v
    compare(base, other, 'perturbed %s' % plan['env']['kinds'], out)
    if plan['fresh']:
        compare(base, judge(fresh(plan), 'fresh'), 'fresh interpreter', out)
    out.sig.append((plan['env']['kinds'], [o['op'] for o in plan['ops']]))
    for s in base:
        out.see(s['p'])
        out.see(s['grad'])


def shrink(plan):
    from ..core import default_shrink
    for k in plan['env']['kinds']:
        yield dict(plan, env=dict(plan['env'], kinds=[
            x for x in plan['env']['kinds'] if x != k]))
    if plan['fresh']:
        yield dict(plan, fresh=False)
    yield from default_shrink(plan)
