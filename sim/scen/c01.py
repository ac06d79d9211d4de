"""C01: a model with simulated worker processes against its serial twin."""
import copy
import pickle
import random

import numpy as np

from ..world import *  # noqa
from ..seams import CTX

RUNS = dict(quick=44, thorough=1100)
RULE = ('a run is a seeded history (edits, optimisation, queries in all '
        'modes, metrics, copy, pickle) executed by a serial model and by a '
        'model with 2-5 simulated workers under a seeded schedule (who takes '
        'which chunk, chunk size, duration, stalls); non-trivial: at least '
        'one pool dispatch was compared; distinct by schedule event log')
STUB = ['multiprocessing.Pool (event-driven simulated pool; tasks run real '
        'code on pickled copies, in-process or in a lockstep forked worker)',
        'cpu_count']


def gen_pool(rng):
    many = rng.random() < 0.1
    return dict(procs=rng.choice((2, 2, 3, 4, 5, None)) if not many
                else rng.choice((7, 9, 16, 33)),
                cpu=rng.choice((2, 3, 4, 8)),
                isolation='fork' if rng.random() < 0.6 and not many
                else 'inproc',
                chunk=rng.choice((None, None, 1, 2, 3, 7)),
                speed=rng.choice(('random', 'random', 'uniform', 'stalls')),
                assign=rng.choice(('random', 'random', 'fifo')),
                seed=rng.randrange(1 << 30))


def use_pool(p):
    CTX.cpu = p['cpu']
    CTX.pool_rng = random.Random(p['seed'])
    CTX.pool_cfg = {k: p[k] for k in ('isolation', 'chunk', 'speed',
                                      'assign')}


def gen_ops(rng, cfg, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            op = dict(gen_query(rng, cfg), op='query')
        elif r < 0.72:
            op = gen_edit(rng, cfg)
        elif r < 0.86:
            op = dict(op='mode', to=rng.choice(usable_modes(cfg)))
        elif r < 0.96:
            op = dict(op='opt', its=rng.randrange(1, 4), rate=0.1,
                      start=rng.random() < 0.2)
        else:
            op = dict(op='fix', pick=rng.randrange(1 << 20),
                      what=rng.choice(('fix', 'unfix')))
        ops.append(op)
    return ops


def plan(rng, tier):
    cfg = gen_config(rng, big=True, metrics=rng.random() < 0.25)
    slow = rng.random() < 0.4
    if slow and cfg['P'] == 1:
        # many iterations need a fine grid
        cfg['m'] = rng.randrange(50, 80)
        cfg['tolerance'] = rng.choice((1e-4, 1e-2, 0.3, 0.3))
        if cfg['mode'] == 'precompute':
            cfg['mode'] = 'on-the-fly'
    ops = gen_ops(rng, cfg, rng.randrange(3, 7))
    ops.insert(0, dict(op='query', q='predict', x=gen_batch(rng, cfg)))
    ops.append(dict(op='opt', its=2, rate=0.2))
    ops.append(dict(op='query', q='predict', x=gen_batch(rng, cfg)))
    if rng.random() < 0.6:
        ops.append(dict(op='copy', how=rng.choice(('copy', 'pickle',
                                                   'deepcopy')),
                        x=gen_batch(rng, cfg)))
    if slow:     # solves that take hundreds of iterations
        ops = [op for op in ops if op.get('to') != 'precompute'][-5:]
        at = rng.randrange(len(ops) - 1)
        ops[at:at] = [
            dict(op='edit', how='low', pick=0, seed=rng.randrange(1 << 30)),
            dict(op='query', q='predict', x=gen_batch(rng, cfg))]
    elif rng.random() < 0.3:   # batches of a hundred tasks and more
        if cfg['P'] == 1 and rng.random() < 0.4:
            cfg['m'] = max(cfg['m'], 130 // cfg['D'])
            ops.insert(0, dict(op='mode', to='precompute'))
        elif rng.random() < 0.3:
            cfg['trace'] = rng.randrange(100, 130)
            ops = ops[:2]
        each = -(-rng.randrange(101, 180) // cfg['D'])
        ops.insert(1, dict(op='query', q='predict', x=[
            [[round(rng.uniform(0, 1) * cfg['xscale'], 6)
              for _ in range(cfg['P'])] for _ in range(each)]
            for _ in range(cfg['D'])]))
    if rng.random() < 0.35:    # an extra small model shares the process
        ops.insert(rng.randrange(len(ops)), dict(
            op='other', cfg=gen_config(rng, simple=True)))
    return dict(cfg=cfg, pool=gen_pool(rng), ops=ops)


def history(plan, out, par):
    """What a user of the model sees."""
    seen = []
    over = dict(max_procs=plan['pool']['procs']) if par else \
        dict(max_procs=1)
    h = Handle(plan['cfg'], **over)
    settle(h, plan['cfg']['init_seed'])
    seen.append(('built', h.fingerprint()))
    for i, op in enumerate(plan['ops']):
        if op['op'] == 'copy':
            if op['how'] == 'copy':
                c = h.m.copy()
            elif op['how'] == 'deepcopy':
                c = copy.deepcopy(h.m)
            else:
                c = pickle.loads(pickle.dumps(h.m))
            q = dict(q='predict', x=op['x'])
            hc = Handle(plan['cfg'], model=c)
            hc.mode, hc.state = h.mode, h.state
            if not (h.mode == 'precompute' and split(h.cfg)):
                seen.append(('%d %s predict' % (i, op['how']), ask(hc, q)))
            do_edit(hc, dict(how='leaf', pick=i, seed=i))
            seen.append(('%d %s edited' % (i, op['how']), hc.fingerprint()))
            continue
        if op['op'] == 'other':
            o = Handle(dict(op['cfg'], max_procs=1))
            ask(o, dict(q='quad'))
            continue
        a = apply(h, op)
        seen.append(('%d %s %s' % (i, op['op'], op.get('q', '')), a))
        if op['op'] in ('edit', 'opt'):
            seen.append(('%d state' % i, h.fingerprint()))
    if plan['cfg']['metrics']:
        seen.append(('metrics', {k: list(v) for k, v in
                                 vars(h.m.metrics).items()}))
    seen.append(('numpy stream', [h.state[1], h.state[2]]))
    return seen


def run(plan, out):
    out.sig = plan['ops'] + [plan['pool']]
    use_pool(plan['pool'])
    a = history(plan, out, False)
    serial = CTX.tasks
    b = history(plan, out, True)
    must(serial == 0, 'serial model used workers', serial)
    if not CTX.tasks:
        out.probe('no-dispatch')
    else:
        out.ok()
    must(len(a) == len(b), 'history length', '%d %d' % (len(a), len(b)))
    low = [i for i, op in enumerate(plan['ops']) if op.get('how') == 'low']
    for (n, x), (_, y) in zip(a, b):
        out.see(y)
        # rounding grows with the condition number
        ill = low and (n == 'metrics' or n[0].isdigit() and
                       int(n.split()[0]) >= low[0])
        same(y, x, 'parallel %s' % ' '.join(n.split()[1:] or [n]),
             *((1e-4, 1e-4) if ill else (1e-6, 1e-7)))
        out.ok()
