"""C04: histories of edits, deferred batches, mode switches, optimisation and
queries over several live models; every answer against the reference."""
import gc
import random

import numpy as np

from ..world import *  # noqa
from ..world import split
from ..seams import CTX

RUNS = dict(quick=95, thorough=4200)
RULE = ('a run is a seeded history of 8-20 operations over 1-3 live models '
        '(often of identical shape); non-trivial: at least one answer was '
        'compared with the dense reference at the parameters of that moment; '
        'distinct by operation sequence and its targets')
STUB = []
ASSUME = ('parameters are kept in a numerically benign region; answers are '
          'compared up to the accuracy of the iterative solver',
          'queries inside an unfinished deferred-update batch are not asked')


def plan(rng, tier):
    types = ('rbf', 'matern32', 'periodic', 'identity')
    n = rng.choice((1, 2, 2, 3))
    base = gen_config(rng, types=types)
    cfgs = [base]
    for _ in range(n - 1):
        r = rng.random()
        if r < 0.6:       # same shape, other data (provokes crossed state)
            c = dict(base, data_seed=rng.randrange(1 << 30),
                     init_seed=rng.randrange(1 << 30))
            if rng.random() < 0.5:
                c['mode'] = rng.choice(usable_modes(c))
        else:
            c = gen_config(rng, types=types)
        cfgs.append(c)
    ops = []
    batches = [gen_batch(rng, base) for _ in range(3)]
    for _ in range(rng.randrange(8, 20)):
        k = rng.randrange(n)
        cfg = cfgs[k]
        r = rng.random()
        if r < 0.5:
            op = dict(gen_query(rng, cfg), op='query')
            if 'x' in op and cfg['P'] == base['P'] and cfg['D'] == base['D'] \
                    and rng.random() < 0.6:
                op['x'] = variant(rng, rng.choice(batches))
        elif r < 0.75:
            op = gen_edit(rng, cfg)
        elif r < 0.84:
            op = dict(op='mode', to=rng.choice(usable_modes(cfg)))
        elif r < 0.89:
            op = dict(op='opt', its=rng.randrange(1, 4),
                      rate=rng.choice((0.05, 0.5)),
                      start=rng.random() < 0.3)
        elif r < 0.93:
            op = dict(op='fix', pick=rng.randrange(1 << 20),
                      what=rng.choice(('fix', 'unfix', 'bounded', 'prior')))
        elif r < 0.96:
            op = dict(op='rebuild', seed=rng.randrange(1 << 30))
        elif r < 0.98:
            op = dict(op='gc')
        else:
            op = dict(op='randomize')
        op['h'] = k
        ops.append(op)
        while 'x' in op and rng.random() < 0.35:
            # asked again at once, a little differently
            if rng.random() < 0.4:
                ops.append(dict(op='mode', to=rng.choice(usable_modes(cfg)),
                                h=k))
            op = dict(op, x=variant(rng, op['x']))
            ops.append(op)
    for k in range(n):
        ops.append(dict(op='audit', h=k, seed=rng.randrange(1 << 30)))
    return dict(cfgs=cfgs, ops=ops)


def variant(rng, b):
    """the same batch, or one of the same shape"""
    r = rng.random()
    if r < 0.25:
        return b
    if r < 0.45:
        return [rng.sample(o, len(o)) for o in b]
    if r < 0.6:            # the same points for other outputs
        flat = [p for o in b for p in o]
        cuts = sorted(rng.randrange(len(flat) + 1) for _ in b[1:])
        return [flat[i:j] for i, j in zip([0] + cuts, cuts + [len(flat)])]
    if r < 0.7:            # the same ends
        return [o[:1] + [[x * 0.97 for x in p] for p in o[1:-1]] +
                o[1:][-1:] for o in b]
    if r < 0.85:
        b = list(b)
        i = rng.randrange(len(b))
        b[i], b[-1] = b[-1], b[i]
        return b
    return [[[x * 0.93 for x in p] for p in o] for o in b]


def run(plan, out):
    hs = [Handle(c) for c in plan['cfgs']]
    for h, c in zip(hs, plan['cfgs']):
        settle(h, c['init_seed'])
        for k in h.spec.kernels:
            must(not k.get('scaled') or k['name'] + '.scale' in leafs(h.m),
                 'an edit of a kernel parameter has no effect',
                 k['name'] + '.scale')
    for step, op in enumerate(plan['ops']):
        h = hs[op['h']]
        kind = op['op']
        out.sig.append((kind, op['h'], op.get('q'), op.get('how'),
                        op.get('to'), op.get('x')))
        out.say(step, {k: v for k, v in op.items()})
        if kind == 'query':
            if op['q'] in ('predict', 'quantiles') and h.mode == \
                    'precompute' and split(h.cfg):
                continue
            a = ask(h, op)
            out.see(a)
            check_answer(h, op, a)
            out.ok()
            out.probe('answer-' + op['q'] + (
                '-' + h.mode if 'x' in op else ''))
        elif kind == 'rebuild':
            c = dict(h.cfg, data_seed=op['seed'], init_seed=op['seed'])
            hs[op['h']] = None
            h = None
            hs[op['h']] = h = Handle(c)
            settle(h, op['seed'])
        elif kind == 'audit':
            r = random.Random(op['seed'])
            audit(h, r, 'audit')
            out.ok(6)
            for mode in r.sample(usable_modes(h.cfg),
                                 len(usable_modes(h.cfg))):
                h.m.prediction = mode
                h.mode = mode
                audit(h, r, 'audit after mode switch', ('predict',))
                out.ok()
        else:
            apply(h, op)
            out.probe(kind + '-' + str(op.get('how') or op.get('what') or ''))
