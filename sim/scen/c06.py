"""C06: models used from several threads under simulated schedules."""
import random
import threading
import _thread

import numpy as np

from ..world import *  # noqa
from ..world import split
from .. import seams
from ..seams import CTX, ThreadSim, SimDeadlock

RUNS = dict(quick=170, thorough=3600)
RULE = ('a run gives 2-3 simulated threads seeded programs (edits, '
        'optimisation, queries on their own models; queries on one shared '
        'model) and switches between them at seeded executed lines of the '
        'package; every answer is compared with the reference at the '
        'parameters of the queried model; non-trivial: at least one switch '
        'inside an operation; distinct by the sequence of switch points')
STUB = ['thread scheduling (one token passed at executed package lines)',
        'threading locks of the package']


def slow_plan(rng):
    """Solves that take hundreds of iterations, to different tolerances."""
    cfgs, progs = [], []
    for tol in rng.sample((1e-6, 1e-4, 1e-2, 0.3), 2):
        cfgs.append(slow_config(rng, tol, rng.random() < 0.5))
        ops = []
        for _ in range(rng.choice((1, 2))):
            ops.append(dict(op='edit', how='low', pick=0,
                            seed=rng.randrange(1 << 30)))
        progs.append(ops)
    at, sw = rng.randrange(2000), []
    for _ in range(60):
        at += 1 + int(rng.expovariate(1. / 150))
        sw.append(['a', at, rng.randrange(2)])
    return dict(cfgs=cfgs, shared=None, progs=progs, focus=None, slow=True,
                switches=sw, first=rng.randrange(2), in_thread=False)


def replay_solves(h, recs, out):
    """Each solve takes the course it takes on its own."""
    from runlmc.approx.iterative import Iterative
    if len(recs) != h.cfg['trace'] + 1:
        return
    for r in recs:
        its = r['its'][0]
        x, ctr, _ = Iterative.solve(h.m.kernel.K, r['b'], True, True,
                                    h.cfg['tolerance'])
        must(ctr == its, 'iterations of a solve in a thread',
             '%d, on its own %d' % (its, ctr))
        out.ok()
        out.probe('replayed-solve')
        if its > 99:
            out.probe('replayed-slow-solve')


def shared_plan(rng):
    """Many queries of one small model, meeting in a few functions."""
    base = gen_config(rng, metrics=False, simple=True,
                      allow2d=rng.random() < 0.3)
    base['lens'] = [rng.randrange(3, 6) for _ in base['lens']]
    base['trace'] = 1
    if base['P'] == 1:
        base['m'] = rng.randrange(4, 8)
    base['mode'] = rng.choice(usable_modes(base))
    progs = []
    for _ in range(2):
        ops = []
        for _ in range(rng.randrange(6, 12)):
            op = dict(gen_query(rng, base), op='query', shared=True)
            if rng.random() < 0.75:
                op.update(q=rng.choice(('predict', 'predict', 'quantiles')),
                          x=gen_batch(rng, base), qs=[5., 95.])
            op.pop('buf', None)
            ops.append(op)
        progs.append(ops)
    at, scale, sw = rng.randrange(10), 10 ** rng.uniform(-0.5, 0.7), []
    for _ in range(2500):
        at += 1 + int(rng.expovariate(1. / scale))
        sw.append(['f', at, rng.randrange(2)])
    return dict(cfgs=[dict(base, data_seed=rng.randrange(1 << 30))] * 2,
                shared=base, progs=progs,
                focus=[rng.randrange(1 << 30), rng.choice((1, 2, 4, 8))],
                switches=sw, first=rng.randrange(2), in_thread=False)


def plan(rng, tier):
    r = rng.random()
    if r < 0.08:
        return slow_plan(rng)
    if r < 0.2:
        return shared_plan(rng)
    n = rng.choice((2, 2, 2, 3))
    style = rng.choice(('few', 'medium', 'storm', 'storm-c', 'focus',
                        'focus', 'focus', 'focus', 'focus'))
    base = gen_config(rng, metrics=rng.random() < 0.3,
                      allow2d=rng.random() < 0.4,
                      simple=style == 'focus' and rng.random() < 0.4)
    if style == 'focus':       # small, since it is about where they meet
        base['lens'] = [rng.randrange(3, 6) for _ in base['lens']]
        base['trace'] = rng.choice((1, 1, 2))
        if base['P'] == 1:
            base['m'] = rng.randrange(4, 8)
    cfgs, progs = [], []
    for _ in range(n):
        if rng.random() < 0.7 or style == 'focus':
            c = dict(base, data_seed=rng.randrange(1 << 30),
                     init_seed=rng.randrange(1 << 30),
                     mode=rng.choice(usable_modes(base)))
        else:
            c = gen_config(rng, metrics=False, allow2d=False)
        cfgs.append(c)
    shared = dict(base, data_seed=rng.randrange(1 << 30),
                  mode=rng.choice(usable_modes(base)))
    share = rng.random() < (0.3 if style == 'focus' else 0.6)
    for t in range(n):
        ops = []
        for _ in range(rng.randrange(2, 5)):
            r = rng.random()
            if style == 'focus' and rng.random() < 0.6:
                r = 0.7        # edits, mostly
            if share and r < 0.45:
                op = dict(gen_query(rng, shared), op='query', shared=True)
                op.pop('buf', None)    # a caller's own race
            elif r < 0.65:
                op = dict(gen_query(rng, cfgs[t]), op='query')
            elif r < 0.88:
                op = gen_edit(rng, cfgs[t])
            elif r < 0.94:
                op = dict(op='opt', its=rng.randrange(1, 3), rate=0.05)
            else:
                op = dict(op='mode', to=rng.choice(usable_modes(cfgs[t])))
            ops.append(op)
        progs.append(ops)
    # switch points, at executed lines of the package ('a'), or counted only
    # in its model layer ('c': where caches and shared state live)
    kind = 'c' if style == 'storm-c' or rng.random() < 0.6 else 'a'
    if style == 'storm':
        kind = 'a'
    focus = None
    if style == 'focus':
        # many switches, but only within a few (seeded) functions, so that
        # the threads meet there
        kind = 'f'
        focus = [rng.randrange(1 << 30), rng.choice((4, 8, 16))]
    scale, at, count = dict(
        few=(10 ** rng.uniform(1, 3), rng.randrange(5000),
             rng.choice((1, 2, 3, 5))),
        medium=(10 ** rng.uniform(1, 2.5), rng.randrange(3000),
                rng.choice((10, 20, 40))),
        storm=(10 ** rng.uniform(0.7, 2), rng.randrange(20000), 500),
        focus=(10 ** rng.uniform(-0.5, 0.7), rng.randrange(20), 1500),
        **{'storm-c': (10 ** rng.uniform(0.3, 1.2), rng.randrange(500), 500)}
    )[style]
    if kind == 'a' and style != 'storm':
        at, scale = at * 12, scale * 12
    sw = []
    for _ in range(count):
        at += 1 + int(rng.expovariate(1. / scale))
        sw.append([kind, at, rng.randrange(n)])
    return dict(cfgs=cfgs, shared=shared if share else None, progs=progs,
                focus=focus,
                switches=sw, first=rng.randrange(n),
                in_thread=rng.random() < 0.25)


def check_gradient(h, recs, out):
    probes = [r['b'] for r in recs
              if np.all(np.abs(r['b']) == 1)]
    if len(probes) != h.cfg['trace'] or not h.sane():
        return
    if h.m.metrics is not None and len(recs) == h.cfg['trace'] + 1:
        must_close(h.m.metrics.iterations[-1],
                   np.mean([r['its'][0] for r in recs]),
                   'iterations recorded in a thread', 1e-9, 1e-9)
        must_close(h.m.metrics.solv_error[-1],
                   np.mean([r['res'] for r in recs]),
                   'residual recorded in a thread', 1e-3, 1e-11)
    ref = h.ref()
    g = ref.gradient(probes)
    got = {n: np.ravel(np.array(p.gradient)) for n, p in leafs(h.m).items()}
    sl = h.slack()
    scale = max(abs(v) for v in g.values())
    bound = ref.gradient_slack(sl)
    for (n, i), v in g.items():
        if n in got:
            must(abs(got[n][i] - v) <= 1e-6 + 1e-6 * scale + bound,
                 'gradient in a thread', '%s[%d] got %.6g want %.6g' % (
                     n, i, got[n][i], v))
    out.ok()
    out.probe('gradient')


def program(t, h, shared, ops, out, build, slow, later):
    def body():
        mine = h
        if build is not None:
            mine = Handle(build, own_rng=False)
            settle(mine, build['init_seed'])
        me = _thread.get_ident()
        for op in ops:
            tgt = shared if op.get('shared') else mine
            n0 = len(CTX.record)
            a = apply(tgt, op)
            if a is not None:
                check_answer(tgt, op, a, what='thread answer')
                out.ok()
                out.probe('shared-answer' if op.get('shared')
                          else 'own-answer')
            elif slow:
                recs = [r for r in CTX.record[n0:] if r['thread'] == me]
                later.append((tgt, np.array(tgt.m.param_array), recs))
            elif op['op'] == 'edit' and op['how'] in (
                    'leaf', 'item', 'name', 'all', 'tiny', 'again'):
                check_gradient(tgt, [r for r in CTX.record[n0:]
                                     if r['thread'] == me], out)
        if mine.sane() and not slow:
            audit(mine, random.Random(t), 'thread audit', ('quad', 'predict'))
            out.ok(2)
    return body


def run(plan, out):
    CTX.record = []
    real = threading.Lock, threading.RLock
    hs = []
    for i, c in enumerate(plan['cfgs']):
        if plan['in_thread'] and i == 0:
            hs.append(None)
            continue
        h = Handle(c, own_rng=False)
        settle(h, c['init_seed'])
        hs.append(h)
    sh = None
    if plan['shared']:
        sh = Handle(plan['shared'], own_rng=False)
        settle(sh, 11)
    later = []
    threading.Lock, threading.RLock = seams.SimLock, seams.SimRLock
    try:
        sim = ThreadSim(
            [program(t, h, sh, ops, out, plan['cfgs'][t] if h is None
                     else None, plan.get('slow'), later)
             for t, (h, ops) in enumerate(zip(hs, plan['progs']))],
            {(k, a): b for k, a, b in plan['switches']},
            focus=plan.get('focus'))
        res = sim.run(plan['first'] % len(hs))
    finally:
        threading.Lock, threading.RLock = real
    CTX.fault_log['thread-switch'] = len(sim.trail)
    CTX.events.extend(sim.trail)
    out.probe('lines-executed', sim.steps)
    out.probe('model-layer-lines', sim.coarse)
    out.say('switches', sim.trail)
    for st, x in res:
        if st == 'exc':
            raise x
    for h, at, recs in later:
        if np.array_equal(h.m.param_array, at):
            replay_solves(h, recs, out)
    if plan.get('slow'):
        return
    if sh is not None:
        audit(sh, random.Random(3), 'shared model afterwards')
    for h in hs:
        if h is not None and h.sane():
            audit(h, random.Random(4), 'own model afterwards')
    out.ok()


def shrink(plan):
    from ..core import default_shrink
    for t, ops in enumerate(plan['progs']):
        for i in range(len(ops)):
            q = dict(plan, progs=[list(o) for o in plan['progs']])
            del q['progs'][t][i]
            yield q
    yield from default_shrink(plan)
