"""C08: the gradient is the probe estimate for fresh, fair probes."""
import random

import numpy as np

from ..world import *  # noqa
from ..seams import CTX, SeamInjector, is_injected
from .c01 import gen_pool, use_pool

RUNS = dict(quick=96, thorough=2200)
RULE = ('a run is a seeded history of edits, optimisation steps and failing '
        'updates; the right-hand sides the real solver is given are '
        'recorded at its seam and the gradient is recomputed densely from '
        'them; probes are tested for value, count, freshness, fairness and '
        'dependence on the global numpy generator; non-trivial: at least '
        'one gradient was recomputed; distinct by operation sequence, '
        'schedule and probe bits')
STUB = ['multiprocessing.Pool (simulated)']
ASSUME = ('solves go through scipy.sparse.linalg iterative solvers, where '
          'right-hand sides are recorded; statistical tests use a bound of '
          'more than 6 standard deviations',)


def plan(rng, tier):
    r = rng.random()
    par = r < 0.17
    stats = not par and r < 0.45
    census = stats and r < 0.21       # tens of thousands of signs
    cfg = gen_config(rng, big=par, metrics=rng.random() < 0.2,
                     allow2d=not stats and rng.random() < 0.5,
                     simple=stats)
    if stats:
        cfg['lens'] = [rng.randrange(14, 34) for _ in range(cfg['D'])]
        cfg['trace'] = rng.choice((15, 30, 60))
        cfg['metrics'] = False
        if census:
            cfg['lens'] = [rng.randrange(500, 800) // cfg['D']
                           for _ in range(cfg['D'])]
            cfg['trace'] = rng.choice((60, 90))
            cfg['m'] = rng.randrange(6, 11)
    elif not par:
        cfg['trace'] = rng.choice((1, 2, 3, 5, 15))
    ops = []
    for _ in range(rng.randrange(2, 6) if not stats else 2 - census):
        r = rng.random()
        if r < 0.55:
            op = gen_edit(rng, cfg)
        elif r < 0.75:
            op = dict(op='opt', its=rng.randrange(1, 4) if not census else 1,
                      rate=0.1, start=rng.random() < 0.2)
        elif r < 0.85:
            op = dict(op='fix', pick=rng.randrange(1 << 20),
                      what=rng.choice(('fix', 'unfix')))
        else:
            op = dict(op='fail', frac=rng.random(), edit=gen_edit(rng, cfg),
                      exc=rng.choice(('LinAlgError', 'MemoryError',
                                      'KeyboardInterrupt')))
        ops.append(op)
    p = dict(cfg=cfg, ops=ops, par=par, stats=stats,
             seed=rng.randrange(1 << 30))
    if par:
        p['pool'] = gen_pool(rng)
    return p


class Watch:
    """Splits the recorded right-hand sides into observations and probes."""

    def __init__(self, h, out):
        self.h, self.out = h, out
        self.all = []            # every probe of every update
        self.last = None

    def take(self, what='update'):
        recs, CTX.record = CTX.record, []
        h, T = self.h, self.h.cfg['trace']
        if not recs:
            self.out.probe('no-solve-seen')
            return None
        y = h.spec.y
        rest = [r['b'] for r in recs
                if not np.allclose(r['b'], y, rtol=1e-9, atol=1e-12)]
        pm = [b for b in rest if np.all(np.abs(b) == 1)]
        if len(pm) != len(rest):
            bad = next(b for b in rest if not np.all(np.abs(b) == 1))
            raise Violation('probe is not +1/-1', 'values %s' % (
                np.unique(bad)[:5],))
        must(pm and len(pm) % T == 0, 'number of probes',
             '%d, trace_iterations=%d' % (len(pm), T))
        self.all.extend(pm)
        # fresh: not what the previous update used
        cur = [b.tobytes() for b in pm[-T:]]
        n = len(y)
        for group in range(0, len(pm), T):
            # up to sign, which does not matter in r' K^-1 dK r
            g = [(b * b[0]).tobytes() for b in pm[group:group + T]]
            if self.last is not None and n * T >= 45:
                must(sorted(g) != sorted(self.last),
                     'probes reused by a later update', what)
            if n >= 40:
                must(len(set(g)) == len(g), 'equal probes in one update',
                     what)
                if self.last is not None:
                    must(not set(g) & set(self.last),
                         'probe reused by a later update', what)
            self.last = g
        self.out.sig.append(cur[0][:40])
        return pm[-T:]

    def gradient(self, probes, what):
        h = self.h
        if probes is None or not h.sane():
            return
        ref = h.ref()
        want = ref.gradient(probes)
        sl = h.resid_now() / float(np.min(h.vals()['noise']))
        if not sl < 1e-2:
            self.out.probe('unconverged')
            return
        bound = ref.gradient_slack(sl)
        for n, p in leafs(h.m).items():
            if p.is_fixed:
                continue
            got = np.ravel(np.array(p.gradient))
            exp = np.array([want.get((n, i), np.nan)
                            for i in range(got.size)])
            must(np.all(np.isfinite(exp)), 'gradient of unknown parameter', n)
            scale = np.abs(exp).max()
            err = np.abs(got - exp).max()
            must(err <= 1e-6 + 1e-6 * scale + 2 * bound,
                 'gradient is not the probe estimate',
                 '%s after %s: got %s want %s' % (n, what, got[:3], exp[:3]))
        self.out.ok()
        self.out.probe('gradients')


def zscore(x, what):
    """x: array of +-1, expected mean 0"""
    x = np.asarray(x)
    if x.size < 200:
        return
    z = abs(x.mean()) * np.sqrt(x.size)
    must(z < 6.5, 'probes are not fair', '%s: %.1f standard deviations over '
         '%d draws' % (what, z, x.size))


def fairness(A, lens, out):
    """A: probes, one per row"""
    zscore(A, 'sign')
    for lag in (1, 2, 3):
        zscore(A[:, lag:] * A[:, :-lag], 'neighbouring entries')
        if len(A) > lag + 3:
            zscore(A[lag:] * A[:-lag], 'successive probes')
    zscore(A * A[:, ::-1] if A.shape[1] % 2 == 0 else
           A[:, :A.shape[1] // 2] * A[:, ::-1][:, :A.shape[1] // 2],
           'mirrored entries')
    half = A.shape[1] // 2
    zscore(A[:, :half] * A[:, half:2 * half], 'halves')
    zscore(A.prod(axis=1), 'product of a probe')
    if len(lens) > 1 and lens[0] == lens[1]:
        zscore(A[:, :lens[0]] * A[:, lens[0]:2 * lens[0]], 'outputs')
    # per probe / per position sums: variance of the sum is its length
    for ax, what in ((1, 'sum of a probe'), (0, 'sum at a position')):
        s = A.sum(axis=ax)
        n = A.shape[ax]
        if s.size >= 30 and n >= 10:
            v = (s * s).mean() / n
            must(abs(v - 1) < 7 * np.sqrt(2. / s.size) + 0.05,
                 'probes are not fair',
                 'variance ratio of the %s %.2f' % (what, v))
    # any two probes: their product has variance n
    if len(A) >= 6 and A.shape[1] >= 8:
        G = A.dot(A.T)[np.triu_indices(len(A), 1)]
        v = (G * G).mean() / A.shape[1]
        must(abs(v - 1) < 8 * np.sqrt(2. / G.size) + 0.1,
             'probes are not independent',
             'mean square of their products %.2f' % v)
    out.ok()
    out.probe('fairness-bits', int(A.size))


def run(plan, out):
    if plan['par']:
        use_pool(plan['pool'])
    cfg = plan['cfg']
    h = Handle(cfg, max_procs=plan['pool']['procs'] if plan['par'] else 1)
    h.resid_now = lambda: max(h.resid, CTX.worst if h._inside else 0)
    w = Watch(h, out)
    CTX.record = []
    settle(h, cfg['init_seed'])
    w.gradient(w.take('start'), 'start')
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        out.sig.append((kind, op.get('how')))
        out.say(i, kind, op.get('how'))
        CTX.record = []
        if kind == 'opt':
            if all(p.is_fixed for p in leafs(h.m).values()):
                continue

            def cb():
                w.gradient(w.take('step'), 'optimisation step')
            do_optimize(h, op, callback=cb)
            CTX.record = []
            if not h.sane():
                settle(h, i)
                w.take('settle')
        elif kind == 'fail':
            box = SeamInjector(1 + int(op['frac'] * (
                8 + 6 * cfg['trace'])), op['exc'])
            try:
                with box:
                    do_edit(h, op['edit'])
            except BaseException as e:  # pylint: disable=broad-except
                if not is_injected(e):
                    raise
                out.probe('failed-updates')
                # what it had drawn must not be seen again either
                seen = [r['b'] for r in CTX.record
                        if np.all(np.abs(r['b']) == 1)]
                if len(h.spec.y) >= 40:
                    w.last = (w.last or []) + [
                        (b * b[0]).tobytes() for b in seen]
            CTX.record = []
            settle(h, i)
            w.gradient(w.take('after failure'), 'failed update')
        elif kind == 'fix':
            apply(h, op)
            if CTX.record:
                w.gradient(w.take(kind), kind)
        else:
            if not any(free(p) for p in leafs(h.m).values()):
                continue
            apply(h, op)
            if CTX.record:
                w.gradient(w.take('edit'), 'edit ' + op['how'])
    drawn = list(w.all)
    # the probes come from the global generator: equal state, equal probes
    probes = []
    for s in (plan['seed'] % 99991, plan['seed'] % 99991,
              plan['seed'] % 99991 + 1):
        h.state = np.random.RandomState(s).get_state()
        w.last = None
        CTX.record = []
        settle(h, 1)
        got = w.take('seeded')
        if got is None:
            return
        probes.append(sorted(b.tobytes() for b in got))
        before = np.random.RandomState(s).get_state()
        must(not (np.array_equal(before[1], h.state[1]) and
                  before[2] == h.state[2]),
             'an update drew nothing from the global generator')
    if any(free(p) for p in leafs(h.m).values()):
        must(probes[0] == probes[1],
             'equal generator state gave different probes')
        if len(h.spec.y) * cfg['trace'] >= 45:
            must(probes[0] != probes[2],
                 'different generator state gave equal probes')
        out.ok(2)
    if len(drawn) * len(h.spec.y) >= 400:
        fairness(np.array(drawn), cfg['lens'], out)
    for b in drawn[:3]:
        out.see(b)
