"""C11: metrics hold one aligned, true record per update."""
import random

import numpy as np

from ..world import *  # noqa
from ..seams import CTX, SeamInjector, LineInjector, is_injected
from .c01 import gen_pool, use_pool

RUNS = dict(quick=190, thorough=4600)
RULE = ('a run is a seeded history of edits, optimisation runs, queries and '
        'failing or interrupted updates of a model that records metrics; '
        'every update is logged independently (solves at the solver seam, '
        'parameters, dense gradients and likelihood) and all series are '
        'compared after each completed update; non-trivial: at least one '
        'record was compared; distinct by operations, faults and schedule')
STUB = ['multiprocessing.Pool (simulated)']
ASSUME = ('an update interrupted after its record was complete counts as '
          'recorded',)

SERIES = ('iterations', 'grad_norms', 'grad_error', 'solv_error',
          'log_likely')


def plan(rng, tier):
    par = rng.random() < 0.12
    cfg = gen_config(rng, big=par, metrics=True,
                     allow2d=rng.random() < 0.5)
    slow = not par and rng.random() < 0.05
    if slow:
        cfg = slow_config(rng, rng.choice((1e-4, 1e-3, 1e-2)), True)
    ops = []
    for _ in range(rng.randrange(3, 8) if not par and not slow else 3):
        r = rng.random()
        if r < 0.4:
            op = gen_edit(rng, cfg)
        elif r < 0.65:
            op = dict(op='opt', its=rng.choice((1, 2, 3)),
                      start=rng.random() < 0.3,
                      rate=rng.choice((0.05, 0.3)))
        elif r < 0.8:
            op = dict(op='query', **gen_query(rng, cfg))
        else:
            op = dict(op='fix', pick=rng.randrange(1 << 20),
                      what=rng.choice(('fix', 'unfix', 'prior')))
        if op['op'] in ('edit', 'opt') and rng.random() < 0.5:
            how = rng.choice(('seam', 'seam', 'line', 'site', 'site'))
            op['fault'] = dict(
                how=how, frac=rng.random() ** (1 if how == 'seam' else .5),
                exc=rng.choice(('LinAlgError', 'LinAlgError', 'ValueError',
                                'MemoryError', 'KeyboardInterrupt')))
        if slow and op['op'] != 'query':
            op = dict(op='edit', how='low', pick=0, seed=rng.randrange(1 << 30))
        ops.append(op)
    p = dict(cfg=cfg, ops=ops, par=par, seed=rng.randrange(1 << 30))
    if par:
        p['pool'] = gen_pool(rng)
        p['pool']['isolation'] = 'inproc'
    return p


class Book:
    """Independent log of updates."""

    def __init__(self, h, out):
        self.h, self.out = h, out
        self.record = h.m.metrics
        self.want = []             # snapshots of what each entry must be
        self.old = []              # records of earlier runs
        self.fresh = False         # an optimisation run has just begun
        self.real = h.m.parameters_changed
        h.m.parameters_changed = self.update
        n = self.series()
        self.base = {k: list(v) for k, v in n.items()}
        self.want = [{k: v[i] for k, v in n.items()}
                     for i in range(len(n['iterations']))]

    def series(self):
        r = self.h.m.metrics
        must(r is not None, 'metrics disappeared')
        return {k: getattr(r, k) for k in SERIES}

    def start_run(self):
        self.fresh = True

    def _switch(self):
        m = self.h.m
        if self.fresh:
            self.fresh = False
            must(m.metrics is not self.record,
                 'a run continued the record of an earlier one')
            must(all(len(v) == 0 for v in self.series().values()),
                 'a run did not start with empty series')
            self.old.append((self.record, self.want))
            self.record, self.want = m.metrics, []
        must(m.metrics is self.record, 'a new record outside a run')

    def update(self):
        self._switch()
        n = len(self.want)
        before, CTX.record = CTX.record, []
        worst, CTX.worst = CTX.worst, 0.
        try:
            self.real()
        except BaseException:
            s = self.series()
            if all(len(v) == n + 1 for v in s.values()):
                self.want.append({k: v[n] for k, v in s.items()})
            self.out.probe('failed-updates')
            raise
        finally:
            recs, CTX.record = CTX.record, before
            local = CTX.worst
            CTX.worst = max(worst, local)
        s = self.series()
        lens = {k: len(v) for k, v in s.items()}
        must(set(lens.values()) == {n + 1},
             'not one entry per update in each series',
             '%s after %d updates' % (lens, n + 1))
        self.truth({k: v[n] for k, v in s.items()}, recs, local)
        self.want.append({k: v[n] for k, v in s.items()})
        self.compare()
        self.out.ok()

    def truth(self, got, recs, local):
        h, out = self.h, self.out
        its = [r['its'][0] for r in recs]
        res = [r['res'] for r in recs if 'res' in r]
        if len(res) != len(recs) or len(recs) != 1 + h.cfg['trace']:
            out.probe('solves-not-seen')
            return
        must_close(got['iterations'], np.mean(its),
                   'metrics: mean iterations', 1e-9, 1e-12)
        must_close(got['solv_error'], np.mean(res),
                   'metrics: mean solve residual', 1e-3, 1e-11)
        if not h.sane():
            return
        ref = h.ref()
        must_close(got['log_likely'], ref.loglik(), 'metrics: log likelihood',
                   1e-6, 2e-5 + 2 * local / np.min(
                       h.vals()['noise']) * ref.ynorm())
        y = h.spec.y
        probes = [r['b'] for r in recs[1:]]
        if not np.allclose(recs[0]['b'], y):
            at = [i for i, r in enumerate(recs) if np.allclose(r['b'], y)]
            if len(at) != 1:
                return
            probes = [r['b'] for i, r in enumerate(recs) if i != at[0]]
        approx = ref.gradient(probes, everything=True)
        exact = ref.exact_gradient(everything=True)
        keys = sorted(approx)
        a = np.array([approx[k] for k in keys])
        e = np.array([exact[k] for k in keys])
        sl = local / float(np.min(h.vals()['noise']))
        if not sl < 1e-3:
            return
        bound = 2 * ref.gradient_slack(sl)
        must_close(got['grad_norms'], np.abs(a).max(),
                   'metrics: gradient norm', 1e-5, 1e-6 + bound)
        ne = np.abs(e).max()
        if ne > 1e-3:
            must_close(got['grad_error'], np.abs(a - e).max() / ne,
                       'metrics: relative gradient error', 1e-4,
                       (1e-5 + 4 * bound) / ne + 1e-6)
        out.probe('records-verified')

    def compare(self):
        s = self.series()
        for i, w in enumerate(self.want):
            for k in SERIES:
                must(len(s[k]) > i and s[k][i] == w[k] or
                     s[k][i] != s[k][i] and w[k] != w[k],
                     'a recorded entry changed or was shifted',
                     '%s[%d]' % (k, i))
        for rec, want in self.old:
            for k in SERIES:
                v = getattr(rec, k)
                # what a last, failed update left behind is no entry
                must([x[k] for x in want] == list(v)[:len(want)] and
                     len(v) <= len(want) + 1,
                     'the record of an earlier run changed', k)


def run(plan, out):
    if plan['par']:
        use_pool(plan['pool'])
    cfg = plan['cfg']
    h = Handle(cfg, max_procs=plan['pool']['procs'] if plan['par'] else 1)
    book = Book(h, out)
    settle(h, plan['seed'])
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        f = op.get('fault')
        out.sig.append((kind, f and (f['how'], f['exc'])))
        out.say(i, op)
        if kind == 'opt':
            if all(p.is_fixed for p in leafs(h.m).values()):
                continue
            book.start_run()
        inj = None
        if f:
            est = 9 + 3 * cfg['trace'] + 20 * len(cfg['kernels'])
            if kind == 'opt':
                est *= op['its'] + 1
            if f['how'] == 'seam':
                inj = SeamInjector(1 + int(f['frac'] * est), f['exc'])
            elif f['how'] == 'site':
                inj = LineInjector(None, f['exc'],
                                   site=[1 + int(f['frac'] * 330), 1])
            else:
                inj = LineInjector(1 + int(f['frac'] * est * 20), f['exc'])
        try:
            if inj:
                with inj:
                    apply(h, op, keep_sane=False)
            else:
                apply(h, op, keep_sane=False)
        except BaseException as e:  # pylint: disable=broad-except
            if not is_injected(e):
                raise
            out.probe('operations-failed')
        if kind == 'opt':
            book._switch()
        book.compare()
        if not h.sane():
            settle(h, i)
            if not h.sane():
                raise Skip('fixed at an extreme value')
    settle(h, plan['seed'] + 1)
    book.compare()
    for k in SERIES:
        out.see(np.array(getattr(h.m.metrics, k)))
