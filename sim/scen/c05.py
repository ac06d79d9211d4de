"""C05: the same seeded history with and without observers."""
import io
import contextlib
import logging
import random

import numpy as np

from ..world import *  # noqa
from ..world import split
from ..seams import CTX

RUNS = dict(quick=84, thorough=1900)
RULE = ('a run executes one seeded history twice on equal models with equal '
        'numpy streams: plain, and with observers (metrics, DEBUG logging to '
        'a sink, verbosity, callbacks that query the model at seeded steps, '
        'printing, reading gradients and optimiser state) at seeded points; '
        'non-trivial: at least one observation was made and states compared; '
        'distinct by observer placement and operation sequence')
STUB = []

LOOKS = ('predict', 'quantiles', 'K', 'log_det', 'quad', 'loglik', 'str',
         'gradient', 'optarr', 'objective', 'objgrad', 'fingerprint',
         'repr-params', 'metrics', 'kern', 'flattened', 'mode-tour')


def gen_looks(rng, cfg, n):
    out = []
    for _ in range(n):
        k = rng.choice(LOOKS)
        op = dict(look=k, q=k, op='query')
        if k in ('predict', 'quantiles', 'mode-tour'):
            op['x'] = gen_batch(rng, cfg)
            op['qs'] = [5., 95.]
        out.append(op)
    return out


def plan(rng, tier):
    cfg = gen_config(rng, metrics=False, allow2d=rng.random() < 0.5)
    obs = dict(metrics=rng.random() < 0.4, debug=rng.random() < 0.4,
               verb=rng.choice((0, 0, 1, 3, 100)))
    ops = []
    for _ in range(rng.randrange(2, 6)):
        r = rng.random()
        if r < 0.45:
            op = gen_edit(rng, cfg)
            if rng.random() < 0.25:
                op['how'] = 'wide'
        elif r < 0.55:
            op = dict(op='fix', pick=rng.randrange(1 << 20),
                      what=rng.choice(('fix', 'unfix', 'prior')))
        else:
            op = dict(op='opt', its=rng.choice((1, 2, 3, 4, 6)),
                      start=rng.random() < 0.2,
                      rate=rng.choice((0.05, 0.3)),
                      ratio=rng.choice((0., 0., 0.6, 0.9)),
                      drops=rng.choice((1, 1, 2)))
            # the callback looks at these steps
            op['cb'] = [[rng.randrange(4), gen_looks(rng, cfg, 1)[0]]
                        for _ in range(rng.choice((0, 1, 2, 3)))]
        op['looks'] = gen_looks(rng, cfg, rng.choice((0, 1, 1, 2)))
        ops.append(op)
    ops.append(dict(op='opt', its=2, rate=0.1, cb=[], looks=[]))
    return dict(cfg=cfg, obs=obs, ops=ops,
                tail=gen_looks(rng, cfg, rng.choice((0, 2, 4))),
                x=gen_batch(rng, cfg), seed=rng.randrange(1 << 30))


def look(h, op, out):
    """An observation.  Runs in the numpy stream of the model."""
    m, k = h.m, op['look']
    out.probe('look-' + k)
    if k in QUERIES:
        if 'x' in op and h.mode == 'precompute' and split(h.cfg):
            return
        ask(h, op)
    elif k == 'mode-tour':
        old = m.prediction
        for mode in usable_modes(h.cfg):
            m.prediction = mode
            with h.rng(edit=False):
                m.predict(batch_arrays(h.cfg, op['x']))
        m.prediction = old
    with h.rng(edit=False):
        if k == 'str':
            str(m), str(m.kern)
        elif k == 'gradient':
            np.array(m.gradient)
        elif k == 'optarr':
            np.array(m.optimizer_array)
        elif k == 'objective':
            m.objective_function()
        elif k == 'objgrad':
            m.objective_function_gradients()
        elif k == 'fingerprint':
            h.fingerprint()
        elif k == 'repr-params':
            for p in leafs(m).values():
                str(p), repr(p.values)
        elif k == 'metrics':
            if m.metrics is not None:
                {a: list(b) for a, b in vars(m.metrics).items()}
        elif k == 'kern':
            fk = m.kern
            fk.noise, fk.coreg_vecs, fk.coreg_diags, fk.coreg_mats(), fk.Q
        elif k == 'flattened':
            list(m.flattened_parameters), m.parameter_names()


class Sink(logging.Handler):
    n = 0

    def emit(self, record):
        Sink.n += 1
        self.format(record)


def history(plan, watched, out):
    cfg = dict(plan['cfg'])
    obs = plan['obs']
    if watched:
        cfg['metrics'] = obs['metrics']
    log = logging.getLogger('runlmc')
    sink = Sink()
    if watched and obs['debug']:
        log.addHandler(sink)
        log.setLevel(logging.DEBUG)
    try:
        h = Handle(cfg)
        settle(h, cfg['init_seed'])
        seen = [('built', h.fingerprint())]
        for i, op in enumerate(plan['ops']):
            op = dict(op)
            if watched:
                for lk in op['looks']:
                    look(h, lk, out)
            if op['op'] == 'opt':
                if watched:
                    op['verb'] = obs['verb']
                step = [0]
                path = []

                def cb():
                    path.append(np.array(h.m.param_array))
                    if watched:
                        for at, lk in op['cb']:
                            if at == step[0]:
                                look(h, lk, out)
                    step[0] += 1
                if all(p.is_fixed for p in leafs(h.m).values()):
                    continue
                do_optimize(h, op, callback=cb)
                seen.append(('optimisation path', path))
                if not h.sane():
                    settle(h, 3)
            else:
                apply(h, op, keep_sane=op.get('how') != 'wide')
            seen.append(('state after ' + op['op'], h.fingerprint()))
        if watched:
            for lk in plan.get('tail', ()):
                look(h, lk, out)
        if not h.sane():
            settle(h, 4)
        for mode in usable_modes(cfg):
            h.m.prediction = h.mode = mode
            seen.append(('prediction', ask(h, dict(q='predict',
                                                   x=plan['x']))))
        for q in ('K', 'log_det', 'quad', 'loglik'):
            seen.append((q, ask(h, dict(q=q))))
        seen.append(('objective', float(h.m.objective_function())))
        seen.append(('numpy stream', [h.state[1], h.state[2]]))
        return seen
    finally:
        log.removeHandler(sink)
        log.setLevel(logging.NOTSET)


def run(plan, out):
    out.sig = plan['ops'] + [plan['obs']]
    order = plan['seed'] % 2
    a = history(plan, bool(order), out)
    b = history(plan, not order, out)
    if order:
        a, b = b, a
    must(len(a) == len(b), 'watched history length', '%d %d' % (
        len(a), len(b)))
    for (n, x), (_, y) in zip(a, b):
        out.see(y)
        tight = n in ('K', 'log_det')
        same(y, x, 'watched ' + n, 1e-10 if tight else 1e-7,
             1e-11 if tight else 1e-8)
        out.ok()
