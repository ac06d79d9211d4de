"""C09: the optimiser stops by its rule and reports every step."""
import io
import contextlib
import random

import numpy as np

from ..world import *  # noqa
from ..seams import CTX, SeamInjector, make_exc, is_injected

RUNS = dict(quick=420, thorough=16000)
RULE = ('a run is a seeded sequence of optimisation runs on models that '
        'serve scripted gradients and failing evaluations (or on a real '
        'model with injected solver failures), with reused optimiser '
        'objects, nested runs and aborts; every gradient handed to the '
        'optimiser and every callback is recorded and replayed through an '
        'independent AdaDelta recurrence and stopping rule; non-trivial: at '
        'least one optimisation run was checked; distinct by settings, '
        'script and faults')
STUB = ['likelihood of the scripted models (gradients come from the plan)']
ASSUME = ('evaluations that fail more than ten times in a row end the run '
          '(paramz)', 'max_it and permitted_drops are at least 1')

DEFAULT = dict(step_rate=1, decay=0.9, momentum=0.5, offset=1e-4, max_it=100,
               min_grad_ratio=0.1, permitted_drops=5)


def gen_opt(rng):
    o = dict(step_rate=rng.choice((0.05, 0.3, 1, 2.)),
             decay=rng.choice((0.5, 0.9, 0.99)),
             momentum=rng.choice((0, 0.5, 0.5, 0.9)),
             offset=rng.choice((1e-4, 1e-4, 1e-2, 1e-7)),
             max_it=rng.choice((1, 2, 3, 5, 9, 9, 20, 20, 40, 40, 75)),
             min_grad_ratio=rng.choice((0., 0.1, 0.25, 0.5, 0.5, 0.9, 1.,
                                        1.5)),
             permitted_drops=rng.choice((1, 1, 2, 3, 5, 8)),
             verbosity=rng.choice((0, 0, 0, 1, 3, 100)))
    for k in rng.sample(sorted(o), rng.choice((0, 0, 0, 1, 3))):
        if k != 'max_it' or rng.random() < 0.2:
            del o[k]
    return o


def gen_script(rng, n):
    """gradient magnitudes and failures; the last entries repeat"""
    kind = rng.choice(('flat', 'decay', 'spike', 'zero', 'mix', 'mix', 'tie',
                       'grow', 'late'))
    out = []
    for i in range(n):
        if kind == 'flat':
            s = 1.
        elif kind == 'decay':
            s = 0.8 ** i
        elif kind == 'spike':
            s = 64. if i == n // 3 else 1.
        elif kind == 'zero':
            s = 1. if i < 3 or rng.random() < 0.2 else 0.
        elif kind == 'tie':
            s = rng.choice((1., .5, .5, .25, 2.))
        elif kind == 'grow':
            s = 1.5 ** min(i, 30) * rng.choice((1., 1., .1))
        elif kind == 'late':
            s = 1. if i < n * 2 // 3 else rng.choice((0.01, 0.5))
        else:
            s = 10 ** rng.uniform(-4, 3)
        out.append(s)
    fails = []
    r = rng.random()
    if r < 0.35:
        for _ in range(rng.randrange(1, 4)):
            a = rng.randrange(1, n)
            fails += list(range(a, min(n, a + rng.choice((1, 1, 2, 5, 10)))))
    elif r < 0.45:
        a = rng.randrange(1, max(2, n // 2))
        fails = list(range(a, a + 14))
    return dict(s=out, fails=sorted(set(fails)),
                exc=rng.choice(('LinAlgError', 'ValueError',
                                'ZeroDivisionError')))


def plan(rng, tier):
    real = rng.random() < 0.1
    nm = 1 if real else rng.choice((1, 1, 2, 3))
    models = []
    for _ in range(nm):
        size = rng.randrange(1, 6)
        if rng.random() < 0.08:
            size = rng.randrange(8, 16)
        models.append(dict(
            size=size,
            con=[rng.choice(('none', 'none', 'none', 'pos', 'fix'))
                 for _ in range(size)],
            start=[rng.uniform(0.3, 2.5) for _ in range(size)],
            dirs=rng.choice(('one', 'tie', 'rand'))))
        if all(c == 'fix' for c in models[-1]['con']):
            models[-1]['con'][0] = 'none'
    p = dict(models=models, real=real, nopt=rng.choice((1, 1, 2)),
             opts=[gen_opt(rng) for _ in range(2)])
    if real:
        p['cfg'] = gen_config(rng, allow2d=False, simple=True)
        p['cfg']['kernels'][0]['type'] = 'rbf'
        for o in p['opts']:
            o['max_it'] = rng.choice((2, 4, 8))
    ops = []
    far = not real and rng.random() < 0.07     # long runs
    if far:
        for o in p['opts']:
            o.update(max_it=rng.choice((130, 180, 260)),
                     permitted_drops=rng.choice((3, 8, 40, 100)))
    for _ in range(rng.choice((1, 2, 2, 3, 4)) if not far else 1):
        op = dict(m=rng.randrange(nm), o=rng.randrange(p['nopt']),
                  script=gen_script(rng, rng.choice((6, 14, 45, 45, 90)) if not far
                                    else rng.choice((90, 150, 300))),
                  seed=rng.randrange(1 << 30))
        if rng.random() < 0.25:
            op['start'] = [rng.uniform(-1, 2) for _ in range(30)]
        r = rng.random()
        if r < 0.15:
            op['abort'] = [rng.randrange(1, 12), rng.choice(
                ('KeyboardInterrupt', 'RuntimeError', 'MemoryError',
                 'LinAlgError', 'StopIteration', 'KeyError', 'IndexError',
                 'GeneratorExit', 'SystemExit', 'OSError', 'ValueError',
                 'FloatingPointError', 'ZeroDivisionError'))]
        elif r < 0.25:
            op['nest'] = [rng.randrange(1, 8), rng.random() < 0.5]
        ops.append(op)
    p['ops'] = ops
    if rng.random() < 0.3:
        p['clock'] = rng.randrange(1, 1 << 30)   # clocks jump during the run
    return p


def scripted_class():
    from runlmc.models.multigp import MultiGP
    from runlmc.parameterization.param import Param

    class Scripted(MultiGP):
        def __init__(self, spec):
            r = np.random.RandomState(3)
            super().__init__([r.rand(3)], [r.rand(3)], name='scripted')
            self.feed = lambda: np.ones(spec['size'])
            self.p = []
            for i, x in enumerate(spec['start']):
                q = Param('p%d' % i, np.array([x]))
                if spec['con'][i] == 'pos':
                    q.constrain_positive(warning=False)
                elif spec['con'][i] == 'fix':
                    q.fix()
                self.p.append(q)
                self.link_parameter(q)

        def parameters_changed(self):
            g = self.feed()
            for i, q in enumerate(self.p):
                q.gradient[:] = g[i]

        def log_likelihood(self):
            return 0.
    return Scripted


class Feed:
    """Serves the script, one entry per evaluation."""

    def __init__(self, model, spec):
        self.model, self.spec = model, spec
        self.i, self.script, self.rng = 0, None, np.random.RandomState(0)
        self.inside = False

    def load(self, script, seed):
        self.i, self.script = 0, script
        self.rng = np.random.RandomState(seed)

    def __call__(self):
        n = self.spec['size']
        if self.script is None or not self.inside:
            return np.full(n, 0.125)
        i, s = self.i, self.script
        self.i += 1
        if i in s['fails']:
            CTX.hit('evaluation ' + s['exc'])
            raise make_exc(s['exc'])
        mag = s['s'][min(i, len(s['s']) - 1)]
        if self.spec['dirs'] == 'one':
            g = np.ones(n)
        elif self.spec['dirs'] == 'tie':
            g = self.rng.choice((-1., 1.), n)
        else:
            g = self.rng.uniform(-1, 1, n)
        return mag * g


class Log:
    """What the optimiser is given and does, for one model."""

    def __init__(self, model, feed=None):
        self.events = []
        self.model = model
        for name in ('_grads', '_objective_grads'):
            real = getattr(model, name)
            setattr(model, name, self._wrap(real, feed))

    def _wrap(self, real, feed):
        def f(x):
            at = np.array(x, dtype=float)
            if feed:
                feed.inside = True
            try:
                r = real(x)
            except BaseException as e:
                self.events.append(('raise', at, e))
                raise
            finally:
                if feed:
                    feed.inside = False
            g = r[1] if isinstance(r, tuple) else r
            self.events.append(('eval', at, np.array(g, dtype=float)))
            return r
        return f


def check_run(kw, start, log, err, final, aborted, out, what):
    """Replay the log through the recurrence and the stopping rule."""
    k = dict(DEFAULT)
    k.update({a: b for a, b in kw.items() if a in DEFAULT})
    gms = sms = step = np.zeros(len(start))
    wrt = np.array(start, dtype=float)
    rolling, drops, n = 0., 0, 0
    stop = None
    i = 0
    ev = log

    def near(a, b):
        # where a positive parameter underflows, its transform saturates
        a, b = np.maximum(a, -600.), np.maximum(b, -600.)
        return a.shape == b.shape and np.all(
            np.abs(a - b) <= 1e-7 * (1e-3 + np.abs(a) + np.abs(b)))
    while i < len(ev):
        must(ev[i][0] != 'cb', 'callback without a step',
             '%s step %d' % (what, n + 1))
        if stop:
            raise Violation('the run went on past its stopping rule',
                            '%s: %s at step %d' % (what, stop, n))
        step1 = step * k['momentum']
        ahead = wrt - step1
        g = None
        while i < len(ev) and ev[i][0] != 'cb':
            must(near(ev[i][1], ahead), 'not the AdaDelta recurrence',
                 '%s step %d: evaluated %s instead of %s' % (
                     what, n + 1, ev[i][1][:3], ahead[:3]))
            if ev[i][0] == 'raise':
                must(err is not None and i == len(ev) - 1,
                     'a failed evaluation was ignored', what)
                out.probe('aborted-by-failures')
                return None
            g = ev[i][2]
            i += 1
        n += 1
        gms = k['decay'] * gms + (1 - k['decay']) * g ** 2
        step2 = np.sqrt(sms + k['offset']) / np.sqrt(gms + k['offset']) * \
            g * k['step_rate']
        wrt = ahead - step2
        step = step1 + step2
        sms = k['decay'] * sms + (1 - k['decay']) * step ** 2
        norm = float(np.abs(g).max())
        rolling = max(rolling, norm)
        if norm < k['min_grad_ratio'] * rolling:
            drops += 1
        if n >= k['max_it']:
            stop = 'max_it'
        elif drops >= k['permitted_drops']:
            stop = 'permitted_drops'
        if i >= len(ev):
            must(err is not None, 'a step without callback',
                 '%s step %d' % (what, n))
            break
        must(near(ev[i][1], ahead) or near(ev[i][1], wrt),
             'callback does not come after the step',
             '%s step %d: model at %s, evaluated %s' % (
                 what, n, ev[i][1][:3], ahead[:3]))
        i += 1
    if err is not None:
        must(aborted, 'optimisation raised', '%s: %r' % (what, err))
        return None
    must(stop, 'the run stopped before its rule', '%s: after step %d of %d, '
         '%d drops of %d' % (what, n, k['max_it'], drops,
                             k['permitted_drops']))
    must(near(final, wrt), 'the model does not hold the last iterate',
         '%s: %s instead of %s' % (what, final[:3], wrt[:3]))
    out.probe('stopped-by-' + stop)
    out.probe('steps', n)
    out.ok()
    return wrt


def run(plan, out):
    from runlmc.models.optimization import AdaDelta
    logs, models, feeds = [], [], []
    if plan.get('clock'):
        CTX.clock_rng = random.Random(plan['clock'])
    if plan['real']:
        h = Handle(plan['cfg'])
        settle(h, 1)
        models = [h.m]
        logs = [Log(h.m)]
    else:
        cls = scripted_class()
        for s in plan['models']:
            m = cls(s)
            f = Feed(m, s)
            m.feed = f
            models.append(m)
            feeds.append(f)
            logs.append(Log(m, f))
    cur = {}

    def callback():
        if cur['depth']:
            cur['inner_log'].events.append(('cb', np.array(
                cur['inner'].optimizer_array)))
            return
        m, log = cur['m'], cur['log']
        log.events.append(('cb', np.array(m.optimizer_array)))
        cur['n'] += 1
        fixed_ok()
        op = cur['op']
        if 'abort' in op and cur['n'] == op['abort'][0]:
            CTX.hit('callback ' + op['abort'][1])
            cur['raised'] = True
            raise make_exc(op['abort'][1])
        if 'nest' in op and cur['n'] == op['nest'][0] and not plan['real']:
            out.probe('nested-runs')
            inner = cls(plan['models'][0])
            ilog = Log(inner)
            cur.update(depth=1, inner=inner, inner_log=ilog)
            o = cur['opt'] if op['nest'][1] else AdaDelta(
                callback=callback, **plan['opts'][1])
            kw = plan['opts'][op['o'] if op['nest'][1] else 1]
            start = np.array(inner.optimizer_array)
            inner.optimize(optimizer=o)
            check_run(kw, start, ilog.events, None,
                      np.array(inner.optimizer_array), False, out, 'nested')
            cur['depth'] = 0

    def fixed_ok():
        for p, v in cur['fixed']:
            must(np.array_equal(np.array(p.values), v),
                 'a fixed parameter moved', p.name)

    opts = [AdaDelta(callback=callback, **plan['opts'][i])
            for i in range(plan['nopt'])]
    for j, op in enumerate(plan['ops']):
        m, log = models[op['m']], logs[op['m']]
        kw = plan['opts'][op['o']]
        log.events.clear()
        start = np.array(m.optimizer_array)
        okw = {}
        if 'start' in op and not plan['real']:
            start = np.array(op['start'][:len(start)])
            okw['start'] = start.copy()
        cur.update(m=m, log=log, n=0, op=op, depth=0, raised=False,
                   opt=opts[op['o']],
                   fixed=[(p, np.array(p.values))
                          for p in m.flattened_parameters if p.is_fixed])
        if feeds:
            feeds[op['m']].load(op['script'], op['seed'])
        out.sig.append((op['o'], kw, op['script'], sorted(op)))
        out.say('run', j, kw, 'fails', op['script']['fails'])
        inj = contextlib.nullcontext()
        fails = op['script']['fails']
        if plan['real'] and fails:
            inj = SeamInjector(fails[0] * 9 + 2, op['script']['exc'])
        err = None
        try:
            with inj, contextlib.redirect_stdout(io.StringIO()):
                m.optimize(optimizer=opts[op['o']], **okw)
        except BaseException as e:  # pylint: disable=broad-except
            if not is_injected(e):
                raise
            err = e
        fixed_ok()
        must(err is not None or not cur['raised'],
             'an exception of the callback was swallowed', op.get('abort'))
        evs = list(log.events)
        # at most ten failing evaluations in a row are tolerated
        aborted = 'abort' in op or (plan['real'] and fails) or (
            evs and evs[-1][0] == 'raise' and too_many(fails))
        check_run(kw, start, evs, err, np.array(m.optimizer_array), aborted,
                  out, 'run %d' % j)
        out.see(np.array(m.param_array))
        if err is not None:
            out.probe('aborted-runs')
            m._fail_count = 0


def too_many(fails):
    run_, last = 0, None
    for f in fails:
        run_ = run_ + 1 if last == f - 1 else 1
        last = f
        if run_ > 10:
            return True
    return False


def shrink(plan):
    from ..core import default_shrink
    yield from default_shrink(plan)
    for i, op in enumerate(plan['ops']):
        for k in ('start', 'nest', 'abort'):
            if k in op:
                q = {a: b for a, b in op.items() if a != k}
                yield dict(plan, ops=plan['ops'][:i] + [q] +
                           plan['ops'][i + 1:])
        if op['script']['fails']:
            q = dict(op, script=dict(op['script'], fails=[]))
            yield dict(plan, ops=plan['ops'][:i] + [q] + plan['ops'][i + 1:])
