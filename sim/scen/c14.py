"""C14: caller arrays are never modified and results are independent."""
import random

import numpy as np

from ..world import *  # noqa
from ..seams import CTX, SeamInjector, LineInjector, is_injected
from .c01 import gen_pool, use_pool

RUNS = dict(quick=200, thorough=4600)
RULE = ('a run is a seeded history of construction, edits, optimisation, '
        'mode switches and queries, some failing half-way, in which every '
        'array, list and dictionary handed over is compared byte for byte '
        'with a snapshot (some are read-only or views of larger buffers, '
        'whose rest must not change either) and every returned array is '
        'overwritten or watched at seeded points; later answers are '
        'compared with the reference; non-trivial: at least one query was '
        'overwritten and the model asked again; distinct by operations, '
        'scribbles and faults')
STUB = ['multiprocessing.Pool (simulated) in a tenth of the runs']
ASSUME = ('the model keeps the training arrays it is given (documented), so '
          'the harness does not overwrite those itself',)


def plan(rng, tier):
    par = rng.random() < 0.06
    cfg = gen_config(rng, big=par, metrics=rng.random() < 0.1)
    ops = []
    for _ in range(rng.randrange(4, 10) if not par else 4):
        r = rng.random()
        if r < 0.5:
            op = dict(gen_query(rng, cfg), op='query',
                      scribble=rng.choice(('nan', 'zero', 'big', 'keep',
                                           'later')),
                      arr=rng.choice(('plain', 'ro', 'view', 'F', 'same')))
        elif r < 0.68:
            op = dict(op='edit', how=rng.choice(('leaf', 'all', 'optarr',
                                                 'start', 'fkattr')),
                      pick=rng.randrange(1 << 20),
                      seed=rng.randrange(1 << 30),
                      arr=rng.choice(('plain', 'ro', 'view')))
        elif r < 0.8:
            op = dict(op='mode', to=rng.choice(usable_modes(cfg)))
        elif r < 0.9:
            op = dict(op='opt', its=rng.randrange(1, 3), rate=0.1)
        else:
            op = dict(op='util', which=rng.randrange(4),
                      seed=rng.randrange(1 << 30))
        if op['op'] in ('query', 'edit', 'opt') and rng.random() < 0.25:
            op['fault'] = dict(
                how=rng.choice(('seam', 'line', 'site')), frac=rng.random(),
                exc=rng.choice(('LinAlgError', 'MemoryError',
                                'KeyboardInterrupt')))
        ops.append(op)
    p = dict(cfg=cfg, ops=ops, par=par, seed=rng.randrange(1 << 30),
             train=rng.choice(('plain', 'ro', 'view')),
             opts=rng.choice(('list', 'array', 'ro', '0d')))
    if par:
        p['pool'] = gen_pool(rng)
    return p


class Watch:
    """Snapshots of what the caller owns."""

    def __init__(self, out):
        self.items = []
        self.out = out

    def hand(self, x, name, how='plain'):
        """a caller-owned array of the wanted kind, watched"""
        x = np.asarray(x)
        if how == 'view':
            pad = [(2, 3)] + [(0, 0)] * (x.ndim - 1)
            buf = np.pad(x, pad, mode='constant', constant_values=7)
            self.add(buf, name + ' (buffer)')
            x = buf[2:len(buf) - 3]
        elif how == 'F':
            x = np.asfortranarray(x)
        elif how == 'ro':
            x = x.copy()
            x.flags.writeable = False
        else:
            x = x.copy() if x.base is None else x
        self.add(x, name)
        return x

    def add(self, x, name):
        if isinstance(x, np.ndarray):
            self.items.append((x, name, (x.dtype, x.shape, x.strides,
                                         x.tobytes(),
                                         x.flags.writeable)))
        elif isinstance(x, dict):
            self.items.append((x, name, dict(x)))
        else:
            self.items.append((x, name, [(id(y), repr(y)[:200])
                                         for y in x]))
        return x

    def check(self, what):
        for x, name, snap in self.items:
            if isinstance(x, np.ndarray):
                ok = (x.dtype, x.shape, x.strides, x.tobytes(),
                      x.flags.writeable) == snap
            elif isinstance(x, dict):
                ok = x == snap
            else:
                ok = [i for i, _ in snap] == [id(y) for y in x]
            must(ok, "the caller's %s was modified" % name, what)
        self.out.ok()


def flat_arrays(ans):
    if isinstance(ans, np.ndarray):
        return [ans]
    if isinstance(ans, (list, tuple)):
        return [a for x in ans for a in flat_arrays(x)]
    return []


def scribble(ans, how):
    for a in flat_arrays(ans):
        if not a.flags.writeable:
            continue
        a[...] = {'nan': np.nan, 'zero': 0., 'big': 1e6}[how]
    if isinstance(ans, list):
        for x in ans:
            if isinstance(x, list):
                x.reverse()


def make_model(plan, w):
    """The model, from watched arguments."""
    from runlmc.lmc.functional_kernel import FunctionalKernel
    from runlmc.models.interpolated_llgp import InterpolatedLLGP
    cfg = plan['cfg']
    Xs, Ys = gen_data(cfg)
    how = plan['train']
    if how == 'plain':
        for x in Xs + Ys:
            w.add(x, 'training data')
            if x.base is not None:
                w.add(x.base, 'training data (buffer)')
    else:
        Xs = [w.hand(x, 'training inputs', how) for x in Xs]
        Ys = [w.hand(y, 'training outputs', how) for y in Ys]
    w.add(Xs, 'list of inputs')
    w.add(Ys, 'list of outputs')
    by = {'lmc': [], 'slfm': [], 'indep': []}
    for k in cfg['kernels']:
        by[k['kind']].append(k)
    kw = dict(lmc_kernels=[make_kernel(k) for k in by['lmc']],
              lmc_ranks=[k['rank'] for k in by['lmc']])
    if by['slfm']:
        kw['slfm_kernels'] = [make_kernel(k) for k in by['slfm']]
    if by['indep']:
        kw['indep_gp'] = [make_kernel(k) for k in by['indep']]
        kw['indep_gp_index'] = [k['out'] for k in by['indep']]
    for k, v in kw.items():
        w.add(v, k)
    fk = FunctionalKernel(D=cfg['D'], **kw)

    def opt(v, name, dtype):
        if v is None or (np.isscalar(v) and plan['opts'] == 'list'):
            return v
        if np.isscalar(v) and plan['opts'] == '0d':
            return w.add(np.array(v, dtype=dtype), name)
        a = np.atleast_1d(np.array(v, dtype=dtype))
        if plan['opts'] == 'list':
            v = [dtype(x) for x in a]
            w.add(v, name)
            return v
        return w.hand(a, name, 'ro' if plan['opts'] == 'ro' else 'plain')
    args = dict(normalize=cfg['normalize'], lo=opt(cfg['lo'], 'lo', float),
                hi=opt(cfg['hi'], 'hi', float), m=opt(cfg['m'], 'm', int),
                metrics=cfg['metrics'], prediction=cfg['mode'],
                max_procs=plan['pool']['procs'] if plan['par'] else 1,
                trace_iterations=cfg['trace'], tolerance=cfg['tolerance'])
    m = InterpolatedLLGP(Xs, Ys, functional_kernel=fk, **args)
    return m


def fault_box(f, cfg, factor):
    if not f:
        return contextlib.nullcontext()
    n = int((12 + 4 * cfg['trace']) * factor)
    if f['how'] == 'seam':
        return SeamInjector(1 + int(f['frac'] * n), f['exc'])
    if f['how'] == 'site':
        return LineInjector(None, f['exc'],
                            site=[1 + int(f['frac'] * 110 * factor), 1])
    return LineInjector(1 + int(f['frac'] * 25 * n), f['exc'])


def query(h, op, w, kept, plan, buf):
    """Ask with watched arguments."""
    m, cfg = h.m, h.cfg
    if 'x' not in op:
        return ask(h, op)
    Xs = batch_arrays(cfg, op['x'])
    if op['arr'] == 'same':
        # the caller reuses one buffer for all its queries
        out = []
        for d, x in enumerate(Xs):
            key = (d, x.shape)
            if key not in buf:
                buf[key] = np.empty_like(x)
            buf[key][...] = x
            out.append(buf[key])
        Xs = out
        loc = Watch(w.out)
        for x in Xs:
            loc.add(x, 'query points')
    else:
        Xs = [w.hand(x, 'query points', op['arr']) for x in Xs]
        loc = w
    lst = list(Xs)
    loc.add(lst, 'list of query points')
    with h.rng(edit=False):
        if op['q'] == 'predict':
            mu, var = m.predict(lst)
            ans = [list(mu), list(var)]
        else:
            qs = np.array(op['qs'])
            if plan['opts'] == 'list':
                qs = list(op['qs'])
                loc.add(qs, 'quantiles')
            else:
                qs = loc.hand(qs, 'quantiles', 'ro')
            ans = list(m.predict_quantiles(lst, qs))
    loc.check('query')
    for a in flat_arrays(ans):
        for x in lst:
            must(not np.shares_memory(a, x),
                 'a result shares memory with the query points', op['q'])
    return ans


def edit(h, op, w):
    from runlmc.models.optimization import AdaDelta
    r = random.Random(op['seed'])
    ls = leafs(h.m)
    names = sorted(n for n in ls if free(ls[n]))
    name = names[op['pick'] % len(names)]
    p = ls[name]
    m = h.m
    how = op['how']
    with h.rng():
        if how == 'leaf':
            v = w.hand(draw_value(r, name, p.shape), 'value', op['arr'])
            p[:] = v
        elif how == 'all':
            v = w.hand(np.concatenate([
                draw_value(r, n, q.shape).ravel() if free(q)
                else np.array(q.values).ravel()
                for n, q in ls.items()]), 'parameter vector', op['arr'])
            m[:] = v
        elif how in ('optarr', 'start'):
            x = np.array(m.optimizer_array)
            v = w.hand(x + np.array([r.uniform(-.2, .2) for _ in x]),
                       'optimiser vector', op['arr'])
            if how == 'optarr':
                m.optimizer_array = v
            else:
                kw = w.add(dict(max_it=2, step_rate=0.05,
                                callback=lambda: None), 'options')
                o = AdaDelta(**kw)
                quiet(m.optimize, optimizer=o, start=v)
                # and what the optimiser reports is the caller's to change
                if isinstance(o.x_opt, np.ndarray):
                    o.x_opt[...] = np.nan
        else:
            v = w.hand(draw_value(r, 'noise', (h.cfg['D'],)), 'noise',
                       op['arr'])
            h.m.kern.noise = v
    # the caller may do with its array what it likes
    if isinstance(v, np.ndarray) and v.flags.writeable:
        w.check('edit ' + how)
        w.items = [it for it in w.items
                   if it[0] is not v and it[0] is not v.base]
        v[...] = np.nan


def util(op, w):
    """Helpers a user may call directly."""
    from runlmc.approx.interpolation import (autogrid, multi_interpolant,
                                             interp_cubic)
    from runlmc.approx.iterative import Iterative
    from .c10 import make_system, gen_system
    r = random.Random(op['seed'])
    nr = np.random.RandomState(op['seed'])
    if op['which'] == 0:
        P = r.choice((1, 2))
        Xs = [w.hand(nr.rand(r.randrange(3, 9), P), 'inputs', r.choice(
            ('plain', 'ro', 'view', 'F'))) for _ in range(2)]
        lo, hi = (w.hand(np.array([r.choice(c) for _ in range(P)]), n,
                         r.choice(('plain', 'ro', 'view')))
                  for n, c in (('lo', (-.5, .6)), ('hi', (1.5, .4))))
        m = w.hand(np.full(P, r.choice((6, 5.))), 'm', 'plain')
        a = autogrid(w.add(list(Xs), 'list'), r.choice((None, lo)),
                     r.choice((None, hi)), r.choice((None, m)))
        W = multi_interpolant(list(Xs), *[w.hand(g, 'grid', 'ro')
                                          for g in a])
        must(W.shape[0] == sum(map(len, Xs)), 'interpolant rows')
    elif op['which'] == 1:
        g = w.hand(np.linspace(0, 1, r.randrange(5, 12)), 'grid', 'ro')
        x = w.hand(nr.rand(7), 'samples', 'ro')
        a, b = interp_cubic(g, x), interp_cubic(g, x)
        a.data[...] = np.nan
        must(np.all(np.isfinite(b.toarray())), 'interpolants share memory')
    else:
        s = gen_system(r)
        s['n'] = min(s['n'], 20)
        s['cond'] = min(s['cond'], 100.)
        K, A, y = make_system(s)
        y = w.hand(y, 'vector', r.choice(('plain', 'ro', 'view')))
        if op['which'] == 2:
            a = Iterative.solve(K, y)
            keep = np.array(a)
            a[...] = np.nan
            b = Iterative.solve(K, y)
            must_close(b, keep, 'solve after its result was overwritten',
                       1e-9, 1e-12)
        else:
            for f, v in ((K.matvec, y), (K.matmat, w.hand(
                    nr.rand(len(y), 3), 'matrix', 'ro'))):
                a = f(v)
                must(not np.shares_memory(a, v), 'product shares memory')
                must_close(a, A.dot(v), 'product', 1e-8, 1e-9)
                a[...] = np.nan
                must_close(f(v), A.dot(v), 'product after its result was '
                           'overwritten', 1e-8, 1e-9)


def run(plan, out):
    if plan['par']:
        use_pool(plan['pool'])
    cfg = plan['cfg']
    w = Watch(out)
    h = Handle(cfg, model=0)
    with h.rng():
        h.m = make_model(plan, w)
    w.check('construction')
    settle(h, cfg['init_seed'])
    w.check('first update')
    kept, buf = [], {}
    rng = random.Random(plan['seed'])
    asked = 0
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        f = op.get('fault')
        out.sig.append((kind, op.get('how'), op.get('scribble'),
                        op.get('arr'), bool(f)))
        out.say(i, op)
        what = 'op %d %s %s' % (i, kind, op.get('q') or op.get('how') or '')
        if kind == 'query' and 'x' in op and h.mode == 'precompute' and \
                split(cfg):
            continue
        ans = None
        try:
            with fault_box(f, cfg, 1 if kind == 'query' else 3):
                if kind == 'query':
                    ans = query(h, op, w, kept, plan, buf)
                elif kind == 'edit':
                    edit(h, op, w)
                elif kind == 'util':
                    util(op, w)
                else:
                    apply(h, op, keep_sane=False)
        except BaseException as e:  # pylint: disable=broad-except
            if not is_injected(e):
                raise
            out.probe('failed-operations')
        w.check(what)
        for a, s, name in kept:
            must(a.tobytes() == s, 'an earlier result changed', '%s: %s'
                 % (what, name))
        if not h.sane():
            settle(h, i)
            if not h.sane():
                raise Skip('extreme')
        if ans is not None:
            check_answer(h, op, ans)
            if op['scribble'] in ('nan', 'zero', 'big'):
                scribble(ans, op['scribble'])
                again = ask(h, op)
                check_answer(h, op, again, what='after overwriting the '
                             'result of')
                scribble(again, 'nan')
                out.ok()
                asked += 1
            else:
                for a in flat_arrays(ans):
                    kept.append((a, a.tobytes(), op['q']))
                if op['scribble'] == 'later':
                    a2 = ask(h, op)
                    scribble(a2, 'big')
                    for a, s, name in kept:
                        must(a.tobytes() == s, 'results share memory', name)
    audit(h, rng, 'at the end')
    w.check('end')
    for a, s, name in kept:
        must(a.tobytes() == s, 'an earlier result changed', name)
    out.see(np.array(h.m.param_array))
    out.ok(1)
