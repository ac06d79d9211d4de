"""Configurations, handles (real model + reference) and comparison."""
import contextlib
import gc
import io
import logging
import random

import numpy as np

from . import seams
from .seams import CTX
from .ref import Spec, Ref

MODES = ('on-the-fly', 'precompute', 'exact')


class Violation(Exception):
    def __init__(self, what, detail=''):
        super().__init__('%s: %s' % (what, detail))
        self.what, self.detail = what, str(detail)


class Skip(Exception):
    """The run says nothing (numerically unusable configuration)."""


# ------------------------------------------------------------- configuration

def gen_config(rng, big=False, types=('rbf', 'matern32', 'periodic'),
               allow2d=True, simple=False, metrics=None, modes=MODES):
    """A JSON-able model configuration."""
    P = 1
    if allow2d and not big and not simple and rng.random() < 0.2:
        P = rng.choice((2, 2, 3))
    D = rng.choice((1, 2, 2, 3)) if not big else rng.choice((1, 2, 2))
    D = min(D, 2) if P > 1 else D
    wide = not simple and P == 1 and rng.random() < 0.08
    if wide:
        D = rng.choice((4, 5, 6)) if not big else rng.choice((3, 4))
    if big:
        tot = rng.randrange(300, 316)
        if not wide and rng.random() < 0.06:
            tot = rng.choice((420, 520, 640, 1030))
        cut = sorted(rng.sample(range(20, tot - 20), D - 1)) if D > 1 else []
        lens = [b - a for a, b in zip([0] + cut, cut + [tot])]
    else:
        lens = [rng.randrange(4, 11) for _ in range(D)]
        if wide:
            lens = [rng.randrange(3, 7) for _ in range(D)]
        elif not simple and rng.random() < 0.06:
            lens[rng.randrange(D)] = rng.randrange(40, 110)
    kerns = []
    nl = rng.choice((1, 1, 1, 2, 0)) if not simple else 1
    ns = rng.choice((0, 0, 1, 2)) if not simple else 0
    ni = rng.choice((0, 0, 1, D)) if not simple else 0
    if nl + ns + ni == 0:
        ns = 2
    if big and nl + ns + ni > 2:
        nl, ns, ni = rng.choice(((1, 1, 0), (2, 0, 0), (1, 0, 1), (0, 2, 0)))
    if nl + ns + ni > 4 and not wide:
        ns, ni = min(ns, 1), min(ni, 1)
    elif wide and ni == D and not big:
        ns = min(ns, 1)
    dim_sets = [None]
    if P == 2:
        dim_sets = rng.choice(([None], [[0], [1]], [[1]], [None, [0]]))
    elif P == 3:
        dim_sets = rng.choice(([[0, 1], [2]], [[2, 0], [1]], [[0], [2]]))
    for kind, cnt in (('lmc', nl), ('slfm', ns), ('indep', ni)):
        for i in range(cnt):
            t = rng.choice(types)
            k = dict(name='k%d' % len(kerns), type=t, kind=kind,
                     rank=1,
                     dims=rng.choice(dim_sets))
            if kind == 'lmc':
                k['rank'] = rng.choice((1, 1, 2) + (3,) * wide)
                if D > 2 and rng.random() < 0.05:
                    k['rank'] = D + 1      # more than it takes
            if t == 'periodic' and (
                    P > 1 if k['dims'] is None else len(k['dims']) > 1):
                k['type'] = t = 'rbf'    # not positive definite there
            if kind == 'indep':
                k['out'] = i if cnt == D else rng.randrange(D)
            if not simple and rng.random() < 0.12 and t != 'identity':
                k['scaled'] = True
            kerns.append(k)
    cfg = dict(P=P, D=D, lens=lens, kernels=kerns,
               normalize=rng.random() < 0.6,
               data_seed=rng.randrange(1 << 30),
               init_seed=rng.randrange(1 << 30),
               trace=rng.choice((1, 1, 2, 2, 3, 3, 7)) if not big
               else rng.choice((1, 2, 2, 4)),
               tolerance=rng.choice((1e-4, 1e-4, 1e-6, 1e-3)),
               metrics=(rng.random() < 0.15) if metrics is None else metrics,
               max_procs=1, mode=rng.choice(modes),
               layout=rng.choice(('1d', '2d', 'F', 'strided', 'sorted',
                                  'mixed'))
               if P == 1 else rng.choice(('2d', 'F', 'strided')),
               yscale=rng.choice((1., 1., 30., 0.05)),
               xscale=rng.choice((1., 1., 4., 0.2)))
    if P == 1:
        cfg['m'] = rng.choice((None, rng.randrange(6, 14),
                               rng.randrange(5, 12))) \
            if not big else rng.randrange(6, 11)
    else:
        cfg['m'] = [rng.randrange(3, 6) for _ in range(P)]
    r = rng.random()
    cfg['lo'] = cfg['hi'] = None
    if r < 0.25:      # bounds inside the data are widened (documented)
        cfg['lo'] = [rng.choice((-0.3, -0.3, 0.4)) * cfg['xscale']
                     for _ in range(P)]
    if 0.15 < r < 0.35:
        cfg['hi'] = [rng.choice((1.2, 1.2, 0.6)) * cfg['xscale']
                     for _ in range(P)]
    if P == 1 and cfg['lo'] is not None:
        cfg['lo'] = cfg['lo'][0]
    if P == 1 and cfg['hi'] is not None:
        cfg['hi'] = cfg['hi'][0]
    if cfg['mode'] == 'precompute' and split(cfg):
        cfg['mode'] = 'on-the-fly'
    return cfg


def slow_config(rng, tol, metrics=False):
    """A model whose solves take hundreds of iterations after a 'low' edit."""
    c = gen_config(rng, metrics=metrics, simple=True, allow2d=False)
    c.update(D=1, lens=[rng.randrange(130, 190)], m=rng.randrange(60, 90),
             tolerance=tol, trace=rng.choice((1, 2)), mode='on-the-fly',
             lo=None, hi=None, xscale=rng.choice((1., 4.)))
    c['kernels'] = [dict(c['kernels'][0], kind='lmc', rank=1, type='rbf',
                         dims=None)]
    c['kernels'][0].pop('out', None)
    return c


def split(cfg):
    return len({tuple(range(cfg['P'])) if k['dims'] is None
                else tuple(sorted(k['dims'])) for k in cfg['kernels']}) > 1


def usable_modes(cfg):
    return [m for m in MODES if m != 'precompute' or not split(cfg)]


def flat(cfg, layout, d):
    """Inputs of this output are given one-dimensional?"""
    return cfg['P'] == 1 and (layout in ('1d', 'sorted') or (
        layout == 'mixed' and d % 2 == 0))


def gen_data(cfg):
    r = np.random.RandomState(cfg['data_seed'])
    Xs, Ys = [], []
    for d, n in enumerate(cfg['lens']):
        X = r.rand(n, cfg['P']) * cfg['xscale']
        if cfg['layout'] == 'sorted':
            X = np.sort(X, axis=0)
        f = np.sin(4 * X.sum(axis=1) / cfg['xscale'] + d) + 0.3 * r.randn(n)
        Y = f * cfg['yscale'] + (3 * d - 1) * cfg['yscale']
        if not cfg['normalize']:
            Y = f
        lay = cfg['layout']
        if flat(cfg, lay, d):
            X = X.ravel()
        elif lay == 'F':
            X = np.asfortranarray(X)
        elif lay == 'strided':
            big = np.zeros((2 * n, cfg['P'] + 1))
            big[::2, :cfg['P']] = X
            X = big[::2, :cfg['P']]
            yb = np.zeros(3 * n)
            yb[::3] = Y
            Y = yb[::3]
        Xs.append(X)
        Ys.append(Y)
    return Xs, Ys


def make_kernel(k):
    from runlmc.kern.rbf import RBF
    from runlmc.kern.matern32 import Matern32
    from runlmc.kern.std_periodic import StdPeriodic
    from runlmc.kern.identity import Identity
    from runlmc.kern.scaled import Scaled
    dims = None if k['dims'] is None else list(k['dims'])
    cls = {'rbf': RBF, 'matern32': Matern32, 'periodic': StdPeriodic,
           'identity': Identity}[k['type']]
    base = cls(name=k['name'], active_dims=dims)
    return Scaled(base) if k.get('scaled') else base


def make_fk(cfg):
    from runlmc.lmc.functional_kernel import FunctionalKernel
    by = {'lmc': [], 'slfm': [], 'indep': []}
    for k in cfg['kernels']:
        by[k['kind']].append(k)
    kw = {}
    if by['slfm']:
        kw['slfm_kernels'] = [make_kernel(k) for k in by['slfm']]
    if by['indep']:
        kw['indep_gp'] = [make_kernel(k) for k in by['indep']]
        kw['indep_gp_index'] = [k['out'] for k in by['indep']]
    return FunctionalKernel(
        D=cfg['D'], lmc_kernels=[make_kernel(k) for k in by['lmc']],
        lmc_ranks=[k['rank'] for k in by['lmc']], **kw)


def build(cfg, Xs=None, Ys=None, **over):
    """The real model, as a user would build it."""
    from runlmc.models.interpolated_llgp import InterpolatedLLGP
    if Xs is None:
        Xs, Ys = gen_data(cfg)
    kw = dict(normalize=cfg['normalize'], lo=cfg['lo'], hi=cfg['hi'],
              m=cfg['m'], metrics=cfg['metrics'], prediction=cfg['mode'],
              max_procs=cfg['max_procs'], trace_iterations=cfg['trace'],
              tolerance=cfg['tolerance'])
    kw.update(over)
    return InterpolatedLLGP(Xs, Ys, functional_kernel=make_fk(cfg), **kw)


def make_spec(cfg, Xs=None, Ys=None):
    if Xs is None:
        Xs, Ys = gen_data(cfg)
    kernels = []
    for k in cfg['kernels']:
        k = dict(k)
        if k.get('scaled'):
            k['name'] = 'scaled_' + k['name']
        kernels.append(k)
    return Spec(Xs, Ys, kernels, cfg['normalize'], cfg['lo'], cfg['hi'],
                cfg['m'])


# ------------------------------------------------------------------ a handle

def leafs(model):
    """canonical leaf name -> Param"""
    out = {}
    for p in model.flattened_parameters:
        comps = p.hierarchy_name().split('.')
        comps = comps[comps.index('kern') + 1:] if 'kern' in comps \
            else comps[1:]
        out[comps[0] if len(comps) == 1 else
            comps[0] + '.' + comps[-1]] = p
    return out


def values(model):
    return {n: np.array(p.values, dtype=float)
            for n, p in leafs(model).items()}


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


INACCURATE = ['solver-' + w for w in (
    'stop', 'stall', 'scale', 'noise', 'nan', 'zero', 'flag')]


class Handle:
    """One live model, its reference and its private numpy stream (so that
    histories of different models do not shift each other's draws)."""

    def __init__(self, cfg, model=None, own_rng=True, **over):
        self.cfg = cfg
        self.Xs, self.Ys = gen_data(cfg)
        self.spec = make_spec(cfg)
        self.own_rng = own_rng
        self.resid = 0.
        self.bufs = {}
        self._inside = False
        self.state = np.random.RandomState(cfg['init_seed']).get_state()
        self.mode = over.get('prediction', cfg['mode'])
        if model is None:
            with self.rng():
                model = build(cfg, self.Xs, self.Ys, **over)
        self.m = model
        self._ref = None

    @contextlib.contextmanager
    def rng(self, edit=True):
        """The model's own numpy stream; notes how accurate the solves made
        on behalf of the model were since its last edit."""
        if not self.own_rng:     # models used from several threads
            try:
                yield
            finally:
                self.resid = max(self.resid, CTX.worst)
            return
        if self._inside:         # e.g. a callback during optimisation
            yield
            return
        self._inside = True
        before, CTX.worst = CTX.worst, 0.
        save = np.random.get_state()
        np.random.set_state(self.state)
        try:
            yield
        finally:
            self._inside = False
            # an edit that made no solve (say unfix) updated nothing
            self.resid = CTX.worst if edit and CTX.worst > 0 \
                else max(self.resid, CTX.worst)
            CTX.worst = max(before, CTX.worst)
            self.state = np.random.get_state()
            np.random.set_state(save)

    def slack(self):
        """Bound on |K^-1 b - x| over the solves made: what was measured,
        but never more than the method needs on the reference's matrix."""
        noise = max(1e-12, float(np.min(self.vals()['noise'])))
        res = self.resid
        if not res < 1e-9 and not any(
                k in CTX.fault_log for k in INACCURATE):
            res = min(res, self.ref().honest(self.cfg['tolerance']))
        return res / noise

    def vals(self):
        return values(self.m)

    def ref(self):
        v = self.vals()
        if self._ref is None or any(
                not np.array_equal(v[n], self._ref.v[n]) for n in v):
            self._ref = Ref(self.spec, v)
        return self._ref

    def sane(self):
        """Within the region where the solver is accurate?"""
        v = self.vals()
        for n, x in v.items():
            if not np.all(np.isfinite(x)) or np.abs(x).max() > 60:
                return False
            if n == 'noise' and x.min() < 0.02:
                return False
            if n.endswith('inv_lengthscale') and x.min() < 1e-3:
                return False
            if n.endswith('period') and x.min() < 0.05:
                return False
        return True

    # -- state comparison across handles
    def fingerprint(self, grad=True):
        d = {'p.' + n: x for n, x in self.vals().items()}
        if grad:
            d['grad'] = np.array(self.m.gradient, dtype=float)
        return d


# --------------------------------------------------------------- param values

def draw_value(rng, name, shape):
    """A value for a leaf, inside the numerically benign region."""
    size = int(np.prod(shape))
    leaf = name.split('.')[-1]
    if leaf == 'noise':
        v = [rng.choice((0.08, 0.15, 0.3, 0.6, 1.0, 1.6)) *
             rng.uniform(.9, 1.1) for _ in range(size)]
    elif leaf == 'inv_lengthscale':
        v = [rng.choice((0.5, 1.5, 4., 9.)) * rng.uniform(.8, 1.2)
             for _ in range(size)]
    elif leaf == 'period':
        v = [rng.uniform(0.4, 3.) for _ in range(size)]
    elif leaf == 'scale':
        v = [rng.uniform(0.3, 2.) for _ in range(size)]
    elif leaf.startswith('kappa'):
        v = [rng.uniform(0.1, 1.8) for _ in range(size)]
    else:
        v = [rng.uniform(-1.4, 1.4) for _ in range(size)]
    return np.array(v).reshape(shape)


# ----------------------------------------------------------------- comparison

def close(a, b, rtol, atol):
    b = np.asarray(b, dtype=float)
    try:
        a = np.asarray(a, dtype=float)
    except (TypeError, ValueError):
        return False, 'not an array of numbers'
    if a.shape != b.shape:
        return False, 'shape %s != %s' % (a.shape, b.shape)
    if not a.size:
        return True, ''
    if not np.all(np.isfinite(a)) and np.all(np.isfinite(b)):
        return False, 'not finite'
    scale = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 0
    err = np.abs(a - b)
    bad = err > atol + rtol * scale
    bad |= np.isnan(a) != np.isnan(b)
    if bad.any():
        i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
        return False, 'got %.6g want %.6g (|err| %.3g, scale %.3g)' % (
            a.ravel()[i], b.ravel()[i], err.ravel()[i], scale)
    return True, ''


def must(ok, what, detail=''):
    if not ok:
        raise Violation(what, detail)


def must_close(a, b, what, rtol=1e-4, atol=1e-6):
    ok, why = close(a, b, rtol, atol)
    if not ok:
        raise Violation(what, why)


def must_close_list(a, b, what, rtol=1e-4, atol=1e-6):
    if len(a) != len(b):
        raise Violation(what, 'length %d != %d' % (len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        ok, why = close(x, y, rtol, atol)
        if not ok:
            raise Violation(what, 'output %d: %s' % (i, why))


def same(a, b, what, rtol=1e-6, atol=1e-8):
    """Two dicts / lists / arrays of results agree."""
    if isinstance(b, dict):
        if set(a) != set(b):
            raise Violation(what, 'keys %s != %s' % (sorted(a), sorted(b)))
        for k in b:
            same(a[k], b[k], '%s[%s]' % (what, k), rtol, atol)
    elif isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Violation(what, 'length %d != %d' % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%d]' % (what, i), rtol, atol)
    elif isinstance(b, (str, bytes, bool)) or b is None:
        if a != b:
            raise Violation(what, '%r != %r' % (a, b))
    else:
        must_close(a, b, what, rtol, atol)


# ----------------------------------------------------------------- queries

QUERIES = ('predict', 'quantiles', 'K', 'log_det', 'quad', 'loglik')


def gen_batch(rng, cfg):
    """Query points for each output (JSON)."""
    kind = rng.random()
    out = []
    near = gen_data(cfg)[0] if 0.1 < kind < 0.25 else None
    for d in range(cfg['D']):
        k = rng.choice((0, 1, 2, 3)) if kind > 0.1 else 0
        if 0.25 < kind < 0.3:
            k = rng.randrange(5, 21)       # more than a few
        elif 0.3 < kind < 0.31:
            k = rng.randrange(20, 90)      # many
        if cfg['D'] == 1 and kind > 0.1:
            k = max(k, 1)
        out.append([[round(rng.uniform(-0.05, 1.05) * cfg['xscale'], 6)
                     for _ in range(cfg['P'])] for _ in range(k)])
    if near is not None:       # at (some of) the training inputs
        for pts, X in zip(out, near):
            for p in pts:
                x = np.ravel(X[rng.randrange(len(X))])
                p[:] = [float(v) for v in x]
    if kind > 0.9 and any(out):
        src = rng.choice([o for o in out if o])
        out = [list(src) + [list(src[0])] for _ in out]   # repeats
    return out


def batch_arrays(cfg, batch, layout=None):
    out = []
    layout = layout or cfg['layout']
    for d, pts in enumerate(batch):
        X = np.array(pts, dtype=float).reshape(len(pts), cfg['P'])
        if flat(cfg, layout, d):
            X = X.ravel()
        out.append(X)
    return out


def query_arrays(h, q):
    """The caller's arrays: new ones, or (buf) ones it keeps and refills."""
    Xs = batch_arrays(h.cfg, q['x'], q.get('lay'))
    if not q.get('buf'):
        return Xs
    for d, X in enumerate(Xs):
        key = d, X.shape
        if key in h.bufs:
            h.bufs[key][...] = X
        else:
            h.bufs[key] = X
        Xs[d] = h.bufs[key]
    key = tuple(X.shape for X in Xs)
    lst = h.bufs.setdefault(key, [])
    lst[:] = Xs
    return lst


def gen_query(rng, cfg):
    q = rng.choice(('predict', 'predict', 'predict', 'quantiles', 'K',
                    'log_det', 'quad', 'loglik'))
    op = dict(q=q)
    if q in ('predict', 'quantiles'):
        op['x'] = gen_batch(rng, cfg)
        if rng.random() < 0.4:
            op['buf'] = rng.choice(('keep', 'scrap'))
        if rng.random() < 0.3:
            op['lay'] = rng.choice(('1d', '2d'))
    if q == 'quantiles':
        op['qs'] = rng.choice((
            [2.5, 97.5], [50.], [10., 25., 99.], [97.5, 2.5], [60., 60., 5.]))
    return op


def ask(h, q):
    """Evaluate a query on the real model."""
    m = h.m
    k = q['q']
    with h.rng(edit=False):
        if k == 'predict':
            Xs = query_arrays(h, q)
            mu, var = m.predict(Xs)
            ans = [list(mu), list(var)]
        if k == 'quantiles':
            Xs = query_arrays(h, q)
            ans = list(m.predict_quantiles(Xs, tuple(q['qs'])))
        if k in ('predict', 'quantiles'):
            if q.get('buf') == 'scrap':    # the caller goes on to use them
                for X in Xs:
                    X[...] = -1e3
            return ans
        if k == 'K':
            return m.K()
        if k == 'log_det':
            return float(m.log_det_K())
        if k == 'quad':
            return float(m.normal_quadratic())
        if k == 'loglik':
            return float(m.log_likelihood())
    raise AssertionError(k)


def check_answer(h, q, ans, ref=None, what='answer'):
    """Compare an answer with the reference at the current parameters."""
    try:
        return _check_answer(h, q, ans, ref, what)
    except (TypeError, ValueError, IndexError, AttributeError) as e:
        raise Violation('%s %s' % (what, q['q']),
                        'malformed answer: %s' % e) from e


def _check_answer(h, q, ans, ref, what):
    ref = ref or h.ref()
    k = q['q']
    w = '%s %s' % (what, k)
    if k in ('predict', 'quantiles'):
        w += '/' + h.mode
    sl = h.slack()
    if not sl < 1.:
        # unconverged solves (which the package reports, see C10)
        return False
    if k in ('predict', 'quantiles'):
        X = [np.array(p, dtype=float).reshape(len(p), h.cfg['P'])
             for p in q['x']]
        big = ref.scale() * np.sqrt(h.spec.n)
        te = 1e-5 + 2 * sl * big           # mean
        tv = 1e-5 * (1 + ref.scale()) + 4 * sl * big   # variance
    if k == 'predict':
        mu, var = ref.predict_out(X, h.mode)
        must(len(ans[0]) == h.cfg['D'] == len(ans[1]), w, 'outputs')
        for d in range(h.cfg['D']):
            sd = h.spec.sd[d]
            off = 1e-9 * abs(h.spec.mu[d])
            must_close(ans[0][d], mu[d], w + ' mean', 0, te * sd + off)
            must_close(ans[1][d], var[d], w + ' variance', 0, tv * sd ** 2)
            must(np.all(np.asarray(ans[1][d]) >= 0), w + ' variance',
                 'negative')
    elif k == 'quantiles':
        exp = ref.quantiles(X, q['qs'], h.mode)
        _, var, _, lens = ref.predict(X, h.mode)
        var = ref.split_out(var, lens)
        must(len(ans) == h.cfg['D'], w, 'outputs')
        for d in range(h.cfg['D']):
            e, a = np.asarray(exp[d]), np.asarray(ans[d], dtype=float)
            must(a.shape == e.shape, w, 'shape %s' % (a.shape,))
            # d sqrt(v) is amplified near zero variance
            tol = h.spec.sd[d] * (te + 3.0 * np.minimum(
                np.sqrt(2 * tv), tv / np.sqrt(np.maximum(var[d], 1e-12))))
            tol = tol + 1e-9 * abs(h.spec.mu[d])
            must(np.all(np.abs(a - e) <= tol[:, None]) and
                 np.all(np.isfinite(a)), w,
                 'max err %.3g' % (np.abs(a - e).max() if a.size else 0))
    elif k == 'K':
        must_close(ans, ref.K, w, 1e-9, 1e-11)
    elif k == 'log_det':
        must_close(ans, ref.log_det(), w, 1e-6, 1e-5)
    elif k == 'quad':
        must_close(ans, ref.quad(), w, 1e-6, 1e-5 + 2 * sl * ref.ynorm())
    elif k == 'loglik':
        must_close(ans, ref.loglik(), w, 1e-6, 2e-5 + 2 * sl * ref.ynorm())
    return True


def audit(h, rng, what='audit', queries=None):
    """All kinds of queries against the reference."""
    for k in queries or QUERIES:
        q = dict(q=k)
        if k in ('predict', 'quantiles'):
            q['x'] = gen_batch(rng, h.cfg)
        if k == 'quantiles':
            q['qs'] = [5., 50., 90.]
        check_answer(h, q, ask(h, q), what=what)  # ask before compare


# ----------------------------------------------------------------- edit ops

def gen_edit(rng, cfg):
    return dict(op='edit', how=rng.choice((
        'leaf', 'leaf', 'leaf', 'item', 'name', 'all', 'optarr', 'attr',
        'batch', 'batch', 'tiny', 'swap', 'again')),
        pick=rng.randrange(1 << 20), seed=rng.randrange(1 << 30))


def free(p):
    return not p.is_fixed


def swap(ls, names, r):
    """The same values in other places (sums and products stay)."""
    many = [n for n in names if ls[n].size > 1] or names
    n = r.choice(many)
    v = np.array(ls[n].values)
    flat = v.ravel()
    order = list(range(len(flat)))
    r.shuffle(order)
    if order == sorted(order):
        order.reverse()
    ls[n][:] = flat[order].reshape(v.shape)


def do_edit(h, op):
    r = random.Random(op['seed'])
    ls = leafs(h.m)
    names = sorted(n for n in ls if free(ls[n]))
    if not names:
        return
    name = names[op['pick'] % len(names)]
    p = ls[name]
    val = draw_value(r, name, p.shape)
    how = op['how']
    with h.rng():
        if how == 'leaf':
            p[:] = val
        elif how == 'item':
            idx = tuple(r.randrange(s) for s in p.shape)
            p[idx] = val[idx]
        elif how == 'name':
            h.m[p.hierarchy_name().split('.', 1)[1].replace('.', '[.]')
                + '$'] = val
        elif how == 'all':
            vec = np.concatenate([
                draw_value(r, n, q.shape).ravel() if free(q)
                else np.array(q.values).ravel()
                for n, q in ls.items()])
            h.m[:] = vec
        elif how == 'optarr':
            x = np.array(h.m.optimizer_array)
            h.m.optimizer_array = x + np.array(
                [r.uniform(-.25, .25) for _ in x])
        elif how == 'attr':
            fk = h.m.kern
            w = r.randrange(3)
            if w == 0 and free(ls['noise']):
                fk.noise = draw_value(r, 'noise', (h.cfg['D'],))
            elif w == 1 and any(n[0] == 'a' for n in names):
                fk.coreg_vecs = [
                    draw_value(r, 'a', np.shape(v))
                    if h.cfg['kernels'][i]['kind'] != 'indep' else v
                    for i, v in enumerate(fk.coreg_vecs)]
            else:
                p[:] = val
        elif how == 'tiny':
            p[:] = np.array(p.values) * (
                1 + r.choice((-1, 1)) * 10 ** r.uniform(-5.5, -3))
        elif how == 'swap':
            swap(ls, names, r)
        elif how == 'again':
            p[:] = np.array(p.values)
        elif how == 'low':       # slow solves (paired runs only)
            h.m.update_model(False)
            ls['noise'][:] = 10 ** r.uniform(-4, -3)
            for n in names:
                if n.endswith('inv_lengthscale') and r.random() < 0.7:
                    ls[n][:] = r.uniform(15, 50)
            h.m.update_model(True)
        elif how == 'wide':      # far from the ordinary (paired runs only)
            wide = r.choice((1, 1, 2))
            for n in [name, 'noise'][:wide]:
                lo, hi = dict(noise=(-5, 1)).get(n, (-2, 1.5))
                p = ls[n]
                v = np.array(p.values)
                for i in np.ndindex(v.shape):
                    if r.random() < 0.6:
                        v[i] = 10 ** r.uniform(lo, hi)
                p[:] = v
        elif how == 'batch':
            h.m.update_model(False)
            for _ in range(r.randrange(1, 4)):
                n = r.choice(names)
                if r.random() < 0.25:
                    swap(ls, names, r)
                else:
                    ls[n][:] = draw_value(r, n, ls[n].shape)
            h.m.update_model(True)


def do_optimize(h, op, callback=None):
    from runlmc.models.optimization import AdaDelta
    kw = dict(max_it=op['its'], min_grad_ratio=op.get('ratio', 0.),
              step_rate=op.get('rate', 0.5), verbosity=op.get('verb', 0),
              permitted_drops=op.get('drops', 5))
    if callback:
        kw['callback'] = callback
    more = {}
    if op.get('start'):      # from elsewhere
        x = np.array(h.m.optimizer_array)
        more['start'] = x + 0.1 * np.sin(1 + np.arange(x.size))
    with h.rng():
        quiet(h.m.optimize, optimizer=AdaDelta(**kw), **more)


def settle(h, seed=0):
    """Bring a model that optimisation or random initialisation moved to an
    extreme point back into the benign region (an ordinary edit)."""
    r = random.Random(seed)
    ls = leafs(h.m)
    vals = {n: draw_value(r, n, ls[n].shape) for n in sorted(ls)
            if free(ls[n])}
    with h.rng():
        h.m[:] = np.concatenate([
            np.ravel(vals[n]) if n in vals else np.array(p.values).ravel()
            for n, p in ls.items()])


def constrain_op(p, name, what):
    """Edits of constraints and priors that keep the value."""
    if what == 'fix':
        p.fix()
    elif what == 'unfix':
        p.unfix()
    elif what == 'bounded' and name == 'noise':
        p.constrain_bounded(1e-3, 80., warning=False)
    elif what == 'prior' and (name == 'noise' or name.startswith('kappa')):
        from runlmc.parameterization.priors import Gamma
        p.set_prior(Gamma(2., 1.))


def apply(h, op, keep_sane=True):
    """Any operation of a history; a query returns its answer."""
    kind = op['op']
    if kind == 'query':
        if 'x' in op and h.mode == 'precompute' and split(h.cfg):
            return None
        return ask(h, op)
    if kind == 'edit':
        do_edit(h, op)
    elif kind == 'mode':
        h.m.prediction = op['to']
        h.mode = op['to']
    elif kind == 'opt':
        if all(p.is_fixed for p in leafs(h.m).values()):
            return None
        do_optimize(h, op)
    elif kind == 'fix':
        ls = leafs(h.m)
        name = sorted(ls)[op['pick'] % len(ls)]
        with h.rng():
            constrain_op(ls[name], name, op['what'])
    elif kind == 'gc':
        gc.collect()
    elif kind == 'randomize':
        with h.rng():
            h.m.randomize()
    else:
        raise AssertionError(kind)
    if keep_sane and kind in ('opt', 'randomize') and not h.sane():
        settle(h, op.get('seed', 3))
        if not h.sane():
            raise Skip('fixed at an extreme value')
    return None


logging.getLogger('runlmc').addHandler(logging.NullHandler())
logging.getLogger('runlmc').propagate = False
