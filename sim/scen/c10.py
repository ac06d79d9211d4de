"""C10: an unconverged solve is never silent."""
import logging

import numpy as np
import scipy.sparse.linalg as sla

from ..world import *  # noqa
from ..seams import CTX

RUNS = dict(quick=320, thorough=9000)
RULE = ('a run is a seeded sequence of solves of generated positive definite '
        'systems (dense, Toeplitz, sums, Kronecker products, SKI kernels of '
        'real models), each with an optional fault of the iterative method '
        'or of the operator, or a real model whose updates and predictions '
        'meet such faults; residual, iteration count and log messages are '
        'compared with what the solver seam recorded and dense algebra '
        'gives; non-trivial: at least one solve returned; distinct by '
        'system, tolerance and fault')
STUB = ['scipy iterative method where a stall is injected']
ASSUME = ('the method underneath honours maxiter and calls its callback '
          'once per iteration',)


class Catch(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        if record.levelno >= logging.CRITICAL:
            self.got.append(record.getMessage())


def gen_fault(rng, n):
    r = rng.random()
    if r < 0.3:
        return None
    what = rng.choice(('stop', 'stop', 'scale', 'noise', 'nan', 'zero',
                       'flag', 'stall', 'op-noise', 'op-noise'))
    f = dict(what=what)
    if what == 'stop':
        f.update(at=rng.choice((1, 2, max(1, n // 2), n, 100, 101)),
                 info=rng.choice((0, 0, 1, -1)))
    elif what == 'scale':
        f.update(amount=rng.choice((1.5, 1 + 1e-3, 1 + 1e-7, -1.)),
                 info=rng.choice((0, 0, 1)))
    elif what == 'noise':
        f.update(amount=rng.choice((1., 1e-2, 1e-5, 1e-9)),
                 info=rng.choice((0, 0, n)))
    elif what in ('nan', 'zero'):
        f.update(idx=rng.randrange(n), info=rng.choice((0, 0, 2)))
    elif what == 'flag':
        f.update(info=rng.choice((1, n, -1, 0)))
    elif what == 'stall':
        f.update(amount=rng.choice((0., 1.)), info=rng.choice((0, n, n)))
    else:
        f.update(amount=rng.choice((1e-2, 1e-5, 1e-8, 1.)))
    return f


def gen_system(rng):
    big = rng.random() < 0.25
    n = rng.randrange(101, 330) if big else rng.randrange(1, 40)
    return dict(
        kind=rng.choice(('dense', 'dense', 'dense', 'toeplitz', 'sum',
                         'kron')),
        n=n, cond=rng.choice((1., 10., 100., 1e4, 1e7, 1e10)),
        scale=rng.choice((1., 1., 1e-3, 50.)),
        y=rng.choice(('rand', 'rand', 'sign', 'zero', 'unit')),
        ys=rng.choice((1., 1., 1e3, 1e-6)),
        seed=rng.randrange(1 << 30))


def plan(rng, tier):
    if rng.random() < 0.2:
        cfg = gen_config(rng, allow2d=False)
        ops = []
        for _ in range(rng.randrange(2, 5)):
            op = gen_edit(rng, cfg) if rng.random() < 0.6 else dict(
                op='query', **gen_query(rng, cfg))
            op['faults'] = {str(rng.randrange(1, 6)): gen_fault(rng, 12)
                            for _ in range(rng.choice((0, 1, 2)))}
            ops.append(op)
        return dict(cfg=cfg, ops=ops, model=True)
    ops = []
    for _ in range(rng.randrange(3, 9)):
        s = gen_system(rng)
        ops.append(dict(sys=s, tol=rng.choice((1e-4, 1e-4, 1e-2, 1e-6,
                                               1e-9)),
                        verbose=rng.random() < 0.7,
                        minres=rng.random() < 0.7,
                        default=rng.random() < 0.2,
                        pre=rng.random() < 0.1,
                        fault=gen_fault(rng, s['n'])))
    return dict(ops=ops, model=False)


def spd(n, cond, scale, r):
    if n == 1:
        return np.array([[scale]])
    Q = np.linalg.qr(r.randn(n, n))[0]
    ev = np.exp(np.linspace(0, np.log(cond), n)) / cond
    A = (Q * ev).dot(Q.T) * scale
    return (A + A.T) / 2


def make_system(s):
    from runlmc.linalg.numpy_matrix import NumpyMatrix
    from runlmc.linalg.toeplitz import Toeplitz
    from runlmc.linalg.sum_matrix import SumMatrix
    from runlmc.linalg.kronecker import Kronecker
    r = np.random.RandomState(s['seed'])
    n = s['n']
    if s['kind'] == 'toeplitz':
        top = np.exp(-np.arange(n) * (0.5 if s['cond'] > 50 else 2.))
        top[0] += 0.05
        top *= s['scale']
        M = Toeplitz(top)
        i = np.arange(n)
        A = top[np.abs(i[:, None] - i)]
    elif s['kind'] == 'sum':
        B = spd(n, s['cond'], s['scale'], r)
        C = spd(n, 3., s['scale'], r)
        M, A = SumMatrix([NumpyMatrix(B), NumpyMatrix(C)]), B + C
    elif s['kind'] == 'kron':
        a = 2 + s['seed'] % 3
        b = max(1, n // a)
        B = spd(a, min(s['cond'], 50.), s['scale'], r)
        C = spd(b, min(s['cond'], 1e3), 1., r)
        M, A = Kronecker(NumpyMatrix(B), NumpyMatrix(C)), np.kron(B, C)
    else:
        A = spd(n, s['cond'], s['scale'], r)
        M = NumpyMatrix(A.copy())
    n = A.shape[0]
    y = {'rand': r.randn(n), 'sign': r.choice((-1., 1.), n),
         'zero': np.zeros(n), 'unit': np.eye(n)[s['seed'] % n]}[s['y']]
    return M, A, y * s['ys']


def noisy(K, amount, seed):
    """The operator errs, but only inside the method."""
    r = np.random.RandomState(seed)
    real = K.matvec

    def matvec(x):
        out = real(x)
        if CTX.in_method:
            CTX.hit('operator-noise')
            out = out + amount * np.abs(out).max() * r.randn(len(out))
        return out
    K.matvec = matvec
    K._op = None
    return K


def judge(b, x, A, tol, rec, msgs, out, what, cond_ok=False, fault=None):
    """One solve that returned x"""
    n = A.shape[0]
    r = b - A.dot(x)
    true = float(np.linalg.norm(r))
    fuzz = 1e-12 * (np.linalg.norm(A, 2) * np.linalg.norm(x) +
                    np.linalg.norm(b)) * np.sqrt(n)
    must(rec['its'][0] <= n, 'more iterations than the order of the system',
         '%s: %d > %d' % (what, rec['its'][0], n))
    must(np.all(np.isfinite(x)), 'a non-finite solution was returned', what)
    if 'info' not in rec:        # the package stopped the method early
        out.probe('early-stops')
        must(true <= tol * (1 + 1e-6) + fuzz,
             'early stop above the tolerance',
             '%s: residual %.3g, tolerance %.3g' % (what, true, tol))
    loud = bool(msgs)
    flag = rec.get('info', 0) != 0
    if true > tol * (1 + 1e-4) + fuzz or flag:
        must(loud, 'an unconverged solve was silent',
             '%s: residual %.3g, tolerance %.3g, flag %s' % (
                 what, true, tol, rec.get('info')))
        out.probe('unconverged')
    elif true < tol * (1 - 1e-4) - fuzz:
        must(not loud, 'a converged solve raised the alarm',
             '%s: residual %.3g, tolerance %.3g: %s' % (
                 what, true, tol, msgs[:1]))
        out.probe('converged')
    if cond_ok:
        must(true <= tol, 'a well-conditioned system was not solved',
             '%s: residual %.3g, tolerance %.3g' % (what, true, tol))
        out.probe('well-conditioned')
    return true, fuzz


def solve_op(op, out, catch):
    from runlmc.approx.iterative import Iterative
    s, f = op['sys'], op['fault']
    K, A, y = make_system(s)
    if f and f['what'] == 'op-noise':
        K = noisy(K, f['amount'], s['seed'])
    elif f:
        CTX.solver_faults = {CTX.solves + 1: f}
    if op['pre']:
        d = np.diag(A).copy()
        K.preconditioner = sla.LinearOperator(
            A.shape, matvec=lambda v: v / d.reshape(np.shape(v)),
            dtype=float)
    del catch.got[:]
    CTX.record = []
    kw = dict(verbose=op['verbose'], minres=op['minres'], tol=op['tol'])
    tol = op['tol']
    if op['default']:
        kw, tol = {}, 1e-4
    yb = y.copy()
    what = '%s n=%d fault=%s' % (s['kind'], A.shape[0], f)
    try:
        got = Iterative.solve(K, y, **kw)
    except Exception as e:  # pylint: disable=broad-except
        # only a solution that is not finite cannot be measured
        if f and f['what'] in ('nan', 'op-noise'):
            out.probe('raised')
            out.ok()
            return
        raise Violation('a solve raised', '%s: %r' % (what, e))
    must(np.array_equal(y, yb), 'the right hand side was modified', what)
    if len(CTX.record) != 1:
        out.probe('seam-missed')
        return
    rec = CTX.record[0]
    must(isinstance(got, tuple) == bool(kw.get('verbose')),
         'statistics not as requested', what)
    x = np.asarray(got[0] if isinstance(got, tuple) else got)
    good = not f and not op['pre'] and s['ys'] <= 1 and \
        s['scale'] <= 1 and tol >= 1e-4 and A.shape[0] >= 40 and (
            s['kind'] == 'sum' or s['kind'] == 'dense' and s['cond'] <= 10)
    true, fuzz = judge(y, x, A, tol, rec, list(catch.got), out, what, good)
    if isinstance(got, tuple):
        must(len(got) == 3, 'statistics not as requested', what)
        must(got[1] == rec['its'][0], 'wrong number of iterations reported',
             '%s: %s instead of %d' % (what, got[1], rec['its'][0]))
        must(abs(got[2] - true) <= 1e-6 * true + fuzz,
             'wrong residual reported', '%s: %.6g instead of %.6g' % (
                 what, got[2], true))
    out.see(x)
    out.sig.append((s, f, tol))
    out.ok()


def run(plan, out):
    catch = Catch()
    logging.getLogger().addHandler(catch)
    logging.getLogger('runlmc').addHandler(catch)
    if not plan['model']:
        for op in plan['ops']:
            solve_op(op, out, catch)
        return
    h = Handle(plan['cfg'])
    settle(h, 1)
    for i, op in enumerate(plan['ops']):
        fs = {CTX.solves + int(k): f for k, f in op['faults'].items()
              if f and f['what'] != 'op-noise'}
        CTX.solver_faults = fs
        del catch.got[:]
        CTX.record = []
        n0 = CTX.solves
        failed = False
        try:
            apply(h, op)
        except ValueError:
            # a non-finite iterate cannot be measured
            if not any(f['what'] == 'nan' for f in fs.values()):
                raise
            failed = True
        CTX.solver_faults = {}
        worst, flags = 0., 0
        # for what was solved: the tolerance of updates, or the default
        tol = h.cfg['tolerance'] if op['op'] == 'edit' else 1e-4
        n = h.spec.n
        for r in CTX.record:
            must(r['its'][0] <= n or len(r['b']) != n,
                 'more iterations than the order of the system', r['its'][0])
            if 'res' in r and np.isfinite(r['res']):
                worst = max(worst, r['res'])
            flags += r.get('info', 0) != 0
        if failed:
            out.probe('raised')
        elif flags or worst > tol * (1 + 1e-4):
            must(catch.got, 'an unconverged solve was silent',
                 '%s: residual %.3g, %d flags' % (op['op'], worst, flags))
            out.probe('unconverged')
        elif worst < 1e-7:
            must(not catch.got, 'a converged solve raised the alarm',
                 '%s: %.3g %s' % (op['op'], worst, catch.got[:1]))
            out.probe('converged')
        out.sig.append((op['op'], sorted(op['faults'])))
        out.ok(bool(CTX.record))
        if not h.sane():
            settle(h, i)


def shrink(plan):
    from ..core import default_shrink
    yield from default_shrink(plan)
    for i, op in enumerate(plan['ops']):
        if 'sys' in op and op['sys']['n'] > 2:
            for n in (2, op['sys']['n'] // 2, op['sys']['n'] - 1):
                q = dict(op, sys=dict(op['sys'], n=n))
                yield dict(plan, ops=plan['ops'][:i] + [q] +
                           plan['ops'][i + 1:])
