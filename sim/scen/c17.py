"""C17: discarded models release their workers and memory; use does not
accumulate state."""
import collections
import copy
import functools
import gc
import pickle
import random
import sys
import types
import weakref

import numpy as np

from ..world import *  # noqa
from ..seams import CTX, SeamInjector, LineInjector, is_injected

RUNS = dict(quick=64, thorough=1500)
RULE = ('a run is a seeded history that builds, uses, copies and discards '
        'models (with simulated workers and without; constructions, updates '
        'and optimisation runs fail or are interrupted at seeded points), '
        'counting after collections the discarded models still alive and the '
        'pools still open, or a long seeded sequence of edits and queries on '
        'one model, weighing everything reachable from it and from the '
        'package; non-trivial: at least one count was checked; distinct by '
        'operations, faults and schedule')
STUB = ['multiprocessing.Pool (simulated)']
ASSUME = ('a pool that is closed, terminated or itself collected counts as '
          'released (multiprocessing.Pool then ends its workers)',)

SPARE = 6          # discarded models that caches may hold on to
CYCLES = 160


def plan(rng, tier):
    if rng.random() < 0.25:
        cfg = gen_config(rng, simple=True, allow2d=False, metrics=False)
        cfg.update(lens=[rng.randrange(4, 8) for _ in cfg['lens'][:2]],
                   trace=1)
        cfg['D'] = len(cfg['lens'])
        cfg['m'] = rng.randrange(5, 9)
        return dict(kind='steady', cfg=cfg, seed=rng.randrange(1 << 30),
                    every=rng.choice((0, 0, 5, 9)),
                    mode=rng.choice((None, rng.choice(usable_modes(cfg)))),
                    q=rng.choice((None, None, rng.choice(QUERIES))),
                    what=rng.choice(('both', 'both', 'query', 'edit')))
    par = rng.random() < 0.6
    ops = []
    for _ in range(rng.randrange(12, 22)):
        big = par and rng.random() < 0.5
        cfg = gen_config(rng, big=big, simple=rng.random() < 0.8,
                         allow2d=False)
        cfg['trace'] = rng.choice((1, 1, 1, 2, 3))
        cfg['tolerance'] = 1e-4 * (1 + rng.random())
        use = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            r = rng.random()
            if r < 0.3:
                u = gen_edit(rng, cfg)
            elif r < 0.65:
                u = dict(gen_query(rng, cfg), op='query')
            elif r < 0.75:
                u = dict(op='opt', its=rng.choice((1, 2)), rate=0.1)
            elif r < 0.85 and not big:
                u = dict(op='mode', to=rng.choice(usable_modes(cfg)))
            else:
                u = dict(op='copy', how=rng.choice(('copy', 'deepcopy',
                                                    'pickle')))
            if u['op'] in ('edit', 'opt', 'query') and rng.random() < 0.3:
                u['fault'] = gen_fault(rng)
            use.append(u)
        op = dict(cfg=cfg, procs=rng.choice((2, 3)) if big else 1, use=use,
                  keep=rng.random() < 0.08)
        if rng.random() < 0.15:
            op['fault'] = gen_fault(rng)
        elif rng.random() < 0.08:
            op['bad'] = rng.choice(('length', 'mode', 'constant'))
        if rng.random() < 0.25:
            op['check'] = True
        ops.append(op)
    return dict(kind='churn', ops=ops, seed=rng.randrange(1 << 30))


def gen_fault(rng):
    return dict(how=rng.choice(('seam', 'line')), frac=rng.random(),
                exc=rng.choice(('KeyboardInterrupt', 'LinAlgError',
                                'MemoryError', 'ValueError')))


def box(f):
    if f['how'] == 'seam':
        return SeamInjector(1 + int(f['frac'] * 12), f['exc'])
    return LineInjector(1 + int(f['frac'] * 400), f['exc'])


def tolerant(f, fault):
    """Run f, possibly with a fault; True if it was completed."""
    try:
        if fault:
            with box(fault):
                f()
        else:
            f()
        return True
    except BaseException as e:  # pylint: disable=broad-except
        if not is_injected(e):
            raise
        return False


class Census:
    def __init__(self, out):
        self.out = out
        self.gone = []          # weak references to discarded models
        self.kept = []
        self.built = 0

    def see(self, model):
        """every model built, also those whose construction failed"""
        self.gone.append(weakref.ref(model))

    def check(self, what):
        kept = {id(h.m) for h in self.kept}
        for i in range(16):
            gc.collect()
            alive = [r() for r in self.gone]
            n = len([m for m in alive if m is not None and
                     id(m) not in kept])
            del alive
            if n <= SPARE and i > 2:
                break
        self.out.probe('alive-%d-collections-%d' % (n, i + 1))
        must(n <= SPARE, 'discarded models stay alive',
             '%d of %d models, %s' % (n, len(self.gone), what))
        pools = [p for p in CTX.live_pools if p._state == 'RUN']
        n = len(pools) - len([h for h in self.kept if h.par])
        del pools
        must(n <= SPARE, 'workers of discarded models stay',
             '%d pools beyond those in use, %s' % (n, what))
        self.out.ok()


def step(op, census, out):
    from runlmc.models.interpolated_llgp import InterpolatedLLGP
    cfg = op['cfg']
    box_ = {}
    if op.get('bad'):
        Xs, Ys = gen_data(cfg)
        if op['bad'] == 'length':
            Ys[0] = Ys[0][:-1]
        elif op['bad'] == 'constant':
            Ys[0] = np.zeros(len(Ys[0]))
        kw = dict(prediction='none') if op['bad'] == 'mode' else {}
        try:
            census.see(build(cfg, Xs, Ys, max_procs=op['procs'], **kw))
        except (ValueError, KeyError):
            out.probe('refused-constructions')
        return

    def make():
        box_['h'] = Handle(cfg, max_procs=op['procs'])
    if not tolerant(make, op.get('fault')) or 'h' not in box_:
        out.probe('failed-constructions')
        return
    h = box_.pop('h')
    h.par = op['procs'] > 1
    census.see(h.m)
    settle(h, cfg['init_seed'])
    for u in op['use']:
        if u['op'] == 'copy':
            if u['how'] == 'copy':
                c = h.m.copy()
            elif u['how'] == 'deepcopy':
                c = copy.deepcopy(h.m)
            else:
                c = pickle.loads(pickle.dumps(h.m))
            census.see(c)
            del c
        elif not tolerant(lambda: apply(h, u, keep_sane=False),
                          u.get('fault')):
            out.probe('failed-operations')
        if not h.sane():
            settle(h, 5)
    if op['keep']:
        census.kept.append(h)


# ---- weight of everything reachable

LEAF = (str, bytes, int, float, complex, bool, type(None), np.dtype,
        np.generic, weakref.ref, types.BuiltinFunctionType)


def weigh(roots):
    """(objects, array bytes) reachable from the roots through containers,
    instances and the package's own classes, functions and modules"""
    stack, seen, keep = list(roots), set(), []
    count = size = 0
    while stack:
        o = stack.pop()
        if isinstance(o, LEAF) or id(o) in seen:
            continue
        mod = getattr(type(o), '__module__', '') or ''
        if mod.split('.')[0] in ('logging', 'threading', '_thread', 'sim'):
            continue
        seen.add(id(o))
        keep.append(o)
        count += 1
        if isinstance(o, types.ModuleType):
            if o.__name__.split('.')[0] == 'runlmc':
                stack.extend(list(vars(o).values()))
            continue
        if isinstance(o, type):
            if (o.__module__ or '').split('.')[0] == 'runlmc':
                stack.extend(list(vars(o).values()))
            continue
        if isinstance(o, dict):
            stack.extend(list(o.keys()))
            stack.extend(list(o.values()))
        elif isinstance(o, (list, tuple, set, frozenset,
                            collections.deque)):
            stack.extend(list(o))
        elif isinstance(o, np.ndarray):
            size += o.nbytes
            if o.base is not None:
                stack.append(o.base)
            if o.dtype == object:
                stack.extend(list(o.ravel()))
        elif isinstance(o, types.FunctionType):
            for c in o.__closure__ or ():
                try:
                    stack.append(c.cell_contents)
                except ValueError:
                    pass
            stack.extend(o.__defaults__ or ())
            stack.extend((o.__kwdefaults__ or {}).values())
        elif isinstance(o, types.MethodType):
            stack += [o.__self__, o.__func__]
        elif isinstance(o, (staticmethod, classmethod)):
            stack.append(o.__func__)
        elif isinstance(o, property):
            stack += [o.fget, o.fset]
        elif isinstance(o, functools.partial):
            stack += [o.func, o.args, o.keywords]
        d = getattr(o, '__dict__', None)
        if isinstance(d, dict):
            stack.extend(list(d.values()))
        for cls in type(o).__mro__:
            s = cls.__dict__.get('__slots__', ())
            for n in (s,) if isinstance(s, str) else s:
                if n not in ('__dict__', '__weakref__') and hasattr(o, n):
                    stack.append(getattr(o, n))
    return count, size


def steady(plan, out):
    cfg = plan['cfg']
    rng = random.Random(plan['seed'])
    h = Handle(cfg)
    settle(h, 1)
    fixed = dict(q='predict', x=[[[0.3 * cfg['xscale']]]
                                 for _ in range(cfg['D'])])
    modes = usable_modes(cfg)

    def weight():
        with h.rng():
            h.m[:] = np.array(h.m.param_array)
        for mode in modes:
            h.m.prediction = h.mode = mode
            ask(h, fixed)
        h.bufs.clear()
        gc.collect()
        roots = [m for n, m in sorted(sys.modules.items())
                 if n.split('.')[0] == 'runlmc']
        return weigh(roots + [h.m])

    marks = []
    for i in range(2 * CYCLES + 1):
        if i in (CYCLES, 2 * CYCLES):
            marks.append(weight())
            continue
        fault = plan['every'] and i % plan['every'] == 2 and dict(
            gen_fault(rng), how='seam')
        h.m.prediction = h.mode = plan.get('mode') or rng.choice(modes)
        if plan['what'] != 'query' or i % 40 == 0:
            op = gen_edit(rng, cfg)
            if not tolerant(lambda: do_edit(h, op), fault):
                out.probe('failed-operations')
            if not h.sane():
                settle(h, i)
        if plan['what'] != 'edit':
            q = gen_query(rng, cfg)
            while plan.get('q') and q['q'] != plan['q']:
                q = gen_query(rng, cfg)
            q.pop('buf', None)
            tolerant(lambda: ask(h, q), fault)
    (c0, s0), (c1, s1) = marks
    out.say('weights', marks)
    out.probe('weights')
    must(c1 - c0 < CYCLES // 4, 'objects accumulate with use',
         '%d after %d cycles, %d after %d' % (c0, CYCLES, c1, 2 * CYCLES))
    must(s1 - s0 < 0.1 * s0 + 8 * CYCLES, 'array memory accumulates with '
         'use', '%d bytes after %d cycles, %d after %d'
         % (s0, CYCLES, s1, 2 * CYCLES))
    out.sig = [plan['seed']]
    out.ok(2)


def run(plan, out):
    if plan['kind'] == 'steady':
        return steady(plan, out)
    CTX.cpu = 4
    CTX.pool_rng = random.Random(plan['seed'])
    CTX.pool_cfg = dict(isolation='inproc')
    census = Census(out)
    for i, op in enumerate(plan['ops']):
        out.sig.append((op['procs'], op.get('fault'), op.get('bad'),
                        [u['op'] for u in op['use']]))
        step(op, census, out)
        if op.get('check'):
            census.check('after model %d' % i)
    census.check('at the end')
    # what was kept still works
    for h in census.kept:
        if h.par:
            must(any(p._state == 'RUN' for p in CTX.live_pools),
                 'the workers of a model in use were released')
        if not h.sane():
            settle(h, 3)
        audit(h, random.Random(plan['seed']), 'kept model',
              ('predict', 'quad'))
        out.ok()
    out.see([len(census.gone), len(census.kept)])
