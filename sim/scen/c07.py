"""C07: copies, pickles and parameter-vector checkpoints at any point."""
import copy
import os
import pickle
import random
import traceback

import numpy as np

from ..world import *  # noqa
from ..world import split
from .. import seams
from ..seams import CTX, SimCrash, SeamInjector, LineInjector, is_injected
from .c01 import gen_pool, use_pool

RUNS = dict(quick=110, thorough=2600)
RULE = ('a run takes checkpoints (copy, deepcopy, pickle restored here or in '
        'a standby process that shares nothing with the writer, parameter '
        'vector into a fresh model) at seeded points of a history, inside '
        'optimiser callbacks and right before a simulated crash; restored '
        'models answer, evolve and are compared; non-trivial: at least one '
        'restored model was compared; distinct by checkpoint kind, position '
        'and operation sequence')
ASSUME = ('optimiser callbacks are picklable (importable) functions',)
STUB = ['process crash and restart (writer ends by SimCrash; standby process '
        'forked before the history restores from the bytes alone)',
        'multiprocessing.Pool (simulated)']

HOW = ('copy', 'deepcopy', 'pickle', 'standby', 'vector', 'pickle2')


def plan(rng, tier):
    par = rng.random() < 0.2
    cfg = gen_config(rng, big=par, metrics=rng.random() < 0.2,
                     allow2d=rng.random() < 0.5)
    slow = not par and rng.random() < 0.08
    if slow:
        cfg = slow_config(rng, rng.choice((0.3, 1e-2, 1e-6)))
    ops = []
    for _ in range(rng.randrange(2, 5) if not par else 2):
        r = rng.random()
        if r < 0.4:
            op = gen_edit(rng, cfg)
        elif r < 0.55:
            op = dict(op='opt', its=rng.randrange(1, 4), rate=0.1)
        elif r < 0.7:
            op = dict(op='fix', pick=rng.randrange(1 << 20),
                      what=rng.choice(('fix', 'unfix', 'bounded', 'prior')))
        elif r < 0.8:
            op = dict(op='mode', to=rng.choice(usable_modes(cfg)))
        elif r < 0.9:
            op = dict(gen_query(rng, cfg), op='query')
        else:
            op = dict(op='fail', frac=rng.random(), edit=gen_edit(rng, cfg))
        ops.append(op)
    for _ in range(rng.choice((1, 1, 2))):
        cp = dict(op='save', how=rng.choice(HOW), x=gen_batch(rng, cfg),
                  seed=rng.randrange(1 << 30),
                  twice=rng.random() < 0.15)
        if rng.random() < 0.35:
            cp.update(op='opt-save', at=rng.randrange(3), its=3, rate=0.1,
                      crash=rng.random() < 0.4,
                      ask=rng.random() < 0.7)
        ops.insert(rng.randrange(1, len(ops) + 1), cp)
    if slow:
        ops = [gen_edit(rng, cfg),
               dict(op='save', how=rng.choice(HOW), x=gen_batch(rng, cfg),
                    seed=rng.randrange(1 << 30), twice=False)]
    p = dict(cfg=cfg, ops=ops, par=par)
    if par:
        p['pool'] = gen_pool(rng)
    return p


# ------------------------------------------------------------------ a standby

def put(fd, data):
    data = len(data).to_bytes(8, 'little') + data
    while data:
        data = data[os.write(fd, data):]


def get(fd):
    """length-prefixed: other processes may hold the write end open"""
    def exactly(n):
        buf = b''
        while len(buf) < n:
            b = os.read(fd, n - len(buf))
            if not b:
                return b''
            buf += b
        return buf
    return exactly(int.from_bytes(exactly(8) or b'', 'little'))


class Standby:
    """A process forked before the history: it knows the package and the
    configuration, and gets nothing but the saved bytes."""

    def __init__(self, cfg):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                data = get(r)
                if data:
                    req = pickle.loads(data)
                    try:
                        res = ('ok', restored_story(cfg, pickle.loads(
                            req['bytes']), req))
                    except Exception:  # pylint: disable=broad-except
                        res = ('exc', traceback.format_exc()[-800:])
                    put(w, pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        os.close(r)

    def ask(self, req):
        put(self.w, pickle.dumps(req))
        data = get(self.r)
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
        self.pid = 0
        must(data, 'standby', 'the restoring process died')
        st, val = pickle.loads(data)
        if st == 'exc':
            raise Violation('restoring in another process failed', val)
        return val

    def close(self):
        if self.pid:
            put(self.w, b'')
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)
            self.pid = 0


def answers(h, x):
    out = {}
    if not (h.mode == 'precompute' and split(h.cfg)):
        out['predict'] = ask(h, dict(q='predict', x=x))
        out['quantiles'] = ask(h, dict(q='quantiles', x=x, qs=[5., 95.]))
    for q in ('K', 'log_det', 'quad', 'loglik'):
        out[q] = ask(h, dict(q=q))
    with h.rng(edit=False):
        out['objective'] = float(h.m.objective_function())
    return out


def record(h):
    """The metrics, if any"""
    return None if getattr(h.m, 'metrics', None) is None else {
        k: np.array(v) for k, v in vars(h.m.metrics).items()
        if isinstance(v, list)}


def state(h):
    d = h.fingerprint(grad=False)
    d['metrics'] = record(h)
    d['mode'] = h.m.prediction
    d['optarr'] = np.array(h.m.optimizer_array)
    d['fixed'] = [n for n, p in sorted(leafs(h.m).items()) if p.is_fixed]
    return d


def same_restored(a, b, what):
    """Restoring may update the model, which adds to its record."""
    a, b = dict(a), dict(b)
    ra, rb = a.pop('metrics'), b.pop('metrics')
    same(a, b, what, 1e-9, 1e-10)
    must((ra is None) == (rb is None), what, 'metrics')
    if rb is not None:
        done = min(map(len, rb.values()))    # by completed updates
        same({k: v[:done] for k, v in ra.items()},
             {k: v[:done] for k, v in rb.items()},
             what + ': metrics', 1e-9, 1e-12)


def evolve(h, seed):
    """Seeded edit and optimisation from here."""
    h.state = np.random.RandomState(seed % (1 << 31)).get_state()
    do_edit(h, dict(how='leaf', pick=seed, seed=seed))
    if not all(p.is_fixed for p in leafs(h.m).values()):
        do_optimize(h, dict(its=2, rate=0.1))
    return h.fingerprint()


def effort(h, seed):
    """What solves take here, at a point where they take long."""
    old, CTX.record = CTX.record, []
    try:
        h.state = np.random.RandomState(seed % (1 << 31)).get_state()
        do_edit(h, dict(how='low', pick=0, seed=seed))
        return [r['its'][0] for r in CTX.record]
    finally:
        CTX.record = old


def same_effort(a, b, out):
    """Restored models solve to the same tolerance."""
    must(len(a) == len(b), 'solves of the restored model', '%s %s' % (a, b))
    for x, y in zip(a, b):
        must(abs(x - y) <= 4 + 0.15 * y, 'effort of the restored model',
             '%d iterations instead of %d' % (x, y))
    out.ok()
    out.probe('effort')
    if b and max(b) > 99:
        out.probe('effort-over-99')


def restored_story(cfg, model, req):
    h = Handle(cfg, model=model)
    h.mode = model.prediction
    res = dict(state=state(h), answers=answers(h, req['x']))
    res['evolved'] = evolve(h, req['seed'])
    if h.sane():
        audit(h, random.Random(req['seed']), 'restored model evolved',
              ('quad', 'predict'))
    res['effort'] = effort(h, req['seed'])
    return res


def save(h, how):
    m = h.m
    if how == 'copy':
        return m.copy()
    if how == 'deepcopy':
        return copy.deepcopy(m)
    if how == 'vector':
        return np.array(m.param_array)
    return pickle.dumps(m, 2 if how == 'pickle2' else -1)


def restore(h, how, saved, standby, req):
    """-> the story of the restored model"""
    if how == 'standby':
        return standby.ask(dict(req, bytes=saved))
    if how in ('pickle', 'pickle2'):
        saved = pickle.loads(saved)
    elif how == 'vector':
        b = Handle(h.cfg, max_procs=1)
        with b.rng():
            b.m[:] = saved
        saved = b.m
        saved.prediction = req['mode']
    return restored_story(h.cfg, saved, req)


CALLBACK = [None]


def tick():
    """The optimiser (and with it its callback) is part of a pickled model,
    so the callback is an importable function."""
    CALLBACK[0]()


def run(plan, out):
    if plan['par']:
        use_pool(plan['pool'])
    stand = Standby(plan['cfg'])
    try:
        _run(plan, out, stand)
    finally:
        stand.close()


def _run(plan, out, stand):
    h = Handle(plan['cfg'],
               max_procs=plan['pool']['procs'] if plan['par'] else 1)
    settle(h, plan['cfg']['init_seed'])
    plain = True          # no fixing, priors etc. so far
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        out.sig.append((kind, op.get('how'), op.get('at'), op.get('crash')))
        out.say(i, kind, op.get('how'), op.get('at'))
        if kind not in ('save', 'opt-save', 'fail'):
            apply(h, op)
            if kind == 'fix':
                plain = False
            continue
        if kind == 'fail':
            try:
                with SeamInjector(1 + int(op['frac'] * 30), 'MemoryError'):
                    do_edit(h, op['edit'])
            except MemoryError as e:
                if not is_injected(e):
                    raise
                out.probe('failed-update-before-checkpoint')
            if not h.sane():
                settle(h, i)
            continue
        how = op['how']
        if how == 'standby' and not stand.pid:
            how = 'pickle'
        req = dict(x=op['x'], seed=op['seed'], mode=h.mode)
        snap = {}

        def take():
            if snap:
                return
            snap['saved'] = save(h, how)
            if op['twice']:
                snap['saved'] = save(h, how)
            snap['state'] = state(h)
            snap['sane'] = h.sane()
            if kind == 'save' or op.get('ask'):
                snap['answers'] = answers(h, op['x'])
                snap['after'] = state(h)
        if kind == 'save':
            take()
        else:
            if all(p.is_fixed for p in leafs(h.m).values()):
                continue
            step = [0]

            def cb():
                if step[0] == op['at']:
                    take()
                    if op['crash']:
                        CTX.hit('crash-after-checkpoint')
                        raise SimCrash('injected by the simulator')
                step[0] += 1
            try:
                CALLBACK[0] = cb
                do_optimize(h, op, callback=tick)
            except SimCrash:
                pass
            if not snap:
                continue
            out.probe('checkpoint-in-callback')
        if kind == 'opt-save' and op['crash']:
            # the writer is gone; only what was saved is left
            h0, h = h, None
            h = Handle(plan['cfg'], max_procs=1)
            settle(h, i)
            src = h0
        else:
            src = h
        story = restore(src, how, snap['saved'], stand, req)
        out.probe('restored-' + how)
        if how == 'vector':
            a, b = dict(story['state']), dict(snap['state'])
            if not plain:
                for d in (a, b):
                    d.pop('optarr'), d.pop('fixed')
            a.pop('metrics'), b.pop('metrics')
            same(a, b, 'restored parameters', 1e-9, 1e-10)
        else:
            same_restored(story['state'], snap['state'], 'restored state')
        out.ok(2)
        if snap.get('answers'):
            a, b = dict(story['answers']), dict(snap['answers'])
            if how == 'vector' and not plain:
                a.pop('objective'), b.pop('objective')
            if src.resid < 1e-6 or how != 'vector':
                same(a, b, 'restored answers', 1e-6, 1e-7)
                out.ok()
        if kind == 'opt-save':
            if h.sane() and not op['crash']:
                audit(h, random.Random(i), 'original after checkpoint',
                      ('predict', 'quad'))
            if not h.sane():
                settle(h, i)
            continue
        # the restored model has been edited and optimised: the original
        # must not have noticed
        if 'answers' in snap:
            same(answers(h, op['x']), snap['answers'],
                 'original after its copy was changed', 1e-6, 1e-7)
            same(state(h), snap['after'],
                 'original after its copy was changed', 1e-9, 1e-10)
            out.ok(2)
        if how != 'vector' or plain:
            mine = evolve(h, op['seed'])
            same(story['evolved'], mine, 'equal seeded evolution', 1e-5,
                 1e-6)
            out.ok()
            if plain:
                same_effort(story['effort'], effort(h, op['seed']), out)
        if not h.sane():
            settle(h, i)
    if h.sane():
        audit(h, random.Random(1), 'original at the end',
              ('predict', 'quad', 'K'))
