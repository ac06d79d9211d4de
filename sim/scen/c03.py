"""C03: updates interrupted (Ctrl-C) or failing at any point."""
import random

from ..world import *  # noqa
from ..seams import CTX, LineInjector, SeamInjector, is_injected

RUNS = dict(quick=150, thorough=4000)
RULE = ('a run is a seeded history of edits, optimisation and queries of '
        'which several are interrupted: KeyboardInterrupt at a seeded '
        'executed line of the package, or an interrupt/exception at a seeded '
        'numerical seam (solve, solver iterate, kernel evaluation or '
        'gradient, factorisation, probe draw); non-trivial: an injection '
        'fired inside an update and answers were audited afterwards; '
        'distinct by injection site and operation sequence')
STUB = ['source of the interrupt (line tracer / wrapped numerical calls)']
LEVEL = 'fault_enumeration'
ASSUME = ('an update begins with its first kernel evaluation; interrupts '
          'between the parameter write inside paramz and that point are not '
          'injected',)

EXC = ('KeyboardInterrupt', 'KeyboardInterrupt', 'LinAlgError', 'MemoryError',
       'FloatingPointError', 'ValueError', 'RuntimeError')


def plan(rng, tier):
    if rng.random() < 0.35:
        return sweep_plan(rng)
    cfg = gen_config(rng, metrics=rng.random() < 0.25)
    ops = []
    for _ in range(rng.randrange(2, 6)):
        r = rng.random()
        if r < 0.45:
            op = gen_edit(rng, cfg)
        elif r < 0.6:
            op = dict(op='opt', its=rng.randrange(1, 4), rate=0.1,
                      start=rng.random() < 0.2,
                      verb=rng.choice((0, 0, 1)))
        elif r < 0.75:
            op = dict(gen_query(rng, cfg), op='query')
        elif r < 0.85:
            op = dict(op='mode', to=rng.choice(usable_modes(cfg)))
        else:
            op = dict(gen_query(rng, cfg), op='query', check=True)
        if op['op'] in ('edit', 'opt', 'query') and not op.get('check') \
                and rng.random() < 0.75:
            if rng.random() < 0.65:
                op['inject'] = dict(kind='line', frac=rng.random(),
                                    exc='KeyboardInterrupt')
                if rng.random() < 0.65:
                    op['inject'].update(kind='site', hit=rng.choice(
                        (1, 1, 1, 1, 2, 3, 7)))
            else:
                op['inject'] = dict(kind='seam', frac=rng.random(),
                                    exc=rng.choice(EXC))
            op['ask'] = rng.random() < 0.7
            op['again'] = gen_again(rng, cfg)
        ops.append(op)
    return dict(cfg=cfg, ops=ops, seed=rng.randrange(1 << 30),
                warm=rng.random() < 0.8)


def gen_again(rng, cfg):
    """Queries that are interrupted in turn, right after a failure."""
    if rng.random() < 0.65:
        return []
    return [dict(gen_query(rng, cfg), op='query', inject=dict(
        kind=rng.choice(('seam', 'site')), frac=rng.random(), full=True,
        hit=rng.choice((1, 1, 2)), exc=rng.choice(EXC)))
            for _ in range(rng.choice((1, 1, 2)))]


def sweep_plan(rng):
    """A small model, interrupted at many places one after the other."""
    cfg = gen_config(rng, metrics=rng.random() < 0.3, allow2d=False)
    cfg['lens'] = [rng.randrange(3, 6) for _ in cfg['lens']]
    cfg['trace'] = rng.choice((1, 2))
    cfg['m'] = rng.randrange(4, 9)
    ops = []
    for _ in range(24):
        r = rng.random()
        if r < 0.65:
            op = gen_edit(rng, cfg)
        elif r < 0.85:
            op = dict(gen_query(rng, cfg), op='query')
        else:
            op = dict(op='opt', its=1, rate=0.1)
        op['inject'] = dict(kind='site', frac=rng.random(),
                            exc='KeyboardInterrupt',
                            hit=rng.choice((1, 1, 1, 1, 2, 3)))
        op['ask'] = True
        op['again'] = gen_again(rng, cfg)
        if op['op'] == 'query':      # with and without anything cached
            ops.append(gen_edit(rng, cfg))
        ops.append(op)
        if rng.random() < 0.1:
            ops.append(dict(op='mode', to=rng.choice(usable_modes(cfg))))
    return dict(cfg=cfg, ops=ops, seed=rng.randrange(1 << 30), warm=True,
                sweep=True)


def run(plan, out):
    h = Handle(plan['cfg'])
    span = {}                 # length of one update in lines, seam events
    with LineInjector() as box:
        settle(h, plan['cfg']['init_seed'] + 1)
    span['line'] = box.count
    span['site'] = len(box.sites)
    with SeamInjector() as box:
        settle(h, plan['cfg']['init_seed'])
    span['seam'] = box.count
    r = random.Random(plan['seed'])
    if plan['warm']:          # fill every cache for the current parameters
        audit(h, r, 'warm')
    for i, op in enumerate(plan['ops']):
        inj = op.get('inject')
        out.sig.append((op['op'], op.get('how'), op.get('q')))
        ans = None
        if not inj:
            ans = apply(h, op)
        else:
            ans, fired = interrupted(h, op, span, out)
            if fired is not None:
                out.probe('fired-in-' + op['op'])
                for q in op.get('again', ()):
                    if not h.sane():
                        break
                    got, f = interrupted(h, q, span, out)
                    if f is not None:
                        out.probe('fired-again')
                    elif got is not None:
                        check_answer(h, q, got)
        if ans is not None and h.sane():
            check_answer(h, op, ans)
            out.ok()
        if not inj or not op.get('ask'):
            continue
        if not h.sane():
            if plan.get('sweep'):
                settle(h, i)
            continue
        # right after the interruption: ask in seeded order
        qs = list(QUERIES)
        r.shuffle(qs)
        audit(h, r, 'after interruption', qs[:r.randrange(2, 7)]
              if not plan.get('sweep') else r.choice((
                  ['predict', 'quad'], ['quantiles'], ['predict', 'K'],
                  ['loglik', 'predict'], ['log_det', 'quad'])))
        if r.random() < 0.4:
            mode = r.choice(usable_modes(h.cfg))
            h.m.prediction = h.mode = mode
            audit(h, r, 'after interruption', ('predict',))
        out.ok(3)
    if not h.sane():
        settle(h, 5)
    audit(h, r, 'at the end')
    # and the model can be edited and optimised further
    do_edit(h, dict(how='leaf', pick=plan['seed'], seed=plan['seed']))
    audit(h, r, 'edited afterwards', ('predict', 'quad', 'log_det'))
    n = []
    do_optimize(h, dict(its=2, rate=0.05), callback=lambda: n.append(1))
    must(len(n) == 2, 'optimisation afterwards', len(n))
    if h.sane():
        audit(h, r, 'optimised afterwards', ('predict', 'loglik'))
    out.ok(4)


def interrupted(h, op, span, out):
    """(answer, where the injection fired); without an answer if it did"""
    inj = op['inject']
    at = measure(op, inj, span)
    if inj['kind'] == 'site':
        box = LineInjector(None, inj['exc'], site=[at, inj['hit']])
    else:
        box = (LineInjector if inj['kind'] == 'line' else
               SeamInjector)(at, inj['exc'])
    ans = None
    try:
        with box:
            ans = apply(h, op, keep_sane=False)
    except BaseException as e:  # pylint: disable=broad-except
        if not is_injected(e):
            raise
        if box.fired is None:
            raise
    out.sig.append(box.fired)
    out.say(op['op'], 'at', at, box.fired)
    return (None if box.fired is not None else ans), box.fired


def measure(op, inj, span):
    """Where the injection goes: a fraction of the length of the operation,
    half of them biased towards its beginning."""
    n = span[inj['kind']]
    if inj.get('full'):          # a query that makes up for an update
        return 1 + int(inj['frac'] * n * 1.1)
    if inj['kind'] == 'site':    # an update in it meets few further lines
        return 1 + int(inj['frac'] * n * dict(
            opt=1.15, query=0.6).get(op['op'], 1.03))
    if op['op'] == 'opt':
        n *= op['its'] + 0.5
    if op['op'] == 'query':
        n = n // 3 + 1
    f = inj['frac']
    f = f * f if int(f * 1000) % 2 else f
    return 1 + int(f * n * 1.02)
