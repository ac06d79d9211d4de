"""C02: tasks that fail.  The call that needed them raises; afterwards the
model is right again."""
import random

from ..world import *  # noqa
from ..world import split
from .. import seams
from ..seams import CTX
from .c01 import gen_pool, use_pool

RUNS = dict(quick=100, thorough=2000)
RULE = ('a run is a seeded history during which 1-3 of the solve tasks fail '
        'with an exception at their start, mid-iteration or end, in '
        'simulated workers (n >= 300) or inline; non-trivial: at least one '
        'fault fired and was judged; distinct by fault position and schedule')
STUB = ['multiprocessing.Pool (simulated)', 'failing solve tasks']
LEVEL = 'fault_enumeration'

EXC = ('RuntimeError', 'MemoryError', 'ValueError', 'OSError', 'LinAlgError',
       'FloatingPointError', 'ZeroDivisionError', 'TimeoutError', 'KeyError',
       'EOFError', 'BrokenPipeError', 'IndexError', 'TypeError',
       'AssertionError', 'NotImplementedError', 'OverflowError',
       'AttributeError')

POOL = ('TimeoutError', 'EOFError', 'BrokenPipeError', 'OSError',
        'MemoryError')


def plan(rng, tier):
    par = rng.random() < 0.42
    cfg = gen_config(rng, big=par, metrics=rng.random() < 0.15)
    if par:
        cfg['trace'] = rng.choice((1, 2, 3))
    ops = []
    for _ in range(rng.randrange(1, 4)):
        r = rng.random()
        if r < 0.4:
            op = gen_edit(rng, cfg)
        elif r < 0.8:
            op = dict(op='query', q='predict', x=gen_batch(rng, cfg))
            op['to'] = rng.choice(usable_modes(cfg))
        else:
            op = dict(op='opt', its=rng.randrange(1, 4), rate=0.1)
        # position relative to the start of the operation
        op['fault'] = dict(after=rng.choice((1, 2, 2, 2, 3, 3, 4) if par else
                                            (1, 1, 2, 2, 3, 4, 6, 9)),
                           count=rng.choice((1, 1, 1, 2)),
                           at=rng.choice((0, 0, 1, 2, 5)),
                           exc=rng.choice(POOL if par and rng.random() < .5
                                          else EXC))
        ops.append(op)
    p = dict(cfg=cfg, ops=ops, par=par, audit=rng.randrange(1 << 30))
    if par:
        p['pool'] = gen_pool(rng)
    return p


def arm(par, f):
    CTX.task_faults, CTX.solver_faults = {}, {}
    for j in range(f['count']):
        if par:
            CTX.task_faults[CTX.tasks + f['after'] + j] = dict(
                exc=f['exc'], at=f['at'])
        else:
            CTX.solver_faults[CTX.solves + f['after'] + j] = dict(
                what='raise', exc=f['exc'], at=f['at'])


def fired():
    return sum(v for k, v in CTX.fault_log.items()
               if k.startswith(('task-', 'solver-raise')))


def run(plan, out):
    if plan.get('kill'):
        return run_kill(plan, out)
    par = plan['par']
    if par:
        use_pool(plan['pool'])
    h = Handle(plan['cfg'], max_procs=plan['pool']['procs'] if par else 1)
    settle(h, plan['cfg']['init_seed'])
    for i, op in enumerate(plan['ops']):
        out.sig.append((op['op'], op['fault'], op.get('to')))
        if op.get('to') and op['op'] == 'query':
            h.m.prediction = h.mode = op['to']
        n0 = fired()
        arm(par, op['fault'])
        err = ans = None
        try:
            ans = apply(h, op, keep_sane=False)
        except Exception as e:  # pylint: disable=broad-except
            err = e
        finally:
            CTX.task_faults, CTX.solver_faults = {}, {}
        hit = fired() - n0
        out.say(i, op['op'], 'fired', hit, 'raised', repr(err)[:100])
        if err is not None:
            if not hit:
                raise err
            out.probe('raised-' + op['op'])
            out.ok()
        elif hit:
            if op['op'] != 'opt':
                raise Violation('failed task did not fail the call',
                                '%s (%s)' % (op['op'], op['fault']))
            # optimisation tolerates a few numerical errors (paramz)
            must(op['fault']['exc'] in ('LinAlgError', 'ValueError',
                                        'ZeroDivisionError'),
                 'failed task did not fail the optimisation',
                 op['fault']['exc'])
            out.probe('tolerated')
        elif op['op'] == 'query' and ans is not None and h.sane():
            check_answer(h, op, ans)
            out.ok()
        # faults stopped: same model, same workers, right answers
        if not h.sane():
            settle(h, i)
        r = random.Random(plan['audit'] + i)
        audit(h, r, 'after a failed task', ('quad', 'predict', 'K',
                                            'loglik'))
        out.ok(4)
    do_edit(h, dict(how='leaf', pick=plan['audit'], seed=plan['audit']))
    audit(h, random.Random(plan['audit']), 'edited after failed tasks',
          ('predict', 'quad'))
    n = []
    do_optimize(h, dict(its=2, rate=0.05), callback=lambda: n.append(1))
    must(len(n) == 2, 'optimisation after failed tasks', len(n))
    if h.sane():
        audit(h, random.Random(plan['audit'] + 99), 'optimised after failed '
              'tasks', ('predict', 'quad'))
    out.ok(3)


# ---- a worker process that dies (rather than a task that raises)

KILL = 'a worker process killed while it holds a task'


def known():
    rng = random.Random(5)
    cfg = gen_config(rng, big=True, simple=True, metrics=False)
    pool = dict(procs=2, cpu=2, isolation='inproc', chunk=1,
                speed='uniform', assign='fifo', seed=1)
    yield KILL, dict(cfg=cfg, par=True, pool=pool, kill=2, np_seed=7,
                     ops=[], audit=1)


def run_kill(plan, out):
    """multiprocessing.Pool replaces a dead worker but never completes the
    task it held: the update waits forever."""
    use_pool(plan['pool'])
    h = Handle(plan['cfg'], max_procs=2)
    CTX.task_faults = {CTX.tasks + plan['kill']: dict(exc='OSError',
                                                      kill=True)}
    try:
        settle(h, 1)
    except Exception as e:  # pylint: disable=broad-except
        out.say('raised', e)
