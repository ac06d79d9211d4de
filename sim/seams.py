"""Seams: every source of nondeterminism the package touches is put behind
the simulator here, before the package is imported.  Nothing in /repo is
changed: the seams are the library entry points it already calls
(multiprocessing pools, executors, locks, iterative solvers, clocks)."""
import contextlib
import functools
import heapq
import os
import pickle
import queue  # noqa: F401 (takes its real clock before it is patched)
import random
import selectors  # noqa: F401
import subprocess  # noqa: F401
import sys
import threading
import weakref
import zlib
import _thread
import time as _time

import numpy as np
import scipy.sparse.linalg as sla
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import multiprocessing.dummy
import concurrent.futures

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'runlmc') + os.sep


class SimDeadlock(BaseException):
    """No enabled step is left although somebody waits."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class Injected(Exception):
    """Marks exceptions injected by the simulator (mixed in)."""


def make_exc(kind):
    base = {'RuntimeError': RuntimeError, 'MemoryError': MemoryError,
            'ValueError': ValueError, 'OSError': OSError,
            'LinAlgError': np.linalg.LinAlgError,
            'FloatingPointError': FloatingPointError,
            'ZeroDivisionError': ZeroDivisionError,
            'KeyboardInterrupt': KeyboardInterrupt,
            'StopIteration': StopIteration, 'KeyError': KeyError,
            'IndexError': IndexError, 'GeneratorExit': GeneratorExit,
            'SystemExit': SystemExit, 'AttributeError': AttributeError,
            'TypeError': TypeError, 'AssertionError': AssertionError,
            'TimeoutError': TimeoutError, 'EOFError': EOFError,
            'BrokenPipeError': BrokenPipeError,
            'NotImplementedError': NotImplementedError,
            'OverflowError': OverflowError,
            'SimCrash': SimCrash}[kind]
    return base('injected by the simulator')


def is_injected(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if 'injected by the simulator' in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


# --------------------------------------------------------------------------
# Simulation context: one per run (a run is one forked process)
# --------------------------------------------------------------------------

class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.pool_rng = random.Random(0)
        self.pool_cfg = {}
        self.cpu = 4
        self.pools = 0
        self.live_pools = weakref.WeakSet()
        self.tasks = 0            # dispatched so far
        self.vtime = 0.0          # virtual seconds
        self.task_faults = {}     # ordinal -> fault dict
        self.solver_faults = {}   # ordinal -> fault dict
        self.solves = 0
        self.worst = 0.0          # largest residual norm of a solve
        self.mute = 0             # no injection: the simulator computes
        self.in_method = False    # inside the iterative method proper
        self.record = None        # list collecting solver calls
        self.fault_log = {}       # kind -> count
        self.events = []          # schedule events (for distinctness)
        self.in_update = 0
        self.gate = True
        self.seam_hook = None     # called with name at numerical seams
        self.clock_off = 0.0
        self.clock_rng = None

    def hit(self, kind):
        self.fault_log[kind] = self.fault_log.get(kind, 0) + 1

    def ev(self, *a):
        self.events.append(a)


CTX = Ctx()


# --------------------------------------------------------------------------
# Iterative solver seam
# --------------------------------------------------------------------------

def _wrap_solver(name, real):
    def solver(A, b, *args, **kw):
        c = CTX
        c.solves += 1
        k = c.solves
        f = c.solver_faults.get(k) or c.solver_faults.get('*')
        if c.seam_hook:
            c.seam_hook('solve')
        its = [0]
        cb = kw.get('callback')

        def wrapped(x):
            its[0] += 1
            due = f and f.get('at') == its[0]
            if due:
                c.hit('solver-' + f['what'])
                if f['what'] == 'raise':
                    raise make_exc(f['exc'])
            if c.seam_hook:
                c.seam_hook('iterate')
            if cb is not None:
                c.in_method, was = False, c.in_method
                try:
                    cb(x)
                finally:
                    c.in_method = was
            if due and f['what'] == 'stop':
                raise _Stop(x.copy())
        kw['callback'] = wrapped
        rec = None
        if c.record is not None:
            rec = dict(b=np.array(b, dtype=float), its=its, solver=name,
                       thread=_thread.get_ident())
            c.record.append(rec)
        if f and f['what'] == 'raise' and f.get('at', 0) == 0:
            c.hit('solver-raise')
            raise make_exc(f['exc'])
        try:
            c.in_method = True
            if f and f['what'] == 'stall':
                x, info = _stall(c, f, b, kw, wrapped)
            else:
                x, info = real(A, b, *args, **kw)
        except _Stop as e:
            x, info = e.x, f.get('info', 1)
        finally:
            c.in_method = False
        if f and f['what'] in ('scale', 'noise', 'nan', 'flag', 'zero'):
            c.hit('solver-' + f['what'])
            x = np.array(x)
            if f['what'] == 'scale':
                x *= f.get('amount', 1.5)
            elif f['what'] == 'noise':
                x = x + f.get('amount', 1.) * np.random.RandomState(
                    k).randn(len(x))
            elif f['what'] == 'nan':
                x[f.get('idx', 0) % len(x)] = np.nan
            elif f['what'] == 'zero':
                x = np.zeros_like(x)
            info = f.get('info', info)
        c.mute += 1        # the simulator's own evaluation
        try:
            res = float(np.linalg.norm(b - A.matvec(x)))
        except Exception:  # pylint: disable=broad-except
            res = float('inf')
        finally:
            c.mute -= 1
        c.worst = max(c.worst, res) if res == res else float('inf')
        if rec is not None:
            rec['x'] = np.array(x)
            rec['res'] = res
            rec['info'] = info
        return x, info
    solver.__name__ = name
    solver.__doc__ = real.__doc__
    solver.real = real
    return solver


def _stall(c, f, b, kw, callback):
    """A method that makes no progress, but keeps its contract."""
    c.hit('solver-stall')
    n = len(b)
    limit = kw.get('maxiter')
    limit = 5 * n if limit is None else limit
    x = f.get('amount', 0.) * np.random.RandomState(n).randn(n)
    for _ in range(int(limit)):
        callback(x)
    return x.copy(), f.get('info', int(limit))


class _Stop(Exception):
    def __init__(self, x):
        super().__init__('stop')
        self.x = x


# --------------------------------------------------------------------------
# Simulated process / thread pool
# --------------------------------------------------------------------------

class _Remote(Exception):
    pass


def _exec_chunk(payload):
    """Runs in a worker: payload -> list of (ok, value or exception)."""
    f, items, star, faults, want_rec = pickle.loads(payload)
    out = []
    save = CTX.record, CTX.seam_hook, CTX.worst
    CTX.record = [] if want_rec else None
    CTX.seam_hook = None
    CTX.worst = 0.
    try:
        for it, flt in zip(items, faults):
            if flt and flt.get('at', 0) == 0:
                out.append((False, make_exc(flt['exc'])))
                continue
            if flt:  # fail within the task, at some solver iteration
                CTX.solver_faults['*'] = dict(
                    what='raise', at=flt['at'], exc=flt['exc'])
            try:
                out.append((True, f(*it) if star else f(it)))
            except Exception as e:  # pylint: disable=broad-except
                out.append((False, e))
            finally:
                CTX.solver_faults.pop('*', None)
            if flt and out[-1][0]:
                # finished before the chosen iteration: fail at the end
                out[-1] = (False, make_exc(flt['exc']))
        rec, worst = CTX.record, CTX.worst
    finally:
        CTX.record, CTX.seam_hook, CTX.worst = save
    if rec is not None:
        rec = [dict(r, its=r['its'][0]) for r in rec]
    try:
        return pickle.dumps((out, rec, worst))
    except Exception as e:  # pylint: disable=broad-except
        err = multiprocessing.pool.MaybeEncodingError(e, '<result>')
        return pickle.dumps(([(False, err)] * len(items), rec, worst))


class _InprocWorker:
    """Worker whose only own state is what the package can reach through the
    global numpy generator; arguments and results are pickled copies."""

    def __init__(self):
        self.np_state = np.random.get_state()
        self.py_state = random.getstate()

    def run(self, payload):
        mine = np.random.get_state(), random.getstate()
        np.random.set_state(self.np_state)
        random.setstate(self.py_state)
        try:
            return _exec_chunk(payload)
        finally:
            self.np_state = np.random.get_state()
            self.py_state = random.getstate()
            np.random.set_state(mine[0])
            random.setstate(mine[1])

    def stop(self):
        pass


class _ForkWorker:
    """A real forked process that runs in lockstep: it executes only while
    the simulator waits for it, so there is no concurrency to schedule."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(w1)
                os.close(r2)
                inp, outp = os.fdopen(r1, 'rb'), os.fdopen(w2, 'wb')
                CTX.fault_log = {}
                while True:
                    head = inp.read(8)
                    if len(head) < 8:
                        break
                    data = inp.read(int.from_bytes(head, 'little'))
                    res = _exec_chunk(data)
                    outp.write(len(res).to_bytes(8, 'little'))
                    outp.write(res)
                    outp.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(r1)
        os.close(w2)
        self.outp, self.inp = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')

    def run(self, payload):
        self.outp.write(len(payload).to_bytes(8, 'little'))
        self.outp.write(payload)
        self.outp.flush()
        head = self.inp.read(8)
        if len(head) < 8:
            raise SimDeadlock('simulated worker process ended unexpectedly')
        return self.inp.read(int.from_bytes(head, 'little'))

    def stop(self):
        if self.pid:
            try:
                self.outp.close()
                self.inp.close()
            except OSError:
                pass
            try:
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = 0

    def __del__(self):
        self.stop()


class _Job:
    """A batch of tasks cut in chunks (what Pool calls a MapResult)."""

    def __init__(self, pool, f, items, star, chunksize, callback=None,
                 error_callback=None, single=False):
        self.pool, self.f, self.star, self.single = pool, f, star, single
        self.callback, self.error_callback = callback, error_callback
        items = list(items)
        self.n = len(items)
        self.values = [None] * self.n
        self.done_chunks = 0
        self.error = None
        self.order = []            # completion order of task indices
        self.ready_at = None
        if chunksize is None:
            chunksize, extra = divmod(self.n, len(pool.workers) * 4)
            if extra:
                chunksize += 1
        forced = pool.cfg.get('chunk')
        if forced:
            chunksize = forced
        chunksize = max(1, chunksize)
        self.chunks = []
        for i in range(0, self.n, chunksize):
            idx = list(range(i, min(self.n, i + chunksize)))
            faults = []
            for _ in idx:
                CTX.tasks += 1
                flt = CTX.task_faults.get(CTX.tasks)
                if flt:
                    CTX.hit('task-' + flt['exc'] +
                            ('-entry' if not flt.get('at') else '-midway'))
                faults.append(flt)
            kill = any(x and x.get('kill') for x in faults)
            if kill:
                self.chunks.append((idx, None))
                continue
            payload = pickle.dumps(
                (f, [items[j] for j in idx], star, faults,
                 CTX.record is not None))
            self.chunks.append((idx, payload))
        if not self.chunks:
            self.ready_at = pool.now

    def finished(self):
        return self.ready_at is not None

    def finish_chunk(self, c, now, res):
        idx, _ = self.chunks[c]
        if not isinstance(res, list):
            out, rec, worst = pickle.loads(res)
            CTX.worst = max(CTX.worst, worst)
            if rec and CTX.record is not None:
                CTX.record.extend(dict(r, its=[r['its']]) for r in rec)
        else:
            out = res
        for j, (ok, val) in zip(idx, out):
            self.values[j] = val
            self.order.append(j)
            if not ok and self.error is None:
                self.error = val
        self.done_chunks += 1
        if self.done_chunks == len(self.chunks):
            self.ready_at = now
            if self.error is None:
                if self.callback:
                    self.callback(self.values[0] if self.single
                                  else self.values)
            elif self.error_callback:
                self.error_callback(self.error)


class AsyncResult:
    def __init__(self, job):
        self._job = job

    def ready(self):
        self._job.pool._step_if_due()
        return self._job.finished()

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self._job.error is None

    def wait(self, timeout=None):
        self._job.pool._run_until(self._job, timeout)

    def get(self, timeout=None):
        self._job.pool._run_until(self._job, timeout)
        if not self._job.finished():
            raise multiprocessing.TimeoutError
        if self._job.error is not None:
            raise self._job.error
        return self._job.values[0] if self._job.single else self._job.values


class SimPool:
    """The multiprocessing.Pool interface over simulated workers.  The seeded
    scheduler picks which idle worker takes the next chunk and how long (in
    virtual time) each chunk takes, hence the completion order."""

    _in_process = True

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if processes is None:
            processes = CTX.cpu
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        CTX.pools += 1
        CTX.live_pools.add(self)
        self.cfg = dict(CTX.pool_cfg)
        self.rng = random.Random(CTX.pool_rng.random())
        kind = _ForkWorker if self.cfg.get('isolation') == 'fork' \
            else _InprocWorker
        self.workers = [kind() for _ in range(processes)]
        if initializer is not None:
            for w in self.workers:
                w.run(pickle.dumps((initializer, [tuple(initargs)], True,
                                    [None], False)))
        # (names of the real one)
        self._processes, self._pool = processes, self.workers
        self.idle = list(range(processes))
        self.queue = []            # (job, chunk)
        self.running = []          # heap (time, seq, worker, job, chunk)
        self.now = 0.0
        self.seq = 0
        self._state = 'RUN'

    # scheduling -----------------------------------------------------------
    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def _submit(self, job):
        self._check()
        for c in range(len(job.chunks)):
            self.queue.append((job, c))
        return job

    def _duration(self):
        mode = self.cfg.get('speed', 'random')
        if mode == 'uniform':
            return 1.0
        d = self.rng.expovariate(1.0)
        if mode == 'stalls' and self.rng.random() < 0.15:
            d += 1000.0
            CTX.hit('worker-stall')
        return d

    def _start_ready(self):
        while self.queue and self.idle:
            pick = self.rng.randrange(len(self.idle)) \
                if self.cfg.get('assign', 'random') == 'random' else 0
            w = self.idle.pop(pick)
            job, c = self.queue.pop(0)
            self.seq += 1
            CTX.ev('start', w, c)
            if job.chunks[c][1] is None:       # the worker is killed
                CTX.hit('worker-killed')
                self.idle.append(w)            # a replacement is started
                continue                       # ... and the chunk is lost
            heapq.heappush(self.running, (
                self.now + self._duration(), self.seq, w, job, c))

    def _step(self):
        """Run one completion; False if nothing can happen any more."""
        self._start_ready()
        if not self.running:
            return False
        t, _, w, job, c = heapq.heappop(self.running)
        CTX.vtime += t - self.now
        self.now = t
        CTX.ev('end', w, c)
        res = self.workers[w].run(job.chunks[c][1])
        self.idle.append(w)
        job.finish_chunk(c, self.now, res)
        return True

    def _step_if_due(self):
        self._step()

    def _run_until(self, job, timeout=None):
        limit = None if timeout is None else self.now + timeout
        while not job.finished():
            self._start_ready()
            if not self.running:
                if limit is not None:
                    self.now = limit
                    return
                raise SimDeadlock(
                    'waiting forever for tasks that no worker holds')
            if limit is not None and self.running[0][0] > limit:
                self.now = limit
                return
            self._step()

    def _sync(self, job):
        return AsyncResult(self._submit(job)).get()

    # Pool interface -------------------------------------------------------
    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds=None, callback=None,
                    error_callback=None):
        kwds = kwds or {}
        job = _Job(self, _KwCall(func, kwds) if kwds else func,
                   [tuple(args)], True, 1, callback, error_callback, True)
        return AsyncResult(self._submit(job))

    def map(self, func, iterable, chunksize=None):
        return self._sync(_Job(self, func, iterable, False, chunksize))

    def starmap(self, func, iterable, chunksize=None):
        return self._sync(_Job(self, func, iterable, True, chunksize))

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return AsyncResult(self._submit(_Job(
            self, func, iterable, False, chunksize, callback,
            error_callback)))

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return AsyncResult(self._submit(_Job(
            self, func, iterable, True, chunksize, callback,
            error_callback)))

    def imap(self, func, iterable, chunksize=1):
        job = self._submit(_Job(self, func, iterable, False, chunksize))

        def gen():
            pos = 0
            while pos < job.n:
                while pos not in job.order:
                    if not self._step():
                        raise SimDeadlock('imap waits for a lost task')
                v = job.values[pos]
                if isinstance(v, BaseException):
                    raise v
                yield v
                pos += 1
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        job = self._submit(_Job(self, func, iterable, False, chunksize))

        def gen():
            pos = 0
            while pos < job.n:
                while pos >= len(job.order):
                    if not self._step():
                        raise SimDeadlock('imap waits for a lost task')
                v = job.values[job.order[pos]]
                if isinstance(v, BaseException):
                    raise v
                yield v
                pos += 1
        return gen()

    def close(self):
        if self._state == 'RUN':
            self._state = 'CLOSE'

    def terminate(self):
        self._state = 'TERMINATE'
        for w in self.workers:
            w.stop()

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        while self._step():
            pass

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError(
            'pool objects cannot be passed between processes or pickled')


class _KwCall:
    def __init__(self, f, kw):
        self.f, self.kw = f, kw

    def __call__(self, *a):
        return self.f(*a, **self.kw)


class SimExecutor(concurrent.futures.Executor):
    def __init__(self, max_workers=None, *a, **kw):
        self._pool = SimPool(max_workers)

    def submit(self, fn, *args, **kwargs):
        fut = concurrent.futures.Future()
        job = _Job(self._pool, _KwCall(fn, kwargs) if kwargs else fn,
                   [tuple(args)], True, 1, fut.set_result,
                   fut.set_exception, True)
        self._pool._submit(job)
        real = fut.result

        def result(timeout=None):
            self._pool._run_until(job, timeout)
            return real(0)
        fut.result = result
        fut.exception = lambda timeout=None: (
            self._pool._run_until(job, timeout),
            concurrent.futures.Future.exception(fut, 0))[1]
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result() for f in futs)

    def shutdown(self, wait=True, **kw):
        if wait:
            while self._pool._step():
                pass
        self._pool.close()


def _factory(*a, **kw):
    return SimPool(*a, **kw)


# --------------------------------------------------------------------------
# Threads: cooperative scheduler over real threads, one token
# --------------------------------------------------------------------------

FINE = tuple(PKG + d + os.sep for d in ('linalg', 'approx', 'kern'))


class ThreadSim:
    """Runs the given functions in real threads of which exactly one is ever
    released.  At every executed source line of the package (or of a callee
    listed in ``extra``) the running thread may be preempted; ``switches``
    maps the global step number to the number of the thread to go on with."""

    def __init__(self, funcs, switches, max_steps=8000000, focus=None):
        self.focus = focus        # (salt, modulus): functions counted
        self.focused = 0
        self.codes = {}
        self.funcs = funcs
        self.switches = dict(switches)
        self.max_steps = max_steps
        self.steps = 0
        self.coarse = 0
        self.cur = 0
        self.sems = [_thread.allocate_lock() for _ in funcs]
        for s in self.sems:
            s.acquire()
        self.done = [False] * len(funcs)
        self.blocked = [None] * len(funcs)
        self.results = [None] * len(funcs)
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.fatal = None
        self.trail = []

    # called in worker threads
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            self.step(frame)
        return self._line

    def step(self, frame=None):
        self.steps += 1
        if self.fatal is not None:
            raise SimCrash('thread simulation stopped')
        if self.steps > self.max_steps:
            self.fatal = SimDeadlock('step bound exceeded')
            raise self.fatal
        to = self.switches.get(('a', self.steps))
        if frame is not None:
            cls = self.codes.get(frame.f_code)
            if cls is None:
                cls = self.codes[frame.f_code] = self._classify(frame.f_code)
            if cls[0]:
                self.coarse += 1
                to = self.switches.get(('c', self.coarse), to)
            if cls[1]:
                self.focused += 1
                to = self.switches.get(('f', self.focused), to)
        if to is not None:
            to %= len(self.funcs)
            if to != self.cur and not self.done[to]:
                self.trail.append((
                    self.cur, to,
                    frame.f_code.co_name + ':' + str(frame.f_lineno)
                    if frame is not None else ''))
                self._handover(to)

    def _classify(self, code):
        return (not code.co_filename.startswith(FINE),
                self.focus is not None and zlib.crc32(
                    code.co_name.encode(), self.focus[0]) %
                self.focus[1] == 0)

    def _handover(self, to):
        me = self.cur
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()

    def runnable(self):
        return [i for i in range(len(self.funcs))
                if not self.done[i] and
                (self.blocked[i] is None or not self.blocked[i]._held())]

    def wait_lock(self, lock):
        """current thread cannot go on until lock is free"""
        me = self.cur
        self.blocked[me] = lock
        r = [i for i in self.runnable() if i != me]
        if not r and lock._held():
            self.fatal = SimDeadlock('all threads wait for locks')
            raise self.fatal
        if r:
            self._handover(r[0])
        self.blocked[me] = None

    def _body(self, i):
        self.sems[i].acquire()
        sys.settrace(self._trace)
        try:
            self.results[i] = ('ok', self.funcs[i]())
        except BaseException as e:  # pylint: disable=broad-except
            self.results[i] = ('exc', e)
        finally:
            sys.settrace(None)
            self.done[i] = True
            r = self.runnable()
            if not r:
                r = [j for j in range(len(self.funcs)) if not self.done[j]]
                if r and self.fatal is None:
                    self.fatal = SimDeadlock('all threads wait for locks')
            if r:
                self.cur = r[0]
                self.sems[r[0]].release()
            else:
                self.main.release()

    def run(self, first=0):
        global TSIM
        TSIM = self
        for i in range(len(self.funcs)):
            _thread.start_new_thread(self._body, (i,))
        self.cur = first
        self.sems[first].release()
        self.main.acquire()
        TSIM = None
        if self.fatal is not None and isinstance(self.fatal, SimDeadlock):
            return [('exc', self.fatal)] * len(self.funcs)
        return self.results


TSIM = None


class SimLock:
    """Lock for code imported under the simulator: blocks by handing the
    token on instead of blocking the process."""

    _re = False

    def __init__(self):
        self._owner = None
        self._n = 0

    def _held(self):
        if self._owner is None:
            return False
        return True

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and not (
                self._re and self._owner == me):
            if not blocking:
                return False
            if TSIM is None:
                raise SimDeadlock('lock is never released')
            TSIM.wait_lock(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        self._n -= 1
        if self._n <= 0:
            self._owner, self._n = None, 0

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _re = True


# --------------------------------------------------------------------------
# Interruption at executed lines
# --------------------------------------------------------------------------

class LineInjector:
    """Counts executed lines of the package while armed; raises at the
    chosen one.  Lines of an update count only once the update has started
    to evaluate kernels (before that no numerical step has happened and the
    update has not begun)."""

    def __init__(self, at=None, exc='KeyboardInterrupt', hook=None,
                 site=None):
        # site=[k, j]: at the j-th execution of the k-th distinct line (so
        # that lines executed once are hit as often as those in loops)
        self.at, self.exc, self.hook, self.site = at, exc, hook, site
        self.sites = {}
        self.target = None
        self.count = 0
        self.fired = None

    def _global(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(PKG):
            return None
        if code.co_name == 'parameters_changed' and \
                'model' in code.co_filename:
            CTX.in_update += 1
            CTX.gate = False
        return self._local

    def _local(self, frame, event, arg):
        if event == 'return' and \
                frame.f_code.co_name == 'parameters_changed' and \
                'model' in frame.f_code.co_filename:
            CTX.in_update -= 1
            CTX.gate = True
        if event == 'line' and CTX.gate and self.fired is None and \
                not CTX.mute:
            self.count += 1
            if self.hook:
                self.hook(self.count)
            where = frame.f_code, frame.f_lineno
            hits = self.sites[where] = self.sites.get(where, 0) + 1
            if self.site and self.target is None and hits == 1 and \
                    len(self.sites) == self.site[0]:
                self.target = where
            if self.count == self.at or (
                    where == self.target and hits == self.site[1]):
                self.fired = '%s:%d' % (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_lineno)
                CTX.hit('interrupt-line')
                CTX.ev('interrupt', frame.f_code.co_name, frame.f_lineno)
                raise make_exc(self.exc)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        CTX.in_update, CTX.gate = 0, True
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        CTX.gate, CTX.in_update = True, 0


class SeamInjector:
    """Raises at the k-th numerical seam event while armed."""

    def __init__(self, at=None, exc='KeyboardInterrupt'):
        self.at, self.exc = at, exc
        self.count = 0
        self.fired = None
        self.route = []           # the seams passed

    def _hook(self, name):
        if self.fired is not None or CTX.mute:
            return
        self.count += 1
        self.route.append(name)
        if self.count == self.at:
            self.fired = name
            CTX.hit('interrupt-' + name if self.exc == 'KeyboardInterrupt'
                    else 'fail-%s-%s' % (name, self.exc))
            CTX.ev('interrupt', name)
            raise make_exc(self.exc)

    def __enter__(self):
        CTX.seam_hook = self._hook
        return self

    def __exit__(self, *a):
        CTX.seam_hook = None


# --------------------------------------------------------------------------
# Clock
# --------------------------------------------------------------------------
_real_time = _time.time
REAL_PERF = _time.perf_counter


def _sim_time():
    if CTX.clock_rng is None:
        return _real_time()
    # skewed, jumping (also backwards) wall clock
    CTX.clock_off += CTX.clock_rng.choice((1e-3, 1.0, 3600.0, -1800.0, 0.0))
    CTX.hit('clock-read')
    return 1.5e9 + CTX.clock_off


def _jumping(real, unit=1):
    """A monotonic clock of the simulator: stands still, or jumps ahead."""
    at = [2e4]

    def f():
        if CTX.clock_rng is None:
            return real()
        at[0] += CTX.clock_rng.choice((1e-6, 1e-3, 2.0, 7200.0))
        CTX.hit('clock-read')
        return at[0] if unit == 1 else int(at[0] * unit)
    return f


_installed = False
REAL_CPUS = os.cpu_count() or 8


def install():
    """Put every seam in place; must run before the package is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m == 'runlmc' or m.startswith('runlmc.')
                   for m in sys.modules), 'package imported before the seams'
    for name in ('minres', 'cg', 'gmres', 'bicgstab', 'lgmres', 'qmr'):
        real = getattr(sla, name)
        w = _wrap_solver(name, real)
        for mod in list(sys.modules.values()):
            n = getattr(mod, '__name__', '') or ''
            if n.startswith('scipy.sparse.linalg') and \
                    getattr(mod, name, None) is real:
                setattr(mod, name, w)
    multiprocessing.Pool = _factory
    multiprocessing.context.BaseContext.Pool = \
        lambda self, *a, **kw: SimPool(*a, **kw)
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimPool
    multiprocessing.dummy.Pool = _factory
    multiprocessing.cpu_count = lambda: CTX.cpu
    os.cpu_count = lambda: CTX.cpu
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.ThreadPoolExecutor = SimExecutor
    _time.time = _sim_time
    for name in ('perf_counter', 'monotonic', 'process_time'):
        setattr(_time, name, _jumping(getattr(_time, name)))
        ns = getattr(_time, name + '_ns', None)
        if ns:
            setattr(_time, name + '_ns', _jumping(ns, 10 ** 9))
    _time.time_ns = _jumping(_time.time_ns, 10 ** 9)
    sys.path.insert(0, REPO)
    # locks created by the package itself
    lock, rlock = threading.Lock, threading.RLock
    frlock = getattr(functools, 'RLock', None)
    threading.Lock, threading.RLock = SimLock, SimRLock
    if frlock is not None:
        functools.RLock = SimRLock
    try:
        import runlmc.models.interpolated_llgp  # noqa
        import runlmc.models.optimization  # noqa
    finally:
        threading.Lock, threading.RLock = lock, rlock
        if frlock is not None:
            functools.RLock = frlock
    here = os.path.realpath(sys.modules['runlmc'].__path__[0] if hasattr(
        sys.modules['runlmc'], '__path__') else '')
    assert here == os.path.realpath(PKG.rstrip(os.sep)), here
    _wrap_kernels()


def _wrap_kernels():
    """Numerical seams: kernel evaluation and dense factorisation."""
    import inspect
    import pkgutil
    import importlib
    import runlmc.kern
    classes = []
    for mod in pkgutil.iter_modules(runlmc.kern.__path__):
        if mod.name.startswith('test'):
            continue
        try:
            m = importlib.import_module('runlmc.kern.' + mod.name)
        except ImportError:
            continue
        for c in vars(m).values():
            if inspect.isclass(c) and c.__module__ == m.__name__:
                classes.append(c)

    def wrap(real, meth):
        @functools.wraps(real)
        def f(self, *a, **kw):
            CTX.gate = True
            if CTX.seam_hook:
                CTX.seam_hook(meth)
            return real(self, *a, **kw)
        return f
    for cls in classes:
        for meth in ('from_dist', 'kernel_gradient'):
            real = cls.__dict__.get(meth)
            if inspect.isfunction(real) and not getattr(
                    real, '__isabstractmethod__', False):
                setattr(cls, meth, wrap(real, meth))
    import scipy.linalg
    real_cho = scipy.linalg.cho_factor

    def cho_factor(*a, **kw):
        if CTX.seam_hook:
            CTX.seam_hook('cho_factor')
        return real_cho(*a, **kw)
    cho_factor.real = real_cho
    scipy.linalg.cho_factor = cho_factor
    real_ri = np.random.randint

    def randint(*a, **kw):
        if CTX.seam_hook:
            CTX.seam_hook('draw')
        return real_ri(*a, **kw)
    np.random.randint = randint


@contextlib.contextmanager
def recording():
    old = CTX.record
    CTX.record = []
    try:
        yield CTX.record
    finally:
        CTX.record = old
