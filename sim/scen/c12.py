"""C12: objective and gradient agree under any prior and constraint
history."""
import math
import random

import numpy as np

from ..world import *  # noqa
from ..seams import CTX, SeamInjector, make_exc, is_injected

RUNS = dict(quick=800, thorough=14000)
RULE = ('a run is a seeded history of setting, replacing and removing '
        'priors, constraining, fixing, releasing, value edits, copies, '
        'refused edits and failing model updates on a hierarchical model '
        'with a known likelihood or on a real model; after every operation '
        'the objective, the prior term and the gradient are compared with '
        'an independent ledger and with finite differences; non-trivial: at '
        'least one comparison; distinct by operation sequence and faults')
STUB = ['likelihood of the small hierarchical model (a known function); '
        'real for the real-model runs']
ASSUME = ('the Jacobian of a transformation is what the paramz '
          'transformation defines: log-sigmoid for positive constraints, '
          'absent for negative and bounded ones',
          'an edit whose model update failed has taken effect, or has not, '
          'or has only constrained the parameter')

BAD = ('unknown-domain', 'none', 'no-domain')


def gen_prior(rng):
    k = rng.choice(('gauss', 'gauss', 'gamma', 'gamma', 'ev', 'invgamma',
                    'halflap', 'neg'))
    a, b = round(rng.uniform(0.6, 4), 3), round(rng.uniform(0.4, 3), 3)
    return dict(k=k, a=a, b=b)


def plan(rng, tier):
    real = rng.random() < 0.12
    ops = []
    for _ in range(rng.randrange(3, 14) if not real else rng.randrange(3, 7)):
        r = rng.random()
        op = dict(leaf=rng.randrange(1 << 20), seed=rng.randrange(1 << 30))
        if r < 0.38:
            op.update(op='prior', prior=gen_prior(rng),
                      share=rng.random() < 0.3)
        elif r < 0.48:
            op.update(op='unset')
        elif r < 0.66:
            op.update(op='con', to=rng.choice((
                'pos', 'pos', 'neg', 'bounded', 'none', 'fix', 'fix',
                'unfix', 'unfix')))
        elif r < 0.8:
            op.update(op='value', how=rng.choice(('leaf', 'item', 'opt')))
        elif r < 0.88:
            op.update(op='refused', bad=rng.choice(BAD))
        elif r < 0.93:
            op.update(op='copy', keep=rng.random() < 0.5)
        else:
            op.update(op='optimise', its=rng.randrange(1, 4))
        if op['op'] in ('prior', 'con', 'value') and rng.random() < 0.2:
            op['fail'] = rng.choice(('LinAlgError', 'ValueError',
                                     'KeyboardInterrupt', 'MemoryError'))
        ops.append(op)
    p = dict(ops=ops, real=real, seed=rng.randrange(1 << 30),
             shapes=[rng.choice(([1], [2], [3], [2, 2]))
                     for _ in range(rng.randrange(1, 5))],
             pre=[rng.random() < 0.2 for _ in range(4)],
             nest=[rng.randrange(3) for _ in range(4)])
    if real:
        p['cfg'] = gen_config(rng, allow2d=False, simple=rng.random() < .5)
    return p


# ------------------------------------------------------------------ the model

def make_prior(p):
    from runlmc.parameterization import priors as P
    if p['k'] == 'gauss':
        return P.Gaussian(p['a'], p['b'])
    if p['k'] == 'gamma':
        return P.Gamma(p['a'], p['b'])
    if p['k'] == 'ev':
        return P.Gamma.from_EV(p['a'], p['b'])
    if p['k'] == 'invgamma':
        return P.InverseGamma(p['a'], p['b'])
    if p['k'] == 'halflap':
        return P.HalfLaplace(p['b'])

    class Neg(P.Prior):
        domain = 'negative'

        def __init__(self, b):
            self.b = b

        def __str__(self):
            return 'Neg'

        def lnpdf(self, x):
            return np.log(self.b) + self.b * x

        def lnpdf_grad(self, x):
            return self.b + 0 * x
    return Neg(p['b'])


DOMAIN = dict(gauss='real', gamma='pos', ev='pos', invgamma='pos',
              halflap='pos', neg='neg')


def lnpdf(p, x):
    """log density and derivative, from the textbook"""
    a, b = p['a'], p['b']
    k = p['k']
    if k == 'gauss':
        return (-0.5 * math.log(2 * math.pi * b) - (x - a) ** 2 / (2 * b),
                -(x - a) / b)
    if k == 'ev':
        a, b = a * a / b, a / b
        k = 'gamma'
    if k == 'gamma':
        return (a * math.log(b) - math.lgamma(a) + (a - 1) * math.log(x) -
                b * x, (a - 1) / x - b)
    if k == 'invgamma':
        return (a * math.log(b) - math.lgamma(a) - (a + 1) * math.log(x) -
                b / x, -(a + 1) / x + b / x ** 2)
    if k == 'halflap':
        return -math.log(b) - x / b, -1 / b
    return math.log(b) + b * x, b


class Slot:
    """What the ledger knows about one scalar parameter."""
    __slots__ = ('v', 'prior', 'con', 'fixed')

    def __init__(self, v):
        self.v, self.prior, self.con, self.fixed = float(v), None, None, False

    def copy(self):
        s = Slot(self.v)
        s.prior, s.con, s.fixed = self.prior, self.con, self.fixed
        return s

    # optimiser coordinate of the value, and d value / d coordinate
    def inv(self):
        if self.con == 'pos':
            return math.log(math.expm1(self.v))
        if self.con == 'neg':
            return math.log(math.expm1(-self.v))
        if self.con:
            lo, hi = self.con
            return math.log((self.v - lo) / (hi - self.v))
        return self.v

    def slope(self):
        if self.con == 'pos':
            return -math.expm1(-self.v)
        if self.con == 'neg':
            return math.expm1(self.v)
        if self.con:
            lo, hi = self.con
            return (self.v - lo) * (hi - self.v) / (hi - lo)
        return 1.

    def term(self):
        """log prior with Jacobian, and its derivative by the value"""
        if self.prior is None:
            return 0., 0.
        a, b = lnpdf(self.prior, self.v)
        if self.con == 'pos':
            a += math.log(-math.expm1(-self.v))
            b += 1 / math.expm1(self.v)
        return a, b

    def inside(self, to):
        """initial value when constrained"""
        if to == 'pos':
            return abs(self.v)
        if to == 'neg':
            return -abs(self.v)
        lo, hi = to
        return self.v if lo <= self.v <= hi else (lo + hi) / 2


def small_class():
    from runlmc.parameterization.model import Model
    from runlmc.parameterization.param import Param
    from runlmc.parameterization.parameterized import Parameterized

    class Small(Model):
        def __init__(self, plan):
            super().__init__('small')
            self.fail = None
            self.n_fail = 0
            r = random.Random(plan['seed'])
            self.ps = []
            groups = [self, None, None]
            pend = []
            for i, sh in enumerate(plan['shapes']):
                v = np.array([r.uniform(0.4, 2.) for _ in
                              range(int(np.prod(sh)))]).reshape(sh)
                p = Param('p%d' % i, v)
                self.ps.append(p)
                pend.append((plan['nest'][i], p))
            self.g1 = Parameterized('g1')
            self.g2 = Parameterized('g2')
            groups = [self, self.g1, self.g2]
            self.pre = {}
            for i, (g, p) in enumerate(pend):
                if plan['pre'][i]:      # a prior set before linking
                    spec = dict(k='gamma', a=1.5 + i, b=2.)
                    p.set_prior(make_prior(spec))
                    self.pre[i] = spec
                groups[g].link_parameter(p)
            if any(g == 2 for g, _ in pend):
                self.g1.link_parameter(self.g2)
            if any(g for g, _ in pend):
                self.link_parameter(self.g1)

        def parameters_changed(self):
            if self.fail:
                CTX.hit('update ' + self.fail)
                self.n_fail += 1
                raise make_exc(self.fail)
            x = np.array(self.param_array)
            self.gradient[:] = self.dll(x)

        @staticmethod
        def ll(x):
            w = np.arange(1, len(x) + 1)
            return float(np.sin(w * x).sum() - 0.1 * x.sum() ** 2)

        @staticmethod
        def dll(x):
            w = np.arange(1, len(x) + 1)
            return w * np.cos(w * x) - 0.2 * x.sum()

        def log_likelihood(self):
            return self.ll(np.array(self.param_array))
    return Small


# ----------------------------------------------------------------- the ledger

class Ledger:
    def __init__(self, model, real):
        self.m, self.real = model, real
        self.read_all()

    def read_all(self):
        self.leafs = list(self.m.flattened_parameters)
        self.slots = [[Slot(x) for x in np.ravel(p.values)]
                      for p in self.leafs]
        if self.real:       # defaults of the real model
            from paramz.transformations import Logexp, Logistic
            for p, ss in zip(self.leafs, self.slots):
                for c, idx in p.constraints.items():
                    for s, j in zip(ss, range(len(ss))):
                        if j not in set(int(t) for t in idx):
                            continue
                        if isinstance(c, Logexp):
                            s.con = 'pos'
                        elif c == 'fixed':
                            s.fixed = True
                        elif isinstance(c, Logistic):
                            s.con = (c.lower, c.upper)

    def clone(self, model):
        q = Ledger.__new__(Ledger)
        q.m, q.real = model, self.real
        q.leafs = list(model.flattened_parameters)
        q.slots = [[s.copy() for s in ss] for ss in self.slots]
        return q

    def flat(self):
        return [s for ss in self.slots for s in ss]

    def save(self):
        return [[s.copy() for s in ss] for ss in self.slots]

    def take_values(self):
        for p, ss in zip(self.leafs, self.slots):
            for s, x in zip(ss, np.ravel(p.values)):
                s.v = float(x)

    def values_match(self, what):
        for p, ss in zip(self.leafs, self.slots):
            got = np.ravel(p.values)
            want = np.array([s.v for s in ss])
            must(np.allclose(got, want, rtol=1e-7, atol=1e-9),
                 'a parameter changed that should not have',
                 '%s %s: %s instead of %s' % (what, p.name, got, want))

    def state_ok(self):
        """does the model's objective agree with this ledger?"""
        lp = sum(s.term()[0] for s in self.flat())
        got = float(self.m.log_prior())
        return abs(got - lp) <= 1e-7 * (1 + abs(lp)), got, lp

    def check(self, out, what, rng):
        m = self.m
        self.values_match(what)
        fs = self.flat()
        ok, got, lp = self.state_ok()
        must(ok, 'prior term of the objective',
             '%s: %.9g instead of %.9g' % (what, got, lp))
        free = [s for s in fs if not s.fixed]
        x = np.array([s.inv() for s in free])
        if not self.real:
            xs = np.array([s.v for s in fs])
            obj = -(m.ll(xs) + lp)
            must_close(float(m.objective_function()), obj,
                       'objective after ' + what, 1e-7, 1e-8)
            must_close(float(m.log_likelihood_with_prior()), -obj,
                       'log likelihood with prior after ' + what, 1e-7, 1e-8)
            grad = m.dll(xs)
        if not free:
            out.ok()
            return
        if self.real:
            self.real_check(out, what, fs)
            return
        want = np.array([-(g + s.term()[1]) * s.slope()
                         for g, s in zip(grad, fs) if not s.fixed])
        must(len(m.optimizer_array) == len(x), 'number of free parameters',
             '%s: %d instead of %d' % (what, len(m.optimizer_array), len(x)))
        g = np.array(m._grads(x))
        must_close(g, want, 'objective gradient after ' + what, 1e-6, 1e-7)
        # along a random direction the objective changes as the gradient says
        d = np.array([rng.uniform(-1, 1) for _ in x])
        eps = 1e-5
        num = (m._objective(x + eps * d) - m._objective(x - eps * d)) / (
            2 * eps)
        must_close(num, g.dot(d), 'objective gradient is not the derivative '
                   'after ' + what, 1e-5, 1e-5 * (1 + np.abs(g).sum()))
        # domains hold wherever the optimiser goes, fixed values stay
        m.optimizer_array = x + 3 * d
        i = 0
        for p, ss in zip(self.leafs, self.slots):
            for s, y in zip(ss, np.ravel(p.values)):
                if s.fixed:
                    must(y == s.v or abs(y - s.v) < 1e-7 * abs(s.v),
                         'a fixed parameter moved', '%s %s' % (what, p.name))
                    continue
                t = x[i] + 3 * d[i]
                i += 1
                exp = t if s.con is None else \
                    math.log1p(math.exp(t)) if s.con == 'pos' else \
                    -math.log1p(math.exp(t)) if s.con == 'neg' else \
                    s.con[0] + (s.con[1] - s.con[0]) / (1 + math.exp(-t))
                must(abs(y - exp) <= 1e-7 * (1 + abs(exp)),
                     'a parameter does not follow its constraint',
                     '%s %s: %.6g instead of %.6g (constraint %s)' % (
                         what, p.name, y, exp, s.con))
        m.optimizer_array = x
        out.ok(4)

    def real_check(self, out, what, fs):
        m = self.m
        lp = sum(s.term()[0] for s in fs)
        must_close(float(m.objective_function()),
                   -(float(m.log_likelihood()) + lp),
                   'objective after ' + what, 1e-9, 1e-8)
        ll = np.array(m.gradient, dtype=float)
        want = np.array([-(g + s.term()[1]) for g, s in zip(ll, fs)])
        got = np.array(m.objective_function_gradients())
        must_close(got, want, 'objective gradient after ' + what, 1e-8, 1e-8)
        out.ok(2)


def legal_value(s, rng):
    v = rng.uniform(0.3, 2.2)
    if s.con == 'neg' or (s.prior and DOMAIN[s.prior['k']] == 'neg'):
        return -v
    if isinstance(s.con, tuple):
        return s.con[0] + (s.con[1] - s.con[0]) * rng.uniform(.2, .8)
    return v


class Weird:
    def __init__(self, domain):
        if domain:
            self.domain = domain

    def lnpdf(self, x):
        return 0 * x + 5.

    def lnpdf_grad(self, x):
        return 0 * x


def step(led, op, out, shared):
    rng = random.Random(op['seed'])
    m = led.m
    j = op['leaf'] % len(led.leafs)
    p, ss = led.leafs[j], led.slots[j]
    kind = op['op']
    if kind == 'prior':
        spec = op['prior']
        pr = None
        if op['share'] and shared:
            spec, pr = shared[op['seed'] % len(shared)]
        if led.real and DOMAIN[spec['k']] == 'neg':
            return None
        pr = pr or make_prior(spec)
        shared.append((spec, pr))
        dom = DOMAIN[spec['k']]

        def do():
            p.set_prior(pr)
        for s in ss:
            s.prior = spec
            if dom != 'real':
                s.v = s.inside(dom)
                s.con, s.fixed = dom, False
        return do
    if kind == 'unset':
        for s in ss:
            s.prior = None
        return p.unset_prior
    if kind == 'con':
        to = op['to']
        doms = {DOMAIN[s.prior['k']] for s in ss if s.prior}
        if to == 'neg' and ('pos' in doms or led.real):
            return None
        if to == 'pos' and 'neg' in doms:
            return None
        if to == 'bounded':
            if 'neg' in doms:
                return None
            lo, hi = round(rng.uniform(.05, .2), 3), round(
                rng.uniform(2.6, 5), 3)
            for s in ss:
                s.v = s.inside((lo, hi))
                s.con, s.fixed = (lo, hi), False
            return lambda: p.constrain_bounded(lo, hi, warning=False)
        if to in ('pos', 'neg'):
            for s in ss:
                s.v = s.inside(to)
                s.con, s.fixed = to, False
            return lambda: (p.constrain_positive if to == 'pos' else
                            p.constrain_negative)(warning=False)
        if to == 'none':
            if led.real:
                return None
            for s in ss:
                s.con, s.fixed = None, False
            return p.unconstrain
        if to == 'fix':
            for s in ss:
                s.fixed = True
            return lambda: p.fix(warning=False)
        for s in ss:
            s.fixed = False
        return p.unfix
    if kind == 'value':
        if led.real:
            ls = leafs(m)
            name = next(n for n, q in ls.items() if q is p)
            val = draw_value(rng, name, p.shape)
            if any(isinstance(s.con, tuple) for s in ss):
                return None
            if any(s.prior and DOMAIN[s.prior['k']] == 'pos' or s.con
                   for s in ss):
                val = np.abs(val) + 0.01
        else:
            val = np.array([legal_value(s, rng) for s in ss]).reshape(p.shape)
        if op['how'] == 'item':
            idx = tuple(rng.randrange(k) for k in p.shape)
            k = int(np.ravel_multi_index(idx, p.shape))
            ss[k].v = float(val[idx])

            def do():
                p[idx] = val[idx]
        else:
            for s, v in zip(ss, val.ravel()):
                s.v = float(v)

            def do():
                p[:] = val
        return do
    raise AssertionError(kind)


def leaves_domain(before, after):
    """Is a value moved out of the domain of its old constraint or prior?"""
    for a, b in zip(before, after):
        for s, t in zip(a, b):
            con = s.con or (s.prior and DOMAIN[s.prior['k']])
            if con == 'pos' and t.v <= 0 or con == 'neg' and t.v >= 0 or \
                    isinstance(con, (tuple, list)) and not (
                        con[0] < t.v < con[1]):
                return True
    return False


def settle_failed(led, before, op, what, out, rng, h):
    """Which of the consistent outcomes did the failed edit have?"""
    after = led.slots
    half = [[s.copy() for s in ss] for ss in before]     # value only
    con = [[s.copy() for s in ss] for ss in after]       # old prior
    for a, b, c, d in zip(after, before, half, con):
        for s, t, u, w in zip(a, b, c, d):
            u.v = s.v
            w.prior = t.prior
    cands = [after, before]
    if op['op'] in ('prior', 'con'):
        cands += [half, con]
    saved = np.array(led.m.param_array)
    first = None
    for c in cands:
        led.slots = c
        try:
            if led.real:
                ok, got, want = led.state_ok()
                must(ok, 'prior term', '%.6g instead of %.6g' % (got, want))
                led.values_match(what)
            else:
                led.check(out, what + ' failed', rng)
            return c
        except (Violation, ValueError) as v:
            first = first or v
            if not led.real:
                led.m.param_array[:] = saved
    raise Violation('a failed edit left an inconsistent model', first)


def run(plan, out):
    h = None
    if plan['real']:
        h = Handle(plan['cfg'])
        settle(h, 3)
        m = h.m
    else:
        m = small_class()(plan)
    led = Ledger(m, plan['real'])
    if not plan['real']:
        for i, p in enumerate(m.ps):
            k = next(k for k, q in enumerate(led.leafs) if q is p)
            if i in m.pre:
                for s in led.slots[k]:
                    s.prior, s.con = m.pre[i], 'pos'
    others, shared = [], []
    rng = random.Random(plan['seed'] + 1)
    led.check(out, 'start', rng)
    for i, op in enumerate(plan['ops']):
        kind = op['op']
        what = 'op %d (%s %s)' % (i, kind, op.get('to') or op.get('bad') or
                                  (op.get('prior') or {}).get('k') or '')
        out.sig.append((kind, op.get('to'), op.get('fail'), op.get('bad')))
        out.say(what, op.get('fail'))
        m = led.m
        if kind == 'refused':
            p = led.leafs[op['leaf'] % len(led.leafs)]
            bad = None if op['bad'] == 'none' else Weird(
                'complex' if op['bad'] == 'unknown-domain' else None)
            try:
                p.set_prior(bad)
            except Exception:  # pylint: disable=broad-except
                out.probe('refused')
            else:
                raise Violation('an unusable prior was accepted', what)
        elif kind == 'copy':
            if plan['real']:
                continue
            c = led.clone(m.copy())
            old = led
            if op['keep']:
                led, old = c, led
            else:
                old = c
            others.append(old)
            old.check(out, what + ' copied', rng)
        elif kind == 'optimise':
            from runlmc.models.optimization import AdaDelta
            if all(s.fixed for s in led.flat()):
                continue
            fixed = [s for s in led.flat() if s.fixed]
            was = [s.v for s in fixed]
            if not plan['real']:
                opt = AdaDelta(max_it=op['its'], step_rate=0.3)
                opt.model = m
                free = np.array([s.inv() for s in led.flat()
                                 if not s.fixed])
                opt.opt(free, f_fp=m._objective_grads, f=m._objective,
                        fp=m._grads)
                m.optimizer_array = opt.x_opt
            else:
                do_optimize(h, dict(its=op['its'], rate=0.05))
            led.take_values()
            must(np.allclose([s.v for s in fixed], was, 1e-7, 1e-9),
                 'a fixed parameter moved',
                 what)
        else:
            before = led.save()
            do = step(led, op, out, shared)
            if do is None:
                led.slots = before
                continue
            fail = op.get('fail')
            if fail and leaves_domain(before, led.slots):
                # paramz moves the value before it replaces the constraint
                fail = None
            try:
                if fail and plan['real']:
                    with SeamInjector(2, fail):
                        do()
                elif fail:
                    m.fail = fail
                    do()
                else:
                    do()
            except BaseException as e:  # pylint: disable=broad-except
                if not is_injected(e):
                    raise
                out.probe('failed-updates')
                if not plan['real']:
                    m.fail = None
                led.slots = settle_failed(led, before, op, what, out, rng,
                                          h)
                if plan['real']:
                    with h.rng():
                        m.trigger_update()
            finally:
                if not plan['real']:
                    m.fail = None
        if plan['real'] and not h.sane():
            raise Skip('extreme values')
        if plan['real']:
            # the likelihood gradient at the current parameters
            with h.rng():
                led.check(out, what, rng)
        else:
            led.check(out, what, rng)
        if others and rng.random() < 0.3:
            for o in others:
                o.check(out, what + ' (the other copy)', rng)
    for o in others:
        o.check(out, 'end (the other copy)', rng)
    out.see(np.array(led.m.param_array))
