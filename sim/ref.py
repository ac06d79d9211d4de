"""Executable reference model: the documented LMC / SKI model, written dense
and from the documentation, sharing no code with the package under test.

A reference is built from the plain data given to the real model (``Spec``)
and is a pure function of (data, parameter values, query)."""
import numpy as np
import scipy.linalg as la
import scipy.sparse.linalg as sla
import scipy.special

# the reference is not part of the simulated system: no faults in it
_minres = getattr(sla.minres, 'real', sla.minres)
_cho_factor = getattr(la.cho_factor, 'real', la.cho_factor)


def ndtri(p):
    return scipy.special.ndtri(p)


# ---- stationary kernels: value and derivative w.r.t. each parameter ----

def _rbf(r, v):
    g, = v['inv_lengthscale']
    k = np.exp(-0.5 * g * r * r)
    return k, [('inv_lengthscale', -0.5 * r * r * k)]


def _mat(r, v):
    g, = v['inv_lengthscale']
    s = np.sqrt(3.) * g * r
    e = np.exp(-s)
    return (1 + s) * e, [('inv_lengthscale', -3. * g * r * r * e)]


def _per(r, v):
    g, = v['inv_lengthscale']
    T, = v['period']
    s, c = np.sin(np.pi * r / T), np.cos(np.pi * r / T)
    k = np.exp(-0.5 * g * s * s)
    return k, [('inv_lengthscale', -0.5 * s * s * k),
               ('period', k * g * s * c * np.pi * r / T ** 2)]


def _id(r, v):
    return (r == 0).astype(float), []


KERNELS = {'rbf': _rbf, 'matern32': _mat, 'periodic': _per, 'identity': _id}


def _dist(A, B):
    d = A[:, None, :] - B[None, :, :]
    if d.shape[2] == 1:
        return np.abs(d[:, :, 0])
    return np.sqrt((d * d).sum(axis=2))


def _cubic(t):
    t = np.abs(t)
    return np.where(t <= 1, 1.5 * t ** 3 - 2.5 * t ** 2 + 1,
                    -0.5 * t ** 3 + 2.5 * t ** 2 - 4 * t + 2)


def weights_1d(axis, x):
    """Dense cubic convolution weights; stencil points off the grid are
    moved onto its border."""
    W = np.zeros((len(x), len(axis)))
    f = (x - axis[0]) / (axis[1] - axis[0])
    base = np.floor(f)
    for off in (-1, 0, 1, 2):
        w = _cubic(f - (base + off))
        j = np.clip(base + off, 0, len(axis) - 1).astype(int)
        np.add.at(W, (np.arange(len(x)), j), w)
    return W


def weights(axes, X):
    W = weights_1d(axes[0], X[:, 0])
    for p in range(1, len(axes)):
        V = weights_1d(axes[p], X[:, p])
        W = (W[:, :, None] * V[:, None, :]).reshape(len(X), -1)
    return W


def grid_axes(Xall, lo, hi, m, mean_len):
    axes = []
    for p in range(Xall.shape[1]):
        l, h = Xall[:, p].min(), Xall[:, p].max()
        if lo is not None:
            l = min(l, lo[p])
        if hi is not None:
            h = max(h, hi[p])
        mm = mean_len if m is None else m[p]
        d = (h - l) / mm
        axes.append(np.linspace(l - 2 * d, h + 2 * d, int(mm + 4)))
    return axes


class Spec:
    """What the caller gave to the model.

    kernels: list of dicts(name, type, kind in lmc/slfm/indep, rank, dims
    (tuple or None), out (for indep)), ordered lmc, slfm, indep."""

    def __init__(self, Xs, Ys, kernels, normalize=True, lo=None, hi=None,
                 m=None):
        self.Xs = [np.array(X, dtype=float).reshape(len(X), -1) for X in Xs]
        self.P = max(X.shape[1] for X in self.Xs)
        self.rawY = [np.array(Y, dtype=float) for Y in Ys]
        self.D = len(Xs)
        self.kernels = kernels
        if normalize:
            self.mu = [Y.mean() for Y in self.rawY]
            self.sd = [Y.std() for Y in self.rawY]
        else:
            self.mu, self.sd = [0.] * self.D, [1.] * self.D
        self.y = np.concatenate(
            [(Y - a) / s for Y, a, s in zip(self.rawY, self.mu, self.sd)])
        self.lens = [len(Y) for Y in self.rawY]
        self.out = np.repeat(np.arange(self.D), self.lens)
        self.X = np.vstack(self.Xs)
        self.n = len(self.y)

        def wrap(v, dims):
            if v is None:
                return None
            v = np.asarray(v, dtype=float)
            return [float(v)] if not v.shape else [float(v[d]) for d in dims]

        mean_len = sum(self.lens) // self.D
        self.dims = {}
        for k in kernels:
            k['adims'] = tuple(range(self.P)) if k.get('dims') is None \
                else tuple(sorted(k['dims']))
            self.dims.setdefault(k['adims'], None)
        self.axes, self.W, self.U = {}, {}, {}
        for ad in self.dims:
            ax = grid_axes(self.X[:, ad], wrap(lo, ad), wrap(hi, ad),
                           wrap(m, ad), mean_len)
            self.axes[ad] = ax
            mesh = np.meshgrid(*ax, indexing='ij')
            self.U[ad] = np.column_stack([g.ravel() for g in mesh])
            self.W[ad] = weights(ax, self.X[:, ad])
        self.RUU = {ad: _dist(U, U) for ad, U in self.U.items()}
        self.RXX = {ad: _dist(self.X[:, ad], self.X[:, ad])
                    for ad in self.dims}

    @property
    def split(self):
        return len(self.dims) != 1


class Ref:
    """The model's answers at one parameter setting ``v`` (dict of leaf
    name -> array, kernel leafs as '<kernel>.<param>', 'a<q>', 'kappa<q>',
    'noise')."""

    def __init__(self, spec, v):
        s = self.s = spec
        self.v = v
        self.noise = np.asarray(v['noise'], dtype=float).ravel()
        self.a, self.kap, self.B, self.kv = [], [], [], []
        for q, k in enumerate(s.kernels):
            if k['kind'] == 'lmc':
                a = np.asarray(v['a%d' % q]).reshape(-1, s.D)
                kap = np.asarray(v['kappa%d' % q]).ravel()
            elif k['kind'] == 'slfm':
                a = np.asarray(v['a%d' % q]).reshape(-1, s.D)
                kap = np.zeros(s.D)
            else:
                a = np.zeros((1, s.D))
                kap = np.zeros(s.D)
                kap[k['out']] = 1
            self.a.append(a)
            self.kap.append(kap)
            self.B.append(a.T.dot(a) + np.diag(kap))
            pre = k['name'] + '.'
            self.kv.append({n[len(pre):].split('.')[-1]: np.ravel(x)
                            for n, x in v.items() if n.startswith(pre)})
        self._c = {}

    def _k(self, q, r):
        k = self.s.kernels[q]
        K, dK = KERNELS[k['type']](r, self.kv[q])
        if k.get('scaled'):
            c, = self.kv[q].get('scale', (1.,))
            dK = [(n, c * d) for n, d in dK] + [('scale', K)]
            K = c * K
        return K, dK

    def _memo(self, key, f):
        if key not in self._c:
            self._c[key] = f()
        return self._c[key]

    # --- SKI side
    def _grid(self, q):  # K_q on the grid and derivatives
        return self._memo(('g', q), lambda: self._k(
            q, self.s.RUU[self.s.kernels[q]['adims']]))

    def _ad(self, q):
        return self.s.kernels[q]['adims']

    def _G(self, q):  # W K_q W'
        def f():
            W = self.s.W[self._ad(q)]
            return W.dot(self._grid(q)[0]).dot(W.T)
        return self._memo(('G', q), f)

    def _Bo(self, q, o1, o2):
        return self.B[q][np.ix_(o1, o2)]

    @property
    def Kski(self):
        def f():
            o = self.s.out
            K = np.diag(self.noise[o])
            for q in range(len(self.B)):
                K = K + self._Bo(q, o, o) * self._G(q)
            return K
        return self._memo('Kski', f)

    def _cho(self):
        return self._memo('cho', lambda: _cho_factor(self.Kski))

    def solve(self, b):
        return la.cho_solve(self._cho(), b)

    @property
    def alpha(self):
        return self._memo('alpha', lambda: self.solve(self.s.y))

    # --- exact side
    def _kx(self, X1, o1, X2, o2):
        K = 0
        for q in range(len(self.B)):
            ad = self._ad(q)
            K = K + self._Bo(q, o1, o2) * self._k(
                q, _dist(X1[:, ad], X2[:, ad]))[0]
        return K

    @property
    def K(self):
        def f():
            o = self.s.out
            K = np.diag(self.noise[o])
            for q in range(len(self.B)):
                K = K + self._Bo(q, o, o) * self._k(
                    q, self.s.RXX[self._ad(q)])[0]
            return K
        return self._memo('K', f)

    def log_det(self):
        return self._memo('ld', lambda: 2 * np.log(np.diag(
            la.cholesky(self.K, lower=True))).sum())

    def quad(self):
        return float(self.s.y.dot(self.alpha))

    def loglik(self):
        return -0.5 * (self.log_det() + self.quad() +
                       self.s.n * np.log(2 * np.pi))

    def honest(self, tol):
        """Residual a correct use of MINRES may leave on this matrix."""
        def f():
            K, n = self.Kski, self.s.n
            r = np.random.RandomState(n)
            worst = 0.
            for b in [self.s.y] + list(r.choice((-1., 1.), (3, n))) + \
                    list(r.randn(2, n)):
                x, _ = _minres(K, b, tol=min(1e-10, tol), maxiter=n)
                worst = max(worst, np.linalg.norm(b - K.dot(x)) /
                            np.linalg.norm(b))
            return worst
        big = max(self.ynorm(), np.sqrt(self.s.n) * max(1., self.scale()))
        return 1e-7 * (1 + big) + 100 * self._memo(('honest', tol), f) * big

    def ynorm(self):
        return float(np.linalg.norm(self.s.y))

    def scale(self):
        """bound on the entries of cross-covariances"""
        return 2 * float(sum(np.abs(B).max() for B in self.B))

    # --- prediction
    def predict(self, Xs, mode):
        """normalised mean, variance (clamped) as flat arrays + outputs"""
        s = self.s
        lens = [len(X) for X in Xs]
        X = np.vstack([np.asarray(X, dtype=float).reshape(len(X), s.P)
                       for X in Xs])
        o = np.repeat(np.arange(s.D), lens)
        if not len(X):
            return np.zeros(0), np.zeros(0), o, lens
        mean = np.zeros(len(X))
        Wt = {ad: weights(s.axes[ad], X[:, ad]) for ad in s.dims}
        for q in range(len(self.B)):
            ad = self._ad(q)
            C = Wt[ad].dot(self._grid(q)[0]).dot(s.W[ad].T)
            mean += (self._Bo(q, o, s.out) * C).dot(self.alpha)
        native = self.noise.copy()
        for q in range(len(self.B)):
            native = native + np.diag(self.B[q]) * \
                float(np.ravel(self._k(q, np.zeros(1))[0])[0])
        native = native[o]
        if mode == 'exact':
            Kt = self._kx(X, o, s.X, s.out)
            ch = self._memo('chK', lambda: _cho_factor(self.K))
            expl = (Kt * la.cho_solve(ch, Kt.T).T).sum(axis=1)
        elif mode == 'on-the-fly':
            Kt = self._kx(X, o, s.X, s.out)
            expl = (Kt * self.solve(Kt.T).T).sum(axis=1)
        else:
            ad, = s.dims
            nu = self._memo('nu', self._nu)
            expl = (Wt[ad] * nu[o]).sum(axis=1)
        var = native - expl
        return mean, np.maximum(var, 0), o, lens

    def _nu(self):
        s = self.s
        ad, = s.dims
        nu = np.empty((s.D, len(s.U[ad])))
        for d in range(s.D):
            C = 0
            for q in range(len(self.B)):
                C = C + self.B[q][d][s.out] * self._grid(q)[0].dot(s.W[ad].T)
            nu[d] = (C * self.solve(C.T).T).sum(axis=1)
        return nu

    def split_out(self, flat, lens):
        return np.split(flat, np.cumsum(lens)[:-1])

    def predict_out(self, Xs, mode):
        m, v, o, lens = self.predict(Xs, mode)
        mu, sd = np.asarray(self.s.mu), np.asarray(self.s.sd)
        return (self.split_out(m * sd[o] + mu[o], lens),
                self.split_out(v * sd[o] ** 2, lens))

    def quantiles(self, Xs, qs, mode):
        m, v, o, lens = self.predict(Xs, mode)
        z = ndtri(np.asarray(qs, dtype=float) / 100.)
        mu, sd = np.asarray(self.s.mu), np.asarray(self.s.sd)
        r = np.sqrt(v)[:, None] * z[None, :] + m[:, None]
        r = r * sd[o][:, None] + mu[o][:, None]
        return np.split(r, np.cumsum(lens)[:-1], axis=0)

    # --- gradient
    def dKs(self, exact=False, everything=False):
        """yield (leaf name, flat index, dense dK) of the SKI (or exact)
        kernel for every linked leaf entry (everything: all coregionalisation
        entries, linked or not)"""
        s = self.s
        o = s.out
        for q, k in enumerate(s.kernels):
            if exact:
                G, dG = self._k(q, s.RXX[self._ad(q)])
            else:
                W = s.W[self._ad(q)]
                G = self._G(q)
                dG = [(n, W.dot(d).dot(W.T)) for n, d in self._grid(q)[1]]
            if k['kind'] != 'indep' or everything:
                for i in range(len(self.a[q])):
                    for j in range(s.D):
                        dB = np.zeros((s.D, s.D))
                        dB[j] += self.a[q][i]
                        dB[:, j] += self.a[q][i]
                        yield ('a%d' % q, i * s.D + j, dB[np.ix_(o, o)] * G)
            if k['kind'] == 'lmc' or everything:
                for j in range(s.D):
                    dB = np.zeros((s.D, s.D))
                    dB[j, j] = 1
                    yield ('kappa%d' % q, j, dB[np.ix_(o, o)] * G)
            for n, d in dG:
                yield (k['name'] + '.' + n, 0, self._Bo(q, o, o) * d)
        for j in range(s.D):
            yield ('noise', j, np.diag((o == j).astype(float)))

    def gradient(self, probes, everything=False):
        a = self.alpha
        R = np.array(probes, dtype=float)
        Ri = self.solve(R.T).T if len(R) else R
        out = {}
        for name, i, dK in self.dKs(everything=everything):
            t = (Ri * R.dot(dK)).sum() / max(len(R), 1)
            out[name, i] = 0.5 * (a.dot(dK).dot(a) - t)
        return out

    def gradient_slack(self, sl):
        """How much solves that are off by ``sl`` may move a gradient."""
        def f():
            a = np.linalg.norm(self.alpha)
            n = np.sqrt(self.s.n)
            d = max(np.linalg.norm(dK) for _, _, dK in self.dKs())
            return a, n, d
        a, n, d = self._memo('gs', f)
        return d * (2 * a * sl + sl * sl + n * sl)

    def exact_gradient(self, everything=False):
        Ki = self._memo('Ki', lambda: la.inv(self.K))
        a = Ki.dot(self.s.y)
        return {(name, i): 0.5 * (a.dot(dK).dot(a) - (Ki * dK).sum())
                for name, i, dK in self.dKs(True, everything)}
