"""C10 C11: transformation of stacks of trials."""
import pickle
import time
import zlib
from copy import deepcopy
from common import *
from mestdata import randn, randpd, dataset, FAMS
import joblib
from sklearn.base import BaseEstimator, TransformerMixin
from robuststats.estimation import covariance as cv, base as bs, structured as st


class Probe(BaseEstimator, TransformerMixin):
    """Estimator that keeps its data on itself while it works, remembers that
    it was used, takes longer on some trials, and returns what is asked for."""
    def __init__(self, output='array', nap=0.):
        self.output, self.nap = output, nap

    def fit(self, X, y=None):
        self.calls_ = getattr(self, 'calls_', 0) + 1
        self.data_ = np.array(X)
        if self.nap:
            time.sleep(self.nap*(1 + int(abs(X.ravel()[0])*7) % 4))
        return self

    def transform(self, X):
        d, c = self.data_, self.calls_
        o = self.output
        if o == 'float':
            return np.float64(np.real(d).sum()*c)
        if o == 'complex':
            return np.complex128((1+1j)*d.sum()*c)
        if o == 'pyfloat':
            return float(np.real(d).sum()*c)
        if o == 'int':
            return int(np.rint(np.real(d).sum()))*c
        if o == 'float32':
            return np.float32(np.real(d).sum()*c)
        if o == 'vector':
            return np.mean(d, axis=0)*c
        if o == 'array':
            return d.T @ d*c
        if o == 'list':
            return [d.T @ d.conj()*c, np.mean(d, axis=0), np.array([float(c)])]
        if o == 'tuple':
            return (np.mean(d, axis=1)*c, np.array([[np.real(d).sum()]]))
        if o == 'one':
            return [np.mean(d, axis=0)*c]
        if o == 'cube':
            return np.stack([d.T @ d, d.T @ d*c])


class CovProbe(BaseEstimator, TransformerMixin):
    """Covariance estimator that keeps its data on itself while it works."""
    def __init__(self, nap=.01):
        self.nap = nap

    def fit(self, X, y=None, gain=1.):
        self.data_, self.gain_ = np.array(X), gain
        time.sleep(self.nap*(1 + int(abs(self.data_.ravel()[0])*7) % 3))
        self.covariance_ = self.gain_*self.data_.T @ self.data_.conj()/len(self.data_)
        time.sleep(self.nap/2)
        return self

    def transform(self, X):
        return self.covariance_


class ReuseProbe(CovProbe):
    """Covariance estimator that always writes into the same array."""
    def fit(self, X, y=None, gain=1.):
        was = getattr(self, 'covariance_', None)
        super().fit(X, gain=gain)
        if was is not None and was.shape == self.covariance_.shape and was.dtype == self.covariance_.dtype:
            was[...] = self.covariance_
            self.covariance_ = was
        return self


PROBES = ['float', 'complex', 'vector', 'array', 'list', 'tuple', 'one', 'cube', 'pyfloat', 'int', 'float32']


def items(v):
    """an estimator's output as a sequence of component arrays"""
    if np.isscalar(v):
        v = np.array([v])
    if isinstance(v, np.ndarray):
        v = [v]
    out = []
    for a in v:
        d = arr(a)
        d.pop('dt')
        out.append(d)
    return out


def digest(est):
    return zlib.crc32(pickle.dumps({k: (v.tobytes() + str(v.dtype).encode() if isinstance(v, np.ndarray) else repr(v))
                                    for k, v in sorted(vars(est).items())
                                    if not callable(v)}))


def covs(r, field, p):
    if field == 'real':
        return [cv.TylerShapeMatrix(normalisation='trace', tol=1e-6), cv.CenteredStudentMLE(df=3., iter_max=30),
                cv.HuberMEstimator(q=.8, iter_max=30), bs.RealEmpiricalCovariance(assume_centered=bool(r.rand() < .5)),
                cv.TylerShapeMatrix(normalisation='determinant', iter_max=2)]
    return [cv.ComplexTylerShapeMatrix(normalisation='trace', tol=1e-6), cv.ComplexCenteredStudentMLE(df=3., iter_max=30),
            cv.ComplexHuberMEstimator(q=.8, iter_max=30), bs.ComplexEmpiricalCovariance(assume_centered=bool(r.rand() < .5)),
            cv.ComplexTylerShapeMatrix(normalisation='element', iter_max=2)]


def stack(r, field, n, N, p, k):
    X = np.stack([dataset(r, field, p, N, FAMS[(k + i) % 5])*10.**r.randint(-1, 2) for i in range(n)])
    if k % 5 == 1:
        if field == 'real':
            X = np.rint(X/np.abs(X).max()*200).astype(int)
            X[X == 0] = 1
        else:
            X = X.astype(np.complex64)
    elif k % 5 == 2:
        X = X.astype(np.float32 if field == 'real' else complex)
    elif k % 5 == 3:
        X = np.asfortranarray(X)
    elif k % 5 == 4:
        X = np.ascontiguousarray(X.transpose(2, 1, 0)).transpose(2, 1, 0)
        X.flags.writeable = False
    return X


JOBS = [(1, None), (2, None), (3, 'threading')]
ALL = [(1, None), (-1, None), (-1, 'threading')]


def batches(tr, make, est, X, jobs, kw, isolated, used):
    tr['isolated'] = isolated
    for x in X:
        e = deepcopy(used) if used is not None else deepcopy(est)
        c = Call(lambda: e.fit(np.array(x), **kw).transform(np.array(x)))
        tr['ev'].append(dict(a='alone', outcome='ok' if c.ok else 'fails', v=items(c.value) if c.ok else []))
    for n, backend in jobs:
        before = digest(est)
        keep = [np.array(x) for x in X]
        t = make(est, n)

        def go():
            with (joblib.parallel_backend(backend) if backend else contextlib.nullcontext()):
                return t.fit(X).transform(X, **kw) if kw else t.fit_transform(X)
        c = Call(go, seconds=150)
        tr['ev'].append(dict(a='batch', jobs=n, backend=str(backend), outcome=c.outcome, msg=getattr(c, 'msg', '')[:150],
                             out=outputs(c.value, len(X)) if c.ok else [], before=before, after=digest(est),
                             same=all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, X))))


def outputs(v, n):
    if isinstance(v, bs._FeatureArray):
        x = v.export()
        if v.nb_manifolds == 1 and not isinstance(x, list):
            x = [x]
        if len(v) == 1:
            return [items([np.asarray(a) for a in x])]
        return [items([a[i] for a in x]) for i in range(len(v))]
    return [items(z) for z in v]


def c10(tr, k, r):
    field = ('real', 'complex')[k % 2]
    p = [2, 3, 1, 4, 2, 5][k % 6]
    n = [3, 4, 1, 2, 5][k % 5]
    if k % 8 == 7:
        n = [11, 40, 18][k//8 % 3]
    if k % 12 == 5:
        p = 9
    X = stack(r, field, n, 3*p + 4, p, k)
    opts = covs(r, field, p)
    est = opts[(k//2) % len(opts)]
    kw = {}
    if k % 3 == 1 and not isinstance(est, bs.RealEmpiricalCovariance):
        pass
    if k % 5 == 3:
        est = (CovProbe, ReuseProbe)[k % 2](.003)
    name = type(est).__name__
    if 'Empirical' not in name and k % 3 == 1:
        kw = dict(gain=2.) if 'Probe' in name else dict(init=randpd(r, field, p, 1))
    if k % 6 == 4:                  # an estimator that has been used before
        Call(est.fit, dataset(r, field, p + 1, 3*p + 9, 'gauss'))
    if k % 9 == 8:
        X[int(r.randint(n)), 0, 0] = np.nan if X.dtype.kind != 'i' else 0
    jobs = JOBS if tr['early'] else ALL
    batches(tr, lambda e, j: bs.CovariancesEstimation(e, n_jobs=j), est, X, jobs, kw, False, None)


def big(tr, k, r):
    """trials large enough to be handed to worker processes as memory maps"""
    field = ('real', 'complex')[k % 2]
    X = np.stack([randn(r, field, 45000, 3)*(1 + i) for i in range(3)])
    est = covs(r, field, 3)[3 if k < 2 else 1]
    if hasattr(est, '_iter_max') or 'iter_max' in est.get_params():
        est.set_params(iter_max=3)
    mk = (lambda e, j: bs.CovariancesEstimation(e, n_jobs=j)) if tr['prop'] == 'C10' else \
        (lambda e, j: bs.FeaturesEstimation(e, n_jobs=j))
    batches(tr, mk, est, X, [(2, None)], {}, tr['prop'] == 'C11', None)


def c11(tr, k, r):
    field = ('real', 'complex')[(k//len(PROBES)) % 2]
    p = [2, 3, 1, 4][k % 4]
    n = [3, 4, 1, 2, 6][k % 5] if k % 8 != 7 else [11, 40, 18][k//8 % 3]
    X = stack(r, field, n, 2*p + 3, p, 0)
    if field == 'complex' and PROBES[k % len(PROBES)] == 'int':
        X = X.real.copy()
    est = Probe(PROBES[k % len(PROBES)], nap=.004 if k % 3 else 0)
    jobs = JOBS if tr['early'] else ALL
    batches(tr, lambda e, j: bs.FeaturesEstimation(e, n_jobs=j), est, X, jobs, {}, True, None)


def c11cov(tr, k, r):
    field = ('real', 'complex')[k % 2]
    p = [2, 3, 1, 4][k % 4]
    n = [3, 4, 1, 2, 6][k % 5] if k % 8 != 7 else 21
    X = stack(r, field, n, 3*p + 4, p, k)
    opts = covs(r, field, p)
    est = opts[(k//2) % len(opts)]
    if k % 4 == 2:
        Call(est.fit, dataset(r, field, p + 1, 3*p + 9, 'gauss'))
    if k % 7 == 6:
        X[int(r.randint(n)), 0, 0] = np.nan if X.dtype.kind != 'i' else 0
    if k % 7 == 4:                  # trials of different lengths
        X = [x[:len(x) - i % 3] for i, x in enumerate(X)]
    batches(tr, lambda e, j: bs.FeaturesEstimation(e, n_jobs=j), est, X, JOBS if tr['early'] else ALL, {}, True, None)


def run(req):
    deep = req['tier'] == 'thorough'
    out, todo = [], []
    plan = [(c10, 96 if deep else 24), (big, 4 if deep else 2)] if req['property'] == 'C10' else \
        [(c11, 88 if deep else 22), (c11cov, 60 if deep else 14), (big, 2)]
    for f, n in plan:
        for k in range(n):
            r = rng('batch', req['property'], req['seed'], f.__name__, k)
            todo.append((k >= .8*n and f is not big, f, k, r, dict(id='%s-%d' % (f.__name__, k), prop=req['property'], isolated=False, early=k < .8*n, ev=[])))
    # worker processes are reused as long as their number does not change
    for _, f, k, r, tr in sorted(todo, key=lambda z: z[0]):
        record(out, tr, f, k, r)
    return out


main(run)
