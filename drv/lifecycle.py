"""C08 C09 C30: replays generated behaviours of Lifecycle.tla on the
estimators."""
import copy
import hashlib
from common import *
from mestdata import randn, randpd, dataset
from sklearn.base import clone
from robuststats.estimation import covariance as cv, base as bs, structured as st

FP, NG = 'fixed-point', 'natural gradient'


class Kind:
    def __init__(self, name, cls, field, base, q1, q2, verb=(False, True), init=True, p=(4, 3), ng=False):
        self.name, self.cls, self.field, self.base = name, cls, field, base
        self.q1, self.q2, self.verb, self.init, self.p, self.ng = q1, q2, verb, init, p, ng
        r = rng('lifecycle', name)
        N = (24, 17) if not ng else (40, 36)
        self.good = [dataset(r, field, p[d], N[d], ('heavy', 'corr')[d]) for d in (0, 1)]
        if name.startswith('kron'):
            self.good = [x/np.linalg.norm(x)*np.sqrt(x.size) for x in self.good]
        self.starts = [randpd(r, field, p[d], .5) for d in (0, 1)]
        if name == 'kronstudent':
            self.starts = [tuple(randpd(r, field, 2, .5) for _ in 'ab') for d in (0, 1)]
            self.starts = [(a/np.real(np.linalg.det(a))**.5, b) for a, b in self.starts]

    def params(self, j, v):
        d = dict((self.q1, self.q2)[j-1][v]) if j < 3 else (dict(verbosity=self.verb[v-1]) if self.verb else {})
        return d

    def full(self, par):
        d = dict(self.base)
        for j in (1, 2, 3):
            d.update(self.params(j, par[j-1]))
        return d

    def has(self, j, v):
        return (j == 3 and self.verb is not None) or j < 3 and v in (self.q1, self.q2)[j-1]

    def data(self, d):
        if d in (1, 2):
            return self.good[d-1].copy()
        x = self.good[0].copy()
        if d == 3:
            x[2, 1] = np.nan
        elif d == 4:
            x[-1, 0] = -np.inf if self.field == 'real' else complex(0, np.inf)
        elif d == 5:
            x = x[0]
        elif d == 6:
            x = np.stack([x, x])
        return x

    def start(self, i):
        if i == 0:
            return None
        if i in (1, 2):
            return copy.deepcopy(self.starts[i-1])
        s = copy.deepcopy(self.starts[0])
        if i == 3:
            if isinstance(s, tuple):
                s[0][0, 0] = np.nan
            else:
                s[0, 0] = np.nan
        else:
            s = np.eye(7) if not isinstance(s, tuple) else (np.eye(3), np.eye(5))
        return s


TOL = dict(tol=1e-6)
fp3 = {1: dict(method=FP, iter_max=5), 2: dict(method=FP, iter_max=9), 3: dict(method='bcd', iter_max=5)}
met = {1: dict(method=FP), 2: dict(method=NG), 3: dict(method='bcd')}
nrm = {1: dict(normalisation='None'), 2: dict(normalisation='trace')}
nrm2 = {1: dict(normalisation='determinant'), 2: dict(normalisation='element')}
KINDS = []
for _f, _t, _s, _h, _e in (('real', cv.TylerShapeMatrix, cv.CenteredStudentMLE, cv.HuberMEstimator, bs.RealEmpiricalCovariance),
                           ('complex', cv.ComplexTylerShapeMatrix, cv.ComplexCenteredStudentMLE, cv.ComplexHuberMEstimator,
                            bs.ComplexEmpiricalCovariance)):
    KINDS += [
        lambda f=_f, c=_t: Kind('tyler-' + f, c, f, TOL, fp3, nrm),
        lambda f=_f, c=_t: Kind('tylerm-' + f, c, f, dict(TOL, iter_max=200), met, nrm2, ng=True),
        lambda f=_f, c=_t: Kind('tylert-' + f, c, f, {}, {1: dict(method=FP, tol=.5), 2: dict(method=FP, tol=.04), 3: dict(method='bcd', tol=.5)},
                                {1: dict(iter_max=1, normalisation='None'), 2: dict(iter_max=100, normalisation='trace')}),
        lambda f=_f, c=_s: Kind('student-' + f, c, f, {}, {1: dict(df=2.5), 2: dict(df=7), 3: dict(df=-1)},
                                {1: dict(tol=1e-2, iter_max=100), 2: dict(tol=1e-7, iter_max=50)}),
        lambda f=_f, c=_h: Kind('huber-' + f, c, f, {}, {1: dict(q=.5), 2: dict(q=.9), 3: dict(q=0.)},
                                {1: dict(iter_max=3, tol=1e-4), 2: dict(iter_max=60, tol=1e-7)}),
        lambda f=_f, c=_e: Kind('empirical-' + f, c, f, {}, {1: dict(assume_centered=False), 2: dict(assume_centered=True)},
                                {1: dict(store_precision=True), 2: dict(store_precision=False)}, verb=None, init=False)]
KINDS += [
    lambda: Kind('kronmm', st.KroneckerEllipticalMM, 'complex', dict(b=2),
                 {1: dict(a=2, tol=1e-2), 2: dict(a=2, tol=1e-7), 3: dict(a=3, tol=1e-2)},
                 {1: dict(iter_max=2), 2: dict(iter_max=40)}, init=False, p=(4, 4)),
    lambda: Kind('kronstudent', st.KroneckerStudent, 'complex', dict(b=2),
                 {1: dict(a=2, df=3), 2: dict(a=2, df=9.), 3: dict(a=3, df=3)},
                 {1: dict(store_precision=True), 2: dict(store_precision=False)}, verb=(0, 1), p=(4, 4))]


def digest(x):
    if x is None:
        return 'none'
    if isinstance(x, tuple):
        return '|'.join(digest(y) for y in x)
    x = np.asarray(x)
    return '%s%s%s' % (x.dtype, x.shape, hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())


def fit(kind, est, d, i):
    X, s = kind.data(d), kind.start(i)
    np.random.seed(7)
    before = [digest(X), digest(s), repr(est.get_params())]
    c = Call(est.fit, X, **({'init': s} if kind.init else {}))
    return c, before, [digest(X), digest(s), repr(est.get_params())]


def look(kind, est):
    got = est.get_params()
    par = [0, 0, 0]
    for a in kind.q1:
        for b in kind.q2:
            for v in (1, 2):
                want = kind.cls(**kind.full([1, b, v])).get_params()
                want.update(kind.full([a, b, v]))          # what was given, unaltered
                if repr(want) == repr(got) and par == [0, 0, 0]:
                    par = [a, b, v]
    o = dict(par=par, fitted=hasattr(est, 'covariance_'))
    o.update(values(est))
    return o


def values(est):
    it = getattr(est, 'iteration_', 0)
    if not hasattr(est, 'covariance_'):
        return dict(S=[], err=R(0), it=0, rest=[])
    return dict(S=M(est.covariance_), err=R(getattr(est, 'err_', 0.)), it=-1 if it is None else int(it), rest=rest(est))


def rest(est):
    """everything else that can be seen of a fitted estimator, as matrices
    (store_precision and the feature bookkeeping of scikit-learn, which later
    calls may have changed, are put to what they were at the fit)"""
    est = copy.copy(est)
    p = len(est.covariance_)
    est.store_precision = est.precision_ is not None
    est.n_features_in_ = p*(2 if np.iscomplexobj(est.covariance_) else 1)
    cx = np.iscomplexobj(est.covariance_)
    probe = np.arange(1., 2*p + 1).reshape(2, p)/p
    if cx:
        probe = probe + 1j*np.eye(2, p)
    out = [M(np.atleast_2d(est.location_)), M([[0. if est.precision_ is None else 1.]])]
    for f in (est.get_precision, lambda: est.transform(probe), lambda: np.atleast_2d(est.mahalanobis(probe)),
              lambda: np.atleast_2d(est.error_norm(np.eye(p)))) + \
            (() if hasattr(est, 'df') or hasattr(est, 'a') else (lambda: np.atleast_2d(est.score(probe)),)):   # these may have been set since
        c = Call(f)
        a = c.value if c.ok else np.array([[float(len(c.exc))]])
        a = np.real_if_close(np.asarray(a)) if not cx else np.asarray(a)
        out.append(M(a) if a.dtype.kind in 'fci' else [])
    for a in ('A_', 'B_'):
        if hasattr(est, a):
            out.append(M(getattr(est, a)))
    return out


def query(kind, est):
    """methods that must not change anything"""
    repr(est)
    est.get_params()
    if hasattr(est, 'covariance_'):
        d = 1 if est.covariance_.shape[0] == kind.p[0] else 2
        X = kind.data(d)
        for f in (est.get_precision, lambda: est.transform(X), lambda: est.mahalanobis(X),
                  lambda: est.error_norm(np.eye(len(est.covariance_))), lambda: est.score(X)):
            Call(f)
    else:
        Call(lambda: est.score(kind.data(1)))


def replay(tr, kind, calls, verbkey):
    fresh = {}

    def ensure(par, d, i):
        key = (par[0], par[1], d, i)
        if par[0] != 3 and d in (1, 2) and i in (0, d) and key not in fresh:
            e = kind.cls(**kind.full([par[0], par[1], 1]))
            c, _, _ = fit(kind, e, d, i)
            need(tr, c, 'fresh')
            fresh[key] = dict(key=list(key), **values(e))
            tr['fresh'].append(fresh[key])

    objs = [kind.cls(**kind.full([1, 1, 1]))]
    pars = [[1, 1, 1]]
    for h in calls:
        op, o = h[0], h[1] - 1
        if op == 'set' and not kind.has(h[2], h[3]):
            continue
        if op == 'fit' and not kind.init and h[3] != 0:
            h = ['fit', h[1], h[2], 0] if h[2] == h[3] else h
            if h[3]:
                continue
        if op == 'fit' and h[3] in (1, 2) and h[3] != h[2] and kind.p[0] == kind.p[1]:
            continue            # a start of the same size is compatible
        est = objs[o]
        before = after = []
        c = None
        if op == 'set':
            pars[o][h[2]-1] = h[3]
            c = Call(est.set_params, **kind.params(h[2], h[3]))
        elif op == 'fit':
            ensure(pars[o], h[2], h[3])
            c, before, after = fit(kind, est, h[2], h[3])
        elif op == 'query':
            c = Call(query, kind, est)
        elif op == 'clone':
            if pars[o][0] == 3 and 'method' in kind.q1[3]:
                break
            c = Call(clone, est)
            objs.append(c.value)
            pars.append(list(pars[o]))
        else:
            c = Call(copy.deepcopy, est)
            objs.append(c.value)
            pars.append(list(pars[o]))
        if op != 'fit':
            need(tr, c, op)
        tr['ev'].append(dict(a='call', h=h, outcome=c.outcome, before=before, after=after,
                             seen=[look(kind, x) for x in objs]))
    if tr['prop'] == 'C30' and verbkey % 4 == 0:
        for o, est in enumerate(objs):
            extremes(tr, kind, est, o)


def extremes(tr, kind, est, o):
    """data on which a fit may succeed or fail; tried on copies"""
    if pars_invalid(est):
        return
    X = kind.good[0]
    tiny, huge = X*1e-170, X*1e170
    null = X*0
    zero = X.copy()
    zero[3] = 0
    flat = np.outer(X[:, 0], np.ones(X.shape[1]))
    for name, x in (('huge', huge), ('tiny', tiny), ('null', null), ('zero-row', zero), ('rank-one', flat), ('few', X[:2])):
        if name == 'huge' and kind.name == 'empirical-real':
            continue                # the fit of scikit-learn, which stores the mean first
        e = copy.deepcopy(est)
        np.random.seed(7)
        c = Call(e.fit, x.copy(), seconds=20)
        tr['ev'].append(dict(a='extreme', o=o + 1, name=name, outcome=c.outcome, seen=look(kind, e)))


def pars_invalid(est):
    return est.get_params().get('method') == NG      # unbounded costs: no bound on the time of a descent


def run(req):
    out = []
    kinds = [k() for k in KINDS]
    scen = [s['calls'] for s in req['scenarios']]
    for n, calls in enumerate(scen):
        for k, kind in enumerate(kinds):
            if req['tier'] == 'quick' and (n + k) % 2:
                continue
            record(out, dict(id='%s-%d' % (kind.name, n), prop=req['property'], ev=[], fresh=[]), replay, kind,
                   [list(h) for h in calls], n//2)
    return [t for t in out if t['ev']]


main(run)
