"""C25: replays generated behaviours of Online.tla on the online estimator."""
import copy
from common import *
from mestdata import randn, randpd
from sklearn.base import clone
from robuststats.models import manifolds as mf
from robuststats.online.estimation import StochasticGradientCovarianceEstimator as SG


class Euclid:
    def retr(self, x, u):
        return x + u


def grad_outer(X, S):
    assert X.shape[0] == 1
    return np.outer(X[0], X[0].conj())


def grad_single(X, S):
    assert X.shape[0] == 1
    x = X[0]
    return np.outer(x, x.conj()) - S


class GradProduct:
    def __init__(self, how):
        self.how = how

    def __call__(self, X, theta):
        A, B = theta
        assert X.shape[0] == 1
        x = X[0]
        xa, xb = x[:len(A)], x[:len(B)]
        g = np.outer(xa, xa.conj())
        g = g - np.real(np.trace(np.linalg.solve(A, g)))/len(A)*A
        return self.how([g, np.outer(xb, xb.conj()) - B])


def twice(S):
    return 2*S + np.eye(len(S))


def kron(theta):
    return np.kron(theta[0], theta[1])


def cost(X, est):
    return 0.


class Setup:
    def __init__(self, r, q):
        self.kind = ['hpd', 'product', 'euclid', 'mapped'][q % 4]
        self.p = p = [2, 4, 3, 2, 3, 6, 1, 4][q % 8]
        self.rates = [1., .5, .125] if q % 2 else [.6, .05, .25]
        how = [list, tuple][(q//4) % 2]
        self.one = self.kind != 'product'
        if self.one:
            man = Euclid() if self.kind == 'euclid' else mf.HermitianPositiveDefinite(p)
            g, tocov = (grad_outer if self.kind == 'euclid' else grad_single), (twice if self.kind == 'mapped' else None)
            self.inits = [randpd(r, 'complex', p, 1) for _ in range(2)]
            bad = self.inits[0].copy()
            if q % 3 == 1:                       # identities and real matrices are ordinary starts
                self.inits = [np.eye(p), randpd(r, 'real', p, 1)]
            bad[0, 0] = np.nan
            self.inits.append(bad)
        else:
            a, b = {4: (2, 2), 6: (2, 3)}[p]
            if q % 3:
                man = mf.WeightedProduct([mf.SpecialHermitianPositiveDefinite(a), mf.HermitianPositiveDefinite(b)])
            else:
                man = mf.KroneckerHermitianPositiveElliptical(a, b, .9)
            g, tocov = GradProduct(how), kron
            self.inits = []
            for j in range(3):
                A, B = randpd(r, 'complex', a, 1), randpd(r, 'complex', b, 1)
                A = A/np.real(np.linalg.det(A))**(1/a)
                if j == 2:
                    B[0, 0] = np.inf
                if j == 0 and q % 5 == 1:
                    A, B = np.eye(a), np.eye(b)
                self.inits.append(how([A, B]))
        X1, X2 = randn(r, 'complex', 3, p), randn(r, 'complex', 2 + q % 4 if q % 7 != 6 else 130, p)
        if q % 5 == 3 and q % 7 != 6:
            X2 = randn(r, 'complex', 23, p)
        if self.kind == 'euclid':                # samples without a gradient
            X1[1] = X2[0] = 0
        if q % 2:
            X1 = np.asfortranarray(X1)
            X2 = np.repeat(X2, 2, axis=0)[::2]
            X1.flags.writeable = False
        X4 = X1.copy()
        X4[1, 0] = np.nan
        self.datas = [X1, X2, X1[0], X4]
        verb = q % 5 == 3
        self.new = lambda: SG(man, g, self.rates[0], estimatetocov=tocov, verbosity=verb, cost=cost if q % 2 else None)

    def seq(self, e):
        return [] if e is None else [M(e)] if self.one else [M(x) for x in e]


def replay(tr, calls, q, r):
    su = Setup(r, q)
    tr['kind'], tr['lr'] = su.kind, R(su.rates[0])
    objs = [need(tr, Call(su.new), 'new')]

    def seen(o):
        e = getattr(o, 'estimate_', None)
        return dict(est=su.seq(e), cov=M(o.covariance_) if e is not None else [])

    def same(a, b):
        a, b = (a, b) if not su.one else ([a], [b])
        return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))
    for op, o, i, j, d in calls:
        obj = objs[o - 1]
        c = dict(op=op, o=o, d=d == 1, sound=True)
        lr_update = 'inverse iteration' if d else 'constant'
        args, kw = [], {}
        if op == 'set':
            args = [su.inits[i - 1]]
            c.update(sound=i <= 2, e=su.seq(su.inits[i - 1]) if i <= 2 else [])
            f = obj.set_estimate
        elif op == 'update':
            args = [su.datas[0][i - 1].reshape(1, -1).copy(), lr_update]
            c.update(x=V(args[0]))
            f = obj.update
        elif op == 'fit':
            args = [su.datas[i - 1]]
            kw = dict(init=su.inits[j - 1] if j else None)
            if not (d and (q + i) % 2):      # the decreasing schedule is the default
                kw['lr_update'] = lr_update
            c.update(sound=j == 0 or i <= 2 and j <= 2, X=M(args[0]) if i <= 2 else [], e=su.seq(kw['init']) if j in (1, 2) else [])
            f = obj.fit
        elif op == 'rate':
            c.update(lr=R(su.rates[i - 1]))
            f = (lambda v: obj.set_params(lrate=v)) if i % 2 else (lambda v: setattr(obj, 'lrate', v))
            args = [su.rates[i - 1]]
        elif op == 'copy':
            f = lambda: copy.deepcopy(obj)
        elif op == 'clone':
            f = lambda: clone(obj)
        keep = copy.deepcopy([args, kw])
        k = Call(f, *args, **kw)
        if op in ('copy', 'clone'):
            objs.append(need(tr, k, op))
        ok = all(same(a, b) if not isinstance(a, (str, float)) and op != 'fit' and op != 'update' else
                 (np.array_equal(a, b, equal_nan=True) if isinstance(a, np.ndarray) else a == b)
                 for a, b in zip(args, keep[0]))
        if kw.get('init') is not None:
            ok = ok and same(kw['init'], keep[1]['init'])
        tr['ev'].append(dict(a='call', c=c, outcome=k.outcome, logged=k.log.count('ERROR') > 0,
                             self=k.value is obj, untouched=bool(ok), seen=[seen(x) for x in objs]))
    for o, obj in enumerate(objs):
        if getattr(obj, 'estimate_', None) is not None and su.kind != 'euclid':
            X = su.datas[1]
            tr['ev'].append(dict(a='query', o=o + 1, X=M(X), maha=RV(need(tr, Call(obj.mahalanobis, X), 'mahalanobis')),
                                 score=R(need(tr, Call(obj.score, X), 'score'))))


def run(req):
    out = []
    for k, s in enumerate(req['scenarios']):
        r = rng('online', req['seed'], k)
        record(out, dict(id='online-%d' % k, ev=[], kind='', lr=R(1)), replay, s['calls'], k, r)
    return out


main(run)
