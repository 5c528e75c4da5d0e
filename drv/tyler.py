"""C24 C07: Tyler cost functions, natural-gradient fits."""
from common import *
from mestdata import *
import autograd
from robuststats.models.cost import Tyler_cost_real, Tyler_cost_complex
COST = {'real': Tyler_cost_real, 'complex': Tyler_cost_complex}
NG = {'real': cv.tyler_shape_matrix_naturalgradient, 'complex': cv.complex_tyler_shape_matrix_naturalgradient}


def values(tr, field, X, Q):
    out = []
    f = COST[field]
    for args in ((), (False,), (True,)):
        x0, q0 = X.copy(), Q.copy()
        v = need(tr, Call(f, X, Q, *args), 'cost')
        real = bool(np.isrealobj(v)) and np.array_equal(x0, X) and np.array_equal(q0, Q)
        out.append(dict(v=R(np.real(v)), real=real))
    return out


def cost(tr, k, r):
    field = FIELDS[k % 2]
    p = [2, 3, 1, 4, 6, 5][(k//2) % 6]
    N = int(r.randint(1, 3*p + 4))
    if k % 12 > 9:
        p, N = [(12, 40), (2, 700), (3, 300), (20, 30), (1, 1100)][k//12 % 5]
    X = layout(dataset(r, field, p, N, FAMS[(k + k//5) % 6]), k//2 % 5)
    Q = randpd(r, field, p, 2)*10.**r.uniform(-3, 3)
    if k % 7 == 3:
        X, Q = np.asfortranarray(X), np.asfortranarray(Q)
    if field == 'complex' and k % 10 == 5:
        X = X.real.copy() if k % 20 == 5 else X
        Q = Q.real.copy()
    ev = tr['ev'].append
    ev(dict(a='start', Q=M(Q), X=M(X), vals=values(tr, field, X, Q)))
    for j in range(5):
        act = ['rescale', 'recoordinate', 'lengths', 'permute'][int(r.randint(4))] if j else 'recoordinate'
        e = dict(a='move', act=act)
        if act == 'rescale':
            Q = Q*10.**r.uniform(-6, 6)
        elif act == 'recoordinate':
            A = randn(r, field, p, p) + 1.5*np.eye(p)
            while np.linalg.cond(A) > 30:
                A = randn(r, field, p, p) + 1.5*np.eye(p)
            e['A'] = M(A)
            Q = A @ Q @ A.conj().T
            Q = (Q + Q.conj().T)/2
            X = X @ A.T
        elif act == 'lengths':
            w = 10.**r.uniform(-3, 3, size=(N, 1))*r.choice([-1, 1], size=(N, 1))
            if field == 'complex':
                w = w*np.exp(1j*r.uniform(0, 6, size=(N, 1)))
            e['w'] = V(w)
            X = X*w
        else:
            X = X[r.permutation(N)]
        if np.linalg.cond(Q) > 1e6:
            break
        e.update(Q=M(Q), X=M(X), vals=values(tr, field, X, Q))
        ev(e)
        if j % 2 == 0:
            if (j + k) % 4 == 2:            # repeated eigenvalues
                Q = np.eye(p)*(1. if field == 'real' else 1 + 0j)*r.choice([1., 2.5])
                if p > 3:
                    Q[0, 0] *= 3
                e = dict(a='start', Q=M(Q), X=M(X), vals=values(tr, field, X, Q))
                ev(e)
            g = need(tr, Call(autograd.grad(lambda S: COST[field](X, S, True)), Q.astype(complex) if field == 'complex' else Q), 'gradient')
            D = []
            for _ in range(3):
                d = randn(r, field, p, p)*np.linalg.norm(Q)/p
                D.append(M((d + d.conj().T)/2))
            ev(dict(a='gradient', G=M(np.conj(g)), D=D))
    for a, b in ((p, p + 1), (p + 1, p), (p + 2, p)):
        for ag in (False, True):
            c = Call(COST[field], randn(r, field, 4, a), randpd(r, field, b), ag)
            ev(dict(a='rejected', outcome=c.outcome, logged=c.log.count('ERROR') > 0))


def fits(tr, k, r):
    field = FIELDS[k % 2]
    p = [2, 3, 4, 2, 5, 1, 6][(k//2) % 7]
    N = 3*p + 3 + int(r.randint(0, 10)) + (280 if k//2 % 6 == 4 else 0)
    X = layout(dataset(r, field, p, N, ['gauss', 'heavy', 'corr', 'scaled', 'outlier', 'dup'][(k//2) % 6]), k//2 % 7)
    if k % 3 == 1:                           # samples of any length, the shape does not depend on it
        X = X*10.**r.uniform(-6, 6, size=(len(X), 1))*10.**r.uniform(-3, 0)
    fp, _, it = need(tr, Call(FUNC['tyler', field], X, iter_max=5000, tol=1e-12), 'fixed point')
    runs = []

    def go(init=None, via=0, seconds=120, **kw):
        if via:
            def f():
                e = CLS['tyler', field](method='natural gradient', normalisation='None', **kw)
                e.fit(X, init=init)
                return e.covariance_, e.err_, e.iteration_
        else:
            def f():
                return NG[field](X, init=init, **kw)
        return need(tr, Call(f, seconds=seconds), 'natural gradient')
    for j in range(3):
        np.random.seed(int(r.randint(2**31)))
        init = None
        if j == 2:
            init = [np.eye(p), randpd(r, field, p, 1), np.asfortranarray(randpd(r, field, p, 1)), randpd(r, 'real', p, 1)][k//2 % 4]
        S, err, it = go(init, via=(k + j) % 2)
        e = dict(S=M(S), err=R(err), noit=it is None, given=init is not None)
        if init is not None:
            e['init'] = M(init)
        runs.append(e)
    tr['ev'].append(dict(a='fits', field=field, X=M(X), fp=M(fp), runs=runs))
    if k % 3 == 0:
        seed = int(r.randint(2**31))
        Ss, errs = [], []
        for v in (False, True, 1):
            np.random.seed(seed)
            S, err, it = go(None, via=k % 2, verbosity=v)
            Ss.append(M(S))
            errs.append(R(err))
        tr['ev'].append(dict(a='verbose', S=Ss, err=errs))


def run(req):
    big = req['tier'] == 'thorough'
    out = []
    f, n = (fits, 160 if big else 30) if req['property'] == 'C07' else (cost, 240 if big else 48)
    for k in range(n):
        r = rng('tyler', req['property'], req['seed'], k)
        record(out, dict(id='%s-%d' % (f.__name__, k), ev=[]), f, k, r)
    return out


main(run)
