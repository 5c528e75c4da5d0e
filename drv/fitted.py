"""C15, C29: fitted covariance estimators and what is computed from them."""
from common import *
from mestdata import randn, randpd, dataset, layout, FAMS
from robuststats.estimation import covariance as cv, base as bs, structured as st


def queries(tr, est, r, field, p, singular=False, ref=None):
    X = dataset(r, field, p, 4, 'gauss')*10.**r.uniform(-1, 1)
    S = est.covariance_
    P = need(tr, Call(est.get_precision), 'precision')
    tr['ev'].append(dict(a='precision', P=M(P), singular=singular))
    for x in (X.astype(np.complex64) if field == 'complex' else X.astype(np.float32), (10*X).real.astype(int), X.real > 0, X[:1], X):
        c = Call(est.transform, x)
        tr['ev'].append(dict(a='transform', S=M(need(tr, c, 'transform')), kind=kind(c.value), want=kind(S)))
    if not singular:
        d = need(tr, Call(est.mahalanobis, X), 'mahalanobis')
        tr['ev'].append(dict(a='mahalanobis', X=M(X), d=RV(np.real(d)), kind=kind(d)))
        c = Call(est.score, X)
        if c.exc != 'NotImplementedError':
            s = need(tr, c, 'score')
            law = 'gauss' if not hasattr(est, 'df') and not hasattr(est, 'a') else 'other'
            tr['ev'].append(dict(a='score', v=R(np.real(s)), kind=kind(s).replace('int', 'real'), X=M(X), law=law, field=field))
            if law == 'gauss' and r.rand() < .3:
                s = need(tr, Call(est.score, X, None), 'score with labels')
                tr['ev'].append(dict(a='score', v=R(np.real(s)), kind=kind(s).replace('int', 'real'), X=M(X), law=law, field=field))
    others = [np.eye(p), randpd(r, field, p, 1)*np.real(np.trace(S))/p, S.copy()]
    if field == 'complex':
        others.append(S.conj())
    for T in others:
        for norm in ('frobenius', 'spectral'):
            for scaling in (True, False):
                for squared in (True, False):
                    v = need(tr, Call(est.error_norm, T, norm=norm, scaling=scaling, squared=squared), 'norm')
                    tr['ev'].append(dict(a='norm', T=M(T), norm=norm, scaling=scaling, squared=squared,
                                         v=R(np.real(v)), kind=kind(v).replace('int', 'real')))
    c = Call(est.error_norm, np.eye(p), norm='nuclear')
    tr['ev'].append(dict(a='rejected', outcome=c.outcome))


def sample(tr, k, r, p, N):
    centred = bool(k % 2)
    store = bool((k//2) % 2)
    X = dataset(r, 'complex', p, N, FAMS[k % 5])
    if k % 3 == 1:
        X = X + randn(r, 'complex', p)*3*np.abs(X).mean()
    if k % 7 == 3:
        X = X.astype(np.complex64).astype(complex)
    est = bs.ComplexEmpiricalCovariance(store_precision=store, assume_centered=centred)
    c = Call(est.fit, X)
    need(tr, c, 'fit')
    tr['ev'].append(dict(a='sample', X=M(X), centred=centred, wanted=store, stored=est.precision_ is not None,
                         S=M(est.covariance_), loc=V(est.location_), kind=kind(est.covariance_),
                         floor=R(np.linalg.norm(X)**2/N), warned=any('sample' in w for w in c.warnings)))
    rank = N - (0 if centred else 1)
    if N > 1 or centred:
        queries(tr, est, r, 'complex', p, singular=rank < p + 1)
    # the function alone
    c = Call(bs.complex_empirical_covariance, X, assume_centered=centred)
    S = need(tr, c, 'function')
    loc = np.zeros(p) if centred else X.mean(0)
    tr['ev'].append(dict(a='sample', X=M(X), centred=centred, wanted=False, stored=False, S=M(S), loc=V(loc),
                         kind=kind(S), floor=R(np.linalg.norm(X)**2/N), warned=any('sample' in w for w in c.warnings)))
    if N == 1 and p > 1:
        c = Call(bs.complex_empirical_covariance, X[0], assume_centered=centred)
        S = need(tr, c, 'function 1d')
        tr['ev'].append(dict(a='sample', X=M(X), centred=centred, wanted=False, stored=False, S=M(S), loc=V(loc),
                             kind=kind(S), floor=R(np.linalg.norm(X)**2/N), warned=any('sample' in w for w in c.warnings)))


MAKERS = []
for _f, _t, _s, _h, _e in (('real', cv.TylerShapeMatrix, cv.CenteredStudentMLE, cv.HuberMEstimator, bs.RealEmpiricalCovariance),
                           ('complex', cv.ComplexTylerShapeMatrix, cv.ComplexCenteredStudentMLE, cv.ComplexHuberMEstimator,
                            bs.ComplexEmpiricalCovariance)):
    MAKERS += [('tyler', _f, lambda r, c=_t: c(normalisation=str(r.choice(['None', 'trace', 'determinant', 'element'])),
                                               tol=10**r.uniform(-8, -1))),
               ('tylerng', _f, lambda r, c=_t: c(method='natural gradient', normalisation=str(r.choice(['None', 'trace'])))),
               ('student', _f, lambda r, c=_s: c(df=float(r.choice([.7, 2, 3, 10])), iter_max=int(r.choice([1, 5, 100])))),
               ('huber', _f, lambda r, c=_h: c(q=float(r.choice([.3, .7, .95])), iter_max=int(r.choice([1, 5, 100])))),
               ('empirical', _f, lambda r, c=_e: c(assume_centered=bool(r.rand() < .5), store_precision=bool(r.rand() < .5)))]
MAKERS += [('kronmm', 'complex', lambda r, a=2, b=2: st.KroneckerEllipticalMM(a, b)),
           ('kronstudent', 'complex', lambda r, a=2, b=2: st.KroneckerStudent(a, b, float(r.choice([2.5, 6])),
                                                                                assume_centered=bool(r.rand() < .7)))]


def fitted(tr, name, field, mk, k, r):
    p = [2, 3, 1, 5, 4, 6][k % 6]
    if name == 'tylerng':
        p = [2, 3, 4, 2, 3, 5][k % 6]
    a = b = 2
    if name.startswith('kron'):
        a, b = [(2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (2, 4)][k % 6]
        p = a*b
        est = mk(r, a=a, b=b) if name == 'kronmm' else st.KroneckerStudent(a, b, 3.)
    else:
        est = mk(r)
    N = 3*p + 3 + int(r.randint(15))
    if k % 6 == 3:
        N += 230
    for turn in range(3 if not name.startswith('kron') else 2):      # refits, the last in another dimension
        if turn == 2:
            p = p % 5 + 2 if k % 6 != 2 else 11
            N = 3*p + 3 + int(r.randint(15))
        X = dataset(r, field, p, N, FAMS[(k + turn) % 7])
        if name == 'empirical' and k % 2:
            X = X + 2
        if k % 6 == 5 and field == 'real' and turn != 1:
            X = np.round(X/np.abs(X).max()*100).astype(int)
            X[X == 0] = 1
        if name == 'kronstudent':
            X = X/np.linalg.norm(X)*np.sqrt(X.size)
        if k % 6 == 4 and (name[:4] not in ('kron', 'tyle') or name == 'tyler'):
            Y = X*np.logspace(-1.6, 1.6, p)[r.permutation(p)]
            if np.linalg.cond(Y) < 5000:          # the tolerances are for covariances of condition up to 1e7 or so
                X = Y
        if turn == 1:
            X = layout(X, k)
        np.random.seed(k)
        need(tr, Call(est.fit, X), 'fit')
        tr['ev'].append(dict(a='fit', p=p, field=field, S=M(est.covariance_), kind=kind(est.covariance_),
                             loc=V(est.location_)))
        queries(tr, est, r, field, p)


def run(req):
    big = req['tier'] == 'thorough'
    out = []
    if req['property'] == 'C15':
        k = 0
        for p in (1, 2, 3, 5):
            for N in (1, 2, 3, 7, 20):
                for j in range(4 if big else 2):
                    k += 1
                    r = rng('sample', req['seed'], p, N, j)
                    record(out, dict(id='sample-%d-%d-%d' % (p, N, j), ev=[]), sample, k, r, p, N)
        for p, N in ((12, 40), (2, 700), (17, 9)):
            for j in range(2):
                k += 1
                record(out, dict(id='sample-%d-%d-%d' % (p, N, j), ev=[]), sample, k, rng('sample', req['seed'], p, N, j), p, N)
        return out
    for name, field, mk in MAKERS:
        for k in range(24 if big else 6):
            r = rng('fitted', req['seed'], name, field, k)
            record(out, dict(id='%s-%s-%d' % (name, field, k), ev=[]), fitted, name, field, mk, k, r)
    return out


main(run)
