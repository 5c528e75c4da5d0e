"""C02 C03 C04 C05 C06: fixed-point M-estimation."""
from common import *
from mestdata import *


def sizes(r, est, big, k):
    p = [1, 2, 3, 4, 5, 6, 8][k % 7]
    N = p + 1 + int(r.randint(0, 12)) if k % 3 == 0 else p*3 + int(r.randint(0, 20))
    if k % 11 == 10:
        N += 60
    return p, N


def problems(req, n, ests=ESTS, wellposed=False):
    for est in ests:
        for field in FIELDS:
            for k in range(n):
                key = ('mest', req['property'], req['seed'], est, field, k)
                r = rng('size', *key)
                p, N = sizes(r, est, req['tier'] == 'thorough', k)
                df = None
                if wellposed:
                    N = max(N, 3*p+2) if k % 3 else N
                    df = float(r.choice([.5, 1, 2, 3, 4.5, 7]))
                pb = Problem(key, est, field, p, N, FAMS[(k + k//7) % len(FAMS)], df=df)
                pb.name = '%s-%s-%d' % (est, field, k)
                pb.k = k
                yield pb
    for est in ests:
        for field in FIELDS:
            for j, (p, N) in enumerate(LARGE[:4 if req['tier'] == 'quick' else None]):
                key = ('mest-large', req['property'], req['seed'], est, field, j)
                pb = Problem(key, est, field, p, N, FAMS[(2*j + (field == 'real') + ests.index(est)) % 5])
                pb.name = '%s-%s-large%d' % (est, field, j)
                pb.k = j + ests.index(est) + FIELDS.index(field)
                yield pb


# (dimension, samples) of the large problems
LARGE = [(3, 1030), (12, 70), (2, 300), (17, 60), (1, 2100), (6, 513), (24, 80), (33, 100), (3, 5000)]


def start(tr, pb, via, init):
    c = pb.go(via, init=init, iter_max=0, tol=0.)
    S, err, it = need(tr, c, 'start')
    e = dict(a='begin', S=M(S), given=init is not None, it=it, warned=warned(c), **pb.describe())
    if init is not None:
        e['init'] = M(init)
    tr['ev'].append(e)


def steps(tr, pb, via, init, ks):
    """prefix runs"""
    res = []
    for k in ks:
        c = pb.go(via, init=init, iter_max=k, tol=0.)
        S, err, it = need(tr, c, 'iterate')
        tr['ev'].append(dict(a='iterate', S=M(S), err=R(err), it=it, warned=warned(c)))
        res.append((S, err, it))
    return res


def recursion(tr, pb):
    via = 'class' if pb.k % 2 else 'function'
    init = [None, randpd(pb.r, pb.field, pb.p, 2), None, np.eye(pb.p)][pb.k % 4]
    start(tr, pb, via, init)
    steps(tr, pb, via, init, range(1, 4 + 3*(pb.k % 4 == 0)))
    if pb.k % 3 == 1:
        # pairs of consecutive late iterates
        lb, li = slow_problem(Problem(('slow', pb.name), pb.est, pb.field, 3, 9, 'gauss')) if pb.k % 2 else (pb, init)
        start(tr, lb, via, li)
        for k in (7, 15, 24, 33, 70, 99, 180)[pb.k % 2::2]:
            S, err, it = need(tr, lb.go(via, init=li, iter_max=k, tol=0.), 'later')
            tr['ev'].append(dict(a='later', S=M(S), k=k))
            steps(tr, lb, via, li, [k+1])
    if pb.k % 4 == 1 and 'large' not in pb.name:
        # data and starting points of other types
        X = np.rint(20*pb.X/np.abs(pb.X).max())
        if np.linalg.matrix_rank(X) == pb.p and np.all(np.any(X, axis=1)):
            pb.X = X.astype(int) if pb.field == 'real' else X
            for init in (randpd(pb.r, 'real', pb.p, 1), None, np.diag(np.arange(1, pb.p+1))):
                start(tr, pb, via, init)
                steps(tr, pb, via, init, range(1, 3))


def exact_problem(pb, field):
    """data for which the recursion is exactly at its fixed point"""
    H = np.array([[1, 1], [1, -1]])
    H = np.kron(H, H)
    pb.X = (H if field == 'real' else H*(1+0j)).astype(complex if field == 'complex' else float)
    pb.p = pb.N = 4
    return pb


def slow_problem(pb):
    """data and starting point from which no default fit converges before its cap"""
    pb.p, pb.N = 3, 9
    pb.X = randn(pb.r, pb.field, 9, 3)
    if pb.est == 'tyler':                    # a third of the samples on a line
        pb.X[:3] = pb.X[:3, :1]*np.array([[1, 0, 0]])
        return pb, None
    pb.df, pb.q = .1, .02
    k = 3 if pb.field == 'real' else 6
    y = chi2.ppf(pb.q, k)
    pb.lam = y if pb.field == 'real' else y/2
    pb.beta = chi2.cdf(y, k+2) + pb.lam*(1-pb.q)/3
    return pb, np.eye(3)*1e-12


def defaults(tr, pb):
    """fits that leave tolerance and cap to their defaults"""
    for via in ('class', 'function'):
        init = [None, np.eye(pb.p, dtype=int), randpd(pb.r, pb.field, pb.p, 1)][pb.k % 3]
        if pb.k == 5 and 'large' not in pb.name:
            pb, init = slow_problem(pb)
        start(tr, pb, via, init)
        S, err, it = need(tr, pb.go(via, init=init), 'default')
        steps(tr, pb, via, init, range(1, it+1))
        for kw in (dict(), dict(verbosity=True)):
            c = pb.go(via, init=init, **kw)
            S, err, it = need(tr, c, 'default')
            tr['ev'].append(dict(a='run', tol=R(1e-4), cap=100 if via == 'class' else 30, S=M(S), err=R(err),
                                 it=it, warned=warned(c)))


def stopping(tr, pb):
    if pb.k % 3 == 2 or 'large' in pb.name:
        defaults(tr, pb)
    if 'large' in pb.name:
        return
    via = 'class' if pb.k % 2 else 'function'
    r = pb.r
    if pb.est == 'tyler' and pb.k == 2:
        exact_problem(pb, pb.field)
    init = randpd(r, pb.field, pb.p, 2) if pb.k % 3 == 1 else None
    L = 14
    start(tr, pb, via, init)
    path = steps(tr, pb, via, init, range(1, L+1))
    errs = [x[1] for x in path]
    again = [pb.go(via, init=init, iter_max=k, tol=0.) for k in range(1, L+1)]
    stable = all(c.ok and c.value[1] == e for c, e in zip(again, errs))
    runs = []
    for k in (1, 2, 5, L):
        runs.append((0., k))
    for j in (0, 2, 5, 9):
        e = errs[j]
        runs.append((e*1.0001, L))
        runs.append((e*.9999, L))
        runs.append((e*1.0001, j+1))
        runs.append((e*1.0001, j+2))
        runs.append((e*1.0001, max(1, j)))
        if stable:
            runs.append((e, L))
    runs += [(1e300, 5), (1e300, 1), (10**r.uniform(-6, 0), L)]
    runs.append((0., 0))
    runs.append((1e300, 0))
    for tol, cap in runs:
        verb = bool(r.rand() < .1) and via == 'function'
        c = pb.go(via, init=init, iter_max=cap, tol=tol, **({'verbosity': True} if verb else {}))
        S, err, it = need(tr, c, 'run')
        tr['ev'].append(dict(a='run', tol=R(tol), cap=cap, S=M(S), err=R(err), it=it, warned=warned(c)))


def equivariance(tr, pb):
    r, p = pb.r, pb.p
    via = 'class' if pb.k % 2 else 'function'
    init = randpd(r, pb.field, p, 1) if pb.k % 3 == 1 else None
    start(tr, pb, via, init)
    K = 4
    steps(tr, pb, via, init, range(1, K+1))
    I = np.eye(p)
    for kind in ('perm', 'linear', 'both', 'scale'):
        A = I
        X = pb.X
        if kind in ('linear', 'both'):
            A = randn(r, pb.field, p, p) + 1.5*I
            while np.linalg.cond(A) > 50:
                A = randn(r, pb.field, p, p) + 1.5*I
        if kind == 'scale':
            A = I*10.**r.uniform(-3, 3)
            if pb.field == 'complex':
                A = A*np.exp(1j*r.uniform(0, 6))
        if kind in ('perm', 'both'):
            X = X[r.permutation(len(X))]
        X = X @ A.T
        ini = None if init is None else A @ init @ A.conj().T
        k = int(r.randint(1, K+1))
        S, err, it = need(tr, pb.go(via, X=X, init=ini, iter_max=k, tol=0.), 'image')
        tr['ev'].append(dict(a='image', kind=kind, A=M(A), k=k, S=M(S), it=it, rtol=R(1e-7)))
    # whole fits stopped by their tolerance: similarities and permutations
    # change neither the relative changes nor, then, the stopping iteration
    # (the relative change of a fit is that of its image)
    U = np.linalg.qr(randn(r, pb.field, p, p))[0]
    dflt = init if pb.k % 2 else None
    for kind, A, perm in (('similarity', U*10.**r.uniform(-4, 4), True), ('small', I*1e-3, False), ('large', I*1e3, False)):
        X = pb.X[r.permutation(pb.N)] if perm else pb.X
        X = X @ A.T
        ini = None if dflt is None else A @ dflt @ A.conj().T
        kw = dict() if kind == 'small' and via == 'class' else dict(tol=10.**r.uniform(-5, -1), iter_max=60)
        S0, err0, it0 = need(tr, pb.go(via, init=dflt, **kw), 'whole')
        S, err, it = need(tr, pb.go(via, X=X, init=ini, **kw), 'whole')
        tr['ev'].append(dict(a='whole', A=M(A), S0=M(S0), it0=it0, err0=R(err0), S=M(S), it=it, err=R(err), rtol=R(1e-7)))
    # converged fits
    kw = dict(iter_max=4000, tol=1e-11)
    if pb.N < 3*p+2:
        return
    S0, err, it = need(tr, pb.go(via, init=I, **kw), 'converged')
    if it >= 4000:
        return
    if pb.est == 'tyler':
        e = 9 if pb.k % 2 else 3
        w = 10.**r.uniform(-e, e, size=(pb.N, 1))*r.choice([-1, 1], size=(pb.N, 1))
        if pb.field == 'complex':
            w = w*np.exp(1j*r.uniform(0, 6, size=(pb.N, 1)))
        S, err, it = need(tr, pb.go(via, X=pb.X*w, init=I, **kw), 'scaled')
        tr['ev'].append(dict(a='scaled', S0=M(S0), S=M(S), rtol=R(1e-6)))
    seq = []
    size = np.linalg.norm(pb.X)/np.sqrt(pb.N)
    far = randn(r, pb.field, p)
    far = far/np.linalg.norm(far)
    pos = int(r.randint(pb.N))
    for s in (1e4, 1e6):
        X = pb.X.copy()
        X[pos] = far*size*s
        S, err, it = need(tr, pb.go(via, X=X, init=S0, **kw), 'far')
        seq.append(M(S))
    tr['ev'].append(dict(a='far', S0=M(S0), S=seq, bound=R(100.), settle=R(.05)))


def normalisation(tr, pb):
    r = pb.r
    ng = pb.k % 6 == 5
    via = 'class'
    kw = dict(iter_max=int(r.choice([3, 7, 30])), tol=10.**r.uniform(-6, -2))
    if ng:
        kw = dict(method='natural gradient')
        if pb.N < 3*pb.p:
            return
    if pb.k % 4 == 2:
        pb.X = pb.X*10.**r.uniform(-7, 7)
    if pb.k % 4 == 3:
        pb.X = pb.X*10.**r.uniform(-2, 2, size=pb.p)
    init = randpd(r, pb.field, pb.p, 2) if pb.k % 3 == 1 else None
    if pb.k % 2 and not ng:
        via = 'function'
    seed = int(r.randint(10**6))

    def one(norm):
        np.random.seed(seed)
        return pb.go(via, init=init, normalisation=norm, **kw)
    S0, err0, it0 = need(tr, one('None'), 'none')
    tr['ev'].append(dict(a='normalise', kind='None', S=M(S0), S0=M(S0), err=R(err0), err0=R(err0),
                         it=it0 or 0, it0=it0 or 0, logged=False))
    for norm in ('trace', 'determinant', 'element', 'None', 'unknown', None, 'Trace'):
        c = one(norm)
        S, err, it = need(tr, c, norm)
        tr['ev'].append(dict(a='normalise', kind=str(norm) if norm is not None else 'none', S=M(S), S0=M(S0),
                             err=R(err), err0=R(err0), it=-1 if it is None else it,
                             it0=-1 if it0 is None else it0,
                             logged=c.log.count('ERROR') > 0))


def student(tr, pb):
    r, p = pb.r, pb.p
    C = CLS[pb.est, pb.field]
    via = 'function'
    init = randpd(r, pb.field, p, 3) if pb.k % 2 == 1 else None
    start(tr, pb, via, init)
    steps(tr, pb, via, init, range(1, 6))
    # scores of partly and fully converged fits
    for kw in (dict(iter_max=1), dict(iter_max=3, tol=1e-3), dict()):
        est = C(df=pb.df, **kw)
        need(tr, Call(est.fit, pb.X, init=init), 'fit')
        for Xt in (pb.X, dataset(r, pb.field, p, 3 + int(r.randint(5)), 'gauss'), dataset(r, pb.field, p, 2, 'heavy')*100,
                   dataset(r, pb.field, p, 6, 'dup'), np.repeat(pb.X[:2], 3, axis=0), dataset(r, pb.field, p, 4, 'grid'),
                   pb.X[:1], pb.X[:3]*0, np.asfortranarray(pb.X[::-1])):
            s = need(tr, Call(est.score, Xt), 'score')
            tr['ev'].append(dict(a='score', S=M(est.covariance_), Xt=M(Xt), score=R(np.real(s))))
    if pb.N >= 3*p+2 and p <= 8:
        est = C(df=pb.df, iter_max=6000, tol=1e-12)
        need(tr, Call(est.fit, pb.X, init=init), 'fit')
        if est.iteration_ < 6000:
            s = need(tr, Call(est.score, pb.X), 'score')
            S = est.covariance_
            others = [randpd(r, pb.field, p, 2)*np.real(np.trace(S))/p, np.eye(p)*np.real(np.trace(S))/p, S*2, S/3, S.conj()]
            tr['ev'].append(dict(a='converged', S=M(S), score=R(np.real(s)), others=[M(o) for o in others]))
    c = Call(C(df=pb.df).score, pb.X)
    tr['ev'].append(dict(a='outcome', want='error-logged-none', outcome=c.outcome, none=c.value is None,
                         logged=c.log.count('ERROR') > 0))
    for df in (0, -1, -2.5, 0.):
        c = Call(C(df=df).fit, pb.X) if r.rand() < .5 else \
            Call(FUNC[pb.est, pb.field], pb.X, df=df)
        tr['ev'].append(dict(a='outcome', want='rejected', outcome=c.outcome, none=False, logged=False))


WHAT = {'C02': (recursion, ESTS, 16, 90), 'C03': (stopping, ESTS, 7, 30), 'C04': (equivariance, ESTS, 9, 50),
        'C05': (normalisation, ['tyler'], 24, 120), 'C06': (student, ['student'], 12, 60)}


def run(req):
    f, ests, nq, nt = WHAT[req['property']]
    out = []
    for pb in problems(req, nq if req['tier'] == 'quick' else nt, ests,
                       wellposed=req['property'] == 'C04'):
        record(out, dict(id=pb.name, prop=req['property'], ev=[]), f, pb)
    return [t for t in out if t['ev']]


main(run)
