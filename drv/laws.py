"""C18 C19: complex normal and Student-t laws."""
from common import *
from mestdata import randn, randpd
from robuststats.models.probability import complex_multivariate_normal as CN, complex_multivariate_t as CT

MEANS = ['none', 'real', 'complex', 'int']


def law(tr, k, r, dfs, pmax=4, diagonal=False):
    fam = ('normal', 't')[k % 2]
    p = min(pmax, [2, 1, 3, 4][(k//2) % 4])
    if pmax == 4 and k % 11 == 10:
        p = [6, 9][k//11 % 2]
    sfield = ('complex', 'real')[(k//8) % 2]
    mean = MEANS[int(r.randint(4))] if sfield == 'complex' else ['none', 'real', 'int', 'complex', 'real'][int(r.randint(5))]
    S = randpd(r, sfield, p, 1.5)*10.**r.uniform(-1, 1)
    if sfield == 'complex' and r.rand() < .1:
        S = S.real + 0j                      # complex type, real values
    if diagonal:
        S = np.diag(np.diag(S))
    m = {'none': None, 'real': r.randn(p)*2, 'complex': randn(r, 'complex', p)*2,
         'int': r.randint(-3, 4, size=p)}[mean]
    df = float(r.choice(dfs))
    iscx = sfield == 'complex' or mean == 'complex'
    form = k % 7
    A = S                                        # the scale as it is passed
    if form == 3 and (m is not None or p == 1 or sfield == 'complex'):
        S = np.diag(np.diag(S))
        A = np.diag(S).copy() if k % 2 or sfield == 'complex' else list(np.diag(S))
    elif form == 5 and (m is not None or p == 1):
        S = S[0, 0]*np.eye(p)
        A = S[0, 0] if k % 2 else S[0, 0].item()
    elif form == 6:
        A = S.tolist()
        m = m if m is None else m.tolist() if p > 1 or r.rand() < .5 else m[0]
    tr['law'] = dict(fam=fam, df=R(df), m=V(np.zeros(p) if m is None else np.atleast_1d(m)), S=M(S), complex=bool(iscx))
    if fam == 'normal':
        return p, m, S, df, (lambda X, f: getattr(CN, f)(X, m, A)), (lambda **kw: CN(m, A, **kw)), \
            (lambda **kw: CN.rvs(m, A, **kw)), iscx, A
    return p, m, S, df, (lambda X, f: getattr(CT, f)(X, m, A, df)), (lambda **kw: CT(m, A, df, **kw)), \
        (lambda **kw: CT.rvs(m, A, df, **kw)), iscx, A


def density(tr, k, r):
    p, m, S, df, direct, frozen, _, iscx, _ = law(tr, k, r, [.5, 1, 2, 3, 4.5, 30, 1e5])
    fr = need(tr, Call(frozen), 'freeze')
    for j in range(4):
        cx = bool(j % 2) or r.rand() < .5
        n = [5, 1, 3, 1][j] if k % 13 != 12 else [300, 2, 40, 1][j]
        X = randn(r, 'complex' if cx else 'real', n, p)*10.**r.uniform(-1, 1.5)
        if m is not None:
            X = X + (np.asarray(m) if cx else np.real(m))
        if not cx and j == 2:
            X = np.rint(X).astype(int)
        if n == 1 and j == 3:
            X = X[0]
        if p == 1 and j in (0, 2):               # points of a line as a plain array or list
            x = X[:, 0] if j else list(X[:, 0])
        else:
            x = X
        res, warned = {}, []
        for name, f in (('logpdf', lambda: direct(x, 'logpdf')), ('pdf', lambda: direct(x, 'pdf')),
                        ('flogpdf', lambda: fr.logpdf(x)), ('fpdf', lambda: fr.pdf(x))):
            c = Call(f)
            v = need(tr, c, name)
            res[name] = RV(np.real(v))
            res['kind'] = kind(v)
            warned.append(c.log.count('WARNING') > 0)
        tr['ev'].append(dict(a='density', X=M(np.atleast_2d(X)), complex=bool(np.iscomplexobj(X)), warned=warned, **res))


def entropy(tr, k, r):
    p, m, S, df, direct, frozen, _, iscx, A = law(tr, k, r, [.5, 1, 2, 3, 4.5, 30])
    gen = CN if tr['law']['fam'] == 'normal' else CT
    args = (m, A) if gen is CN else (m, A, df)
    v = [need(tr, Call(gen.entropy, *args), 'entropy'), need(tr, Call(lambda: frozen().entropy()), 'entropy')]
    tr['ev'].append(dict(a='entropy', v=RV(np.array(v, dtype=float).ravel())))


def distribution(tr, k, r):
    np.random.seed(r.randint(2**31))
    p, m, S, df, direct, frozen, _, iscx, _ = law(tr, k, r, [1, 2, 3, 4.5, 30], pmax=2, diagonal=k % 3 < 2)
    fr = need(tr, Call(frozen), 'freeze')
    names = ['logcdf'] if tr['law']['fam'] == 'normal' else []
    for j in range(3):
        cx = j > 0
        n = [3, 4, 1][j]
        X = randn(r, 'complex' if cx else 'real', n, p)*r.choice([.3, 1, 3])
        centre = j == 2
        c = 0 if m is None else (m if cx else np.real(m))
        X = np.zeros_like(X) + c if centre else X + c
        up = X + (.4 + .3j if cx else .4)
        a, b = Call(direct, X, 'cdf'), Call(lambda: fr.cdf(X))
        res = [Call(direct, X, 'logcdf'), Call(lambda: fr.logcdf(X))] if names else []
        tr['ev'].append(dict(
            a='cdf', X=M(X), complex=cx, centre=centre, v=RV(need(tr, a, 'cdf')), f=RV(need(tr, b, 'cdf')),
            up=RV(need(tr, Call(direct, up, 'cdf'), 'cdf')), logs=[RV(need(tr, q, 'logcdf')) for q in res],
            warned=[q.log.count('WARNING') > 0 for q in [a, b] + res]))


def defaults(tr, k, r):
    """parameters left out, and sequences instead of arrays"""
    gen = (CN, CT)[k % 2]
    if k % 3 == 0:
        p, m, S, args = 1, np.zeros(1), np.eye(1), ()
    elif k % 3 == 1:
        p, m, S = 2, np.zeros(2), np.diag([1., 3])
        args = ([0., 0], [[1., 0], [0, 3.]])
    else:
        p, m, S = 2, np.array([1j, 0]), np.array([[1, .5j], [-.5j, 2]])
        args = ([1j, 0], [[1, .5j], [-.5j, 2]])
    tr['law'] = dict(fam='normal' if gen is CN else 't', df=R(1), m=V(m), S=M(S), complex=k % 3 == 2)
    X = randn(r, 'complex' if k % 3 == 2 else 'real', p)
    fr = need(tr, Call(gen, *args), 'freeze')
    x = [complex(z) for z in X] if k % 3 == 2 else [float(z) for z in X]
    res = {n: need(tr, Call(f, x), n) for n, f in (('logpdf', lambda x: gen.logpdf(x, *args)), ('pdf', lambda x: gen.pdf(x, *args)),
                                                  ('flogpdf', fr.logpdf), ('fpdf', fr.pdf))}
    tr['ev'].append(dict(a='density', X=M(np.atleast_2d(X)), complex=k % 3 == 2, warned=[],
                         kind=kind(res['logpdf']), **{n: RV(v) for n, v in res.items()}))
    v = [need(tr, Call(gen.entropy, *args), 'entropy'), need(tr, Call(fr.entropy), 'entropy')]
    tr['ev'].append(dict(a='entropy', v=RV(np.array(v, dtype=float).ravel())))
    for c in (Call(gen.rvs, *args, size=4, random_state=3), Call(lambda: fr.rvs(size=4, random_state=3))):
        a = np.asarray(need(tr, c, 'rvs'))
        tr['ev'].append(dict(a='draw', seed=3, n=4, shape=list(a.shape), kind=kind(a), X=M(a.reshape(4, -1))))


def sampling(tr, k, r):
    p, m, S, df, _, frozen, rvs, iscx, _ = law(tr, k, r, [1, 2.5, 3, 6, 30])

    def put(seed, n, c):
        v = need(tr, c, 'rvs')
        a = np.asarray(v)
        tr['ev'].append(dict(a='draw', seed=seed, n=n, shape=list(a.shape), kind=kind(a), X=M(a.reshape(n, -1))))
    for seed in (1, 0, 2**31 - 5, int(r.randint(1000)) + 2):
        for n in (4, 1, 9) if seed != 1 or k % 4 else (4, 1, 500):
            put(seed, n, Call(rvs, size=n, random_state=seed))
            put(seed, n, Call(rvs, size=n, random_state=np.random.RandomState(seed)))
            put(seed, n, Call(lambda: frozen().rvs(size=n, random_state=seed)))
            put(seed, n, Call(lambda: frozen(seed=seed).rvs(size=n)))
            np.random.seed(seed)
            put(seed, n, Call(rvs, size=n))
            np.random.seed(seed)
            fr = frozen()
            put(seed, n, Call(lambda: fr.rvs(size=n)))
    # successive draws from one generator are different samples
    for make in (lambda s: (lambda n, g=np.random.RandomState(s): rvs(size=n, random_state=g)),
                 lambda s: (lambda n, f=frozen(seed=s): f.rvs(size=n)),
                 lambda s: (lambda n, f=frozen(), g=np.random.RandomState(s): f.rvs(size=n, random_state=g))):
        g = make(77)
        for j in range(3):
            put(77*10 + j, 3, Call(g, 3))


def moments(tr, k, r, N):
    p, m, S, df, _, frozen, rvs, iscx, _ = law(tr, k, r, [8, 12, 30])
    fr = need(tr, Call(frozen), 'freeze')
    X = need(tr, Call(lambda: rvs(size=N, random_state=k) if k % 3 else fr.rvs(size=N, random_state=k)), 'rvs')
    X = np.asarray(X).reshape(N, -1)
    C = S*(df/(df - 2) if tr['law']['fam'] == 't' else 1)
    slack = 6*np.sqrt(p/N)
    slack2 = 8*p*np.sqrt(2./N)*(1 if tr['law']['fam'] == 'normal' else np.sqrt((df - 2)/(df - 4)*2))
    tr['ev'].append(dict(a='moments', X=M(X), root=M(np.linalg.cholesky(C)), slack=R(slack), slack2=R(slack2)))


def run(req):
    big = req['tier'] == 'thorough'
    out = []
    if req['property'] == 'C18':
        plan = [(density, 480 if big else 96, ()), (entropy, 128 if big else 32, ()),
                (distribution, 192 if big else 48, ()), (defaults, 12 if big else 6, ())]
    else:
        plan = [(sampling, 96 if big else 24, ()), (moments, 48 if big else 16, (20000 if big else 5000,))]
    for f, n, args in plan:
        for k in range(n):
            r = rng('laws', req['property'], req['seed'], f.__name__, k)
            record(out, dict(id='%s-%d' % (f.__name__, k), ev=[], law={}), f, k, r, *args)
    return out


main(run)
