"""C16 C17: Kronecker structured estimation."""
from common import *
from mestdata import randn, randpd, dataset, layout, FAMS
from robuststats.estimation import structured as st

SIZES = [(2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (1, 1), (4, 2), (2, 1), (3, 3), (2, 6), (5, 3)]


def data(r, field, a, b, N, fam):
    A, B = randpd(r, field, a, 2), randpd(r, field, b, 2)
    X = layout(dataset(r, field, a*b, N, fam), (a + 2*b + N) % 6)
    X = X @ np.linalg.cholesky(np.kron(A, B)).T
    return X


def mm(tr, k, r):
    a, b = SIZES[k % len(SIZES)]
    field = 'real' if k % 4 == 3 else 'complex'
    N = int(r.choice([a*b + 3, 2*a*b + 5, 25]))
    if k % 11 in (1, 8):
        N = 260
    X = data(r, field, a, b, N, FAMS[k % 5])
    tr.update(a=a, b=b, X=M(X))
    f = st.estimation_cov_kronecker_MM
    kmax = 8

    def go(**kw):
        return Call(f, X, a, b, **kw)
    A, B, err, it = need(tr, go(tol=0., iter_max=0), 'start')
    tr['ev'].append(dict(a='start', A=M(A), B=M(B)))
    errs = []
    for n in range(1, kmax+1):
        A, B, err, it = need(tr, go(tol=0., iter_max=n), 'iterate')
        if err < 1e-12 or it != n and errs and min(errs) == 0:
            break
        errs.append(err)
        tr['ev'].append(dict(a='iterate', A=M(A), B=M(B), err=R(err), it=it))
    L = len(errs)
    runs = [(0., min(3, L)), (1e300, 5), (1e300, 0)]
    for j in range(0, L, 2):
        runs += [(errs[j]*1.0001, L), (errs[j]*.9999, L), (errs[j]*1.0001, max(1, j)), (errs[j]*1.0001, j+1)]
    if L:
        for tol, cap in runs:
            verb = bool(r.rand() < .2)
            A, B, err, it = need(tr, go(tol=tol, iter_max=cap, verbosity=verb), 'run')
            tr['ev'].append(dict(a='run', tol=R(tol), cap=cap, A=M(A), B=M(B), err=R(err), it=it))
    A, B, err, it = need(tr, go(tol=1e-9, iter_max=3000), 'converge')
    if it < 3000:
        tr['ev'].append(dict(a='converged', A=M(A), B=M(B)))
    if field == 'complex':
        cap = max(1, min(3, L))
        if L:
            est = st.KroneckerEllipticalMM(a, b, tol=0., iter_max=cap)
            need(tr, Call(est.fit, X), 'fit')
            tr['ev'].append(dict(a='fit', A=M(est.A_), B=M(est.B_), S=M(est.covariance_), it=cap, same=True, unit=False))
        est = st.KroneckerEllipticalMM(a, b, tol=1e-9, iter_max=3000)
        need(tr, Call(est.fit, X), 'fit')
        tr['ev'].append(dict(a='fit', A=M(est.A_), B=M(est.B_), S=M(est.covariance_), it=0, same=False, unit=False))
        tr['ev'].append(dict(a='converged', A=M(est.A_), B=M(est.B_)))
        for (u, v) in ((a+1, b), (a, b+1), (a*b, 2), (a+b, a+b+1)):
            c = Call(st.KroneckerEllipticalMM(u, v).fit, X)
            tr['ev'].append(dict(a='reject', outcome=c.outcome))


def student(tr, k, r):
    a, b = SIZES[k % len(SIZES)]
    df = float(r.choice([1, 2.5, 4, 10, 50]))
    N = int(r.choice([2*a*b + 5, 3*a*b + 10]))
    X = data(r, 'complex', a, b, N, FAMS[k % 5])
    if k % 3 != 2:
        X = X/np.linalg.norm(X)*np.sqrt(X.size)
    centred = k % 4 != 1
    if not centred:
        X = X + randn(r, 'complex', a*b)
    tr.update(a=a, b=b, X=M(X))
    init = None
    if k % 2:
        A0, B0 = randpd(r, 'complex', a, 1), randpd(r, 'complex', b, 1)
        A0 = A0/np.real(np.linalg.det(A0))**(1/a)
        init = (A0, B0)
    else:
        A0, B0 = np.eye(a), np.eye(b)
    est = st.KroneckerStudent(a, b, df, assume_centered=centred)
    need(tr, Call(est.fit, X, seconds=120, **({} if init is None else {'init': tuple(np.array(z) for z in init)})), 'fit')
    A, B = est.A_, est.B_
    tr['ev'].append(dict(a='fit', A=M(A), B=M(B), S=M(est.covariance_), it=0, same=False, unit=True))
    tr['ev'].append(dict(a='student', A=M(A), B=M(B), A0=M(A0), B0=M(B0), df=R(df), loc=V(est.location_),
                         RA=M(np.linalg.cholesky((A+A.conj().T)/2)), RB=M(np.linalg.cholesky((B+B.conj().T)/2)), slack=R(1e-3)))
    for Xt in (X, dataset(r, 'complex', a*b, 3, 'heavy')):
        s = need(tr, Call(est.score, Xt), 'score')
        tr['ev'].append(dict(a='score', S=M(est.covariance_), df=R(df), loc=V(est.location_), Xt=M(Xt), v=R(np.real(s))))
    gc = getattr(st, '_generate_cost_function_kronecker_student', None)
    gg = getattr(st, '_generate_egrad_function_kronecker_student', None)
    if gc and gg:
        for loc in (None, randn(r, 'complex', a*b)):
            c1, c2 = Call(gc, X, df, loc), Call(gg, X, a, b, df, loc)
            if c1.exc == 'TypeError' or c2.exc == 'TypeError':
                continue        # internal functions with another interface
            cost, grad = need(tr, c1, 'cost'), need(tr, c2, 'gradient')
            A, B = randpd(r, 'complex', a, 1), randpd(r, 'complex', b, 1)
            v = need(tr, Call(cost, A, B), 'cost')
            g = need(tr, Call(grad, A, B), 'gradient')
            for _ in range(2):
                DA, DB = randn(r, 'complex', a, a), randn(r, 'complex', b, b)
                DA, DB = DA + DA.conj().T, DB + DB.conj().T
                tr['ev'].append(dict(a='gradient', A=M(A), B=M(B), GA=M(g[0]), GB=M(g[1]), DA=M(DA), DB=M(DB), df=R(df),
                                     loc=V(np.zeros(a*b) if loc is None else loc), cost=R(np.real(v))))


def run(req):
    big = req['tier'] == 'thorough'
    out = []
    f = mm if req['property'] == 'C16' else student
    for k in range((110 if big else 22)):
        r = rng('kron', req['property'], req['seed'], k)
        record(out, dict(id='%s-%d' % (f.__name__, k), ev=[]), f, k, r)
    return [t for t in out if t['ev']]


main(run)
