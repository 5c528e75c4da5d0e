"""C20 C21 C22 C23: manifolds."""
from common import *
from mestdata import randn, randpd
from robuststats.models import manifolds as mf


def st(x):
    """a stack of matrices"""
    x = np.asarray(x)
    return [M(x)] if x.ndim == 2 else [M(a) for a in x]


def cols(x):
    x = np.asarray(x)
    assert x.ndim == 2
    return [RV(x[:, j]) for j in range(x.shape[1])]


def stacked(f, k):
    return f() if k == 1 else np.stack([f() for _ in range(k)])


def ct(a):
    return np.conj(np.swapaxes(a, -1, -2))


def herm(r, n, k, field='complex'):
    return stacked(lambda: (lambda a: (a + a.conj().T)/2)(randn(r, field, n, n)), k)


def gen(r, n, k, field='complex'):
    return stacked(lambda: randn(r, field, n, n), k)


def unit(X):
    n = X.shape[-1]
    d = np.real(np.linalg.det(X))**(1/n)
    return X/(d if X.ndim == 2 else d[:, None, None])


def tangent(r, X, special, size, field='complex'):
    """Hermitian matrices of a given size seen from X, trace-free when asked"""
    one = X.ndim == 2
    out = []
    for x in (X[None] if one else X):
        n = len(x)
        w = randn(r, field, n, n)
        w = (w + w.conj().T)/2
        if special:
            w = w - np.trace(w).real/n*np.eye(n)
        w = w/max(np.linalg.norm(w), 1e-300)*size*r.uniform(.3, 1)
        if special and n == 1:
            w = w*0
        c = np.linalg.cholesky(x)
        u = c @ w @ c.conj().T
        out.append((u + u.conj().T)/2)
    return out[0] if one else np.stack(out)


def ok(tr, f, *args):
    return need(tr, Call(f, *args), getattr(f, '__name__', ''))


def matrix(tr, r, fam, n, k, q):
    man = (mf.HermitianPositiveDefinite if fam == 'hpd' else mf.SpecialHermitianPositiveDefinite)(n, k)
    special = fam == 'shpd'
    tr['man'] = dict(fam=fam, n=n, k=k)
    ev = tr['ev'].append
    np.random.seed(int(r.randint(2**31)))
    field = 'real' if q % 5 == 4 else 'complex'
    if q % 2:
        X = ok(tr, man.rand)
    else:
        X = stacked(lambda: randpd(r, field, n, 1 + 2*r.rand())*(1 if special else 10.**r.uniform(-2, 2)), k)
        if special:
            X = unit(X)
    ev(dict(a='point', X=st(X), dim=int(man.dim)))
    for step in range(2):
        if not (special and n == 1):
            U = ok(tr, man.randvec, X)
            ev(dict(a='randvec', U=st(U), norm=R(ok(tr, man.norm, X, U)), Z=st(ok(tr, man.zerovec, X))))
        U, V = tangent(r, X, special, 2), tangent(r, X, special, 1)
        if not (special and n == 1):
            v = ok(tr, man.inner, X, U, V)
            ev(dict(a='inner', U=st(U), V=st(V), v=R(v), norm=R(ok(tr, man.norm, X, U))))
        G = gen(r, n, k, field)
        P = ok(tr, man.proj, X, G)
        ev(dict(a='proj', G=st(G), P=st(P), PP=st(ok(tr, man.proj, X, P))))
        if not (special and n == 1):
            G = gen(r, n, k, field) if (step or special and q % 2) else herm(r, n, k, field)
            ev(dict(a='grad', G=st(G), R=st(ok(tr, man.egrad2rgrad, X, G)), U=st(U)))
        if not special:
            G, H = gen(r, n, k), gen(r, n, k)
            c = Call(man.ehess2rhess, X, G, H, U)
            ev(dict(a='hess', G=st(G), H=st(H), U=st(U), R=st(need(tr, c, 'hess'))))
        Y = stacked(lambda: randpd(r, field, n, 1.5 if step == 0 or q % 3 else 5), k)
        if special:
            Y = unit(Y)
        L = ok(tr, man.log, X, Y)
        A = np.stack([randn(r, 'complex', n, n) + 2*np.eye(n) for _ in range(k)])
        A = A/(np.abs(np.linalg.det(A))**(1/n))[:, None, None]*(1 if special else 3.)
        A = A[0] if k == 1 else A
        cong = lambda Z: (lambda W: (W + ct(W))/2)(A @ Z @ ct(A))
        ev(dict(a='log', Y=st(Y), L=st(L), d=R(ok(tr, man.dist, X, Y)), drev=R(ok(tr, man.dist, Y, X)),
                dcong=R(ok(tr, man.dist, cong(X), cong(Y)))))
        D, E = tangent(r, X, special, 3), tangent(r, X, special, 1)
        if not (special and n == 1):
            ev(dict(a='transport', Y=st(Y), D=st(D), E=st(E), TD=st(ok(tr, man.transp, X, Y, D)),
                    TE=st(ok(tr, man.transp, X, Y, E))))
        for size in (1e-2, 1e-3, 3):
            U = tangent(r, X, special, size)
            ev(dict(a='retr', U=st(U), R=st(ok(tr, man.retr, X, U)), small=size < .1))
        if not (special and n == 1):
            U = tangent(r, X, special, (26 if q % 2 else 13) if not special else 10)      # long ways
            ev(dict(a='long', U=st(U), Y=st(ok(tr, man.exp, X, U))))
            U = tangent(r, X, special, 1e-9 if step else 1e-6)
            ev(dict(a='short', U=st(U), Y=st(ok(tr, man.exp, X, U)), R=st(ok(tr, man.retr, X, U)), norm=R(ok(tr, man.norm, X, U))))
        U = tangent(r, X, special, r.choice([.1, 1, 4]))
        Y = ok(tr, man.exp, X, U)
        ev(dict(a='back', U=st(U), L=st(ok(tr, man.log, X, Y))))
        ev(dict(a='exp', U=st(U), Y=st(Y)))
        X = Y


def product(tr, r, q):
    ev = tr['ev'].append
    kron = q % 2 == 1
    np.random.seed(int(r.randint(2**31)))
    if kron:
        a, b = [(2, 2), (2, 3), (3, 2), (2, 1), (3, 1), (4, 3), (2, 5)][(q//2) % 7]
        k = 1 if q % 4 == 1 else 2
        alpha = float(r.choice([.75, .9, .97, 1.])) if a*b <= 2 else float(r.choice([.9, .97, 1.]))
        alpha = max(alpha, (a*b + .5)/(a*b + 1.5))
        man = mf.KroneckerHermitianPositiveElliptical(a, b, alpha, k)
        comps = [('shpd', a, k), ('hpd', b, k)]
        w = [alpha*b, alpha*a]
        parts = [mf.SpecialHermitianPositiveDefinite(a, k), mf.HermitianPositiveDefinite(b, k)]
    else:
        alpha = 1.
        nc = 1 + int(r.randint(3)) if q % 10 != 8 else 5
        comps = [(str(r.choice(['hpd', 'shpd', 'spv'])), int(r.randint(2, 4)), int(r.choice([1, 1, 2]))) for _ in range(nc)]
        comps = [(t, n, 1 if t == 'spv' else k) for t, n, k in comps]
        parts = [{'hpd': mf.HermitianPositiveDefinite, 'shpd': mf.SpecialHermitianPositiveDefinite,
                  'spv': mf.StrictlyPositiveVectors}[t](n, k) for t, n, k in comps]
        w = [float(z) for z in np.round(10.**r.uniform(-1, 1, size=nc), 3)*10.**(r.randint(-4, 5) if q % 12 == 0 else 0)]
        if q % 6 == 4:
            man, w = mf.WeightedProduct(parts), [1.]*nc
        elif q % 6 == 2:
            w = [float(j + 2) for j in range(nc)]       # integer-like weights
            man = mf.WeightedProduct(parts, [j + 2 for j in range(nc)])
        else:
            man = mf.WeightedProduct(parts, np.array(w) if q % 4 else w)
    nc = len(comps)
    tr['man'] = dict(fam='kron' if kron else 'prod', alpha=R(alpha), w=[R(z) for z in w],
                     comps=[dict(t=t, n=n, k=k) for t, n, k in comps], n=0, k=0)

    def pst(c, x):
        return st(np.diagflat(np.asarray(x))) if comps[c][0] == 'spv' else st(x)

    def P(xs):
        xs = list(xs)
        assert len(xs) == nc
        return [pst(c, x) for c, x in enumerate(xs)]

    def tang(c, X, size):
        t, n, k = comps[c]
        if t == 'spv':
            return X*r.randn(n, 1)*size/np.sqrt(n)
        return tangent(r, X, t == 'shpd', size)

    def amb(c):
        t, n, k = comps[c]
        return r.randn(n, 1) if t == 'spv' else gen(r, n, k)
    X = list(ok(tr, man.rand))
    ev(dict(a='ppoint', X=P(X), dim=int(man.dim)))
    for step in range(2):
        U, V = [tang(c, X[c], 2) for c in range(nc)], [tang(c, X[c], 1) for c in range(nc)]
        ev(dict(a='pinner', U=P(U), V=P(V), v=R(ok(tr, man.inner, X, U, V)), norm=R(ok(tr, man.norm, X, U))))
        ev(dict(a='prandvec', U=P(ok(tr, man.randvec, X))))
        G = [amb(c) for c in range(nc)]
        Rg = ok(tr, man.egrad2rgrad, X, G)
        ev(dict(a='pgrad', G=P(G), R=P(Rg), U=P(U)))
        Y = [parts[c].exp(X[c], U[c]) for c in range(nc)]
        if not kron:
            ev(dict(a='pdist', U=P(U), Y=P(Y), v=R(ok(tr, man.dist, X, Y)), vrev=R(ok(tr, man.dist, Y, X))))
        for op, args in (('exp', (X, U)), ('retr', (X, U)), ('log', (X, Y)), ('proj', (X, G)), ('transp', (X, Y, U)),
                         ('zerovec', (X,))):
            whole = ok(tr, getattr(man, op), *args)
            part = [getattr(parts[c], op)(*[z[c] for z in args]) for c in range(nc)]
            ev(dict(a='parts', op=op, whole=P(whole), parts=P(part)))
        if not kron and all(t != 'shpd' for t, _, _ in comps):
            H = [amb(c) for c in range(nc)]
            whole = ok(tr, man.ehess2rhess, X, G, H, U)
            part = [parts[c].ehess2rhess(X[c], G[c], H[c], U[c])/w[c] for c in range(nc)]
            ev(dict(a='parts', op='ehess2rhess', whole=P(whole), parts=P(part)))
        X = list(Y)
        ev(dict(a='ppoint', X=P(X), dim=int(man.dim)))


def positive(tr, r, n, k, q):
    man = mf.StrictlyPositiveVectors(n, k)
    tr['man'] = dict(fam='spv', n=n, k=k)
    ev = tr['ev'].append
    np.random.seed(int(r.randint(2**31)))
    x = ok(tr, man.rand) if q % 2 else 10.**r.uniform(-3, 3, size=(n, k))
    ev(dict(a='vpoint', x=cols(x), dim=int(man.dim)))
    for step in range(3):
        u = ok(tr, man.randvec, x)
        ev(dict(a='vrandvec', u=cols(u), z=cols(ok(tr, man.zerovec, x))))
        u, v = x*r.randn(n, k)*2, x*r.randn(n, k)
        s = np.asarray(ok(tr, man.inner, x, u, v))
        ev(dict(a='vinner', u=cols(u), v=cols(v), s=RV(s), norm=RV(ok(tr, man.norm, x, u)), proj=cols(ok(tr, man.proj, x, u))))
        y = 10.**r.uniform(-3, 3, size=(n, k))
        ev(dict(a='vlog', y=cols(y), l=cols(ok(tr, man.log, x, y)), d=RV(ok(tr, man.dist, x, y)),
                drev=RV(ok(tr, man.dist, y, x))))
        ev(dict(a='vretr', u=cols(u), r=cols(ok(tr, man.retr, x, u))))
        g, h = r.randn(n, k), r.randn(n, k)
        ev(dict(a='vgrad', g=cols(g), h=cols(h), u=cols(u), r=cols(ok(tr, man.egrad2rgrad, x, g)),
                hess=cols(ok(tr, man.ehess2rhess, x, g, h, u))))
        ev(dict(a='vtransport', y=cols(y), d=cols(u), t=cols(ok(tr, man.transp, x, y, u))))
        y = ok(tr, man.exp, x, u)
        ev(dict(a='vexp', u=cols(u), y=cols(y), l=cols(ok(tr, man.log, x, y))))
        x = y


def run(req):
    big = req['tier'] == 'thorough'
    p, s, out = req['property'], req['seed'], []
    if p in ('C20', 'C21'):
        q = 0
        for rep in range(8 if big else 2):
            for n in (2, 3, 1, 4):
                for k in (1, 2, 3):
                    q += 1
                    fam = 'hpd' if p == 'C20' else 'shpd'
                    record(out, dict(id='%s-n%d-k%d-%d' % (fam, n, k, rep), ev=[]), matrix, rng('geo', p, s, n, k, rep), fam, n, k, q + rep)
        for n, k in [(6, 1), (2, 7), (5, 2)] + ([(9, 1), (12, 1), (3, 20), (6, 6), (7, 4)] if big else []):
            q += 1
            record(out, dict(id='%s-n%d-k%d' % (fam, n, k), ev=[]), matrix, rng('geo', p, s, n, k), fam, n, k, q)
    elif p == 'C22':
        for q in range(160 if big else 40):
            record(out, dict(id='product-%d' % q, ev=[]), product, rng('geo', p, s, q), q)
    else:
        q = 0
        for rep in range(24 if big else 5):
            for n in (1, 2, 3, 5, 9):
                for k in (1, 2, 4, 7):
                    q += 1
                    record(out, dict(id='spv-n%d-k%d-%d' % (n, k, rep), ev=[]), positive, rng('geo', p, s, n, k, rep), n, k, q + rep)
    return out


main(run)
