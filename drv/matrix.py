"""C27: matrix functions, vectorisation, Hermitian parts, Toeplitz matrices."""
from fractions import Fraction
from common import *
from mestdata import randn, randpd, FIELDS
import autograd
import autograd.numpy as anp
from robuststats.utils import linalg as la
from robuststats.models import mappings as mp

FUNS = ['sqrtm', 'invsqrtm', 'logm', 'expm', 'powm']


def layout(r, a):
    """the same values in another memory layout"""
    q = r.randint(5)
    if q == 0:
        return np.asfortranarray(a)
    if q == 1:
        b = np.zeros(tuple(2*n for n in a.shape), dtype=a.dtype)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if q == 2:
        b = a.copy()
        b.flags.writeable = False
        return b
    if q == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    return a.copy()


def hermitian(r, field, p, cond, scale=1.):
    """positive definite with given condition number"""
    q = np.linalg.qr(randn(r, field, p, p))[0]
    d = np.exp(r.uniform(-.5, .5, size=p)*np.log(cond))
    if p > 1:
        d[0], d[-1] = cond**-.5, cond**.5
    a = scale*(q*d) @ q.conj().T
    return (a + a.conj().T)/2


def same(a, was):
    return bool(a.dtype == was.dtype and np.array_equal(a, was))


def apply(tr, r, f, A, ag, alpha=None):
    A = layout(r, A)
    was = A.copy()
    args = (A,) if alpha is None else (A, alpha)
    kw = {} if ag is None else dict(autograd=ag)
    B = need(tr, Call(getattr(la, f), *args, **kw), f)
    e = dict(a='fun', f=f, A=M(was), B=M(B), kin=kind(was), kout=kind(B), same=same(A, was), int=False, alpha=0,
             ralpha=R(0))
    if alpha is not None:
        e.update(int=bool(alpha == int(alpha)), alpha=int(alpha), ralpha=R(alpha))
    tr['ev'].append(e)
    return B


def functions(tr, r, q, field):
    p = q % 6 + 1 if q % 9 != 8 else [9, 14, 8, 11][q//9 % 4]
    cond = [1.5, 10., 1e3, 1e5][q % 4]
    scale = [1., 1e-6, 1e6, 30.][(q//4) % 4]
    ags = [None, False, True]
    A = hermitian(r, field, p, cond, scale)
    for j, f in enumerate(FUNS[:3]):
        apply(tr, r, f, A, ags[(q + j) % 3])
    apply(tr, r, 'expm', hermitian(r, field, p, cond, min(scale, 1.)), ags[q % 3])
    B = randn(r, field, p, p)*[1., 5.][q % 2]
    apply(tr, r, 'expm', (B + B.conj().T)/2, ags[(q + 1) % 3])
    well = hermitian(r, field, p, 30., [1., 1e-2, 50.][q % 3])
    for j, alpha in enumerate([.5, -.5, 1.7, -2.25, .125, 2, 3, -1, -2, 0, 1, 1., 2.]):
        if (j + q) % 3 == 0 or alpha in (2, -1):
            apply(tr, r, 'powm', well, ags[(q + j) % 3], alpha)
    C = (B + B.conj().T)/2 + np.diag(np.where(np.arange(p) % 2, 8., -8.))
    for alpha in [2, 3, -1]:
        apply(tr, r, 'powm', C, ags[(q + alpha) % 3], alpha)
    if q % 4 == 0:          # repeated eigenvalues, diagonal and integer matrices
        for D in [np.eye(p)*3., np.diag(np.arange(1, p + 1)), np.eye(p, dtype=int)*2, np.ones((p, p)) + np.eye(p)]:
            for f in FUNS[:3]:
                apply(tr, r, f, D, ags[q % 2])


def walk(tr, r, q, field, calls):
    p = q % 5 + 1
    A = hermitian(r, field, p, 12., [1., .2, 4.][q % 3])
    tr['ev'].append(dict(a='begin', A=M(A)))
    for j, c in enumerate(calls):
        ag = [{}, dict(autograd=True), dict(autograd=False)][(q + j) % 3]
        if c[0] == 'powm':
            x = Fraction(*c[1])
            x = int(x) if x.denominator == 1 else float(x)
            B = need(tr, Call(la.powm, A, x, **ag), 'powm')
        elif c[0] == 'explog':
            B = need(tr, Call(la.expm, need(tr, Call(la.logm, A, **ag), 'logm'), **ag), 'expm')
        else:
            B = need(tr, Call(getattr(la, c[0]), A, **ag), c[0])
        tr['ev'].append(dict(a='walk', c=c, B=M(B), kin=kind(A), kout=kind(B)))
        A = B


def gradients(tr, r, q, field):
    p = q % 3 + 2 if q % 7 != 6 else 6
    Q = np.linalg.qr(randn(r, field, p, p))[0]
    A = (Q*np.arange(1, p + 1)*(.5 + r.rand())) @ Q.conj().T
    A = (A + A.conj().T)/2
    W, E = randn(r, field, p, p), randn(r, field, p, p)
    E = (E + E.conj().T)/2
    f = FUNS[q % 5]
    alpha = [.3, -1.5, 2][q % 3]
    args = (alpha,) if f == 'powm' else ()
    g = need(tr, Call(autograd.grad(lambda X: anp.sum(anp.real(W*getattr(la, f)(X, *args, autograd=True)))), A), 'grad ' + f)
    tr['ev'].append(dict(a='grad', f=f, A=M(A), W=M(W.conj()), E=M(E), G=M(np.conj(g)), int=bool(alpha == 2),
                         alpha=2, ralpha=R(alpha), kin=kind(A), kout=kind(g)))


def stacks(tr, r, q, field):
    p, k = (q % 5 + 1, q % 4 + 1) if q % 6 != 5 else (8, 9)
    for f, shape in [('multihconj', (k, p, p)), ('multihconj', (k, p, p + 2)), ('multihconj', (p, p + 1)), ('multiherm', (k, p, p)),
                     ('multiherm', (p, p)), ('hermitian', (p, p))]:
        for ag in [None, True, False]:
            A = randn(r, field, *shape)
            if q % 5 == 4:
                A = np.round(3*A.real).astype(int)
            A = layout(r, A)
            was = A.copy()
            B = need(tr, Call(getattr(la, f), A, **({} if ag is None else dict(autograd=ag))), f)
            one = len(shape) == 2
            tr['ev'].append(dict(a='stack', f=f, A=N([was] if one else was), B=N([B] if one else B), same=same(A, was)))
    H = hermitian(r, field, p, 5.)
    G = randn(r, field, p, p)
    for A in [H, G, G + G.T, G - G.conj().T, randn(r, field, p, p + 1)]:
        e = dict(a='symmetry', A=M(A), herm=True, sym=True, square=bool(mp.iscovariance(A)))
        if A.shape[0] == A.shape[1]:
            e.update(herm=bool(need(tr, Call(mp.check_Hermitian, A), 'check_Hermitian')),
                     sym=bool(need(tr, Call(mp.check_Symmetric, A), 'check_Symmetric')))
            tr['ev'].append(e)


def vectors(tr, r, q, field):
    p = q % 6 + 1 if q % 5 != 4 else [9, 16, 12, 11][q//5 % 4]
    n = p*(p + 1)//2

    def conv(x):
        return np.round(4*x.real).astype(int) if q % 4 == 3 and field == 'real' else x

    def info(a, was, out):
        return dict(kin=kind(was), kout=kind(out), same=same(a, was))
    for shape in [(p, p), (p, p + 2), (p + 1, p)]:
        A = layout(r, conv(randn(r, field, *shape)))
        was = A.copy()
        v = need(tr, Call(la.vec, A), 'vec')
        e = dict(a='vec', A=M(was), vec=V(v), **info(A, was, v))
        if shape == (p, p):
            e['unvec'] = M(need(tr, Call(la.unvec, v), 'unvec'))
        tr['ev'].append(e)
    for herm in [True, False]:
        A = conv(randn(r, field, p, p))
        A = layout(r, A + A.conj().T if herm else A)
        was = A.copy()
        v = need(tr, Call(la.vech, A), 'vech')
        tr['ev'].append(dict(a='vech', A=M(was), vech=V(v), **info(A, was, v)))
    v = layout(r, conv(randn(r, field, p*p)))
    was = v.copy()
    A = need(tr, Call(la.unvec, v), 'unvec')
    tr['ev'].append(dict(a='unvec', v=V(was), k=p, A=M(A), back=V(need(tr, Call(la.vec, A), 'vec')), **info(v, was, A)))
    for clean in [True, False]:
        v = conv(randn(r, field, n))
        if clean:
            c = 0
            for j in range(p):
                v[c] = v[c].real
                c += p - j
        v = layout(r, v)
        was = v.copy()
        A = need(tr, Call(la.unvech, v), 'unvech')
        tr['ev'].append(dict(a='unvech', v=V(was), k=p, A=M(A), back=V(need(tr, Call(la.vech, A), 'vech')), **info(v, was, A)))
    for m in [2, 3, 5, 8, 15, 24]:
        tr['ev'].append(dict(a='refused', f='unvec', refused=not Call(la.unvec, randn(r, field, m)).ok))
    for m in [2, 4, 5, 7, 9, 14]:
        tr['ev'].append(dict(a='refused', f='unvech', refused=not Call(la.unvech, randn(r, field, m)).ok))


def toeplitz(tr, r, q):
    for j, rho in enumerate([.5, -.9, 0., 0, 1, -1, 2, .3 + .4j, -.7j, 1.1*np.exp(2j), np.float64(.25), np.complex128(.1 - .9j),
                             -3, np.float32(.5), 1., 0j]):
        p = (q + j) % 8 + 1 if (q + 3*j) % 13 else [20, 33][j % 2]
        dts = [None, complex, np.complex128] + ([] if np.iscomplexobj(rho) else [float, np.float64])
        dt = dts[(q + j) % len(dts)]
        T = need(tr, Call(la.ToeplitzMatrix, rho, p, **({} if dt is None else dict(dtype=dt))), 'ToeplitzMatrix')
        tr['ev'].append(dict(a='toeplitz', rho=Z(rho), p=p, T=M(T), dt=str(T.dtype), want=str(np.dtype(dt or complex))))


def main_(req):
    out = []
    t = req['tier'] == 'thorough'
    seed = req['seed']
    for field in FIELDS:
        for q in range(96 if t else 24):
            record(out, dict(id='fun-%s-%d' % (field, q), ev=[]), functions, rng('fun', field, q, seed), q, field)
        for q in range(30 if t else 15):
            record(out, dict(id='grad-%s-%d' % (field, q), ev=[]), gradients, rng('grad', field, q, seed), q, field)
        for q in range(40 if t else 10):
            record(out, dict(id='stack-%s-%d' % (field, q), ev=[]), stacks, rng('stack', field, q, seed), q, field)
            record(out, dict(id='vec-%s-%d' % (field, q), ev=[]), vectors, rng('vec', field, q, seed), q, field)
    for q in range(40 if t else 8):
        record(out, dict(id='toeplitz-%d' % q, ev=[]), toeplitz, rng('toeplitz', q, seed), q)
    for q, s in enumerate(req['scenarios']):
        record(out, dict(id='walk-%d' % q, ev=[]), walk, rng('walk', q, seed), q, FIELDS[q % 2], s['calls'])
    return out


main(main_)
