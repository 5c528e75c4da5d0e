"""Problems (data sets and parameters) for the M-estimation drivers."""
from common import *
from scipy.stats import chi2
from robuststats.estimation import covariance as cv

FUNC = {('tyler', 'real'): cv.tyler_shape_matrix_fixedpoint,
        ('tyler', 'complex'): cv.complex_tyler_shape_matrix_fixedpoint,
        ('student', 'real'): cv.student_t_mle_fixed_point,
        ('student', 'complex'): cv.complex_student_t_mle_fixed_point,
        ('huber', 'real'): cv.huber_m_estimator_fixed_point,
        ('huber', 'complex'): cv.complex_huber_m_estimator_fixed_point}
CLS = {('tyler', 'real'): cv.TylerShapeMatrix,
       ('tyler', 'complex'): cv.ComplexTylerShapeMatrix,
       ('student', 'real'): cv.CenteredStudentMLE,
       ('student', 'complex'): cv.ComplexCenteredStudentMLE,
       ('huber', 'real'): cv.HuberMEstimator,
       ('huber', 'complex'): cv.ComplexHuberMEstimator}
ESTS = ['tyler', 'student', 'huber']
FIELDS = ['real', 'complex']
FAMS = ['gauss', 'heavy', 'corr', 'scaled', 'outlier', 'dup', 'grid']


def randn(r, field, *shape):
    x = r.randn(*shape)
    if field == 'complex':
        x = (x + 1j*r.randn(*shape))/np.sqrt(2)
    return x


def randpd(r, field, p, spread=1.):
    a = randn(r, field, p, 2*p)
    s = a @ a.conj().T/(2*p)
    d = 10.**(spread*r.uniform(-.5, .5, size=p))
    s = np.sqrt(d)[:, None]*s*np.sqrt(d)[None, :]
    return (s + s.conj().T)/2


def dataset(r, field, p, N, fam):
    x = randn(r, field, N, p)
    if fam == 'heavy':
        x = x/np.abs(randn(r, 'real', N, 1))**.8
    elif fam == 'corr':
        x = x @ np.linalg.cholesky(randpd(r, field, p, 3)).T
    elif fam == 'scaled':
        x = x*10.**r.uniform(-3, 3)
    elif fam == 'outlier':
        k = max(1, N//8)
        x[:k] = x[:k]*30
    elif fam == 'dup':                       # repeated samples
        x = np.concatenate([x, x[r.randint(0, N, size=max(1, N//4))]])[r.permutation(N + max(1, N//4))]
    elif fam == 'grid':                      # integer values, integer type when real
        x = np.rint(3*x)
        x[np.all(x == 0, axis=1)] = 1
        x[:p] += np.diag(np.arange(1, p+1)*(1 if N > p else 5))[:N]
        x[np.all(x == 0, axis=1)] = 2
        if np.linalg.matrix_rank(x) < min(N, p):
            x = x + randn(r, field, N, p)
        elif field == 'real':
            x = x.astype(int)
    return x


def layout(X, k):
    """the same values in another memory layout"""
    if k % 4 == 0:
        return np.asfortranarray(X)
    if k % 4 == 1:
        Y = np.zeros((2*len(X), X.shape[1]), X.dtype)
        Y[::2] = X
        return Y[::2]
    if k % 4 == 2:
        X = X.copy()
        X.flags.writeable = False
        return X
    return X[::-1][::-1]


class Problem:
    def __init__(self, key, est, field, p, N, fam, df=None, q=None):
        r = self.r = rng(*key)
        self.est, self.field, self.p, self.N = est, field, p, N
        self.X = layout(dataset(r, field, p, N, fam), sum(map(ord, str(key))) % 7)
        self.N = N = len(self.X)
        self.df = float(df if df is not None else r.choice([.5, 1, 2, 2.1, 3, 4.5, 7, 10, 40]))
        self.q = float(q if q is not None else r.choice([.1, .3, .5, .75, .8, .9, .95, .99]))
        k = p if field == 'real' else 2*p
        y = chi2.ppf(self.q, k)
        self.lam = y if field == 'real' else y/2
        self.beta = chi2.cdf(y, k+2) + self.lam*(1-self.q)/p

    @property
    def args(self):
        return {'tyler': {}, 'student': {'df': self.df}, 'huber': {'q': self.q}}[self.est]

    def by_function(self, X=None, init=None, **kw):
        """(S, err, it) with the function; tol, iter_max, verbosity, normalisation in kw"""
        X = self.X if X is None else X
        return Call(FUNC[self.est, self.field], X, init=init, **self.args, **kw)

    def by_class(self, X=None, init=None, **kw):
        X = self.X if X is None else X

        def f():
            e = CLS[self.est, self.field](**self.args, **kw)
            e.fit(X, init=init)
            return e.covariance_, e.err_, e.iteration_
        return Call(f)

    def go(self, via, **kw):
        return self.by_class(**kw) if via == 'class' else self.by_function(**kw)

    def describe(self):
        return dict(est=self.est, field=self.field, X=M(self.X), df=R(self.df),
                    q=R(self.q), **{'lambda': R(self.lam)}, beta=R(self.beta))


def warned(c):
    return c.log.count('WARNING') > 0
