"""C28: replays generated sequences of generator calls on one random stream."""
from common import *
from mestdata import randn, randpd
from robuststats.utils import generation_data as gd

NAME = {('std', 0): gd.sample_standard_normal_distribution, ('std', 1): gd.sample_complex_standard_normal_distribution,
        ('normal', 0): gd.sample_normal_distribution, ('normal', 1): gd.sample_complex_normal_distribution,
        ('compound', 0): gd.sample_compound_distribution, ('compound', 1): gd.sample_complex_compound_distribution,
        ('lowrank', 0): gd.sample_tau_UUH_distribution, ('lowrank', 1): gd.sample_complex_tau_UUH_distribution,
        ('cov', 0): gd.generate_covariance, ('cov', 1): gd.generate_complex_covariance,
        ('frame', 0): gd.generate_stiefel, ('frame', 1): gd.generate_complex_stiefel}


def state():
    s = np.random.get_state()
    return s[1].tobytes() + bytes(str((s[2], s[3], s[4] if s[3] else 0)), 'ascii')


def texture(r, n, form):
    t = r.gamma(.8, 1/.8, size=(n, 1))
    if n > 2:
        t[1] = 0.
    if form == 2:
        return t[:, 0]
    if form == 3:
        return r.randint(0, 5, size=(n, 1))
    return t


def given(r, c, wrong=False):
    """arguments of a sampling call"""
    field = 'complex' if c['complex'] != wrong else 'real'
    p, n, k = c['p'], c['n'], c['k']
    if c['f'] == 'std':
        return (p, n), {}
    if c['f'] == 'normal':
        S = randpd(r, field, p, 2)*10.**r.uniform(-2, 2)
        return (n, S), dict(S=M(S))
    if c['f'] == 'compound':
        S = randpd(r, field, p, 2)
        t = texture(r, n, k)
        return (t, S), dict(S=M(S), t=RV(t))
    U = randn(r, field, p, k)
    if r.rand() < .7:
        U = np.linalg.qr(U)[0]
    t = texture(r, n, r.randint(3) + 1)
    return (t, U), dict(U=M(U), t=RV(t))


def standard(c, *shapes):
    """standard draws from the current stream, which is put back"""
    s = np.random.get_state()
    f = NAME['std', c['complex']]
    out = [M(f(*sh)) for sh in shapes]
    np.random.set_state(s)
    return out


def sequence(tr, r, calls, seed):
    np.random.seed(seed)
    for what, c in calls:
        f = NAME.get((c['f'], c['complex']))
        before = state()
        p, n, k = c['p'], c['n'], c['k']
        if what == 'refused':
            args, _ = given(r, c, wrong=True)
            if c['f'] == 'normal' and n == 1:          # other types of numbers
                args = (args[0], np.eye(p, dtype=[np.float32, np.complex64][c['complex']]))
            elif c['f'] == 'normal' and n == 2 and not c['complex']:
                args = (args[0], np.eye(p, dtype=int))
            tr['ev'].append(dict(a='refused', c=c, refused=not Call(f, *args).ok))
        elif c['f'] in ('std', 'normal', 'compound', 'lowrank'):
            args, info = given(r, c)
            if c['f'] == 'lowrank':
                info.update(Z=standard(c, (k, n), (p, n)), Y=standard(c, (p, n), (k, n)))
            else:
                info.update(Z=standard(c, (p, n)))
            was = [np.array(a) for a in args]
            X = need(tr, Call(f, *args), f.__name__)
            tr['ev'].append(dict(a='sample', c=c, X=M(X), kind=kind(X), fresh=state() != before,
                                 same=all(np.array_equal(a, b) for a, b in zip(args, was)), **info))
        elif c['f'] == 'cov':
            X = need(tr, Call(f, p, unit_det=True) if k else Call(f, p), f.__name__)
            tr['ev'].append(dict(a='cov', c=c, X=M(X), kind=kind(X), fresh=state() != before))
        elif c['f'] == 'frame':
            X = need(tr, Call(f, p, k), f.__name__)
            tr['ev'].append(dict(a='frame', c=c, X=M(X), kind=kind(X), fresh=state() != before))
        else:
            g, kw = {'gamma': (gd.generate_textures_gamma_dist, dict(nu=2.)),
                     'lognormal': (gd.generate_textures_lognormal_dist, dict(variance=.5))}[c['f']]
            X = need(tr, Call(g, n, **(kw if k == 2 else {})), g.__name__)
            tr['ev'].append(dict(a='texture', c=c, X=M(X), kind=kind(X), fresh=state() != before))


def moments(tr, r, q, N):
    cx = q % 2
    p = q % 3 + 1
    np.random.seed(100 + q)
    X = need(tr, Call(NAME['std', cx], p, N), 'standard')
    tr['ev'].append(dict(a='moments', X=M(X), complex=bool(cx), slack=R(6/np.sqrt(N))))


def textures(tr, r, q, N):
    np.random.seed(200 + q)
    nu = [.1, .5, 1., 4.][q % 4]
    t = need(tr, Call(gd.generate_textures_gamma_dist, N, *([] if q % 4 == 0 else [nu])), 'gamma')
    k4 = 6/nu                                    # excess kurtosis of a gamma law of shape nu
    tr['ev'].append(dict(a='texturemean', mean=R(np.mean(t)), slack=R(6/np.sqrt(nu*N)), var=R(np.var(t)), want=R(1/nu),
                         slack2=R(10*np.sqrt((2 + k4)/N))))
    v = [.1, .5, 1., .3][q % 4]
    t = need(tr, Call(gd.generate_textures_lognormal_dist, N, variance=v), 'lognormal')
    tr['ev'].append(dict(a='texturemean', mean=R(np.mean(t)), slack=R(6*np.sqrt(np.expm1(v)/N))))


def main_(req):
    out = []
    t = req['tier'] == 'thorough'
    for q, s in enumerate(req['scenarios']):
        record(out, dict(id='sequence-%d' % q, ev=[]), sequence, rng('gen', q, req['seed']), s['calls'], q*7919 + req['seed'])
    for q in range(12 if t else 6):
        record(out, dict(id='moments-%d' % q, ev=[]), moments, None, q, 16000 if t else 8000)
    for q in range(8 if t else 4):
        record(out, dict(id='textures-%d' % q, ev=[]), textures, None, q, 200000)
    return out


main(main_)
