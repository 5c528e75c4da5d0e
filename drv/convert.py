"""C01: chains of complex/real conversions on arrays of all kinds."""
from common import *
from robuststats.models import mappings

OPS = ['arraytoreal', 'arraytocomplex', 'covariancetoreal', 'covariancetocomplex',
       'covariancestoreal', 'covariancestocomplex']


def layouts(a, k):
    """the same values in different memory layouts"""
    if k == 1:
        return np.asfortranarray(a)
    if k == 2 and a.ndim:
        big = np.zeros([2*s for s in a.shape], dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 3:
        a = a.copy()
        a.setflags(write=False)
        return a
    if k == 4:
        return a[::-1]
    return a


def values(r, shape, dt, special=0):
    kindc = np.dtype(dt).kind
    if special and kindc in 'fc':
        x = values(r, shape, dt)
        flat = x.reshape(-1)
        if special == 1:                    # exceptional values
            bad = [np.inf, -np.inf, 0., -0., 1e38, 1e-30, 0., 1.]
            if kindc == 'c':
                bad = [complex(b, c) for b, c in zip(bad, bad[3:] + bad[:3])]
            for i in range(flat.size):
                if r.rand() < .4:
                    flat[i] = bad[r.randint(len(bad))]
        elif special == 2:                  # complex type, real values; symmetric values
            x = x.real.astype(dt)
            if len(shape) == 2 and shape[0] == shape[1]:
                x = x + x.T
        elif special == 3:                  # no real part
            x = (1j*x.imag if kindc == 'c' else 0*x).astype(dt)
        return x
    if kindc == 'i':
        return r.randint(-9, 9, size=shape).astype(dt)
    if kindc == 'b':
        return r.rand(*shape) > .5
    x = r.randn(*shape) * 10. ** r.randint(-3, 4, size=shape)
    if kindc == 'c':
        x = x + 1j*r.randn(*shape) * 10. ** r.randint(-3, 4, size=shape)
    return np.asarray(x).astype(dt)


def run(req):
    big = req['tier'] == 'thorough'
    out, q = [], 0
    shapes = [(1,), (2,), (3,), (4,), (5,), (6,), (7,), (1, 1), (1, 2), (2, 1), (3, 2), (2, 3), (4, 4), (3, 3), (2, 2),
              (5, 6), (6, 6), (4, 2), (2, 4), (8, 3), (1, 3), (3, 1), (1, 1, 1), (2, 1, 1), (3, 2, 2), (2, 3, 3), (1, 4, 4), (3, 4, 4),
              (2, 2, 3), (2, 3, 2), (4, 2, 4), (2, 4, 2), (2, 6, 6), (1, 2, 2, 2), (2, 2, 2, 2), ()]
    shapes += [(7, 8), (20, 3), (10, 10), (5, 5), (7, 3, 3), (9, 2, 2), (5, 4, 4), (300, 2), (1, 40), (24, 24), (12, 2, 2)]
    if big:
        shapes += [(50, 6), (31, 7), (12, 12), (15, 15), (40, 2, 2), (11, 5, 5), (3, 10, 10), (100, 1), (1, 100)]
    dts = ['complex128', 'float64', 'complex64', 'float32', 'int64', 'int32', 'bool']
    for shape in shapes:
        for dt in dts:
            for lay in range(5 if big else 3):
                if lay >= 3 and not big:
                    continue
                r = rng('convert', req['seed'], shape, dt, lay)
                layk = lay if big else (lay if lay < 2 else 2 + r.randint(3))
                if not shape and layk == 4:
                    layk = 0
                if dt == 'bool' and lay:
                    continue
                q += 1
                special = [0, 0, 1, 0, 2, 0, 3][q % 7]
                a = layouts(values(r, shape, dt, special), layk)
                held = [a]
                tr = dict(id='%s-%s-%d' % ('x'.join(map(str, shape)), dt, lay), start=[arr(a)], ev=[])
                for op in OPS:
                    step(tr, held, op, 0)
                for _ in range(6 if big else 3):
                    step(tr, held, OPS[r.randint(6)], r.randint(len(held)))
                out.append(tr)
    return out


def step(tr, held, op, src):
    c = Call(getattr(mappings, op), held[src])
    e = dict(a='convert', op=op, src=src + 1, outcome=c.outcome)
    if c.ok:
        e['out'] = arr(c.value)
    e['after'] = [arr(x) for x in held]
    if c.ok:
        held.append(c.value)
    tr['ev'].append(e)


main(run)
