"""C12 C13 C14: feature containers."""
from common import *
from robuststats.estimation.base import _FeatureArray

BADNUM = 123456789          # a number that is not a multiple of 1/4


def q(x):
    y = 4*float(x)
    return int(round(y)) if abs(y) < 1e8 and abs(y - round(y)) < 1e-6 else BADNUM


def flat(a):
    return [[q(z.real), q(z.imag)] for z in np.asarray(a).ravel().astype(complex)]


SIGS = [[((2, 2), 'complex128', 'herm')],
        [((3,), 'float64', 'any')],
        [((2, 2), 'float64', 'herm'), ((3,), 'float64', 'any')],
        [((1,), 'float64', 'any'), ((2, 2), 'complex128', 'skew'), ((2, 3), 'int64', 'any')],
        [((3, 3), 'float64', 'mixed')],
        [((), 'float64', 'any'), ((3, 3), 'complex128', 'mixed')],
        [((2, 1, 2), 'complex128', 'any'), ((1, 1), 'complex64', 'any')],
        [((2, 2), 'float32', 'skew'), ((2, 2), 'complex128', 'any'), ((3, 3), 'complex128', 'herm')],
        [((2, 2), 'float64', 'zero'), ((4, 4), 'complex128', 'mixed')],
        [((1, 1), 'float64', 'herm')],
        [((2, 2), 'complex128', 'mixedskew'), ((2, 2), 'float64', 'hermskew')],
        [((3, 3), 'float64', 'mixedskew')],
        [((2,), 'complex128', 'any'), ((2,), 'complex128', 'any')],
        [((2, 2, 2), 'float64', 'any')],
        [((3, 2), 'float64', 'any'), ((2, 2), 'int64', 'herm')],
        [((2, 2), 'complex128', 'csym')],                       # symmetric, not Hermitian
        [((3, 3), 'complex128', 'cskew'), ((2, 2), 'complex64', 'csym')]]


def component(r, shape, dt, cls):
    a = r.randint(-30, 31, size=shape).astype(complex)
    if np.dtype(dt).kind == 'c':
        a = a + 1j*r.randint(-30, 31, size=shape)
    cls = {'mixed': 'any' if r.rand() < .25 else 'herm', 'mixedskew': 'any' if r.rand() < .25 else 'skew',
           'hermskew': 'herm' if r.rand() < .5 else 'skew'}.get(cls, cls)
    if cls == 'herm':
        a = a + np.conj(a.T)
    if cls == 'skew':
        a = a - np.conj(a.T)
    if cls == 'csym':
        a = a + a.T
    if cls == 'cskew':
        a = a - a.T
    if cls == 'zero' and r.rand() < .8:
        a = a*0
    if np.dtype(dt).kind != 'i':
        a = a/4
    if np.dtype(dt).kind != 'c':
        a = np.real(a)
    a = np.asarray(a).astype(dt)
    if dt in ('float64', 'complex128') and a.ndim == 2 and cls != 'any' and r.rand() < .3:
        a = a + 1e-12*r.randn(*shape)       # symmetric up to rounding
    return a


def seen(c):
    n = len(c)
    if n == 0:
        return dict(len=0, items=[], shape=[], dt=[])
    x = c.export()
    if c.nb_manifolds == 1 and not isinstance(x, list):
        x = [x]
    return dict(len=n, items=split(x, n, c), shape=[list(s) for s in c.shape], dt=[str(d) for d in c.dtype])


def split(x, n, c=None):
    """exported components as a list of items (a single item may come without batch dimension)"""
    comps = []
    for a in x:
        a = np.asarray(a)
        comps.append([a] if n == 1 else [a[i] for i in range(len(a))])
    if len(set(map(len, comps))) != 1:
        return [['ragged']]
    return [[flat(z) for z in item] for item in zip(*comps)]


def key(k, r):
    if k[0] == 'int':
        return np.int64(k[1]) if r.rand() < .3 else k[1]
    if k[0] == 'slice':
        f = lambda z: None if z == 999 else z
        return slice(f(k[1]), f(k[2]), k[3])
    if k[0] == 'list':
        return list(k[1]) if r.rand() < .5 else np.array(k[1])
    return np.array(k[1], dtype=bool) if r.rand() < .6 else [bool(b) for b in k[1]]


class World:
    def __init__(self, sig, r):
        self.sig, self.r = sig, r
        self.items = {}
        self.conts = [_FeatureArray(*[s[0] for s in sig])]
        self.passed = []            # (array handed over, private copy)

    def item(self, i):
        if i not in self.items:
            self.items[i] = [component(self.r, *s) for s in self.sig]
        return self.items[i]

    def batch(self, ids, sig=None):
        comps = []
        for j in range(len(self.sig)):
            a = np.stack([self.item(i)[j] for i in ids])
            if len(ids) == 1 and self.r.rand() < .5:
                a = np.array(a[0])
            elif self.r.rand() < .3:
                a = np.array(a, order='F')
            comps.append(a)
        return comps

    def hand(self, comps, form):
        for a in comps:
            self.passed.append((a, a.copy()))
        if len(comps) == 1 and form == 1:
            return comps[0]
        return list(comps) if form == 1 else tuple(comps)

    def bad(self, c, kind):
        """arguments an append has to reject; the first components are sound"""
        r, sig = self.r, self.sig
        n = int(r.randint(1, 4))
        good = [np.stack([component(r, *s) for _ in range(n)]) for s in sig]
        j = int(r.randint(len(sig)))
        if kind in (3, 4, 5, 6, 7, 8, 9) and r.rand() < .6:
            j = len(sig) - 1
        filled = len(self.conts[c]) > 0
        if kind == 1:
            return [None, 3, 'abc', 2.5, {'a': 1}][r.randint(5)]
        if kind == 2:
            return good + [good[0]]
        if kind == 3:
            return good[:-1] if len(good) > 1 else []
        if kind == 4:
            if good[j].ndim > 2 and r.rand() < .4 and (n > 1 or good[j].ndim > 3):
                good[j] = good[j].reshape(n, -1)
            else:
                good[j] = good[j][..., np.newaxis, np.newaxis]
            return good
        if kind == 5:
            good[j] = good[j].tolist()
            return good
        if kind == 6:
            s = list(good[j].shape)
            how = int(r.randint(4))
            if good[j].ndim == 1:
                s = [s[0], 2]
            elif how == 0 and max(s[1:]) > 1:            # could be broadcast
                s = s[:1] + [1 if r.rand() < .5 else z for z in s[1:-1]] + [1]
                if s[1:] == list(good[j].shape[1:]):
                    s[1] = 1
            elif how == 1 and s[1:] != s[:0:-1]:          # transposed
                s = s[:1] + s[:0:-1]
            elif how == 2:                                # a single item of another shape
                s = s[1:]
                s[int(r.randint(len(s)))] += 1
            else:
                s[int(r.randint(1, len(s)))] += 1
            good[j] = np.zeros(s, dtype=sig[j][1])
            return good
        if kind == 7:
            dt = [d for d in ('float64', 'complex128', 'int64', 'float32') if d != sig[j][1]][r.randint(3)]
            if not filled:
                return [None]*len(sig)
            good[j] = good[j].astype(dt)
            return good
        if kind == 8:
            if len(sig) == 1:
                return None
            good[j] = np.concatenate([good[j], good[j]])
            return good
        if kind == 9:
            good[j] = None
            return good
        if kind == 10:      # another container with other items
            o = _FeatureArray(*[(s[0] + (2,)) for s in sig])
            o.append([np.zeros((2,) + s[0] + (2,), dtype=s[1]) for s in sig])
            return o
        if kind == 11:      # one number of items short in a single item
            if len(sig) == 1:
                return good + good
            good[j] = good[j][0] if n > 1 else np.concatenate([good[j], good[j]])
            return good
        if kind == 12:
            o = _FeatureArray(*([s[0] for s in sig] + [(2,)]))
            o.append(good + [np.zeros((n, 2))])
            return o


def play(tr, calls, sig, r):
    w = World(sig, r)
    tr['sig'] = [list(s[0]) for s in sig]
    tr['dt'] = [s[1] for s in sig]
    for h in calls:
        ev = dict(a='call', h=h)
        if h[0] == 'new':
            w.conts.append(_FeatureArray(*[s[0] for s in sig]))
            c = Call(lambda: None)
        elif h[0] == 'add':
            arg = w.hand(w.batch(h[2]), h[3])
            c = Call(w.conts[h[1]-1].append, arg)
        elif h[0] == 'join':
            c = Call(w.conts[h[1]-1].append, w.conts[h[2]-1])
        elif h[0] == 'take':
            c = Call(lambda: w.conts[h[1]-1][key(h[2], r)])
            if c.ok and len(w.conts) >= 0:
                w.conts.append(c.value)
        elif h[0] == 'bad':
            arg = w.bad(h[1]-1, h[2])
            c = Call(w.conts[h[1]-1].append, arg)
        elif h[0] == 'export':
            x = w.conts[h[1]-1]
            c = Call(x.export)
            v = need(tr, c, 'export')
            if x.nb_manifolds == 1 and not isinstance(v, list):
                v = [v]
            ev['export'] = split(v, len(x))
        elif h[0] == 'vectorize':
            c = Call(w.conts[h[1]-1].vectorize)
            v = need(tr, c, 'vectorize')
            ev['rows'] = [flat(row) for row in v]
        elif h[0] == 'poke':
            for n, (a, b) in enumerate(w.passed):
                a[...] = 99
                w.passed[n] = (a, a.copy())
            c = Call(lambda: None)
        ev['outcome'] = c.outcome
        ev['args'] = all(np.array_equal(a, b) for a, b in w.passed)
        ev['seen'] = [seen(x) for x in w.conts]
        tr['ev'].append(ev)
    m = max(w.items) if w.items else 0
    tr['items'] = [[flat(z) for z in w.item(i)] for i in range(1, m+1)]


def run(req):
    out = []
    for k, sc in enumerate(req['scenarios']):
        r = rng('container', req['property'], req['seed'], k)
        sigs = SIGS if not req.get('big') else [SIGS[9], SIGS[1], SIGS[12]]
        tr = dict(id='%s-%d' % (req.get('name', 'seq'), k), prop=req['property'], ev=[], items=[], sig=[], dt=[])
        record(out, tr, play, sc['calls'], sigs[k % len(sigs)], r)
    return out


main(run)
