"""C26: replays generated behaviours of Seed.tla on temp_seed."""
import hashlib
import random
from common import *
from scipy import stats
from robuststats.utils.montecarlo import temp_seed
from robuststats.models.probability import complex_multivariate_normal, complex_multivariate_t as multivariate_t


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        h.update(str((a.shape, a.dtype)).encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


def state():
    name, key, at, has, cached = np.random.get_state()
    return digest(np.array([ord(c) for c in name]), key, at, has, cached if has else 0.)


class Sudden(BaseException):
    pass


EXC = [ValueError, KeyboardInterrupt, StopIteration, GeneratorExit, Sudden, SystemExit, ArithmeticError,
       RuntimeError, AssertionError, StopAsyncIteration]


def shuffled():
    x = np.arange(7)
    np.random.shuffle(x)
    return x


def draws(q):
    lib = [lambda: complex_multivariate_normal.rvs(np.zeros(2), np.eye(2), size=2),
           lambda: multivariate_t.rvs(np.zeros(2), np.eye(2), df=3, size=2),
           lambda: stats.norm.rvs(size=3)]
    return {1: lambda: np.random.randn(),            # leaves a second normal number in the state
            2: lambda: np.random.rand(3),
            3: lambda: np.random.randint(1000, size=2),
            4: [lambda: np.random.permutation(5), shuffled][q % 2],
            5: lib[q % 3],
            6: [lambda: np.random.standard_gamma(2.5), lambda: np.random.choice(10, 3)][q % 2],
            7: [lambda: np.random.bytes(700)[-8:], lambda: np.random.rand(640)][q % 2]}


def seeds(q):
    return {1: 1, 2: [0, 77][q % 2], 3: 2**32 - 1, 4: [1, 2, 3], 5: np.int64(5), 6: None}


def value(x):
    return digest(np.frombuffer(x, dtype=np.uint8) if isinstance(x, bytes) else x)


def replay(tr, calls, q):
    kinds, sd = draws(q), seeds(q)
    ev = tr['ev']
    np.random.seed(sd[1])
    tr['start'] = state()
    queue = list(calls)
    raising = []

    def note(c, v='', raised=False):
        ev.append(dict(a='step', c=c, state=state(), v=v, raised=raised))

    def body(depth):
        """calls up to the end of the block at this depth"""
        while queue:
            c = queue.pop(0)
            if c[0] == 'draw':
                note(c, value(kinds[c[1]]()))
            elif c[0] == 'reseed':
                np.random.seed(sd[c[1]])
                note(c)
            elif c[0] == 'enter':
                inner(c, depth)
            elif c[0] == 'leave':
                return c
            else:
                e = EXC[(len(queue) + q) % len(EXC)]()
                raising.append((c, e))
                raise e
        return None

    def block(c, depth):
        with temp_seed(sd[c[1]]):
            note(c)
            return body(depth + 1)

    def inner(c, depth):
        try:
            closing = block(c, depth)
            if closing:
                note(closing)
        except BaseException as e:
            if not raising:
                raise
            call, was = raising[-1]
            if call[1] < depth:
                raise
            raising.pop()
            note(call, raised=e is was)
        else:
            if raising:                      # the exception got lost on the way
                note(raising.pop()[0])

    body(0)


def main_(req):
    out = []
    for q, s in enumerate(req['scenarios']):
        kinds, sd = draws(q), seeds(q)
        ref = {}
        for seed, ops in [(p[0], tuple(p[1])) for p in s['at']]:
            if seed == 6 or (seed, ops) in ref:
                continue
            np.random.seed(sd[seed])
            v = ''
            for k in ops:
                v = value(kinds[k]())
            ref[seed, ops] = dict(seed=seed, ops=list(ops), state=state(), last=v)
        tr = dict(id='seed-%d' % q, ev=[], ref=list(ref.values()), start='')
        record(out, tr, replay, s['calls'], q)
    return out


main(main_)
