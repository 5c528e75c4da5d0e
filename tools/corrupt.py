"""Is the specification bound to what is recorded?  Records the traces of the
quick check of a property on the current tree, corrupts one leaf of one event
at a time, and has TLC judge the corrupted traces.

    python3 tools/corrupt.py PROPERTY [how many]

prints, for every action and field, how many corruptions were rejected."""
import collections
import copy
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import checks
import harness
from fractions import Fraction

FACTOR = Fraction(257, 256)


def isnum(x):
    """a recorded real number"""
    return (isinstance(x, list) and x and all(type(i) is int for i in x)
            and (x == [0] or (len(x) > 1 and x[1] % 2 == 1 and x[-1] != 0)))


def scaled(x):
    if x == [0]:
        return [-7, 1]
    m = sum(v << (30 * i) for i, v in enumerate(x[1:]))
    m, e = m * 257, x[0] - 8
    s = -1 if m < 0 else 1
    a, out = abs(m), []
    while a % 2 == 0:
        a //= 2
        e += 1
    while a:
        out.append(s * (a & ((1 << 30) - 1)))
        a >>= 30
    return [e] + out


def leaves(x, path=()):
    if isnum(x):
        yield path
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path


def corrupt(x, path):
    if path:
        x = copy.copy(x)
        x[path[0]] = corrupt(x[path[0]], path[1:])
        return x
    if isnum(x):
        return scaled(x)
    if x is True or x is False:
        return not x
    if type(x) is int:
        return x + 1
    if isinstance(x, str):
        return 'ValueError' if x == 'ok' else 'ok' if x.endswith('Error') else None
    return None


def main(prop, many):
    chk = checks.CHECKS[prop]
    harness.build_kernel()
    rnd = random.Random(7)
    tot = collections.defaultdict(lambda: [0, 0])
    for part in chk['parts']:
        scen = None
        if 'generate' in part:
            g = part['generate']
            scen = harness.tlc(g['module'], g.get('cfg'), workers=1, args=g['args']('quick', 1)).lines
            if 'select' in g:
                scen = g['select'](scen, 'quick', random.Random(1))
        traces = harness.drive(part['driver'], dict(property=prop, tier='quick', seed=1, scenarios=scen,
                                                    **part.get('options', {})))
        groups = collections.defaultdict(list)
        for i, t in enumerate(traces):
            for j, e in enumerate(t['ev']):
                for f in e:
                    if f != 'a':
                        groups[(e['a'], f)].append((i, j))
        jobs, keys = [], []
        for g, places in sorted(groups.items()):
            for _ in range(many):
                i, j = rnd.choice(places)
                t = traces[i]
                ls = list(leaves(t['ev'][j][g[1]]))
                if not ls:
                    continue
                p = rnd.choice(ls)
                new = corrupt(t['ev'][j][g[1]], p)
                bad = t['ev'][j][g[1]]
                old = bad
                for k in p:
                    old = old[k]
                nv = new
                for k in p:
                    nv = nv[k]
                if nv is None or nv == old:
                    continue
                t2 = dict(t)
                t2['ev'] = list(t['ev'])
                t2['ev'][j] = dict(t['ev'][j])
                t2['ev'][j][g[1]] = new
                jobs.append(t2)
                keys.append(g)
        # unevaluable observations stop TLC: judge in slices so that all get a verdict
        size = 40
        for k in range(0, len(jobs), size):
            todo = list(range(k, min(k + size, len(jobs))))
            while todo:
                try:
                    rej, _ = harness.validate(part['trace'], [jobs[i] for i in todo])
                except harness.Machinery as e:
                    print('machinery', str(e)[:300])
                    break
                uneval = [i for i, b in rej.items() if b[0][1] == 'EvaluableObservation']
                for n, i in enumerate(todo):
                    if len(uneval) >= 8 and n not in rej:
                        continue
                    tot[keys[i]][0] += n in rej
                    tot[keys[i]][1] += 1
                if len(uneval) >= 8:
                    todo = [i for n, i in enumerate(todo) if n not in rej]
                else:
                    todo = []
    r = sum(v[0] for v in tot.values())
    n = sum(v[1] for v in tot.values())
    print(prop, 'rejected', r, 'of', n)
    for k, v in sorted(tot.items()):
        if v[0] < v[1]:
            print('   %s.%s: %d of %d' % (k + tuple(v)))


main(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6)
