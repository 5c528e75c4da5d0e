"""Recording helpers shared by the drivers.  A driver runs scenarios on the
code in /repo and writes down what it observed; it decides nothing."""
import contextlib
import io
import json
import logging
import math
import signal
import sys
import warnings

warnings.simplefilter('ignore')
import numpy as np  # noqa: E402
import robuststats  # noqa: E402

assert robuststats.__file__.startswith('/repo/'), robuststats.__file__

MASK = (1 << 30) - 1


def R(x):
    """A float exactly as a tuple of limbs (see spec/Real.tla)."""
    x = float(x)
    if math.isnan(x):
        return []
    if math.isinf(x):
        return [1] if x > 0 else [-1]
    if x == 0:
        return [0]
    m, e = math.frexp(x)
    m = int(m * (1 << 53))
    e -= 53
    tz = (m & -m).bit_length() - 1
    m >>= tz
    e += tz
    s = -1 if m < 0 else 1
    a = abs(m)
    out = [e]
    while a:
        out.append(s * (a & MASK))
        a >>= 30
    return out


def Z(z):
    z = complex(z)
    return [R(z.real), R(z.imag)]


def V(v):
    return [Z(z) for z in np.asarray(v).ravel()]


def RV(v):
    return [R(z) for z in np.asarray(v).ravel()]


def M(a):
    a = np.asarray(a)
    assert a.ndim == 2, a.shape
    return [[Z(z) for z in row] for row in a]


def N(a):
    """Any array as a nested list of complex numbers (0-d: the number itself)."""
    a = np.asarray(a)
    if a.ndim == 0:
        return Z(a[()])
    return [N(b) for b in a]


def kind(a):
    """real / complex / int / bool / other"""
    a = np.asarray(a)
    return {'f': 'real', 'c': 'complex', 'i': 'int', 'u': 'int', 'b': 'bool'}.get(a.dtype.kind, 'other')


def arr(a):
    """shape, kind and values of an array"""
    a = np.asarray(a)
    return dict(shape=list(a.shape), kind=kind(a), dt=str(a.dtype), v=[Z(z) for z in a.ravel()])


class Timeout(Exception):
    pass


@contextlib.contextmanager
def watchdog(seconds):
    def handler(signum, frame):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))

    def count(self, level):
        return sum(1 for r in self.records if r[0] == level)


@contextlib.contextmanager
def logs():
    h = LogCapture()
    root = logging.getLogger()
    root.addHandler(h)
    try:
        yield h
    finally:
        root.removeHandler(h)


class Call:
    """Outcome of one call: value or exception, log records, warnings."""
    def __init__(self, f, *args, seconds=60, **kw):
        self.exc = None
        self.value = None
        with logs() as h, warnings.catch_warnings(record=True) as w, \
                contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('always')
            try:
                with watchdog(seconds):
                    self.value = f(*args, **kw)
            except Timeout:
                self.exc = 'Timeout'
            except Exception as e:      # the outcome is recorded, the specification judges it
                self.exc = type(e).__name__
                self.msg = str(e)
        self.log = h
        self.warnings = [str(x.message) for x in w]

    @property
    def ok(self):
        return self.exc is None

    @property
    def outcome(self):
        return self.exc or 'ok'


class Abort(Exception):
    """a call that has to succeed failed; recorded, and the trace ends"""


def need(tr, call, what=''):
    if not call.ok:
        tr['ev'].append(dict(a='unexpected', what=what, outcome=call.exc, msg=getattr(call, 'msg', '')[:200]))
        raise Abort()
    return call.value


def record(out, tr, f, *args):
    """runs f(tr, *args), which appends events to the trace"""
    try:
        f(tr, *args)
    except Abort:
        pass
    except Exception as e:
        # the observation has not the form the driver can write down
        import traceback
        tr['ev'].append(dict(a='unexpected', what='unrecordable', outcome=type(e).__name__,
                             msg=str(e)[:200], where=traceback.format_exc()[-400:]))
    out.append(tr)


def rng(*key):
    """independent deterministic generator for a scenario key"""
    import zlib
    return np.random.RandomState(zlib.crc32(repr(key).encode()) & 0x7fffffff)


def main(f):
    with open(sys.argv[1]) as fh:
        req = json.load(fh)
    traces = f(req)
    with open(sys.argv[2], 'w') as fh:
        json.dump(traces, fh)
