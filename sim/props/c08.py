"""C08: the random generator is scripted.  Each simulation is run with no noise, with each single draw set to one, and with seeded
draws, so that the linear map from draws to series is known exactly; its covariance is compared with that of the model."""
import copy
import sys
import numpy as np
from .. import boot
boot.boot()
import wafo.spectrum.core as wsc
import wafo.covariance.core as wcc
import wafo.transform.models as tm
from .. import gen, world

PROP, LEVEL = 'C08', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 2
RULE = ('A run fixes a model (covariance function or spectrum, with or without transformation), a length, number of cases, sampling step, method, '
        'and the missing points of a series, and runs the simulation once per random draw and once per seeded vector of draws.  Non-trivial: the '
        'linear map was obtained; distinct by the settings of the run.')
ASSUMPTIONS = ['the library draws its normal numbers through the functions of numpy.random (otherwise the run is not judged)',
               'where the circulant embedding of a covariance function is not positive, only the error it must make is allowed']
N = dict(quick=240, thorough=400)


# ---- the generator seam -----------------------------------------------------------------------------------
class Script(object):
    """delivers the scripted normal numbers"""

    def __init__(self):
        self.z, self.used, self.foreign = None, 0, False

    def take(self, n):
        k = self.used
        self.used += n
        out = np.zeros(n)
        if self.z is not None:
            part = self.z[k:k + n]
            out[:len(part)] = part
        return out

    def randn(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        z = self.take(n)
        return z.reshape(shape) if shape else float(z[0])

    def standard_normal(self, size=None):
        if size is None:
            return float(self.take(1)[0])
        return self.randn(*np.atleast_1d(size).tolist())

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            return loc + scale * (self.randn(*size) if size else float(self.take(1)[0]))
        return loc + scale * self.standard_normal(size)

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8):
        mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
        w, v = np.linalg.eigh((cov + cov.T) / 2)
        root = v * np.sqrt(np.maximum(w, 0))
        shape = () if size is None else tuple(np.atleast_1d(size).tolist())
        z = self.randn(*(shape + (len(mean),)))
        return mean + z @ root.T

    def other(self, *args, **kwds):
        self.foreign = True
        return np.random.RandomState(0).uniform(size=kwds.get('size'))


script = Script()
NORMAL = ('randn', 'standard_normal', 'normal', 'multivariate_normal')
OTHER = ('rand', 'random', 'random_sample', 'uniform', 'rayleigh', 'gamma', 'exponential', 'permutation')


def install():
    """every name in the library that stands for a function of numpy.random now stands for the script"""
    table = {}
    for n in NORMAL:
        table[id(getattr(np.random, n))] = getattr(script, n)
    for n in OTHER:
        table[id(getattr(np.random, n))] = script.other
    for name, m in sorted(sys.modules.items()):
        if m is not None and (name == 'wafo' or name.startswith('wafo.')):
            for k, v in list(vars(m).items()):
                if id(v) in table:
                    setattr(m, k, table[id(v)])
    for n in NORMAL:
        setattr(np.random, n, getattr(script, n))
    for n in OTHER:
        setattr(np.random, n, script.other)


class Foreign(Exception):
    pass


class TooMany(Exception):
    pass


MAXDRAWS = 1200


def run(fn, z):
    script.z, script.used = z, 0
    out = fn()
    if script.foreign:
        raise Foreign()
    return out


def linear_map(fn, r):
    """(offset, matrix, number of draws) of flat(fn) as a function of the draws; Foreign when it is not driven by the script"""
    zero = run(fn, None)
    d = script.used
    if d == 0:
        raise Foreign()
    if d > MAXDRAWS:
        raise TooMany()
    base = np.hstack([np.ravel(x) for x in zero])
    cols = []
    e = np.zeros(d)
    for k in range(d):
        e[k] = 1.0
        cols.append(np.hstack([np.ravel(x) for x in run(fn, e)]) - base)
        e[k] = 0.0
    M = np.array(cols).T
    gap = 0.0
    for _ in range(2):
        z = np.array([r.gauss(0, 1) for _ in range(d)])
        x = np.hstack([np.ravel(y) for y in run(fn, z)])
        gap = max(gap, np.abs(x - base - M @ z).max() / (1e-12 + np.abs(x).max()))
    return base, M, d, gap


# ---- models -----------------------------------------------------------------------------------------------
def acf_of(kind, n, dt):
    t = np.arange(n) * dt
    if kind == 'exp':
        return 1.3 * np.exp(-1.1 * t)
    if kind == 'gauss':
        return 0.8 * np.exp(-(t / (2.2 * dt)) ** 2 / 2)
    if kind == 'tri':
        return 2.0 * np.maximum(0, 1 - t / (4.5 * dt))
    if kind == 'trizero':                                           # reaches zero at its last lag
        return 2.0 * np.maximum(0, 1 - t / ((n - 1) * dt))
    if kind == 'cos':
        return 1.5 * np.exp(-0.5 * t) * np.cos(1.7 * t)
    # moving averages: compact support, well away from zero inside it
    b = {'ma2': [1, .8, .6], 'ma3': [1, .9, .7, .5], 'ma4': [1., .3, .8, .4, .6]}[kind]
    r = np.correlate(b, b, 'full')[len(b) - 1:]
    out = np.zeros(n)
    out[:min(n, len(r))] = r[:n]
    return out


ACFS = ['exp', 'gauss', 'tri', 'trizero', 'cos', 'ma2', 'ma3', 'ma4']


def spec_of(kind, n, ftype):
    w = np.linspace(0, 3.0, n)
    if kind == 'peak':
        s = np.exp(-(w - 1.2) ** 2 / .18)
    elif kind == 'two':
        s = np.exp(-(w - .7) ** 2 / .05) + .4 * np.exp(-(w - 1.9) ** 2 / .1)
    else:
        s = np.where((w > .3) & (w < 2.4), 1.0 + .2 * w, 0.0)
    if ftype == 'f':
        return wsc.SpecData1D(s * 2 * np.pi, w / 2 / np.pi, freqtype='f')
    return wsc.SpecData1D(s, w)


TR = [None, None, None, dict(sigma=1.3, mean=0.2), dict(sigma=0.7)]


def transform(k):
    return None if TR[k] is None else tm.TrLinear(**TR[k])


def toep(r, ns):
    v = np.zeros(ns)
    v[:min(ns, len(r))] = r[:ns]
    i = np.arange(ns)
    return v[np.abs(i[:, None] - i[None, :])]


def setup(refs):
    pass


def reference(key):
    raise NotImplementedError


def needed(prog):
    return []


def programs(seed, rnd, tier):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for(seed, PROP, rnd * 100000 + i)
        what = ('acf', 'cond', 'random', 'cond', 'exact', 'acf', 'random', 'cond', 'nl', 'cond')[i % 10]
        p = dict(what=what, seed=r.randrange(10 ** 6), fill=r.choice(gen.FILLS), fault=r.random() if r.random() < 0.3 else None)
        if what == 'acf':
            p.update(acf=r.choice(ACFS), n=r.choice((9, 12, 17, 24)), dt=r.choice((0.5, 1.0, 0.25)), ns=r.choice((5, 8, 13, 20)), cases=r.choice((1, 2, 3, 4)),
                     derivative=r.random() < 0.4, tr=r.randrange(len(TR)))
        elif what in ('random', 'exact', 'nl'):
            p.update(spec=r.choice(('peak', 'two', 'flat')), n=r.choice((9, 17, 33)), ftype=r.choice('wwf'), dt=r.choice((None, None, 0.7, 1.3)), ns=r.choice((8, 11, 16, 22)),
                     cases=r.choice((1, 2, 3)), derivative=what != 'nl' and r.random() < 0.4, tr=r.randrange(len(TR)) if what != 'nl' else 0)
            if what == 'nl':
                p.update(ns=r.choice((32, 48)), cases=r.choice((1, 2)), h=r.choice((20., 50.)))
        else:
            method = r.choice(('exact', 'exact', 'approx', 'approx'))
            m = r.choice((12, 20, 30)) if method == 'exact' else r.choice((12, 25, 30, 45, 60))
            k = r.choice((1, 2, 4)) if method == 'exact' else r.choice((1, 2, 3, 4, 6))
            unknown = sorted(r.sample(range(m), k))
            if r.random() < 0.3:
                a = r.randrange(m - k)
                unknown = list(range(a, a + k))
            p.update(acf=r.choice(('ma2', 'ma3', 'ma4', 'tri')), n=r.choice((8, 12)), m=m, unknown=unknown, method=method, nan=r.random() < 0.5)
        out.append(p)
    return out


def maybe_fail(p, fn):
    """the same call made before with memory running out: it must leave nothing behind"""
    if p['fault'] is None:
        return 0
    boot.af.arm(0, False)
    try:
        run(fn, None)
    except Foreign:
        raise
    except Exception:                                               # noqa
        pass
    total = boot.af.disarm()[0]
    if total <= 0:
        return 0
    if p['fault'] < 1:
        p['fault'] = 1 + int(p['fault'] * total)
    boot.af.arm(int(p['fault']), False)
    try:
        run(fn, None)
    except Foreign:
        raise
    except Exception:                                               # noqa
        pass
    return boot.af.disarm()[1]


_installed = []


def execute(prog):
    p = copy.deepcopy(prog)
    boot.af.set_fill(p['fill'])
    world.prevail(None)
    np.random.seed(1)
    install()
    sys.stdout = open('/dev/null', 'w')
    stats = {}
    vs = []

    def bad(kind, what):
        vs.append(dict(property=PROP, kind=kind, where=p['what'], step=0, what=what))
    try:
        fired = dict(acf=do_acf, random=do_spec, exact=do_spec, nl=do_nl, cond=do_cond)[p['what']](p, bad, stats)
        if p['fault'] is not None:
            stats['fault:mem:fired' if fired else 'fault:mem:armed, call ended first'] = 1
    except Foreign:
        return dict(violations=[], stats={'not driven by the scripted generator (not judged)': 1}, log=[], prog=p)
    except TooMany:
        return dict(violations=[], stats={'too many draws (not judged)': 1}, log=[], prog=p)
    finally:
        sys.stdout = sys.__stdout__
    stats['runs of ' + p['what']] = 1
    key = sorted((k, str(v)) for k, v in p.items() if k not in ('seed', 'fill', 'fault'))
    return dict(violations=vs, stats=stats, log=[(str(key),)], prog=p)


import random as _pyrandom


def parts(out, derivative):
    return list(out) if derivative else [out]


def common(p, bad, stats, fn, ns, dt, cov, dcov, xcov, tol, label, obj=None):
    """fn() -> [x] or [x, xder] of the untransformed model; compares with the covariances given"""
    r = _pyrandom.Random(p['seed'])
    der = p.get('derivative', False)
    try:
        base, M, d, gap = linear_map(fn, r)
    except (Foreign, TooMany):
        raise
    except Exception as e:                                          # noqa
        return bad('error', '%s raised %s: %.80s' % (label, type(e).__name__, e))
    stats['draws'] = stats.get('draws', 0) + d
    x0 = run(fn, None)
    c = p['cases']
    for part in x0:
        if part.shape != (ns, c + 1):
            return bad('shape', '%s returned shape %s for %d points and %d cases' % (label, part.shape, ns, c))
        if not np.allclose(part[:, 0], np.arange(ns) * dt, rtol=1e-9, atol=1e-9):
            return bad('times', '%s: the time points are not multiples of %g' % (label, dt))
        if np.abs(part[:, 1:]).max() > 1e-9:
            return bad('offset', '%s: without noise the series is not zero' % label)
    if gap > 1e-8:
        return bad('nonlinear', '%s: the series is not a linear function of the draws (off by %.2g)' % (label, gap))
    M = M.reshape(len(x0), ns, c + 1, d)
    s0 = max(cov[0, 0], 1e-12)
    for a in range(c):
        A = M[0][:, a + 1, :]
        e = np.abs(A @ A.T - cov).max()
        if e > tol[0] + 1e-7 * s0:
            k = np.unravel_index(np.abs(A @ A.T - cov).argmax(), cov.shape)
            return bad('covariance', '%s case %d: covariance of points %s is %.6g, the model has %.6g' % (label, a, tuple(map(int, k)), (A @ A.T)[k], cov[k]))
        for b in range(a):
            B = M[0][:, b + 1, :]
            if np.abs(A @ B.T).max() > tol[0] + 1e-7 * s0:
                return bad('cases', '%s: cases %d and %d are correlated' % (label, a, b))
        if der:
            D = M[1][:, a + 1, :]
            s2 = max(dcov[0, 0], 1e-12)
            if np.abs(D @ D.T - dcov).max() > tol[1] + 1e-6 * s2:
                return bad('derivative', '%s case %d: the derivative has variance %.6g, the model %.6g' % (label, a, (D @ D.T)[0, 0], dcov[0, 0]))
            if np.abs(A @ D.T - xcov).max() > tol[2] + 1e-6 * np.sqrt(s0 * s2):
                return bad('derivative', '%s case %d: the derivative is not that of the same series' % (label, a))
    return None


def transformed(p, bad, label, plain, with_tr, tr):
    """the transformed simulation is the transformation of the plain one with the same draws"""
    r = _pyrandom.Random(p['seed'] + 1)
    run(plain, None)
    z = np.array([r.gauss(0, 1) for _ in range(script.used)])
    x = run(plain, z)
    y = run(with_tr, z)
    for k in range(1, x[0].shape[1]):
        want = tr.gauss2dat(x[0][:, k]) if len(x) == 1 else tr.gauss2dat(x[0][:, k], x[1][:, k])
        want = [want] if len(x) == 1 else list(want)
        for a, b in zip(want, y):
            if not np.allclose(a, b[:, k], rtol=1e-8, atol=1e-10):
                return bad('transformed', '%s: case %d of the transformed series is not the transformation of the Gaussian one' % (label, k - 1))


def do_acf(p, bad, stats):
    n, dt, ns = p['n'], p['dt'], p['ns']
    r = acf_of(p['acf'], n, dt)
    label = 'CovData1D.sim(%s, n=%d, ns=%d, cases=%d)' % (p['acf'], n, ns, p['cases'])

    def make(tr):
        return wcc.CovData1D(r.copy(), np.arange(n) * dt, tr=tr)

    def call(obj):
        return lambda: parts(obj.sim(ns=ns, cases=p['cases'], iseed=3, derivative=p['derivative']), p['derivative'])
    obj = make(None)
    fn = call(obj)
    fired = maybe_fail(p, fn)
    cov, dcov, xcov, tol = embedded(r, n, ns, dt)
    if tol is None:
        stats['embedding not positive (not judged)'] = 1
        return fired
    common(p, bad, stats, fn, ns, dt, cov, dcov, xcov, tol, label)
    if not np.array_equal(np.ravel(obj.data), r):
        bad('model', label + ' changed the covariance function')
    tr = transform(p['tr'])
    if tr is not None:
        transformed(p, bad, label, fn, call(make(tr)), tr)
    return fired


def embedded(r, n, ns, dt):
    """covariances of the series simulated from the covariance function r, with the errors the embedding must make"""
    m2 = 2 * n - 1 if abs(r[-1]) > np.finfo(float).eps else 2 * n - 2
    size = 2 ** int(np.ceil(np.log2(max(m2, 2 * ns))))
    circ = np.zeros(size)
    circ[:n] = r
    tail = r[1:] if m2 == 2 * n - 1 else r[1:n - 1]
    circ[size - len(tail):] = tail[::-1]
    lam = np.fft.fft(circ).real
    lost = np.where((lam < 0) | (lam < 1e-5 * lam.max()), np.abs(lam), 0)
    neg = np.flatnonzero(lam < 1e-9 * lam.max())                     # rounding decides whether these are negative
    neg = neg[neg > 2 * lam.argmax()]
    if neg.size:                                                     # then all above twice the peak frequency may go, as documented
        lost[neg[0]:size - neg[0]] = np.abs(lam[neg[0]:size - neg[0]])
    w = 2 * np.pi * np.fft.fftfreq(size, dt)
    lost[size // 2] = max(lost[size // 2], 0)
    tol = [2 * lost.sum() / size, 2 * (lost * w ** 2).sum() / size, 2 * (lost * np.abs(w)).sum() / size]
    if tol[0] > 0.01 * r[0]:
        return None, None, None, None
    lag = (np.arange(ns)[None, :] - np.arange(ns)[:, None]) * dt
    cov = toep(r, ns)
    d2 = np.zeros_like(lag)
    d1 = np.zeros_like(lag)
    for k in range(size):
        if lam[k] > 0:
            d2 += lam[k] * w[k] ** 2 * np.cos(w[k] * lag) / size
            if k != size // 2:
                d1 += -lam[k] * w[k] * np.sin(w[k] * lag) / size
    # the component at the folding frequency has no derivative on the grid
    nyq = max(lam[size // 2], 0) * abs(w[size // 2]) / size
    tol[2] += 2 * nyq
    tol[1] += 2 * nyq * abs(w[size // 2])
    return cov, d2, d1, tol


def do_spec(p, bad, stats):
    ns = p['ns']
    method = p['what']
    label = 'SpecData1D.sim(%s, %s, n=%d, ns=%d, cases=%d, dt=%s)' % (method, p['spec'], p['n'], ns, p['cases'], p['dt'])

    def make(tr):
        s = spec_of(p['spec'], p['n'], p['ftype'])
        s.tr = tr
        return s

    def call(obj):
        return lambda: parts(obj.sim(ns=ns, cases=p['cases'], dt=p['dt'], iseed=3, method=method, derivative=p['derivative']), p['derivative'])
    obj = make(None)
    fn = call(obj)
    fired = maybe_fail(p, fn)
    model = make(None)
    if p['dt'] is not None:
        model.resample(p['dt'])
    args, data = np.ravel(model.args), np.ravel(model.data)
    dt = (0.5 if p['ftype'] == 'f' else np.pi) / args[-1]
    if method == 'random':
        ns2 = ns + ns % 2
        cov, dcov, xcov = summed(args, data, p['ftype'], ns2, dt)
        common(p, bad, stats, fn, ns2, dt, cov, dcov, xcov, [0, 0, 0], label)
    else:
        # the covariance function of the spectrum, by the Fourier sum over its grid
        h = args[-1] / (len(args) - 1)
        w = args * (2 * np.pi if p['ftype'] == 'f' else 1.0)
        wt = np.full(len(args), h)
        wt[0] = wt[-1] = h / 2
        acf = model.tocovdata(nr=0)
        lags = np.ravel(acf.args)
        r = np.array([(wt * data * np.cos(w * t)).sum() for t in lags])
        if np.abs(r - np.ravel(acf.data)).max() > 1e-2 * r[0]:
            stats['coarse spectrum (not judged)'] = 1
            return fired
        step = lags[1] - lags[0]
        r = np.ravel(acf.data).copy()
        r[lags > len(args) * dt] = 0.0
        cov, dcov, xcov, tol = embedded(r, len(r), ns, step)
        if tol is None:
            stats['embedding not positive (not judged)'] = 1
            return fired
        common(p, bad, stats, fn, ns, step, cov, dcov, xcov, tol, label)
    tr = transform(p['tr'])
    if tr is not None:
        transformed(p, bad, label, fn, call(make(tr)), tr)
    return fired


def summed(args, data, ftype, ns, dt):
    """covariances of a sum of sinusoids at the multiples of 1/(ns*dt)"""
    f = args * 1.0 if ftype == 'f' else args / (2 * np.pi)
    s = data * 1.0 if ftype == 'f' else data * 2 * np.pi
    df = 1 / (ns * dt)
    fk = np.arange(1, ns // 2) * df
    sk = np.interp(fk, np.hstack((0, f[1:-1], ns // 2 * df)), np.hstack((0, np.abs(s[1:-1]), 0)))
    w = 2 * np.pi * fk
    lag = (np.arange(ns)[None, :] - np.arange(ns)[:, None]) * dt
    cov, d2, d1 = np.zeros_like(lag), np.zeros_like(lag), np.zeros_like(lag)
    for a, b in zip(w, sk):
        cov += b * df * np.cos(a * lag)
        d2 += b * df * a ** 2 * np.cos(a * lag)
        d1 += -b * df * a * np.sin(a * lag)
    return cov, d2, d1


def do_nl(p, bad, stats):
    """the linear part of the second order simulation; the rest is quadratic in the draws"""
    ns = p['ns']
    obj = spec_of(p['spec'], p['n'], p['ftype'])
    obj.h = p['h']
    label = 'SpecData1D.sim_nl(%s, n=%d, ns=%d)' % (p['spec'], p['n'], ns)
    p['derivative'] = False

    def both():
        return obj.sim_nl(ns=ns, cases=p['cases'], dt=p['dt'], iseed=3, output='data')
    fn = lambda: [both()[1]]
    fired = maybe_fail(p, fn)
    model = spec_of(p['spec'], p['n'], p['ftype'])
    if p['dt'] is not None:
        model.resample(p['dt'])
    args, data = np.ravel(model.args), np.ravel(model.data)
    dt = (0.5 if p['ftype'] == 'f' else np.pi) / args[-1]
    try:
        run(fn, None)
    except Foreign:
        raise
    except Exception:                                               # noqa
        stats['rejected'] = 1
        return fired
    cov, dcov, xcov = summed(args, data, p['ftype'], ns, dt)
    common(p, bad, stats, fn, ns, dt, cov, dcov, xcov, [0, 0, 0], label)
    r = _pyrandom.Random(p['seed'] + 2)
    run(fn, None)
    z = np.array([r.gauss(0, 1) for _ in range(script.used)])
    q = []
    for k in (1.0, 2.0):
        x2, x1 = run(both, k * z)
        q.append(x2[:, 1:] - x1[:, 1:])
    if np.abs(q[1] - 4 * q[0]).max() > 1e-6 * max(np.abs(q[1]).max(), 1e-9):
        bad('second order', label + ': the correction is not quadratic in the draws')
    return fired


def do_cond(p, bad, stats):
    m, n = p['m'], p['n']
    r = acf_of(p['acf'], n, 1.0)
    obj = wcc.CovData1D(r.copy(), np.arange(n) * 1.0)
    x = np.random.RandomState(p['seed'] % 1000).multivariate_normal(np.zeros(m), toep(r, m))
    u = np.array(p['unknown'])
    known = np.setdiff1d(np.arange(m), u)
    label = 'CovData1D.simcond(%s, %s, %d points, %s missing)' % (p['method'], p['acf'], m, p['unknown'])
    if p['nan']:
        x[u] = np.nan
        args = (lambda: (x.copy(),)), dict(method=p['method'])
    else:
        args = (lambda: (x.copy(),)), dict(method=p['method'], i_unknown=u.copy())
    fn = lambda: list(obj.simcond(*args[0](), **args[1]))
    fired = maybe_fail(p, fn)
    rr = _pyrandom.Random(p['seed'])
    try:
        out = run(fn, None)
        base, M, d, gap = linear_map(fn, rr)
    except Foreign:
        raise
    except Exception as e:                                          # noqa
        bad('error', '%s raised %s: %.80s' % (label, type(e).__name__, e))
        return fired
    for name, part in zip(('sample', 'mean', 'std'), out):
        if np.shape(part) != (len(u),) or not np.isfinite(part).all():
            bad('shape', '%s: %s has shape %s for %d missing points' % (label, name, np.shape(part), len(u)))
            return fired
    given = x.copy()
    buf = x.copy()
    run(lambda: obj.simcond(buf, **args[1]), None)
    if not np.array_equal(buf, given, equal_nan=True):
        bad('known', label + ' changed the series it was given')
    if not np.array_equal(np.ravel(obj.data), r):
        bad('model', label + ' changed the covariance function')
    k = len(u)
    if gap > 1e-7:
        bad('nonlinear', '%s: the sample is not a linear function of the draws' % label)
        return fired
    if np.abs(M[k:]).max() > 1e-9:
        bad('mean', label + ': the conditional mean or deviation depends on the draws')
        return fired
    S = toep(r, m)
    soo = S[np.ix_(known, known)]
    if np.linalg.cond(soo) > 1e3:
        stats['badly conditioned (not judged)'] = 1
        return fired
    g = np.linalg.solve(soo, S[np.ix_(known, u)]).T
    mu = g @ x[known]
    sig = S[np.ix_(u, u)] - g @ S[np.ix_(known, u)]
    sample, mean, std = out
    scale = np.sqrt(r[0])
    if np.abs(sample - mean).max() > 1e-6 * scale:
        bad('sample', label + ': without noise the sample is not the conditional mean')
        return fired
    lag = np.flatnonzero(r).max() + 1
    if p['method'] != 'exact' and m > 2 * lag:
        if (std > scale * (1 + 1e-6)).any():
            bad('deviation', label + ': the conditional deviation exceeds that of the model')
            return fired
        # whatever the windows, a missing point is never better known than with all the other points given
        least = 1 / np.sqrt(np.diag(np.linalg.inv(S))[u]) * (1 - 1e-2)
        if (std < least).any():
            bad('deviation', label + ': the conditional deviation is smaller than with all other points known')
        elif (np.sqrt((M[:k] ** 2).sum(axis=1)) < least).any():
            bad('covariance', label + ': the spread of the sample is smaller than with all other points known')
        elif k == 1 or np.diff(u).min() > 2 * lag:
            # fewer points are used than are known: the means differ by a Gaussian error of this variance
            err = np.sqrt(np.maximum(std ** 2 - np.diag(sig), 0))
            if (np.abs(mean - mu) > 7 * err + 2e-2 * scale).any():
                bad('mean', '%s: conditional mean off by %.3g' % (label, np.abs(mean - mu).max()))
        return fired
    if np.abs(mean - mu).max() > 2e-3 * scale:
        bad('mean', '%s: conditional mean off by %.3g' % (label, np.abs(mean - mu).max()))
    elif np.abs(M[:k] @ M[:k].T - sig).max() > 2e-3 * r[0]:
        bad('covariance', '%s: conditional covariance off by %.3g' % (label, np.abs(M[:k] @ M[:k].T - sig).max()))
    elif np.abs(std - np.sqrt(np.diag(sig))).max() > 2e-2 * scale:
        bad('deviation', '%s: conditional deviation off by %.3g' % (label, np.abs(std - np.sqrt(np.diag(sig))).max()))
    return fired


def shrinks(prog):
    out = []
    for k, v in (('tr', 0), ('fault', None), ('derivative', False), ('cases', 1), ('cases', 2), ('ns', 8), ('n', 9), ('fill', 0)):
        if k in prog and prog[k] != v and not (k == 'ns' and prog['what'] == 'nl'):
            out.append(dict(copy.deepcopy(prog), **{k: v}))
    return out
