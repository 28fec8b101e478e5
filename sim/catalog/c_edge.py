"""Rarely taken branches: limits at infinity, options off their defaults, rejected inputs, starting values and links of distributions"""
import copy
import numpy as np
import wafo.misc as m
import wafo.gaussian as wg
import wafo.integrate as wint
import wafo.integrate_oscillating as osc
import wafo.interpolate as wi
import wafo.markov as mk
import wafo.polynomial as po
import wafo.padua as pd
import wafo.objects as wo
import wafo.stats as wst
import wafo.stats.core as wsc
import wafo.stats.estimation as wse
import wafo.stats.distributions as wsd
import wafo.containers as wc
import wafo.sg_filter as sg
import wafo.kdetools as wk
import wafo.kdetools.gridding as wgd
import wafo.kdetools.kernels as kn
import wafo.spectrum.core as wspec
import wafo.spectrum.models as sm
import wafo.covariance.core as wcov
import wafo.covariance.estimation as wce
import wafo.transform.models as tm
import wafo.transform.core as tc
import wafo.transform.estimation as te
import wafo.wave_theory as wt
from .base import op, mut, kind
from .c_more import _figure, _printed

INF = np.inf
REJECT = [True]         # whether rejections are values (C09 wants them as errors: a missing helper may raise)


def tries(f):
    """the outcome of f, with an error as a value: what is rejected has to be rejected the same way, and without a trace"""
    def run(*a, **k):
        try:
            return f(*a, **k)
        except (ValueError, TypeError, IndexError, NotImplementedError, AssertionError, KeyError, ZeroDivisionError) as e:
            if type(e).__name__.startswith('Injected') or not REJECT[0]:
                raise
            return type(e).__name__
    return run


# ---- gaussian ---------------------------------------------------------------------------------------------
@op('gaussian.prbnorm2d_lim', 12)
def _(c):
    a = c.of([-1., -2.], [-50., -50.], [-50., -1.], [-1., -50.], [0., 0.], [1., 2.])
    b = c.of([1., 1.], [50., 50.], [50., 1.], [1., 50.], [0.5, 60.], [60., 2.5])
    return wg.prbnorm2d, (np.array(a), np.array(b), c.of(0.3, -0.5, 0.95))


@op('gaussian.cdfnorm2d_r', 6)
def _(c):
    return wg.cdfnorm2d, (np.linspace(-2, 2, 6), c.of(0.5, -1.), np.array(c.of([.1, .4, .8, .95, -.95, .99], [-.1, -.5, -.8, 1., -1., .2], [.95, .97, .99, .93, .94, 1.])))


@op('gaussian.rejected', 6)
def _(c):
    f, a = c.of((wg.prbnormnd, (np.eye(2), np.zeros(3), np.ones(3))), (wg.prbnormndpc, (np.ones(3) * 0.5, np.zeros(2), np.ones(3))),
                (wg.prbnormndpc, (np.ones(3) * 0.5, np.zeros(3), np.ones(3))), (wg.prbnormnd, (np.eye(3), -np.ones(3), np.ones(3), 1e-4, 1e-4, 2000, 5)))
    return tries(f), a


@op('Rind.speeds', 13)
def _(c):
    def run(speed, cov):
        r = wg.Rind(speed=speed, method=3, seed=1, nit=2)
        return [getattr(r, n) for n in ('speed', 'abseps', 'releps', 'coveps', 'maxpts', 'quadno', 'xcutoff', 'method')]
    return run, (c.of(*range(1, 14)), np.eye(2))


# ---- misc -------------------------------------------------------------------------------------------------
@op('misc.binomln_edge', 5)
def _(c):
    z, w = c.of((3, 2), (5, 0), (5, 4), (np.arange(2, 7.), np.arange(0, 5.)), (np.array([4., 5.]), np.array([4., 2.])))
    return tries(m.binomln), (z, w)


@op('misc.findoutliers_v', 5, nothread=True)
def _(c):
    t, x = c.series()
    x = np.round(x, c.of(1, 6))
    x[10:14] = x[10]
    if c.of(0, 1):
        x[20] = np.nan
    x[30] += c.of(0., 8.)
    return _printed(m.findoutliers), (x,), dict(zcrit=c.of(0., 0.05), dcrit=c.of(None, 0.8), ddcrit=c.of(None, 0.8), verbose=c.of(True, False, True))


@op('misc.rejected', 8)
def _(c):
    x = c.series()[1]
    f, a, k = c.of((m.findtp, (x[:1],), {}), (m.findtc, (x, 100.), {}), (m.findtc, (x[:2],), {}), (m.findrfc, (x[:2], 0.1), {}),
                   (m.findoutliers, (x[:2],), {}), (m.findcross, (x, 0.), dict(kind='q')), (m.findpeaks, (x,), dict(n=3, min_h=5, min_p=0.5)),
                   (m.tranproc, (np.arange(4.), np.arange(5.), x), {}))
    return tries(f), a, k


@op('misc.findpeaks_opt', 4)
def _(c):
    x = c.series()[1]
    return m.findpeaks, (np.abs(x) if c.of(0, 1) else np.array([np.abs(x), np.abs(x[::-1])]),), dict(n=c.of(2, 3, 50), min_h=c.of(0.01, 0.5), min_p=c.of(0., 0.2))


@op('misc.findtc_kind', 8)
def _(c):
    return tries(m.findtc), (c.series()[1], c.of(None, 0., 0.3)), dict(kind=c.of(None, 'dw', 'uw', 'tw', 'cw'))


@op('misc.findtp_kind', 8)
def _(c):
    return tries(m.findtp), (c.series()[1], c.of(0., -1., 0.3, 50.)), dict(kind=c.of(None, 'mw', 'Mw', 'astm'))


@op('misc.tranproc_opt', 6)
def _(c):
    x = np.linspace(-3, 3, c.of(31, 60))
    if c.of(0, 1):
        x = x + 0.01 * x ** 3
    y = c.np().normal(size=20)
    return m.tranproc, (x, x + 0.1 * x ** 2 * np.sign(x), y) + c.of((), (y * 0.5,), (y * 0.5, y * 0.2), (y, y, y * 0.1))


@op('misc.random_state', 4, rng=True)
def _(c):
    def run(seed):
        g = m.check_random_state(seed)
        return type(g).__name__, [g.random_sample() for _ in range(3)] if hasattr(g, 'random_sample') else None
    return tries(run), (c.of(3, None, 0, 'no'),)


@op('misc.now', 2)
def _(c):
    return (lambda s: isinstance(m.now(s), str)), (c.of(True, False),)


@op('misc.num2pistr_more', 6)
def _(c):
    return m.num2pistr, (c.of(np.pi * 3 / 4, -np.pi, 0.0, 2.0, np.pi / 7, 2 * np.pi), c.of(20, 3))


@op('misc.good_bins_opt', 5)
def _(c):
    return tries(m.good_bins), (c.uniform(30, lo=-1, hi=3) if c.of(0, 1) else None,), dict(range=c.of((0., 1.), (-2., 5.)), num_bins=c.of(None, 10), odd=c.of(False, True), loose=c.of(True, False))


@op('misc.discretize_opt', 6, cb=True)
def _(c):
    return tries(m.discretize), (c.fn(lambda x: np.abs(np.sin(3 * x))), c.of(0., -1.), c.of(2., np.pi)), dict(tol=c.of(0.05, 0.005), n=c.of(5, 9), method=c.of('linear', 'adaptive', 'adaptive'))


@op('misc.lazyselect_two', 3, cb=True)
def _(c):
    x = np.linspace(-2, 2, 9)
    return m.lazyselect, ([x < -1, x > 1], [c.fn(lambda x: x ** 2), c.fn(lambda x: np.exp(x))], (x,)), dict(default=c.of(0, -1.))


@op('misc.piecewise_opt', 4, cb=True)
def _(c):
    x = np.linspace(-2, 2, 9)
    return m.piecewise, ([x < -1, x > 1], [c.of(-1., c.fn(np.sin)), c.fn(lambda x: x ** 3)], (x,)), dict(fillvalue=c.of(0., 7.))


# ---- integrate --------------------------------------------------------------------------------------------
@op('integrate.quadgr_lim', 6, cb=True, rtol=1e-7)
def _(c):
    a, b = c.of((0., INF), (-INF, 0.), (-INF, INF), (1., 1.), (2., 0.), (0., 3.))
    return wint.quadgr, (c.fn(lambda x: np.exp(-x ** 2)), a, b), dict(abseps=c.of(1e-6, 1e-10))


@op('integrate.gaussq_many', 4, cb=True, rtol=1e-7)
def _(c):
    return wint.gaussq, (c.fn(lambda x, k: np.cos(k * x) + x), np.zeros(4), np.array([1., 2., 0.5, 3.])), dict(args=(np.arange(1, 5.),), releps=c.of(1e-3, 1e-9), abseps=1e-9)


@op('integrate.gaussq_hard', 4, cb=True, rtol=1e-6)
def _(c):
    return wint.gaussq, (c.fn(lambda x: 1 / np.sqrt(np.abs(x - 0.3) + 1e-9)), 0., c.of(1., 0.5)), dict(max_iter=c.of(4, 7))


@op('integrate.roots_methods', 9, rtol=1e-7)
def _(c):
    f, a = c.of((wint.h_roots, ()), (wint.j_roots, (0.3, 0.1)), (wint.la_roots, (0.5,)), (wint.p_roots, ()))
    return tries(f), (c.of(5, 8, 3),) + a, dict(method=c.of('newton', 'eigenvalue', 'nosuch'))


def _osc(c):
    return dict(f=c.fn(lambda t: 1 / (1 + t ** 2)), g=c.fn(lambda t: t), dg=c.fn(lambda t: np.ones(np.shape(t))))


@op('integrate.QuadOsc_lim', 8, cb=True, rtol=1e-6, atol=1e-12)
def _(c):
    a, b = c.of((1., -1.), (0.5, 0.5), (0., 2.), (-1., 0.5))
    f = _osc(c)

    @tries
    def run(f, omega, **k):
        return osc.QuadOsc(f['f'], f['g'], f['dg'], **k)(omega)
    return run, (f, c.of(2., 15.)), dict(a=a, b=b, s=c.of(15, 9), endpoints=c.of(False, True), full_output=c.of(True, False), precision=c.of(4, 8), maxiter=c.of(5, 7))


# ---- interpolate ------------------------------------------------------------------------------------------
@op('interpolate.rejected', 8)
def _(c):
    x, y = np.arange(6.), c.uniform(6)
    f, a, k = c.of((wi.SmoothSpline, (x[:1], y[:1]), {}), (wi.SmoothSpline, (x[::-1].copy(), y), {}), (wi.SmoothSpline, (x[:2], y[:2], 0.5), {}),
                   (wi.slopes, (x[:2], y[:2]), {}), (wi.slopes, (x, y), dict(method='nosuch')), (wi.slopes, (x, y[:3]), {}),
                   (sg.SavitzkyGolay(3, 2), (y[:2],), {}), (wi.PPform, (np.ones((3, 5)), np.arange(3.)), {}))

    def run(f, a, k):
        r = f(*a, **k)
        return r(np.linspace(0, 3, 4)) if callable(r) else r
    return tries(run), (f, a, k)


@op('interpolate.slopes_all', 10)
def _(c):
    x = np.cumsum(c.uniform(9) + 0.1)
    y = np.round(c.uniform(9) * 3, c.of(0, 4))
    return wi.slopes, (x, y), dict(method=c.of('secant', 'parabolic', 'Catmul-Rom', 'Cardinal', 'akima'), tension=c.of(0., 0.4), monotone=c.of(False, True))


@op('interpolate.SmoothSpline_opt', 8)
def _(c):
    x = np.linspace(0, 3, c.of(12, 2, 3))

    def run(x, y, xi, **k):
        s = wi.SmoothSpline(x, y, **k)
        e = s.linear_extrapolate(output=True) if hasattr(s, 'linear_extrapolate') else None
        return s(xi), e(xi) if e is not None else None, s.derivative()(xi), s.integrate()(xi)
    return tries(run), (x, np.sin(x), np.linspace(-1, 4, 7)), dict(p=c.of(None, 0., 0.5, 1.), lin_extrap=c.of(True, False), var=c.of(1, 0.2, np.linspace(1, 2, x.size)))


# ---- polynomials ------------------------------------------------------------------------------------------
@op('polynomial.rejected', 10)
def _(c):
    p = np.array([1., 2., 3.])
    f, a, k = c.of((po.polyint, (p, -1), {}), (po.polyint, (p, 2, [1., 2., 3.]), {}), (po.polyder, (p, -1), {}), (po.chebroot, (0,), {}), (po.chebpoly, (-1,), {}),
                   (po.chebfitnd, ((np.ones((2, 2)), np.ones((2, 2))), np.ones(3), [1, 1]), {}), (po.chebvandernd, ([1, -1], np.ones(2), np.ones(2)), {}),
                   (po.padefitlsq, (np.ones(3), 3, 3), {}), (po.chebfit_dct, (np.ones((2, 2, 2)),), dict(n=(2, 0))), (po.polyrescl, (p, 0.), {}))
    return tries(f), a, k


@op('polynomial.polyint_opt', 6)
def _(c):
    p = c.of(np.array([1., 2., 3.]), np.poly1d([1., 2., 3.]), np.arange(6.).reshape(2, 3))
    return tries(po.polyint), (p, c.of(1, 2, 0)), dict(k=c.of(None, 3.))


@op('polynomial.text', 6)
def _(c):
    p = c.of([1., -1., 0., 2.], [0.], [1e-3, 2., -1.], [-1., 1.], [1, 1, 1], [3, 0, 0, -2.5])
    return (lambda p: (po.poly2str(p), po.poly2hstr(p), po.poly2str(p, variable='s'))), (p,)


@op('polynomial.trim', 6)
def _(c):
    return (lambda p: (po.polytrim(p), po.polyreloc(p, 1.5), po.polyrescl(p, 2.), po.polyshift(p, -1, 3), po.polyishift(p, -1, 3))), \
        (c.of(np.array([0., 0., 1., 2.]), np.array([1., 2., 0.]), np.array([[0., 1.], [2., 3.]]), np.poly1d([1., 3.]), np.zeros(3), [0., 4., 2.]),)


@op('polynomial.chebfit_vals', 4, cb=True)
def _(c):
    return po.chebfit, (c.of(c.fn(np.exp), c.uniform(8), c.fn(lambda x: x ** 2)),), dict(n=c.of(10, 7), a=c.of(-1., 0.), b=c.of(1., 2.), trace=False)


@op('polynomial.chebval_fill', 4)
def _(c):
    return po.chebval, (np.linspace(-2, 2, 7), c.uniform(5)), dict(a=-1., b=c.of(1., 1.5), kind=c.of(1, 2), fill=c.of(None, 0, np.nan))


@op('polynomial.chebfitnd_opt', 4, rtol=1e-8)
def _(c):
    x1, x2 = np.meshgrid(po.chebroot(5), po.chebroot(6))
    return tries(po.chebfitnd), ((x1, x2), np.exp(x1 + 0.3 * x2), c.of([2, 3], [1, 1])), dict(full=c.of(True, False), w=c.of(None, None, np.ones(30)), rcond=c.of(None, 1e-12))


@op('polynomial.chebinterp', 3, cb=True)
def _(c):
    return po.chebinterpolate, (c.fn(lambda x: np.exp(x)), c.of(6, 9)), dict(domain=c.of(None, (0., 2.)))


@op('polynomial.pade_vals', 3, rtol=1e-7)
def _(c):
    return po.padefitlsq, (c.of(np.exp, np.cos), c.of(2, 3), 2), dict(a=-1, b=1, trace=False, end_points=c.of(True, False))


@op('padua.variants', 6, cb=True)
def _(c):
    return (lambda f, n, d, x, g: pd.padua_val(x, x * 0.5, pd.padua_fit(pd.padua_points(n, d), f)[0], d, use_meshgrid=g)), \
        (c.fn(lambda x, y: np.exp(x) + y), c.of(5, 8), c.of((-1, 1, -1, 1), (0, 1, 0, 2)), np.linspace(0.1, 0.9, 4), c.of(False, True))


# ---- markov -----------------------------------------------------------------------------------------------
@op('markov.rejected', 6)
def _(c):
    F = np.triu(c.uniform(5, 5), 1)
    f, a, k = c.of((mk.cmat2nt, (F, 9), {}), (mk.nt2cmat, (F, 'nosuch'), {}), (mk.fr2nt, (F,), {}), (mk.mctp2tc, (F[:4], 2, np.arange(5.)), {}),
                   (mk.mctp2tc, (F, 2.5, np.arange(5.)), {}), (mk.arfm2mctp, (F[:3],), {}))
    return tries(f), a, k


@op('markov.nt_kinds', 4)
def _(c):
    F = np.round(np.triu(c.uniform(6, 6), 1) * 10)

    def run(F, k):
        NT = mk.cmat2nt(F, k)
        return NT, mk.nt2cmat(NT, k), mk.nt2fr(NT, k)
    return tries(run), (F, c.of(1, 0, 11, -1))


# ---- kdetools ---------------------------------------------------------------------------------------------
@op('gridding.sparse', 4)
def _(c):
    a = np.array([[1., 2, 3], [4, -1, 6], [-1, 8, 9]])
    acc = c.of(np.array([[0, 1, 2], [2, 0, 1], [1, 2, 0]]), np.array([[0, 1, 2], [0, 1, 2], [0, 1, 2]]))

    def run(acc, a, shape):
        out = [wgd.accumsum(acc, a, shape)]
        try:
            out.append(wgd.accumsum_sparse(acc, a, shape).toarray())
        except (TypeError, ValueError) as e:
            out.append(type(e).__name__)
        return out
    return run, (acc, a, c.of((3,), None))


@op('gridding.accum_fun', 3, cb=True)
def _(c):
    return wgd.accum, (np.array([0, 1, 0, 3]), np.array([1., 2., 3., 4.])), dict(func=c.fn(lambda v: float(np.prod(v))), fill_value=c.of(0, -1), dtype=c.of(None, float))


@op('kde.rejected', 6)
def _(c):
    x = np.abs(c.normal(20)) + 0.1

    def run(what):
        if what == 0:
            return wk.KDE(x, hs=0.3).eval_points(np.ones((2, 3)))
        if what == 1:
            return wk.KDE(x, kernel=wk.Kernel('nosuch'))
        if what == 2:
            return wk.KDE(np.array([x, x]), hs=[0.2, 0.3]).eval_grid_fast(np.linspace(0, 1, 5))
        if what == 3:
            return wk.TKDE(x, L2=np.nan).eval_grid(np.linspace(0.1, 2, 4))
        if what == 4:
            return wk.KRegression(x, x[:3], p=0)(np.linspace(0, 1, 4))
        return wk.Kernel('gauss').get_smoothing(x[:1])
    return tries(run), (c.of(0, 1, 2, 3, 4, 5),)


@op('kde.contours', 4, rtol=1e-7)
def _(c):
    x = np.array([c.normal(25), c.np().normal(size=25) * 2])

    def run(x, hs, **k):
        f = wk.KDE(x, hs=hs)(output='plotobj', **k)
        return f.data, f.clevels, f.plevels, f.labels.title, f.args
    return run, (x, c.of(None, [0.5, 0.8], np.array([[0.5, 0.1], [0.1, 0.4]]))), dict(eval_type=c.of('points', 'grid', 'gridfast'))


@op('kernels.hopts', 8, rtol=1e-7)
def _(c):
    x = np.vstack((c.normal(30), np.abs(c.normal(30)) + 0.1)) if c.of(0, 0, 1) else c.normal(40)
    return tries(lambda k, n, x: getattr(kn.Kernel(k), n)(x)), (c.of('gauss', 'epan', 'p1epan'), c.of('hns', 'hos', 'hmns', 'hste', 'hstt', 'hldpi', 'hscv', 'hisj'), x)


# ---- series -----------------------------------------------------------------------------------------------
@op('TimeSeries.wave_periods_all', 12, kind='timeseries', nothread=True)
def _(c):
    pdef = c.of('d2u', 'd2d', 'u2u', 'u2d', 't2t', 'c2c', 'm2m', 'M2M', 'd2t', 't2u', 'u2c', 'c2d')
    return tries(lambda ts, **k: ts.wave_periods(**k)), (), dict(pdef=pdef, vh=c.of(None, 0.0), wdef=c.of(None, 'dw', 'uw'), rate=c.of(1, 4))


@op('TimeSeries.rejected', 6, kind='timeseries')
def _(c):
    f = c.of(lambda t: t.wave_periods(pdef='q2q', vh=0.), lambda t: t.tocovdata(method='nosuch'), lambda t: t.tospecdata(L=1000), lambda t: t.trdata(method='nosuch'),
             lambda t: t.turning_points(wavetype='xx'), lambda t: t.wave_height_steepness(method=77))
    return tries(f), ()


@op('objects.opts', 6)
def _(c):
    t, x = c.series()

    def run(x, t, what):
        tp = wo.TurningPoints(x[m.findtp(x)], t[m.findtp(x)])
        if what == 0:
            return tp.rainflow_filter(h=0.3, method=1).data
        if what == 1:
            return tp.cycle_pairs(h=0.2, kind='max2min', method='robust').data
        cp = tp.cycle_pairs(kind='min2max')
        if what == 2:
            return cp.get_minima_and_maxima()
        if what == 3:
            lc = cp.level_crossings(kind='uM', intensity=True)
        elif what == 4:
            lc = cp.level_crossings(kind='nosuch')
        else:
            lc = cp.level_crossings(kind='umM')
        return lc.data, lc.args, lc.mean, lc.sigma
    return tries(run), (x, t, c.of(0, 1, 2, 3, 4, 5))


@op('LevelCrossings.extrapolate_opt', 5, kind='levelcrossings', rtol=1e-5, slow=True, nothread=True)
def _(c):
    return tries(lambda lc, *a, **k: lc.extrapolate(*a, **k).data), (c.of(0.5, -0.5), c.of(0.8, 0.9)), dict(method=c.of('ml', 'mps'), dist=c.of('genpareto', 'expon', 'rayleigh', 'nosuch'), plotflag=0)


# ---- transformations --------------------------------------------------------------------------------------
@op('TransformEstimator.opt', 8)
def _(c):
    t, x = c.series(100, k=2)

    def run(x, t, what, **k):
        e = te.TransformEstimator(**k)
        ts = wo.TimeSeries(x + 0.1 * x ** 2, t)
        g = e.trdata(ts)
        return [(t.data, t.args) if hasattr(t, 'args') else t(np.linspace(-2, 2, 5)) for t in (g if isinstance(g, tuple) else (g,))]
    return tries(run), (x, t, 0), dict(method=c.of('nonlinear', 'mnonlinear', 'hermite', 'ochi'), ntr=c.of(20, 10000), gvar=c.of(1, [1., 2., 1.], np.ones(4) * 0.5), chkder=c.of(True, False),
                                       gsm=c.of(0.05, 1.0), csm=c.of(0.9, 1.0), ne=c.of(7, 2), linextrap=c.of(True, False), param=(-4, 4, 61))


@op('tr.edge', 12)
def _(c):
    kw = c.of(dict(skew=0.3, kurt=3.0), dict(skew=0.0, kurt=2.7), dict(skew=0.1, kurt=2.9), dict(skew=0.8, kurt=3.1), dict(skew=0.1, kurt=3.5, pardef=2), dict(skew=2., kurt=3.2), dict(skew=-0.2, kurt=3.1))

    kw = dict(kw, sigma=c.of(1., 2.), mean=c.of(0., 0.5))

    def run(kw, x):
        with np.errstate(all='ignore'):
            t = tm.TrHermite(**kw)
            return t.gauss2dat(x), t.dat2gauss(x * 0.3), t.dist2gauss()
    return tries(run), (kw, np.linspace(-2, 2, 7))


@op('tr.rejected', 5)
def _(c):
    f = c.of(lambda: tm.TrHermite(skew=np.nan), lambda: tm.TrOchi(skew=4.), lambda: tm.TrHermite().dat2gauss([1.], [2.]), lambda: tm.TrOchi(skew=0.1).gauss2dat([1.], [2.]),
             lambda: tc.TrData([0., 1.], [0., 1.]).dat2gauss([1.], 1, 2, 3, 4, 5))
    return tries(f), ()


# ---- spectra and covariances ------------------------------------------------------------------------------
@op('SpecData.labels', 8)
def _(c):
    def run(**k):
        s = wspec.SpecData1D(np.ones(4), np.arange(4.), **k)
        s.setlabels()
        return [getattr(s.labels, n) for n in ('title', 'xlab', 'ylab', 'zlab')]
    return tries(run), (), dict(type=c.of('freq', 'k1d', 'k2d', 'dir', 'encdir', ''), freqtype=c.of('w', 'f', 'k'), norm=c.of(False, True))


@op('SpecData2D.labels', 6)
def _(c):
    def run(**k):
        s = wspec.SpecData2D(np.ones((3, 4)), [np.arange(3.), np.arange(4.)], **k)
        s.setlabels()
        return [getattr(s.labels, n) for n in ('title', 'xlab', 'ylab', 'zlab')]
    return tries(run), (), dict(type=c.of('dir', 'k2d', 'freq', 'encdir'), freqtype=c.of('w', 'f'), angletype=c.of('radians', 'degrees'))


@op('SpecData2D.rotate_opt', 8)
def _(c):
    th = np.linspace(-np.pi, np.pi, c.of(8, 9), endpoint=c.of(False, True))
    w = np.linspace(0.1, 1, 5)

    def run(th, w, phi, **k):
        s = wspec.SpecData2D(np.outer(np.cos(th / 2) ** 2, w), [th, w], type=k.pop('type'))
        s.rotate(phi, **k)
        return s.data, s.args, s.phi
    return tries(run), (th, w, c.of(0., 0.7, np.pi, -2.)), dict(rotateGrid=c.of(False, True), type=c.of('dir', 'dir', 'k2d', 'freq'))


@op('CovData.labels', 4)
def _(c):
    def run(**k):
        s = wcov.CovData1D(np.exp(-np.arange(6.)), np.arange(6.), **k)
        s.setlabels()
        return [getattr(s.labels, n) for n in ('title', 'xlab', 'ylab')]
    return tries(run), (), dict(lagtype=c.of('t', 'x'), norm=c.of(False, True), type=c.of('none', ''))


@op('CovData1D.simcond_opt', 6, kind='covdata_long', rng=True, rtol=1e-7)
def _(c):
    def run(cov, x, i, **k):
        return cov.simcond(x, i_unknown=i, **k)
    x = c.series(100)[1]
    i = c.of(None, np.arange(10, 20), np.r_[0:3, 97:100], np.arange(100) % 3 == 0)
    if i is None:
        x[30:35] = np.nan
    return tries(run), (x, i), dict(method=c.of('approx', 'exact', 'pseudo'))


@op('SpecData1D.rejected', 5, kind='spec1d')
def _(c):
    f = c.of(lambda s: s.moment(nr=9), lambda s: s.characteristic('nosuch'), lambda s: s.tocovdata(nr=9), lambda s: s.bandwidth([9]),
             lambda s: s.tocovdata(nt=100000))
    return tries(f), ()


@op('models.rejected', 6)
def _(c):
    f = c.of(lambda: sm.Jonswap(Hm0=20, Tp=3), lambda: sm.Jonswap(Hm0=7, Tp=11, gamma=-1), lambda: sm.Torsethaugen(Hm0=20, Tp=2), lambda: sm.Spreading('nosuch'),
             lambda: sm.OchiHubble(par=99), lambda: sm.Jonswap(Hm0=-1).tospecdata(np.linspace(0, 1, 4)))

    def run(f):
        s = f()
        return s(np.linspace(0, 2, 5)) if callable(s) else s
    return tries(run), (f,)


@op('models.torset', 6)
def _(c):
    return tries(lambda w, **k: sm.Torsethaugen(**k)(w)), (np.linspace(0, 3, 9),), dict(Hm0=c.of(2., 7., 12.), Tp=c.of(5., 9., 14., 20.), method=c.of('integration', 'nosuch', 'parametric'))


@op('Spreading.fourier', 8)
def _(c):
    def run(method, r1, s_a):
        s = sm.Spreading(method, s_a=s_a)
        return [np.asarray(f(r1)) for f in (s.fourier2x, s.fourier2a, s.fourier2b, s.fourier2k, s.fourier2d)]
    return tries(run), (c.of('cos2s', 'mises', 'poisson', 'sech2', 'box', 'wrap'), c.of(np.array([0.1, 0.5, 0.9]), np.array([0., 0.3, 1.]), 0.4), c.of(15., 5.))


@op('Spreading.angles', 6)
def _(c):
    def run(th, w, **k):
        s = sm.Spreading('cos2s', **k)
        d = s(th, w, 0.6)
        return d[0], d[2] if len(d) > 2 else None
    return tries(run), (np.linspace(c.of(-np.pi, 0., 1.), c.of(np.pi, 2 * np.pi), 9), np.linspace(0.2, 1, 4)), dict(theta0=c.of(0., 1., 4., -5.))


@op('wave_theory.sensor_rejected', 4)
def _(c):
    f, a = c.of((wt.core.sensor_typeid, ('nosuch',)), (wt.core.sensor_type, (99,)), (wt.core.sensor_typeid, ('n', 'P', 'u_t')), (wt.core.sensor_type, (0, 7, 14)))
    return tries(f), a


@op('wave_theory.w2k_opt', 8)
def _(c):
    return wt.w2k, (np.linspace(c.of(-1., 0.), 2, 6),), dict(theta=c.of(0.0, 0.5, np.linspace(-1, 1, 6)), h=c.of(np.inf, 10., 0.5, 1e4), g=c.of(9.81, 1.), count_limit=c.of(100, 2))


# ---- distributions ----------------------------------------------------------------------------------------
FITTED = ('bradford', 'chi', 'f', 'lognorm', 'ncx2', 'nct', 'reciprocal', 'truncrayleigh', 'gibrat', 'exponweib', 'burr', 'genexpon')


@op('stats.fitstart', 12)
def _(c):
    name = c.of(*FITTED)
    return tries(lambda n, x: getattr(wst, n)._fitstart(x)), (name, np.abs(c.normal(40)) + 0.5)


@op('stats.fit_more', 5, rtol=1e-4, atol=1e-6, slow=True)
def _(c):
    name = c.of('bradford', 'chi', 'lognorm', 'truncrayleigh', 'reciprocal')
    return tries(lambda n, x: getattr(wst, n).fit(x)), (name, np.abs(c.normal(25)) + 0.5)


@op('stats.links', 12)
def _(c):
    name, par = c.of(('expon', (0.1, 2.)), ('weibull_min', (1.5, 0.1, 2.)), ('genpareto', (0.1, 0., 2.)), ('genpareto', (0., 0., 2.)), ('gumbel_r', (0.1, 2.)), ('genextreme', (0.1, 0., 2.)),
                     ('genextreme', (0., 0., 2.)), ('rayleigh', (0.1, 2.)), ('burr', (2., 1.5, 0.1, 2.)), ('exponweib', (2., 1.5, 0.1, 2.)), ('genexpon', (1., 2., 1.5, 0.1, 2.)), ('truncrayleigh', (0.5, 0.1, 2.)))

    def run(name, par, x, logsf):
        out = []
        for i in range(len(par) + 1):
            try:
                with np.errstate(all='ignore'):
                    out.append(wse.LINKS[name](x, logsf, par, i))
            except (IndexError, NotImplementedError, KeyError) as e:
                out.append(type(e).__name__)
        return out
    return run, (name, list(par), c.of(2.5, 3.), c.of(-1.2, -0.5))


@op('stats.optimizers', 6, rtol=1e-4, atol=1e-6)
def _(c):
    return tries(lambda x, o, **k: wst.weibull_min.fit(x, optimizer=o, **k)), (np.abs(c.normal(30)) + 0.2, c.of('fmin', 'fmin_powell', 'nosuch')), dict(floc=c.of(0., 0.1), method=c.of('mle', 'mm'))


@op('stats.fit_ties', 4, rtol=1e-4, atol=1e-6)
def _(c):
    return tries(lambda x, **k: wse.FitDistribution(wst.rayleigh, x, **k).par), (np.round(np.abs(c.normal(30)), 1) + 0.2,), dict(method=c.of('mps', 'ml'), floc=c.of(0., 0.1))


@op('stats.pbinom', 4, rtol=1e-8)
def _(c):
    def run(p):
        d = wsd.pbinom(p)
        return d.pmf(np.arange(3)), d.cdf(np.arange(3)), d.sf(np.arange(3)), d.probabilities, d._local_pmf(np.arange(3))
    return tries(run), (c.of(np.array([.1, .5, .7]), np.array([.2, .2, .3, .9]), np.array([0., 1., .5]), np.array([.5, 2.])),)


@op('stats.truncrayleigh', 4)
def _(c):
    d = wst.truncrayleigh

    def run(x, a):
        return d.pdf(x, a), d.cdf(x, a), d.sf(x, a), d.ppf(x / 4, a), d.logpdf(x, a), d.logsf(x, a), d.isf(x / 4, a), d.stats(a)
    return tries(run), (np.linspace(0.1, 3, 5), c.of(0.5, 1., 0.))


@op('stats.core_rejected', 6)
def _(c):
    x = c.series()[1]
    f, a, k = c.of((wsc.reslife, (x, np.linspace(0, 5, 4)), {}), (wsc.findpot, (x, np.arange(x.size)[::-1].copy(), 0.2, 3), {}), (wsc.findpot, (x, None, 50., 1), {}),
                   (wsc.declustering_time, (np.array([1., 2.]),), {}), (wsc.extremal_idx, (np.array([1.]),), {}), (wsc.decluster, (x, None, 50., 1), {}))
    return tries(f), a, k


@op('stats.findpot_opt', 4)
def _(c):
    t, x = c.series()
    if c.of(0, 1):
        i = c.np().permutation(t.size)
        t, x = t[i], x[i]
    return wsc.findpot, (x, c.of(t, None), c.of(0.3, 0.8), c.of(1, 4))


@op('RegLogit.options', 4, rtol=1e-5, nothread=True)
def _(c):
    def run(y, x, **k):
        b = wsc.RegLogit(**k)
        b.fit(y, x)
        return b.params, b.deviance, b.predict(x)
    y = np.array([1, 1, 2, 1, 3, 2, 3, 2, 3, 3]).reshape(-1, 1)
    return tries(_printed(run)), (y if c.of(0, 1) else y[::-1].copy(), np.arange(10.).reshape(-1, 1) ** c.of(1, 2)), dict(verbose=c.of(True, False), maxiter=c.of(500, 2), alpha=c.of(0.05, 0.1))


# ---- filters ----------------------------------------------------------------------------------------------
@op('sg_filter.opt', 8)
def _(c):
    x = c.series(60)[1]
    what = c.of('hp', 'hampel', 'sgl', 'sg')
    kw = dict(hp=dict(w=c.of(100, 5)), hampel=dict(dx=c.of(None, 3), t=c.of(3, 1), adaptive=c.of(None, 0.1, 0.5)), sgl=dict(n=c.of(3, 5), degree=2, diff_order=c.of(0, 1)),
              sg=dict(n=4, degree=c.of(2, 3), mode=c.of('mirror', 'nearest', 'wrap', 'constant', 'interp')))[what]

    def run(what, x, kw):
        if what == 'hp':
            return sg.HodrickPrescott(**kw)(x)
        if what == 'hampel':
            return sg.HampelFilter(**kw)(x)
        if what == 'sgl':
            s = sg.SavitzkyGolay(**kw)
            return [s.smooth_last(x[:11], k) for k in range(1, 4)]
        return sg.SavitzkyGolay(**kw)(x)
    return tries(run), (what, x, kw)


# ---- data containers --------------------------------------------------------------------------------------
@op('PlotData.flags', 8, plot=True, nothread=True)
def _(c):
    x = np.linspace(0.1, 3, 8)

    def run(x, flag, ci):
        d = wc.PlotData(np.exp(-x), x, title='t', xlab='x', ylab='y')
        if ci:
            d.dataCI = np.column_stack((d.data * 0.9, d.data * 1.1))
        try:
            d.plot(plotflag=flag)
        except (TypeError, ValueError, IndexError) as e:
            return type(e).__name__
    return _figure(run), (x, c.of(1, 2, 3, 5, 6, 7, 11, 101, 231, 4), c.of(False, True))


@op('PlotData.flags2', 6, plot=True, nothread=True)
def _(c):
    x = np.linspace(0.1, 3, 6)

    def run(x, flag, cl):
        d = wc.PlotData(np.outer(np.exp(-x), x), [x, x], title='t', xlab='x', ylab='y')
        if cl:
            d.clevels = np.array([0.1, 0.4, 0.8])
            d.plevels = np.array([90, 50, 10])
        try:
            d.plot(plotflag=flag)
        except (TypeError, ValueError, IndexError) as e:
            return type(e).__name__
    return _figure(run), (x, c.of(1, 5, 6, 7, 8, 9, 10), c.of(False, True))


@op('PlotData.eval', 6)
def _(c):
    x = np.linspace(0, 3, 8)

    def run(x, p, method):
        d = wc.PlotData(np.exp(-x), x)
        return d.eval_points(p, method=method), d.integrate(0.2, 2.), d.to_cdf().data if hasattr(d, 'to_cdf') else None
    return tries(run), (x, np.array([0.3, 1.7]), c.of('linear', 'nearest', 'cubic'))


@op('containers.labels', 3)
def _(c):
    def run(t):
        a = wc.AxisLabels(t, 'x', ylab='y')
        b = a.copy()
        b.title = 'other'
        return repr(a), str(b)
    return run, (c.of('t', '', 'Q'),)


@op('containers.flag_names', 4)
def _(c):
    return (lambda f: (wc.plotflag2plottype_1d(f % 5), wc.plotflag2transform_id(f), wc.plotscale(f))), (c.of(1, 112, 223, 351),)
