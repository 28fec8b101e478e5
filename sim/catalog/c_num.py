"""integration, interpolation, polynomials, Gaussian probabilities, filters, cycle matrices"""
import numpy as np
import wafo.gaussian as wg
import wafo.integrate as wi
import wafo.integrate_oscillating as wio
import wafo.interpolate as wip
import wafo.polynomial as wp
import wafo.padua as pad
import wafo.markov as mk
import wafo.sg_filter as sg
from wafo.sg_filter._core import evar
from .base import op, kind, mut, setter


# ---- multinormal probabilities ----------------------------------------------------------------------------
def _cov(n, r):
    return r ** np.abs(np.subtract.outer(np.arange(n), np.arange(n)))


@kind('rind', 6, exclusive=True)
def _(c):
    return wg.Rind(method=c.of(0, 3), abseps=c.of(1e-4, 1e-3), releps=c.of(1e-3, 1e-2), seed=c.of(1, 7), speed=c.of(None, None, 4, 7),
                   nc1c2=c.of(2, 1))


@op('Rind.call', 6, kind='rind', rtol=1e-7, atol=1e-9)
def _(c):
    n = c.of(3, 4)
    cov = _cov(n, c.of(0.3, 0.6))
    lo = np.full(n, c.of(-1.0, -np.inf, -0.5))
    return (lambda r, cv, m, a, b: r(cv, m, a, b)[0]), (cov, np.zeros(n), lo, np.full(n, c.of(0.5, 1.5)))


@op('Rind.call_xc', 4, kind='rind', rtol=1e-7, atol=1e-9)
def _(c):
    n = 3
    cov = _cov(n, c.of(0.3, 0.6))
    return (lambda r, cv, m, a, b, i, x, nt: r(cv, m, a, b, i, x, nt)[0]), \
        (cov, np.zeros(n), np.array([[c.of(0.0, -0.5)]]), np.array([[np.inf]]), np.array([-1, 1]), np.array([[c.of(0.2, 0.5)]]), 2)


@op('gaussian.cdflomax', 3)
def _(c):
    return wg.cdflomax, (np.linspace(-2, 4, 7), c.of(0.3, 0.7), c.of(1.0, 2.0))


@op('gaussian.prbnormtndpc', 4)
def _(c):
    return wg.prbnormtndpc, (np.array(c.of([0.3, 0.4, 0.5], [0.5, 0.1, 0.2])), np.full(3, -2.), c.of(np.zeros(3), np.ones(3))), dict(abseps=c.of(1e-4, 1e-3))


@op('gaussian.prbnormndpc', 4)
def _(c):
    return wg.prbnormndpc, (np.array(c.of([0.3, 0.4, 0.5], [0.5, 0.1, 0.2])), np.full(3, -2.), c.of(np.zeros(3), np.ones(3))), dict(usesimpson=c.of(True, False), usebreakpoints=c.of(False, True))


@op('gaussian.prbnormnd', 4, rtol=5e-2, atol=5e-3)
def _(c):
    return (lambda r, a, b, e: wg.prbnormnd(r, a, b, abseps=e)), (_cov(3, c.of(0.2, 0.5)), np.full(3, -2.), c.of(np.zeros(3), np.ones(3)), c.of(1e-4, 1e-3))


@op('gaussian.cdfnorm2d', 3)
def _(c):
    x = np.array([-2., -.5, 0.3, 1.5])
    return wg.cdfnorm2d, (x, c.of(x[::-1].copy(), x), c.of(0.3, 0.5, np.array([-.9, 0., .5, .95])))


@op('gaussian.prbnorm2d', 3)
def _(c):
    return wg.prbnorm2d, (np.array([-1., -2.]), np.array([1., c.of(.5, 2.)]), c.of(0.3, 0.6))


# ---- integration ------------------------------------------------------------------------------------------
_FUNS = (np.exp, lambda x: 1 / (1 + x ** 2), lambda x: np.cos(3 * x) * x)


@op('integrate.clencurt', 5, cb=True)
def _(c):
    return wi.clencurt, (c.fn(c.of(*_FUNS)), c.of(0., np.array([0., 0.5])), 2.), dict(n=c.of(5, 7))


@op('integrate.clencurt_data', 2)
def _(c):
    x = np.linspace(0, 1, 11)
    return wi.clencurt, (c.of(np.exp(x), x ** 2), 0., 1.), dict(n=5)


@op('integrate.romberg', 4, cb=True)
def _(c):
    return wi.romberg, (c.fn(c.of(*_FUNS)), 0., c.of(2., 4.)), dict(releps=c.of(1e-3, 1e-6))


@op('integrate.gaussq', 10, cb=True)
def _(c):
    return wi.gaussq, (c.fn(c.of(*_FUNS[1:])), 0., c.of(2., np.array([1., 2., 3.]))), \
        dict(releps=c.of(1e-3, 1e-8), wfun=1)


@op('integrate.gaussq_w', 16, cb=True)
def _(c):
    wfun = c.of(2, 3, 4, 4, 5, 6, 7, 8)
    a, b = {2: (-np.inf, np.inf), 3: (0., np.inf)}.get(wfun, (-1., 1.))
    return wi.gaussq, (c.fn(c.of(lambda x: x ** 2 + 1, lambda x: np.cos(x))), a, b), \
        dict(wfun=wfun, alpha=c.of(0, 0.5, 0.5000001), beta=c.of(0, 0.3, 0.3000001), releps=c.of(1e-3, 1e-10))


@op('integrate.quadgr', 5, cb=True)
def _(c):
    return wi.quadgr, (c.fn(c.of(*_FUNS[1:])), c.of(0., -1.), c.of(1., 2.)), dict(abseps=c.of(1e-5, 1e-9))


@op('integrate.quadgr_inf', 3, cb=True)
def _(c):
    return wi.quadgr, (c.fn(lambda x: np.exp(-x ** 2)), c.of(0., -np.inf), c.of(np.inf, 1.)), dict(abseps=1e-6)


@op('integrate.qrule', 16)
def _(c):
    return wi.qrule, (c.of(4, 6, 9),), dict(wfun=c.of(1, 2, 3, 4, 4, 5, 6, 7, 8, 9), alpha=c.of(0, 0.5, 0.5000001), beta=c.of(0, 0.3))


@op('integrate.roots', 8)
def _(c):
    n, meth = c.of(4, 7, 11), c.of('newton', 'eigenvalue')
    f = c.of(lambda n, m: wi.h_roots(n, m), lambda n, m: wi.la_roots(n, 0.5, m), lambda n, m: wi.j_roots(n, .2, .4, m),
             lambda n, m: wi.p_roots(n, 'newton' if m == 'newton' else 'eigenvalue', a=0, b=2), lambda n, m: wi.p_roots(n, 'newton1'))
    return f, (n, meth)


@op('integrate.boole', 2)
def _(c):
    x = np.linspace(0, 2, 9)
    return (lambda y, x: (wi.boole(y, x), wi.chebychev(y, x))), (c.of(np.exp(x), x ** 3), x)


_OF, _OG = (lambda x: np.exp(-x), lambda x: x * 1.0), (lambda x: x, lambda x: x ** 2)
_ODG = (lambda x: np.ones_like(x), lambda x: 2 * x)


def _osc(c, cls, **kw):
    i = c.of(0, 1)
    f, g, dg = c.fn(c.of(*_OF)), c.fn(_OG[i]), c.fn(_ODG[i])
    a, b, w = c.of((0.5, 1.5), (1, 2)) + (c.of(10., 40.),)
    kw['basis'] = c.of(wio.chebyshev_basis, wio.poly_basis)

    def run(f, g, dg, a, b, w, kw):
        return cls(f, g, dg, a=a, b=b, full_output=True, **kw)(w)
    return run, (f, g, dg, a, b, w, kw)


@op('osc.QuadOsc', 4, cb=True, rtol=1e-7, atol=1e-10)
def _(c):
    return _osc(c, wio.QuadOsc, s=c.of(9, 15))


@op('osc.AdaptiveLevin', 4, cb=True, rtol=1e-7, atol=1e-10)
def _(c):
    return _osc(c, wio.AdaptiveLevin, s=c.of(1, 2), endpoints=True)


@op('osc.EvansWebster', 4, cb=True, rtol=1e-7, atol=1e-10)
def _(c):
    return _osc(c, wio.EvansWebster, s=8)


@op('osc.points', 4)
def _(c):
    f = c.of(wio.chebyshev_extrema, wio.chebyshev_roots, wio.tanh_sinh_nodes, wio.tanh_sinh_open_nodes, wio.adaptive_levin_points)
    return f, (c.of(5, 8), c.of(10, 12))


# ---- interpolation ----------------------------------------------------------------------------------------
@op('interpolate.savitzky_golay', 4)
def _(c):
    y = c.series(60)[1]
    return wip.savitzky_golay, (y, c.of(7, 11), c.of(2, 3)), dict(deriv=c.of(0, 1))


@op('interpolate.savitzky_golay_piecewise', 2)
def _(c):
    x = np.concatenate((np.linspace(0, 3, 30), np.linspace(3, 0, 30)[1:]))
    return wip.savitzky_golay_piecewise, (x, np.cos(x * c.of(1, 2))), dict(kernel=11, order=c.of(3, 4))


@op('interpolate.sgolay2d', 4)
def _(c):
    return wip.sgolay2d, (c.normal(12, 13), c.of(5, 7), c.of(2, 3)), dict(derivative=c.of(None, 'col', 'row', 'both'))


@kind('ppform', 3)
def _(c):
    return wip.PPform(c.normal(3, 4), np.array([0., 1., 2., 3.5, 5.]), fill=c.of(0.0, np.nan))


@kind('smoothspline', 5)
def _(c):
    x = np.linspace(0, 4, 15)
    y = np.sin(x * c.of(1, 2)) + 0.1 * c.normal(15)
    return wip.SmoothSpline(x, y, p=c.of(None, 0.9, 0.5, 1), lin_extrap=c.of(True, False), var=c.of(1, 0.5))


for _k in ('ppform', 'smoothspline'):
    op(_k + '.call', 2, kind=_k)(lambda c: ((lambda p, x: p(x)), (c.of(np.linspace(-1, 6, 9), np.array([0.5, 1.5])),)))
    op(_k + '.derivative', 2, kind=_k)(lambda c: ((lambda p, x: (p.derivative()(x), p.integrate()(x))), (c.of(np.linspace(-1, 6, 9), np.array([0.5, 1.5])),)))
    op(_k + '.linear_extrapolate', 2, kind=_k)(lambda c: ((lambda p, x: p.linear_extrapolate(output=True)(x)), (np.linspace(-1, 6, c.of(9, 7)),)))
    mut(_k + '.extrapolate', 1, kind=_k)(lambda c: ((lambda p: p.linear_extrapolate(output=False)), ()))


@op('SmoothSpline.build', 6)
def _(c):
    x = np.linspace(0, 4, 15)
    y = np.sin(x * c.of(1, 2)) + 0.1 * c.normal(15)
    return (lambda x, y, p, l, v, xi: wip.SmoothSpline(x, y, p, l, v)(xi)), \
        (x, y, c.of(None, 0.9, 0.), c.of(True, False), c.of(1, .5), np.linspace(-1, 5, 9))


@op('interpolate.slopes', 10)
def _(c):
    x = np.linspace(0, 4, 9)
    return wip.slopes, (x, c.of(np.sin(x), np.exp(-x), np.floor(x))), \
        dict(method=c.of('secant', 'parabola', 'stineman', 'catrom', 'cardinal', 'pchip', 'akima', 'steffen', 'fritsch-carlson'),
             tension=c.of(0, .3), monotone=c.of(False, True))


@op('interpolate.stineman_interp', 3)
def _(c):
    x = np.linspace(0, 4, 9)
    return wip.stineman_interp, (np.linspace(.1, 3.9, 7), x, c.of(np.sin(x), np.exp(-x)), c.of(None, np.cos(x)))


@op('StinemanInterp', 3)
def _(c):
    x = np.linspace(0, 4, 9)
    return (lambda x, y, yp, m, mono, xi: wip.StinemanInterp(x, y, yp, method=m, monotone=mono)(xi)), \
        (x, c.of(np.sin(x), np.exp(-x)), c.of(None, np.cos(x)), c.of('stineman', 'parabola'), c.of(False, True), np.linspace(.1, 3.9, 7))


@op('interpolate.hermite', 4)
def _(c):
    x = np.linspace(0, 4, 9)
    cls = c.of(wip.Pchip, wip.CubicHermiteSpline)
    return (lambda x, y, xi: cls(x, y)(xi)), (x, c.of(np.sin(x), np.exp(-x)), np.linspace(.1, 3.9, 7))


@op('interpolate.interp3', 2)
def _(c):
    x, y, z = np.linspace(0, 1, 5), np.linspace(0, 1, 6), np.linspace(0, 1, 7)
    v = np.cos(x[:, None, None]) * y[None, :, None] ** 2 + z * c.of(1., 2.)
    xi = np.linspace(.2, .8, 3)
    return wip.interp3, (x, y, z, v, xi, xi.copy(), xi.copy()), dict(method=c.of('linear', 'nearest', 'cubic'))


# ---- polynomials ------------------------------------------------------------------------------------------
_P = (np.array([1., 2., 3., 4.]), np.array([0., 0., 2., -1.]), np.array([3., 0., 1.]))


@op('polynomial.small', 12)
def _(c):
    p = c.of(*_P)
    if c.of(0, 0, 1):
        p = np.poly1d(p)
    f = c.of(lambda p: wp.polyint(p, 2), lambda p: wp.polyder(p), lambda p: wp.polyreloc(p, 1.5, .5), lambda p: wp.polyrescl(p, 2., 3.),
             lambda p: wp.polytrim(p), lambda p: wp.poly2hstr(p), lambda p: wp.poly2str(p, 's'), lambda p: wp.polyshift(p, 0, 2),
             lambda p: wp.polyishift(p, 0, 2), lambda p: wp.poly2cheb(p), lambda p: wp.cheb2poly(p), lambda p: wp.polyint(p, 1, [2]))
    return f, (p,)


@op('polynomial.ortho', 3)
def _(c):
    x = np.linspace(0, 10, 30)
    y = np.sin(x / c.of(2, 3)) + .01 * c.normal(30)
    return (lambda x, y, n: (wp.polydeg(x, y), wp.orthofit(x, y, n), wp.orthoval(wp.orthofit(x, y, n), x),
                             wp.ortho2poly(wp.orthofit(x, y, n)))), (x, y, c.of(3, 4))


@op('polynomial.cheb', 6)
def _(c):
    ck = c.of(*_P)
    a, b = c.of((-1, 1), (0, 2))
    return (lambda x, ck, a, b, k: (wp.chebval(x, ck, a, b, kind=k), wp.chebder(ck, a, b), wp.chebint(ck, a, b))), \
        (np.linspace(-.9, .9, 7), ck, a, b, c.of(1, 2))


@op('polynomial.chebnodes', 3)
def _(c):
    return (lambda n, k, x: (wp.chebroot(n, k), wp.chebextr(n), wp.chebpoly(n, x, k))), (c.of(4, 7), c.of(1, 2), c.of(None, np.linspace(-1, 1, 5)))


@op('polynomial.chebfit', 4, cb=True)
def _(c):
    return wp.chebfit, (c.fn(c.of(*_FUNS)),), dict(n=c.of(5, 9), a=c.of(-1, 0), b=2)


@op('polynomial.chebfit_dct', 4, cb=True)
def _(c):
    if c.of(0, 1):
        return wp.chebfit_dct, (c.fn(c.of(*_FUNS)),), dict(n=(c.of(5, 9),), domain=c.of(None, (0, 2)))
    return wp.chebfit_dct, (c.fn(lambda x, y: np.exp(x) * y),), dict(n=(c.of(4, 5), 6))


@op('polynomial.chebinterpolate', 3, cb=True)
def _(c):
    return wp.chebinterpolate, (c.fn(c.of(*_FUNS)), c.of(5, 9)), dict(domain=c.of(None, (0, 2)))


@op('polynomial.padefit', 2)
def _(c):
    return wp.padefit, (c.of(np.array([1 / 24., 1 / 6., .5, 1., 1.]), np.array([.2, .3, .4, 1., 2., 1.])),), dict(m=c.of(None, 2))


@op('polynomial.padefitlsq', 3, cb=True)
def _(c):
    return wp.padefitlsq, (c.fn(c.of(np.exp, np.cos)), 3, c.of(2, 3)), dict(a=c.of(0, -1), b=2, end_points=c.of(True, False))


@op('polynomial.chebnd', 3)
def _(c):
    x, y = np.linspace(-1, 1, 7), np.linspace(-1, 1, 6)
    X, Y = np.meshgrid(x, y, indexing='ij')

    def run(X, Y, f, deg, w):
        ck = wp.chebfitnd((X, Y), f, deg, w=w)
        return ck, wp.chebvalnd(ck, X, Y), wp.chebgridnd(ck, X[:, 0], Y[0])
    return run, (X, Y, np.exp(X) * Y ** 2, c.of([3, 4], [4, 2]), None)


@op('padua', 5, cb=True)
def _(c):
    f = c.fn(c.of(lambda x, y: np.exp(x) * y, lambda x, y: np.cos(3 * x + y), lambda x, y: x * 0 + 1.5))
    dom = c.of((-1, 1, -1, 1), (0, 2, 0, 1))

    def run(n, f, dom, fit):
        p = pad.padua_points(n, dom)
        C, err = fit(p, f)
        x = np.linspace(dom[0], dom[1], 4)
        return p, C, err, pad.padua_val(x, x * 0 + dom[2] + .3, C, dom), pad.padua_cubature(C, dom)
    return run, (c.of(5, 6, 9), f, dom, pad.padua_fit)


# ---- cycle matrices ---------------------------------------------------------------------------------------
def _mat(c):
    f = mk.mktestmat((-1, 1, c.of(7, 9)), lam=c.of(1, 2), s=c.of(None, .4))
    f = np.asarray(f[1] if isinstance(f, tuple) else f, dtype=float)
    return f / f.sum()


@op('markov.nt', 5)
def _(c):
    F = _mat(c)
    k = c.of(1, 11)
    return (lambda F, k: (mk.cmat2nt(F, k), mk.nt2cmat(mk.cmat2nt(F, k), k))), (F, k)


@op('markov.mctp2rfc', 4)
def _(c):
    F = _mat(c)
    return mk.mctp2rfc, (F,) + c.of((), (F.copy(),))


@op('markov.mctp2tc', 4)
def _(c):
    F = _mat(c)
    return mk.mctp2tc, (F, c.of(0.0, 0.2), (-1, 1, len(F))), dict(f_mM=c.of(None, F.copy()))


@op('markov.iter_', 4)
def _(c):
    F = _mat(c)
    return mk.iter_, (mk.mctp2rfc(F),), dict(fmM_0=c.of(None, F.copy()), k=c.of(1, 3))


@op('markov.arfm2mctp', 3)
def _(c):
    return mk.arfm2mctp, (mk.mctp2rfc(np.fliplr(_mat(c))),)


@op('markov.mktestmat', 3)
def _(c):
    return mk.mktestmat, ((-1, 1, c.of(7, 9)),), dict(lam=c.of(1, 2), numsubzero=c.of(0, 1))


# ---- filters ----------------------------------------------------------------------------------------------
@kind('savgol', 4)
def _(c):
    return sg.SavitzkyGolay(c.of(3, 4), degree=c.of(1, 2), diff_order=c.of(0, 1), axis=-1, mode=c.of('interp', 'nearest'))


@op('SavitzkyGolay.call', 3, kind='savgol')
def _(c):
    y = c.series(40)[1]
    return (lambda f, y: f(y)), (c.of(y, np.vstack((y, y ** 2))),)


@op('SavitzkyGolay.smooth_last', 3, kind='savgol')
def _(c):
    y = c.series(40)[1]
    return 'smooth_last', (c.of(y, y * 1.5), c.of(1, 2))


def _hole(c, y):
    y = y.copy()
    y[7] = np.nan
    return y


@kind('smoothnd', 6)
def _(c):
    return sg.SmoothNd(s=c.of(None, 5.0, 10.), weight=c.of(None, 'bisquare', 'cauchy', 'talworth'), robust=c.of(False, True), fulloutput=c.of(False, True))


@op('SmoothNd.call', 4, kind='smoothnd')
def _(c):
    y = c.series(40)[1]
    return (lambda f, y: f(y)), (c.of(y, c.normal(8, 9), _hole(c, y)),)


@op('sg_filter.smoothn', 8)
def _(c):
    y = c.series(40)[1]
    y = c.of(y, c.normal(8, 9), _hole(c, y))
    return sg.smoothn, (y,), dict(s=c.of(None, 5.0), robust=c.of(False, True), weight=c.of(None, 'cauchy', np.ones(y.shape) * .7),
                                  z0=c.of(None, np.zeros(y.shape)), fulloutput=c.of(False, True))


@mut('SmoothNd.weight', 4, kind='smoothnd', fresh='smoothnd')
def _(c):
    return setter('weight'), (c.of('bisquare', 'cauchy', 'talworth', None),)


@op('sg_filter.evar', 3)
def _(c):
    return evar, (c.of(c.series(40)[1], c.normal(8, 9)),)


@kind('hodrick', 2)
def _(c):
    return sg.HodrickPrescott(w=c.of(50, 100))


@op('HodrickPrescott.call', 3, kind='hodrick')
def _(c):
    return (lambda f, y: f(y)), (c.of(c.series(40)[1], c.series(60)[1]),)


@kind('hampel', 4)
def _(c):
    return sg.HampelFilter(dx=c.of(None, 4), t=c.of(3, 2), adaptive=c.of(None, .1), fulloutput=c.of(False, True))


@op('HampelFilter.call', 4, kind='hampel', lazy=('UB', 'LB', 'ADX', 'NO', 'outliers', 'num_outliers', 'Y0'))
def _(c):
    t, y = c.series(60)
    y[20] += 10
    y[c.of(33, 40)] -= 8
    return (lambda f, y, t: f(y, t)), (y, c.of(None, np.arange(60) * 1.5))


@kind('kalman', 5)
def _(c):
    n = c.of(1, 1, 2)
    if n == 1:
        k = sg.Kalman(R=c.of(1., 2.), x=c.of(None, 0.5), P=c.of(None, 1.), A=c.of(None, .9), B=c.of(0, 1.), Q=c.of(None, .1), H=1)
    else:
        k = sg.Kalman(R=0.5, x=np.array([[0.], [1.]]), P=np.eye(2), A=np.array([[1., .1], [0., 1.]]), Q=np.eye(2) * .01, H=np.array([[1., 0]]))
    for z in (0.3, -0.2, 0.5)[:c.of(0, 2, 3)]:
        k(z)
    return k


@op('Kalman.steps', 4, kind='kalman')
def _(c):
    def run(k, zs):
        import copy
        k2 = copy.deepcopy(k)
        return [k2(z) for z in zs], k2.x, k2.P
    return run, (c.of([.1, .2], [1., -1., .5]),)


@mut('Kalman.step', 3, kind='kalman')
def _(c):
    return (lambda k, z: k(z)), (c.of(.1, .7, -.4),)


@mut('Kalman.step_bad', 2, kind='kalman', bad=True)
def _(c):
    return (lambda k, z: k(z)), (c.of('x', np.ones((2, 3))),)


@mut('Kalman.reset', 1, kind='kalman')
def _(c):
    return 'reset', ()


@mut('Kalman.set', 4, kind='kalman')
def _(c):
    return (lambda k, v: setattr(k, 'R', v)), (c.of(1.5, 3.),)
