"""kernel density estimation, distributions and fitting"""
import numpy as np
import wafo.kdetools as wk
import wafo.kdetools.gridding as wgr
import wafo.kdetools.kernels as wkk
import wafo.stats as wst
import wafo.stats.core as wsc
import wafo.stats.estimation as wse
from .base import op, kind, mut, setter


def _sample(c, n=None, d=1):
    n = n or c.of(30, 40)
    rng = c.np(3)
    x = rng.rayleigh(1.0, size=n) if d == 1 else rng.rayleigh(1.0, size=(d, n))
    return x


# ---- kernels and gridding ---------------------------------------------------------------------------------
_KN = ('gaussian', 'epan', 'biweight', 'triweight', 'p1epan', 'rectangular', 'triangular', 'laplace', 'logistic', 'p1biweight', 'p1triweight')


@kind('kernel', 11)
def _(c):
    return wk.Kernel(c.of(*_KN), fun=c.of('hste', 'hns'))


@op('Kernel.eval', 2, kind='kernel')
def _(c):
    x = np.linspace(-1.2, 1.2, 9)
    return (lambda k, x: (k(x), k.eval_points(x[np.newaxis, :]), k.norm_factor(1, 5), k.stats(), k.effective_support())), (c.of(x, x * 2),)


@op('Kernel.smooth', 8, kind='kernel', rtol=1e-7)
def _(c):
    f = c.of('hns', 'hos', 'hmns', 'hste', 'hisj', 'hstt', 'hldpi', 'hscv')
    kw = {}
    if f in ('hste', 'hstt'):
        kw = c.of({}, dict(h0=np.array([0.4])), dict(h0=np.array([0.5]), inc=64))
    elif f in ('hldpi', 'hscv'):
        kw = c.of({}, dict(inc=64))
    return f, (_sample(c)[np.newaxis, :],), kw


@op('Kernel.get_smoothing', 2, kind='kernel', rtol=1e-7)
def _(c):
    return 'get_smoothing', (_sample(c)[np.newaxis, :],)


@op('Kernel.constants', 2, kind='kernel')
def _(c):
    return (lambda k, n: (k.kernel.get_amise_constant(n), k.kernel.get_ste_constant(n))), (c.of(20, 50),)


@op('kernels.gauss', 2)
def _(c):
    return (lambda t, n, r: (wkk.mkernel_gaussian.deriv4_6_8_10(t, numout=n), wkk.mkernel_gaussian.psi(r))), \
        (np.linspace(-1, 1, 5), c.of(2, 4), c.of(4, 6))


@op('kernels.mkernel', 3)
def _(c):
    return (lambda x, n: wkk.mkernel(x, n)), (c.normal(2, 6), c.of('gauss', 'epan', 'lapl'))


@op('kernels.qlevels', 4)
def _(c):
    x = np.linspace(-3, 3, 15)
    pdf = np.exp(-x[:, None] ** 2 / 2 - x ** 2 / c.of(2, 4))
    return wkk.qlevels, (pdf,), dict(p=c.of((10, 50, 90), [20, 60]), xi=c.of((), (x, x)))


@op('kernels.qlevels2', 3)
def _(c):
    return wkk.qlevels2, (c.normal(c.of(40, 50)),), dict(p=c.of((10, 50, 90), [20, 60]), method=c.of(1, 2, 3))


@op('kernels.iqrange', 2)
def _(c):
    return (lambda x, ax: (wkk.iqrange(x, ax), wkk.sphere_volume(3, 2.))), (c.normal(20, 2), c.of(None, 0))


@op('gridding.accum', 4)
def _(c):
    a = np.array([[1., 2, 3], [4, -1, 6], [-1, 8, 9]])
    am = np.array([[0, 1, 2], [2, 0, 1], [1, 2, 0]])
    f = c.of(lambda m, a: wgr.accum(m, a), lambda m, a: wgr.accumsum(m, a, (3,)),
             lambda m, a: wgr.accum(m, a, func=lambda x: np.prod(x), fill_value=-1.))
    return f, (am, a * c.of(1, 2))


@op('gridding.gridcount1', 4)
def _(c):
    x = np.linspace(-1., 6., c.of(15, 20))
    return wgr.gridcount, (_sample(c), c.of(x, x[np.newaxis, :])), dict(y=c.of(1, 2.0))


@op('gridding.gridcount2', 2)
def _(c):
    x = np.linspace(-1., 7., 10)
    return wgr.gridcount, (_sample(c, 20, 2), np.vstack((x, x)) if c.of(0, 1) else [x, x * 1.0])


# ---- density estimators -----------------------------------------------------------------------------------
@kind('kde', 8, lazy=('args',))
def _(c):
    return wk.KDE(_sample(c), hs=c.of(None, 0.4, -1.0), kernel=c.of(None, wk.Kernel('epan')), alpha=c.of(0.0, 0.5),
                  xmin=c.of(None, 0.0), xmax=c.of(None, 6.0), inc=c.of(32, 64))


@kind('kde2', 4, lazy=('args',))
def _(c):
    return wk.KDE(_sample(c, 25, 2), hs=c.of(None, np.array([0.4, 0.6])), alpha=c.of(0.0, 0.4), inc=c.of(16, 24))


@kind('tkde', 8, lazy=('args',))
def _(c):
    return wk.TKDE(_sample(c), hs=c.of(None, 0.3), kernel=c.of(None, wk.Kernel('epan')), alpha=c.of(0.0, 0.3), inc=c.of(32, 64), L2=c.of(0.5, 0, 1),
                   xmin=c.of(None, 0.01))


@kind('tkde2', 2, lazy=('args',))
def _(c):
    return wk.TKDE(_sample(c, 25, 2), hs=c.of(None, np.array([0.4, 0.6])), inc=16, L2=0.5)


_G = np.linspace(0.2, 3.5, 9)
for _k in ('kde', 'tkde'):
    op(_k + '.eval_points', 3, kind=_k, rtol=1e-8)(lambda c: ('eval_points', (c.of(_G, _G[:4]),)))
    op(_k + '.eval_grid', 3, kind=_k, rtol=1e-8, lazy=('args',))(lambda c: ('eval_grid', (c.of(_G, np.linspace(.1, 4, 12)),), dict(output=c.of('value', 'plotobj'))))
    op(_k + '.eval_grid_fast', 4, kind=_k, rtol=1e-8, lazy=('args',))(lambda c: ('eval_grid_fast', (), dict(output=c.of('value', 'plotobj'))))
    op(_k + '.eval_grid_fast_x', 3, kind=_k, rtol=1e-8, lazy=('args',))(lambda c: ('eval_grid_fast', (np.linspace(-.1, c.of(7., 6.), c.of(40, 50)),)))
    op(_k + '.call', 2, kind=_k, rtol=1e-8, lazy=('args',))(lambda c: ((lambda k, x: k(x)), (c.of(_G, _G[:5]),)))
for _k in ('kde2', 'tkde2'):
    op(_k + '.eval_points', 2, kind=_k, rtol=1e-8)(lambda c: ('eval_points', (np.vstack((_G, c.of(_G, _G[::-1]))),)))
    op(_k + '.eval_grid_fast', 2, kind=_k, rtol=1e-8, lazy=('args',))(lambda c: ('eval_grid_fast', (), dict(output=c.of('value', 'plot'))))
    op(_k + '.eval_grid', 2, kind=_k, rtol=1e-8, lazy=('args',))(lambda c: ('eval_grid', (_G, c.of(_G, _G[:5]))))


@op('kde.eval_points_y', 3, kind='kde', rtol=1e-8, lazy=('args',))
def _(c):
    def run(k, x, r):
        return k.eval_grid_fast(x, y=np.cos(k.dataset[0]), r=r)
    return run, (np.linspace(-.1, 6, 40), c.of(0, 1))


@op('kde.props', 1, kind='kde')
def _(c):
    return (lambda k: (k.hs, k.inc, k.alpha, k.norm_factor, k.sigma, k.n, k.d, k.xmin, k.xmax)), ()


@op('tkde.props', 1, kind='tkde')
def _(c):
    return (lambda k: (k.hs, k.inc, k.sigma, k.n, k.d, k.xmin, k.xmax)), ()


@kind('kreg', 6, lazy=('args',))
def _(c):
    x = np.linspace(0, 3, 30)
    y = np.exp(-x) * 2 + .05 * c.normal(30)
    return wk.KRegression(x, y, p=c.of(0, 1), hs=c.of(None, .3), alpha=c.of(0.0, 0.3), inc=c.of(32, 48), xmin=-.5, xmax=3.5)


op('kreg.fast', lazy=('args',), nv=3, kind='kreg', rtol=1e-8)(lambda c: ('eval_grid_fast', c.of((), (np.linspace(-.4, 3.6, 30),)), dict(output=c.of('value', 'plotobj'))))
op('kreg.eval_grid', lazy=('args',), nv=3, kind='kreg', rtol=1e-8)(lambda c: ('eval_grid', (c.of(_G, np.linspace(.1, 3, 12)),), dict(output=c.of('value', 'plotobj'))))
op('kreg.call', lazy=('args',), nv=2, kind='kreg', rtol=1e-8)(lambda c: ((lambda k, x: k(x)), (np.linspace(-.4, 3.6, c.of(30, 35)),)))


@kind('bkreg', 4)
def _(c):
    n = 40
    x = np.linspace(0, 4, n)
    y = (c.uniform(n) < 1 / (1 + np.exp(-(x - 2) * 2)))
    return wk.BKRegression(x, y * 1, method=c.of('beta', 'wilson'), a=c.of(.05, .1), b=.05, hs_e=c.of(None, .6), hs=c.of(None, .7), p=c.of(0, 1))


op('bkreg.empirical', 3, kind='bkreg', rtol=1e-8)(lambda c: ('prb_empirical', (), dict(hs_e=c.of(None, .5), alpha=c.of(.05, .1))))


@op('bkreg.smoothed', 3, kind='bkreg', rtol=1e-8)
def _(c):
    return (lambda k, hs, al: k.prb_smoothed(k.prb_empirical(), hs, alpha=al)), (c.of(.5, .8), c.of(.05, .1))


@op('bkreg.best', 1, kind='bkreg', rtol=1e-8, slow=True)
def _(c):
    return (lambda k, hv: k.prb_search_best(hsvec=hv)), (np.array([.4, .6, .9]),)


op('bkreg.ci', 2, kind='bkreg')(lambda c: ('prb_ci', (np.array([10., 20., 30.]), np.array([.1, .5, .9])), dict(alpha=c.of(.05, .1))))

for _k, _cls in (('kde', 'kde'), ('tkde', 'tkde')):
    mut(_k + '.hs', 3, kind=_k)(lambda c: (setter('hs'), (c.of(0.3, None, 0.5),)))
    mut(_k + '.inc', 3, kind=_k)(lambda c: (setter('inc'), (c.of(32, 48, 64),)))
    mut(_k + '.dataset', 3, kind=_k)(lambda c: (setter('dataset'), (_sample(c),)))
    mut(_k + '.xmin', 2, kind=_k)(lambda c: (setter('xmin'), (c.of(None, 0.05),)))
    mut(_k + '.xmax', 2, kind=_k)(lambda c: (setter('xmax'), (c.of(None, 5.0),)))
mut('kde.alpha', 3, kind='kde')(lambda c: (setter('alpha'), (c.of(0.0, 0.3, 0.5),)))
mut('kde.hs_bad', 3, kind='kde', bad=True)(lambda c: (setter('hs'), (c.of(np.ones(3), 'x', np.ones((2, 2))),)))
mut('kde.alpha_bad', 2, kind='kde', bad=True)(lambda c: (setter('alpha'), (c.of('x', np.ones(7)),)))
mut('kde.dataset_bad', 2, kind='kde', bad=True)(lambda c: (setter('dataset'), (c.of('x', [[1., 2.], [3.]]),)))
mut('tkde.hs_bad', 2, kind='tkde', bad=True)(lambda c: (setter('hs'), (c.of(np.ones(3), 'x'),)))
mut('bkreg.hs_e', 3, kind='bkreg')(lambda c: (setter('hs_e'), (c.of(.5, .8, None),)))


# ---- statistics -------------------------------------------------------------------------------------------
@op('stats.edf', 4)
def _(c):
    return wsc.edf, (_sample(c),), dict(method=c.of(1, 2, 3))


@op('stats.edfcnd', 3)
def _(c):
    return wsc.edfcnd, (_sample(c), c.of(None, .5)), dict(method=c.of(1, 2))


@op('stats.reslife', 4)
def _(c):
    return wsc.reslife, (_sample(c, 60),), dict(u=c.of(None, np.linspace(.5, 1.5, 5)), nu=c.of(None, 6), alpha=c.of(.05, .1), nmin=c.of(3, 5))


@op('stats.dispersion_idx', 3)
def _(c):
    t, x = c.series(200)
    return wsc.dispersion_idx, (x, t), dict(nu=c.of(5, 7), tb=c.of(5, 10), alpha=.05)


@op('stats.decluster', 4)
def _(c):
    t, x = c.series(100)
    return wsc.decluster, (x, t), dict(thresh=c.of(0.0, 0.4), tmin=c.of(1, 4))


@op('stats.findpot', 4)
def _(c):
    t, x = c.series(100)
    return wsc.findpot, (x, c.of(None, t)), dict(thresh=c.of(0.2, 0.4), tmin=c.of(1, 4))


@op('stats.extremal', 3)
def _(c):
    t, x = c.series(150)
    te = t[x > c.of(.3, .6)]
    return (lambda te: (wsc.declustering_time(te), wsc.interexceedance_times(te), wsc.extremal_idx(wsc.interexceedance_times(te)))), (te,)


@op('stats.returnperiod', 2)
def _(c):
    return (lambda p, n: (wsc.returnperiod2sf(p, n), wsc.sf2returnperiod(1 / p, n))), (np.array([10., 100.]), c.of(1, 20.))


_DIST = dict(weibull_min=(1.5,), rayleigh=(), gumbel_r=(), genpareto=(0.1,), genextreme=(0.1,), norm=(), expon=(), gamma=(2.,),
             exponweib=(1.2, 1.5), lognorm=(.5,), truncrayleigh=(.3,), ksone=(10,), t=(5.,), beta=(2., 3.))
for _n, _a in sorted(_DIST.items()):
    if not hasattr(wst, _n):
        continue

    def _mk(c, _n=_n, _a=_a):
        d = getattr(wst, _n)
        x = c.of(np.linspace(.05, .9, 5), np.linspace(.2, 3, 4))
        kw = dict(loc=c.of(0, .1), scale=c.of(1, 2.))
        return (lambda x, a, kw: (d.pdf(x, *a, **kw), d.cdf(x, *a, **kw), d.sf(x, *a, **kw), d.ppf(np.array([.1, .7]), *a, **kw),
                                  d.isf(.2, *a, **kw))), (x, _a, kw)
    op('stats.%s.fun' % _n, 4, nomem=False)(_mk)

    def _mk(c, _n=_n, _a=_a):
        d = getattr(wst, _n)
        return (lambda a, s: d.stats(*a, moments=s)), (_a, c.of('mv', 'mvsk'))
    if _n not in ('ksone',):
        op('stats.%s.stats' % _n, 2)(_mk)

    def _mk(c, _n=_n, _a=_a):
        d = getattr(wst, _n)
        return (lambda a, s, seed: d.rvs(*a, size=s, random_state=seed)), (_a, c.of(4, (2, 3)), c.of(1, 9))
    op('stats.%s.rvs' % _n, 2)(_mk)

    def _mk(c, _n=_n, _a=_a):
        d = getattr(wst, _n)
        return (lambda a, s: d.rvs(*a, size=s)), (_a, c.of(4, (2, 3)))
    op('stats.%s.rvs_free' % _n, 2, rng=True)(_mk)


@op('stats.dist.fit', 8, rtol=1e-5)
def _(c):
    n = c.of('weibull_min', 'rayleigh', 'gumbel_r', 'genpareto', 'norm', 'expon', 'genextreme')
    d = getattr(wst, n)
    return (lambda x, m: d.fit(x, floc=0.) if m == 'MM' else d.fit(x)), (_sample(c), c.of('MLE', 'MM'))


@op('stats.dist.fit2', 6, rtol=1e-5)
def _(c):
    n = c.of('weibull_min', 'rayleigh', 'gumbel_r', 'norm', 'expon', 'genpareto', 'genextreme')
    d = getattr(wst, n)
    return (lambda x, kw: d.fit2(x, **kw)), (_sample(c), c.of({}, dict(method='mps'), dict(floc=0.0)))


@op('stats.nlogps', 6)
def _(c):
    n = c.of('weibull_min', 'rayleigh', 'gumbel_r')
    d = getattr(wst, n)
    th = _DIST[n] + (c.of(0., -.1), c.of(1., 1.3))
    return (lambda th, x: (d._penalized_nlogps(th, np.sort(x)), d.nnlf(th, x))), (th, _sample(c))


@kind('fit', 8)
def _(c):
    n = c.of('weibull_min', 'rayleigh', 'gumbel_r')
    return getattr(wst, n).fit2(_sample(c), method=c.of('ml', 'mps'), alpha=c.of(.05, .1), **c.of({}, dict(floc=0.0) if n != 'gumbel_r' else {}))


@op('fit.values', 2, kind='fit', rtol=1e-5)
def _(c):
    return (lambda f, x: (f.pdf(x), f.cdf(x), f.sf(x), f.ppf([.1, .5]), f.stats(moments='mv'), f.par, f.par_cov)), (c.of(_G, _G[:3]),)


@op('fit.summary', 1, kind='fit', rtol=1e-4)
def _(c):
    return (lambda f: (f.LLmax, f.LPSmax, f.pvalue, f.par_lower, f.par_upper)), ()


@op('fit.profile', 3, kind='fit', rtol=1e-3, atol=1e-6, slow=True)
def _(c):
    return (lambda f, i, a: f.profile(i=i, n=20).get_bounds(a)), (c.of(None, None), c.of(.05, .1))


@op('fit.ci_quantile', 2, kind='fit', rtol=1e-3, atol=1e-6, slow=True)
def _(c):
    return (lambda f, x: f.profile_quantile(x=x, n=15, i=2).get_bounds(.05)), (c.of(1.5, 2.),)


@op('fit.ci_prob', 2, kind='fit', rtol=1e-3, atol=1e-6, slow=True)
def _(c):
    return (lambda f, x: f.profile_probability(np.log(x), n=15, i=2).get_bounds(.05)), (c.of(.2, .1),)


@op('fit.plot', 3, kind='fit', plot=True, nothread=True, rtol=1e-4)
def _(c):
    def plot(f, which):
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            getattr(f, which)()
            return [ln.get_xydata() for a in fig.axes for ln in a.lines]
        finally:
            plt.close(fig)
    return plot, (c.of('plotesf', 'plotecdf', 'plotresq', 'plotresprb', 'plotepdf', 'plotfitsummary'),)


@kind('reglogit', 3)
def _(c):
    y = np.array([1, 1, 2, 1, 3, 2, 3, 2, 3, 3] if c.of(0, 1) else [1, 2, 1, 1, 2, 2, 1, 2, 2, 2]).reshape(-1, 1)
    b = wsc.RegLogit()
    b.fit(y, np.arange(10.).reshape(-1, 1))
    return b


@op('RegLogit.predict', 3, kind='reglogit', rtol=1e-6)
def _(c):
    return 'predict', (c.of(None, np.array([[1.5], [4.]])),), dict(alpha=c.of(.05, .1), fulloutput=c.of(False, True))


@op('RegLogit.fit', 3, rtol=1e-6)
def _(c):
    y = np.array([1, 1, 2, 1, 3, 2, 3, 2, 3, 3] if c.of(0, 1) else [1, 2, 1, 1, 2, 2, 1, 2, 2, 2]).reshape(-1, 1)

    def run(y, X):
        b = wsc.RegLogit()
        b.fit(y, X)
        return b.params, b.deviance
    return run, (y, np.arange(10.).reshape(-1, 1) * c.of(1., 2.))


def _yx(c):
    y = np.array([1, 1, 2, 1, 3, 2, 3, 2, 3, 3] if c.of(0, 1) else [1, 2, 1, 1, 2, 2, 1, 2, 2, 2]).reshape(-1, 1)
    return y, np.arange(10.).reshape(-1, 1) * c.of(1., 2.)


mut('RegLogit.fit', 4, kind='reglogit')(lambda c: ('fit', _yx(c)))
mut('RegLogit.fit_bad', 2, kind='reglogit', bad=True)(lambda c: ('fit', (_yx(c)[0], c.of(np.arange(4.).reshape(-1, 1), np.full((10, 1), np.nan)))))


def _optimizer(func, x0, args=(), full_output=True, disp=0, **kw):
    from scipy import optimize
    return optimize.fmin(func, x0, args=args, full_output=full_output, disp=disp, maxiter=60, maxfun=200)


def _fitkw(c):
    return c.of(dict(method='ml'), dict(method='mps'), {}, dict(method='MPS', floc=0.0), dict(floc=0.0), dict(method='ml', search=False))


mut('fit.fit', 6, kind='fit')(lambda c: ('fit', (), _fitkw(c)))
mut('fit.fit_cb', 4, kind='fit', cb=True)(lambda c: ('fit', (), dict(_fitkw(c), optimizer=c.fn(_optimizer))))
mut('fit.fit_bad', 3, kind='fit', bad=True)(lambda c: ('fit', (), c.of(dict(nosuch=1), dict(method='mps', optimizer='nosuch'), dict(method='mps', nosuch=2))))
mut('kde2.hs', 2, kind='kde2')(lambda c: (setter('hs'), (c.of(np.array([0.3, 0.5]), None),)))
mut('kde2.hs_bad', 3, kind='kde2', bad=True)(lambda c: (setter('hs'), (c.of(np.ones(3), 'x', np.ones((3, 3))),)))
mut('kde2.dataset', 2, kind='kde2')(lambda c: (setter('dataset'), (_sample(c, 20, 2),)))
mut('tkde2.hs', 2, kind='tkde2')(lambda c: (setter('hs'), (c.of(np.array([0.3, 0.5]), None),)))
for _k in ('kde', 'tkde'):
    mut(_k + '.kernel', 3, kind=_k)(lambda c: (setter('kernel'), (wk.Kernel(c.of('gaussian', 'epan', 'biweight')),)))
    mut(_k + '.kernel_bad', 2, kind=_k, bad=True)(lambda c: (setter('kernel'), (c.of('nosuch', 17),)))
    mut(_k + '.xmin_bad', 2, kind=_k, bad=True)(lambda c: (setter('xmin'), (c.of('x', np.ones((3, 3))),)))
    mut(_k + '.dataset_bad2', 2, kind=_k, bad=True)(lambda c: (setter('dataset'), (c.of(None, [[1., 'q']]),)))
mut('tkde.L2', 3, kind='tkde')(lambda c: (setter('L2'), (c.of(0, 0.5, 1),)))
mut('tkde.L2_bad', 2, kind='tkde', bad=True)(lambda c: (setter('L2'), (c.of('x', [1, 2, 3]),)))
mut('bkreg.set', 4, kind='bkreg')(lambda c: ((lambda b, k, v: setattr(b, k, v)), c.of(('a', .2), ('b', .2), ('hs_e', .7), ('method', 'wilson'), ('hs_e', .5))))
