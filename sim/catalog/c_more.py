"""The less travelled parts of the library: plots, markov matrices, links, special interpolants, data files"""
import copy
import contextlib
import io
import numpy as np
import wafo.misc as m
import wafo.markov as mk
import wafo.padua as pd
import wafo.polynomial as po
import wafo.graphutil as gu
import wafo.interpolate as wi
import wafo.integrate_oscillating as osc
import wafo.stats as wst
import wafo.stats.plot as wsp
import wafo.spectrum.models as sm
import wafo.kdetools.kernels as kn
from .base import op


def _figure(f):
    """the lines and texts f draws in a figure of its own"""
    def run(*a, **k):
        import matplotlib.pyplot as plt
        before = set(plt.get_fignums())
        fig = plt.figure()
        try:
            f(*a, **k)
            return [([ln.get_xydata() for ln in ax.lines], [len(p.get_paths()) for p in ax.collections],
                     [t.get_text() for t in ax.texts], ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
                    for n in plt.get_fignums() if n not in before for ax in plt.figure(n).axes] + \
                [[t.get_text() for t in fig.texts]]
        finally:
            for n in plt.get_fignums():
                if n not in before:
                    plt.close(n)
    return run


def _printed(f):
    def run(*a, **k):
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            r = f(*a, **k)
        return r, s.getvalue()
    return run


# ---- wave sensors -----------------------------------------------------------------------------------------
@op('TransferFunction.sensors', 18)
def _(c):
    from wafo.wave_theory.core import TransferFunction

    def run(kw, w, th):
        t = TransferFunction(**kw)
        return t.tran(w, th), t.tran(w, th)
    kw = dict(sensortype=c.of('n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t',
                              'w_t', 'x_p', 'y_p', 'z_p'),
              pos=(0, 20, -3), h=c.of(50., np.inf), bet=c.of(-1, 1), igam=c.of(1, 2, 3), thetax=c.of(90, 30), thetay=0)
    return run, (kw, np.linspace(0.1, 2, 5), np.linspace(0, 2 * np.pi, 5))


# ---- markov -----------------------------------------------------------------------------------------------
def _cm(c, n=8):
    return np.round(c.uniform(n, n) * 9)


@op('markov.more', 6)
def _(c):
    return c.of((mk.nt2fr, (_cm(c), c.of(0, 1))), (mk.mc2rfc, (c.uniform(6, 6),)),
                (mk.mctp2rfc, (_cm(c, 7),)), (mk.mctp2rfc, (_cm(c, 6), _cm(c, 6))))


@op('markov.cmatplot', 4, plot=True, nothread=True)
def _(c):
    return _figure(mk.cmatplot), (_cm(c), c.of(None, np.arange(8.))), dict(method=c.of(1, 2, 3, 4))


# ---- interpolation and polynomials ------------------------------------------------------------------------
@op('padua.example', 12, cb=True)
def _(c):
    def run(i, n, x):
        f = pd.example_functions
        p = pd.padua_points(n)
        C, e = pd.padua_fit(p, f, i)
        return f(x, x[::-1], i), C, pd.padua_val(x, x[::-1], C), pd.padua_cubature(C)
    return run, (c.of(*range(12)), c.of(6, 10), np.linspace(0.1, 0.8, 4))


@op('polynomial.nd', 4)
def _(c):
    C = c.normal(3, 4)
    x, y = np.linspace(-1, 1, 5), np.linspace(-.5, 1, 5)
    return c.of((po.chebvalnd, (C, x, y)), (po.chebgridnd, (C, x, y)), (po.idct, (c.normal(8),)), (po.idct, (c.normal(8), 6)))


@op('polynomial.ends', 6)
def _(c):
    p = c.of([1., 2., -3.], [2., 0., 1., 4.])
    return c.of((po.poly2hstr, (p,)), (po.poly2str, (p,)), (po.polyreloc, (np.array(p), 0.5, 1.)), (po.polyrescl, (np.array(p), 2., 3.)),
                (po.polyint, (np.array([p, p]), 2)), (po.polyder, (np.array([p, p]), 1)), (po.polytrim, (np.array([0., 0.] + p),)))


@op('interpolate.pchip', 3)
def _(c):
    def run(x, y, xi):
        f = wi.Pchip(x, y) if hasattr(wi, 'Pchip') else wi.PchipInterpolator(x, y)
        return f(xi)
    x = np.linspace(0, 3, 7)
    return run, (x, c.of(np.sin(x), x ** 2), np.linspace(0.2, 2.8, 5))


# ---- oscillatory integrals --------------------------------------------------------------------------------
@op('osc.nodes', 6)
def _(c):
    return c.of((osc.open_levin_points, (5, 10)), (osc.adaptive_levin_points, (5, 10)), (osc.chebyshev_extrema, (6,)),
                (osc.chebyshev_roots, (6,)), (osc.tanh_sinh_nodes, (6,)), (osc.tanh_sinh_open_nodes, (6,)),
                (osc.richardson, (np.array([1., 1.3, 1.35, 1.36, 1.361]), c.of(2, 3))))


# ---- statistics -------------------------------------------------------------------------------------------
@op('fit.more', 4, kind='fit', rtol=1e-3, atol=1e-6, slow=True)
def _(c):
    return c.of(((lambda f: f.ci_sf([.2], i=2)), ()), ((lambda f: f.ci_logsf([-1.2], i=2)), ()), ((lambda f: f.ci_quantile([1.5], i=2)), ()),
                ((lambda f: (repr(f)[:20], f._fit_summary_text()[0][:12])), ()))


@op('fit.linked_profiles', 10, rtol=1e-2, atol=1e-5, slow=True)
def _(c):
    def run(name, x, how, fixed, i):
        f = getattr(wst, name).fit2(x, method='ml', **fixed)
        if how == 'q':
            return f.profile_quantile(x=1.5, n=10, i=i).get_bounds(.1)
        return f.profile_probability(-1.0, n=10, i=i).get_bounds(.1)
    name, fixed, i = c.of(('weibull_min', dict(floc=0), 0), ('weibull_min', dict(floc=0), 2), ('gumbel_r', {}, 0), ('gumbel_r', {}, 1), ('rayleigh', {}, 0),
                          ('genextreme', {}, 1), ('genpareto', dict(floc=0), 0), ('genpareto', dict(floc=0), 2), ('expon', {}, 0), ('expon', {}, 1))
    x = np.random.RandomState(3).weibull(2., 40) * 2
    return run, (name, x, c.of('q', 'p'), fixed, i)


@op('fit.plot_profiles', 2, kind='fit', plot=True, nothread=True, slow=True, rtol=1e-3)
def _(c):
    def run(f, how):
        import wafo.stats.estimation as est
        if how:
            f.profile(n=10).plot()
        else:
            est.plot_all_profiles(copy.deepcopy(f))      # refits what it is given where a profile finds a better optimum
    return _figure(run), (c.of(1, 0),)


@op('RegLogit.report', 2, kind='reglogit', rtol=1e-6, nothread=True)
def _(c):
    return _printed(lambda b, how: getattr(b, how)()), (c.of('anode', 'summary'),)


@op('stats.plots', 4, plot=True, nothread=True)
def _(c):
    x, y = c.normal(30), c.uniform(25)
    return c.of((_figure(wsp.plotnorm), (x,)), (_figure(wsp.plotnorm), (c.normal(20, 2),), dict(df=5)), (_figure(wsp.plotqq), (x, y)),
                (_figure(wsp.plotqq), (y, x)))


# ---- plots ------------------------------------------------------------------------------------------------
@op('PlotData2.plot', 6, kind='plotdata2', plot=True, nothread=True)
def _(c):
    return _figure(lambda w, k: w.plot(plotflag=k)), (c.of(1, 5, 6, 7, 8, 9, 10),)


@op('PlotData.plot_kinds', 8, kind='plotdata', plot=True, nothread=True)
def _(c):
    def run(w, how, flag):
        w2 = w.copy()
        w2.setplotter(how)
        w2.plot(plotflag=flag)
    return _figure(run), (c.of('plot', 'scatter', 'semilogy', 'semilogx', 'loglog', 'hist', 'bar', 'step'), c.of(1, 3, 5, 11, 101))


@op('graphutil.text', 3, plot=True, nothread=True)
def _(c):
    def cl(levels, pc):
        gu.cltext(levels, percent=pc)
        gu.cltext(levels[:2], percent=pc)

    def tal(x):
        gu.tallibing(x)
    return c.of((_figure(cl), (np.array([.1, .2, .4]), c.of(True, False))), (_figure(tal), (_cm(c, 4),)),
                (_figure(lambda f, x: gu.delete_text_object('CLTEXT')), (1, 2)))


@op('misc.plot_histgrm', 4, plot=True, nothread=True)
def _(c):
    return _figure(lambda x, **k: m.plot_histgrm(x, **k)), (c.series()[1],), dict(bins=c.of(None, 7), density=c.of(False, True))


@op('SpecData1D.plot', 2, kind='spec1d', plot=True, nothread=True)
def _(c):
    return _figure(lambda s, f: s.plot(plotflag=f)), (c.of(1, 11),)


@op('CovData1D.plot', 1, kind='covdata', plot=True, nothread=True)
def _(c):
    return _figure(lambda s: s.plot()), ()


@op('TimeSeries.plot', 1, kind='timeseries', plot=True, nothread=True)
def _(c):
    return _figure(lambda s: s.plot()), ()


@op('trdata.plot', 1, kind='trdata', plot=True, nothread=True)
def _(c):
    return _figure(lambda s: s.plot()), ()


@op('SpecData2D.plot', 1, kind='spec2d', plot=True, nothread=True, slow=True)
def _(c):
    return _figure(lambda s: s.plot()), ()


@op('LevelCrossings.plot', 1, kind='levelcrossings', plot=True, nothread=True)
def _(c):
    return _figure(lambda s: s.plot()), ()


# ---- odds and ends ----------------------------------------------------------------------------------------
@op('misc.odds', 8, nothread=True)
def _(c):
    def bunch(d):
        b = m.Bunch(**d)
        b.update(z=3)
        return sorted(b.keys()), b.z

    def dot(d):
        b = m.DotDict(d)
        b.y = 4
        return dict(b), b.x
    return c.of((m.is_numlike, (c.of(1, 'a', np.ones(2)),)), (bunch, (dict(x=1),)), (dot, (dict(x=1),)),
                (_printed(m.printf), ('%d %s\n', 3, 'x')), (m.xor, (c.of(True, False), True)),
                (m.valarray, (c.of(3, (2, 2)), c.of(1.0, np.nan))), (m.sub_dict_select, (dict(a=1, b=2), ['a'])),
                (m.rotation_matrix, (10., c.of(20., 0.), 30.)))


@op('data.load', 7)
def _(c):
    import wafo.data as wd
    return (lambda n: (lambda x: (x.shape, x[:3], x[-3:]))(getattr(wd, n)())), (c.of('sea', 'atlantic', 'gfaks89', 'gfaksr89', 'northsea', 'japansea', 'sn'),)


@op('models.jonswap_methods', 4)
def _(c):
    def run(kw, w):
        s = sm.Jonswap(**kw)
        return s(w), s.Ag, s.peak_e_factor(w)
    return run, (c.of(dict(method='custom', Ag=1.1, Hm0=6, Tp=11), dict(method='parametric', Hm0=6, Tp=11), dict(method='integration', Hm0=6, Tp=11, gamma=2.),
                      dict(method='integration', Hm0=6, Tp=11, N=4, M=3, wnc=4)), np.linspace(0, 3, 9))


@op('models.others', 6)
def _(c):
    def run(name, kw, w):
        s = getattr(sm, name)(**kw)
        return s(w), s.tospecdata(w).data
    name, kw = c.of(('Torsethaugen', dict(Hm0=6, Tp=8)), ('Torsethaugen', dict(Hm0=2, Tp=15, method='parametric')), ('OchiHubble', dict(Hm0=4, par=c.of(0, 2, 10))),
                    ('Wallop', dict(Hm0=5, Tp=9)), ('McCormick', dict(Hm0=5, Tp=9)), ('McCormick', dict(Hm0=5, Tp=9, Tz=7.)), ('Tmaspec', dict(Hm0=4, Tp=9, h=12)),
                    ('Bretschneider', dict(Hm0=5, Tp=9, N=6, M=3)))
    return run, (name, kw, np.linspace(0, 3, 9))


@op('models.fourier2', 6)
def _(c):
    r1 = np.linspace(0.1, 0.9, 5)
    return (lambda k, r: getattr(sm.Spreading(), k)(r)), (c.of('fourier2x', 'fourier2a', 'fourier2k', 'fourier2b', 'fourier2d'), r1)


@op('Spreading.kinds', 6)
def _(c):
    def run(kw, th, w, wc):
        return sm.Spreading(**kw)(th, w, wc)
    return run, (dict(type=c.of('cos2s', 'poisson', 'wrap_norm', 'sech2', 'mises', 'box'), method=c.of(None, 'mitsuyasu'),
                      theta0=c.of(0, 0.4)), np.linspace(-3, 3, 7), np.linspace(0.3, 2, 5), c.of(1., 0.6))


@op('kernels.hmns2', 2)
def _(c):
    return (lambda k, x: kn.Kernel(k, 'hmns').get_smoothing(x)), (c.of('epan', 'gauss'), c.normal(2, 30))
