"""time series, spectra, covariances, transformations, wave theory, spectral models"""
import warnings
import numpy as np
import wafo.objects as wo
import wafo.spectrum as ws
import wafo.spectrum.models as sm
import wafo.covariance as wc
import wafo.covariance.core as wcc
import wafo.covariance.estimation as wce
import wafo.transform as wt
import wafo.transform.models as tm
import wafo.transform.estimation as te
import wafo.wave_theory.core as wtc
import wafo.wave_theory.dispersion_relation as dr
from wafo.spectrum.core import qtf
from .base import op, kind, mut, setter


# ---- time series and friends ------------------------------------------------------------------------------
@kind('timeseries', 5, pickle=True)
def _(c):
    t, x = c.series(c.of(100, 160))
    return wo.TimeSeries(x, t)


@kind('turningpoints', 4)
def _(c):
    t, x = c.series(100)
    return wo.TimeSeries(x, t).turning_points(h=c.of(0.0, 0.2))


@kind('cyclepairs', 4)
def _(c):
    t, x = c.series(c.of(100, 150))
    return wo.TimeSeries(x, t).turning_points().cycle_pairs(h=c.of(0, 0.2), kind=c.of('min2max', 'max2min'))


def _lc(c, n=300):
    t, x = c.series(n)
    return wo.TimeSeries(x, t).turning_points().cycle_pairs().level_crossings(intensity=c.of(False, True))


@kind('levelcrossings', 4)
def _(c):
    return _lc(c)


@op('TimeSeries.tocovdata', 10, kind='timeseries')
def _(c):
    return 'tocovdata', (), dict(lag=c.of(None, 20, 30), flag='biased', norm=c.of(False, True),
                                 window=c.of('boxcar', 'parzen', 'hann'), dt=c.of(None, None, 1.0))


@op('TimeSeries.tocovdata_cb', 4, kind='timeseries', cb=True)
def _(c):
    return 'tocovdata', (), dict(lag=20, detrend=c.fn(c.of(lambda x: x - x.mean(), lambda x: x - x[0])))


@op('TimeSeries.tocovdata_tr', 3, kind='timeseries')
def _(c):
    return 'tocovdata', (), dict(lag=20, tr=c.of(tm.TrLinear(mean=0.3, sigma=2.), tm.TrHermite(skew=0.2, kurt=3.3, sigma=2.)))


@op('TimeSeries.tospecdata', 10, kind='timeseries')
def _(c):
    return 'tospecdata', (), dict(L=c.of(None, 20, 30), method=c.of('cov', 'psd', 'psdo'), window='parzen',
                                  ftype=c.of('w', 'f'), alpha=c.of(None, 0.05))


@op('TimeSeries.tospecdata_cb', 3, kind='timeseries', cb=True)
def _(c):
    return 'tospecdata', (), dict(L=25, method='cov', detrend=c.fn(c.of(lambda x: x - x.mean(), lambda x: x - x[0])))


@op('TimeSeries.trdata', 8, kind='timeseries')
def _(c):
    m = c.of('nonlinear', 'nonlinear', 'mnonlinear', 'mnonlinear', 'ochi', 'hermite')
    return 'trdata', (), dict(method=m, param=c.of((-5, 5, 101), (-4, 4, 81)), gsm=c.of(0.05, 0.1), csm=c.of(0.95, 0.9),
                              gvar=c.of(1, 2), ntr=c.of(10000, 50))


@op('TimeSeries.turning_points', 6, kind='timeseries')
def _(c):
    return 'turning_points', (), dict(h=c.of(0.0, 0.2), wavetype=c.of(None, 'mw', 'Mw', 'astm'))


@op('TimeSeries.trough_crest', 5, kind='timeseries')
def _(c):
    return 'trough_crest', (), dict(v=c.of(None, 0.1), wavetype=c.of(None, 'tw', 'cw', 'dw'))


@op('TimeSeries.wave_parameters', 2, kind='timeseries')
def _(c):
    return 'wave_parameters', (), dict(rate=c.of(1, 3))


@op('TimeSeries.wave_height_steepness', 7, kind='timeseries')
def _(c):
    return 'wave_height_steepness', (), dict(kind=c.of('Vcf', 'Vcb', 'Scf', 'Scb', 'StHd', 'StHu', 'maxVcfVcb'), rate=c.of(1, 2),
                                             g=c.of(None, 9.81))


@op('TimeSeries.wave_periods', 7, kind='timeseries')
def _(c):
    return 'wave_periods', (), dict(vh=c.of(0.0, 0.1), pdef=c.of('d2d', 'u2u', 't2t', 'c2c', 'd2u', 'm2M', 'M2m'),
                                    rate=c.of(1, 2))


@op('TimeSeries.sampling_period', 1, kind='timeseries')
def _(c):
    return 'sampling_period', ()


@op('TimeSeries.plot_wave', 2, kind='timeseries', plot=True, nothread=True)
def _(c):
    def run(ts, kw):
        import matplotlib.pyplot as plt
        figs = ts.plot_wave(**kw)
        try:
            return [[ln.get_xydata() for ln in a.lines] for f in figs for a in f.axes]
        finally:
            for f in figs:
                plt.close(f)
    return run, (c.of({}, dict(sigma=1.5)),)


@op('TimeSeries.plot_sp_wave', 2, kind='timeseries', plot=True, nothread=True)
def _(c):
    def run(ts, ix):
        import matplotlib.pyplot as plt
        figs = ts.plot_sp_wave(ix, 'k.')
        try:
            return [[ln.get_xydata() for ln in a.lines] for f in figs for a in f.axes]
        finally:
            for f in figs:
                plt.close(f)
    return run, (c.of(np.array([2, 3]), np.array([2, 3, 5])),)


@op('objects.mat2timeseries', 2)
def _(c):
    t, x = c.series(60)
    return wo.mat2timeseries, (np.vstack((t, x)).T,)


@op('TimeSeries.build', 2)
def _(c):
    t, x = c.series(60)
    return (lambda x, t: wo.TimeSeries(x, t)), (x, c.of(t, t + 1))


@op('TurningPoints.build', 2)
def _(c):
    t, x = c.series(60)
    return (lambda x, t: wo.TurningPoints(x, t)), (c.of(x, x[:, None]), t)


@op('TurningPoints.rainflow_filter', 4, kind='turningpoints')
def _(c):
    return 'rainflow_filter', (), dict(h=c.of(0.0, 0.3, 0.6), method=c.of('clib', 'py'))


@op('TurningPoints.cycle_pairs', 6, kind='turningpoints')
def _(c):
    return 'cycle_pairs', (), dict(h=c.of(0, 0.3), kind=c.of('min2max', 'max2min'), method=c.of('clib', 'py'))


@op('TurningPoints.cycle_astm', 1, kind='turningpoints')
def _(c):
    return 'cycle_astm', ()


@op('CyclePairs.damage', 3, kind='cyclepairs')
def _(c):
    return 'damage', (c.of([3., 4.], np.array([3.0, 5.0])),), dict(K=c.of(1, 2.))


@op('CyclePairs.minmax', 1, kind='cyclepairs')
def _(c):
    return (lambda cp: (cp.amplitudes(), cp.get_minima_and_maxima())), ()


@op('CyclePairs.level_crossings', 5, kind='cyclepairs')
def _(c):
    return 'level_crossings', (), dict(kind=c.of('uM', 'umM', 'um', 4), intensity=c.of(False, True))


@op('CyclePairs.cycle_matrix', 4, kind='cyclepairs')
def _(c):
    return 'cycle_matrix', (), dict(param=c.of((-4, 4, 9), (-3, 3, 7)), ddef=c.of(-1, 0, 1))


@op('LevelCrossings.extrapolate', 4, kind='levelcrossings', rtol=1e-6, slow=True)
def _(c):
    return 'extrapolate', (), dict(u_min=-1.5, u_max=1.5, method=c.of('ml', 'mps'), dist=c.of('genpareto', 'expon', 'rayleigh'))


@op('LevelCrossings.trdata', 5, kind='levelcrossings')
def _(c):
    return 'trdata', (), dict(mean=c.of(None, 0.0), sigma=c.of(None, 1.5), param=(-5, 5, 101), gsm=c.of(0.05, 0.1),
                              gvar=c.of(1, 2))


@op('LevelCrossings.estimate_mean_and_stdev', 2, kind='levelcrossings')
def _(c):
    return 'estimate_mean_and_stdev', (c.of(None, 40),)


@op('LevelCrossings.sim', 2, kind='levelcrossings', rng=True)
def _(c):
    return 'sim', (50, c.of(0.3, 0.5))


@op('LevelCrossings.build', 3)
def _(c):
    u = np.linspace(-4, 4, 41)
    f = 100 * np.exp(-0.5 * (u / c.of(1.0, 1.2)) ** 2)
    return (lambda f, u, k: wo.LevelCrossings(f, u, **k)), (f, u, c.of({}, dict(mean=0., sigma=1.0), dict(sigma=1.1)))


# ---- estimators -------------------------------------------------------------------------------------------
@kind('covest', 6)
def _(c):
    return wce.CovarianceEstimator(lag=c.of(None, 20), window=c.of('boxcar', 'parzen'), flag=c.of('biased', 'unbiased'),
                                   norm=c.of(False, True))


@op('CovarianceEstimator.call', 4, kind='covest')
def _(c):
    t, x = c.series(80)
    if c.of(0, 0, 1):
        x[7] = np.nan
    return (lambda e, d: e(d)), (c.of(wo.TimeSeries(x, t), np.vstack((t, x)).T),)


@mut('CovarianceEstimator.set', 6, kind='covest', fresh='covest')
def _(c):
    return (lambda e, k, v: setattr(e, k, v)), c.of(('lag', 25), ('lag', None), ('norm', True), ('window', 'parzen'), ('flag', 'unbiased'))


@kind('trest', 6)
def _(c):
    return te.TransformEstimator(method=c.of('nonlinear', 'mnonlinear', 'hermite'), param=(-5, 5, 101), gsm=c.of(0.05, 0.1),
                                 gvar=c.of(1, 2), ntr=c.of(10000, 60))


@op('TransformEstimator.trdata', 3, kind='trest')
def _(c):
    t, x = c.series(150)
    return 'trdata', (wo.TimeSeries(x, t),)


# ---- spectra ----------------------------------------------------------------------------------------------
def _spec(c, n=None):
    S = c.of(sm.Jonswap(Hm0=7, Tp=11), sm.Jonswap(Hm0=5, Tp=10), sm.Bretschneider(Hm0=7, Tp=11)).tospecdata(nw=n or c.of(33, 65))
    return S


@kind('spec1d', 6)
def _(c):
    S = _spec(c)
    S.freqtype = c.of('w', 'w', 'f')
    return S


@kind('spec1dtr', 3)
def _(c):
    S = _spec(c)
    S.tr = c.of(tm.TrLinear(mean=0.2, sigma=1.75), tm.TrHermite(mean=0.2, sigma=1.75, skew=0.2, kurt=3.2), tm.TrOchi(mean=0.2, sigma=1.75, skew=.2))
    S.h = c.of(np.inf, 100.)
    return S


@kind('spec1d_h', 3)
def _(c):
    S = _spec(c, 129)
    S.h = c.of(30., 60.)
    return S


@op('SpecData1D.tocovdata', 6, kind='spec1d')
def _(c):
    return 'tocovdata', (), dict(nr=c.of(0, 2, 4), nt=c.of(None, 20), rate=c.of(None, 2, 4))


@op('SpecData1D.tocov_matrix', 6, kind='spec1d')
def _(c):
    return 'tocov_matrix', (), dict(nr=c.of(0, 2, 4), nt=c.of(None, 15), dt=c.of(None, 0.9, 0.6))


@op('SpecData1D.moment', 5, kind='spec1d')
def _(c):
    return 'moment', (), dict(nr=c.of(2, 4), even=c.of(True, False), j=c.of(0, 1))


@op('SpecData1D.characteristic', 5, kind='spec1d')
def _(c):
    return 'characteristic', (c.of('Hm0', ['Hm0', 'Tm02', 'Tp'], [1, 3, 4], list(range(15))),), dict(T=c.of(1200, 600), g=c.of(9.81, 9.8))


@op('SpecData1D.bandwidth', 3, kind='spec1d')
def _(c):
    return 'bandwidth', (c.of(['alpha', 'eps2'], [0, 1, 2, 3], 'Qp'),)


@op('SpecData1D.small', 1, kind='spec1d')
def _(c):
    return (lambda s: (s.sampling_period(), s.nyquist_freq(), s.lagtype, s.freqtype)), ()


@op('SpecData1D.interp', 3, kind='spec1d')
def _(c):
    return 'interp', (c.of(0.5, 0.8, 1.0),)


@op('SpecData1D.to_specnorm', 1, kind='spec1d')
def _(c):
    return 'to_specnorm', ()


@op('SpecData1D.stats_nl', 4, kind='spec1d_h')
def _(c):
    return 'stats_nl', (), dict(h=c.of(None, 50.), moments=c.of('sk', 'mvsk'), g=c.of(9.81, 9.8))


@op('SpecData1D.sim', 8, kind='spec1d', seeded=True)
def _(c):
    return 'sim', (), dict(ns=c.of(40, 61), cases=c.of(1, 3), dt=c.of(None, 0.8), iseed=c.of(1, 12), method=c.of('random', 'exact'))


@op('SpecData1D.sim_free', 4, kind='spec1d', rng=True)
def _(c):
    return 'sim', (), dict(ns=c.of(40, 61), cases=c.of(1, 3), method=c.of('random', 'exact'))


@op('SpecData1D.sim_der', 4, kind='spec1d', seeded=True)
def _(c):
    return 'sim', (), dict(ns=c.of(40, 60), cases=c.of(1, 2), iseed=c.of(1, 12), method=c.of('random', 'exact'), derivative=True)


@op('SpecData1D.sim_tr', 4, kind='spec1dtr', seeded=True)
def _(c):
    return 'sim', (), dict(ns=c.of(40, 60), cases=c.of(1, 2), iseed=c.of(1, 12), method=c.of('random', 'exact'))


@op('SpecData1D.sim_nl', 6, kind='spec1d_h', seeded=True)
def _(c):
    return 'sim_nl', (), dict(ns=c.of(64, 100), cases=c.of(1, 2), iseed=c.of(1, 12), method=c.of('random', 'apdeterministic', 'adeterministic'),
                              output=c.of('timeseries', 'data'), fnlimit=c.of(1.4142, 1.0))


@op('SpecData1D.sim_nl_free', 2, kind='spec1d_h', rng=True)
def _(c):
    return 'sim_nl', (), dict(ns=64, cases=c.of(1, 2), output='data')


@op('SpecData1D.to_t_pdf', 6, kind='spec1d', rtol=1e-7, atol=1e-9)
def _(c):
    return 'to_t_pdf', (), dict(u=c.of(None, 0.5), kind=c.of('Tc', 'Tt'), paramt=c.of([0, 12, 9], [0, 10, 7]), speed=c.of(9, 7), seed=c.of(1, 5))


@op('SpecData1D.to_t_pdf_tr', 3, kind='spec1dtr', rtol=1e-7, atol=1e-9)
def _(c):
    return 'to_t_pdf', (), dict(paramt=c.of([0, 12, 9], [0, 10, 7]), speed=9, seed=1)


@op('SpecData1D.to_mm_pdf', 4, kind='spec1d', rtol=1e-7, atol=1e-12)
def _(c):
    return 'to_mm_pdf', (), dict(paramt=[0, 12, 9], paramu=c.of([-5, 5, 7], [-4, 4, 9]), nit=c.of(1, 2), EPS=c.of(5e-5, 1e-3))


@op('SpecData1D.testgaussian', 2, kind='spec1d', rng=True, slow=True)
def _(c):
    return 'testgaussian', (60,), dict(cases=2, method=c.of('hermite', 'linear'))


@op('SpecData1D.build', 3)
def _(c):
    w = np.linspace(0, 3, 17)
    return (lambda s, w, k: ws.SpecData1D(s, w, **k)), (np.exp(-(w - 1) ** 2), w, c.of({}, dict(freqtype='f'), dict(h=30., norm=True)))


@op('spectrum.qtf', 4)
def _(c):
    return qtf, (c.of(np.linspace(0.1, 2, 9), np.linspace(0.2, 3, 8)), c.of(20., 50.)), dict(g=c.of(9.81, 9.8), method=c.of('winterstein', 'langley'))


@mut('SpecData1D.freqtype', 4, kind='spec1d')
def _(c):
    return setter('freqtype'), (c.of('f', 'w'),)


@mut('SpecData1D.normalize', 2, kind='spec1d')
def _(c):
    return 'normalize', (), dict(gravity=c.of(9.81, 9.7))


@mut('SpecData1D.resample', 4, kind='spec1d')
def _(c):
    return 'resample', (c.of(0.5, 0.8, 1.0),), dict(method=c.of('stineman', 'linear', 'cubic'))


@mut('SpecData1D.resample_bad', 2, kind='spec1d', bad=True)
def _(c):
    return 'resample', (c.of(0.5, 0.8),), dict(method='no-such-method')


@mut('SpecData1D.freqtype_tr', 2, kind='spec1dtr')
def _(c):
    return setter('freqtype'), (c.of('f', 'w'),)


@mut('SpecData1D.setlabels', 1, kind='spec1d')
def _(c):
    return 'setlabels', ()


@mut('SpecData1D.edit', 2, kind='spec1d', user=True)
def _(c):
    def edit(s, f):
        s.data *= f
        s.labels.title = 'edited'
    return edit, (c.of(2.0, 0.5),)


@mut('SpecData1D.edit_tr', 2, kind='spec1dtr', user=True)
def _(c):
    def edit(s, f):
        s.tr.mean = f
        s.args[-1] = f + 10
    return edit, (c.of(2.0, 0.5),)


@kind('spec2d', 3)
def _(c):
    S = _spec(c, 17)
    D = sm.Spreading(c.of('cos2s', 'box'), theta0=c.of(0., 0.5), method=None)
    S2 = D.tospecdata2d(S, nt=9)
    S2.args = list(S2.args)
    return S2


@op('SpecData2D.rotate', 3, kind='spec2d')
def _(c):
    def rot(s, phi, rg):
        s2 = s.copy()
        s2.rotate(phi, rotateGrid=rg)
        return s2
    return rot, (c.of(0.3, -0.5), c.of(False, True))


@op('SpecData2D.moment', 2, kind='spec2d')
def _(c):
    return 'moment', (), dict(nr=c.of(2, 4), vari=c.of('xt', 'xyt'))


@mut('SpecData2D.rotate', 2, kind='spec2d')
def _(c):
    return 'rotate', (c.of(0.3, -0.5),), dict(rotateGrid=c.of(False, True))


# ---- covariance -------------------------------------------------------------------------------------------
@kind('covdata', 4)
def _(c):
    return _spec(c).tocovdata(nr=0, nt=c.of(None, 30))


@kind('covdata_long', 2)
def _(c):
    t = np.arange(21) * 0.5
    acf = np.exp(-c.of(0.8, 1.2) * t ** 2)
    return wc.CovData1D(acf, t)


@op('CovData1D.tospecdata', 6, kind='covdata')
def _(c):
    return 'tospecdata', (), dict(rate=c.of(None, 2, 4), method=c.of('fft', 'stineman', 'linear'), nugget=c.of(0.0, 1e-3),
                                  trunc=c.of(1e-5, 1e-3), fast=c.of(True, False))


@op('CovData1D.sim', 6, kind='covdata', seeded=True)
def _(c):
    return 'sim', (), dict(ns=c.of(40, 61), cases=c.of(1, 2, 3), iseed=c.of(1, 12))


@op('CovData1D.sim_der', 3, kind='covdata', seeded=True)
def _(c):
    return 'sim', (), dict(ns=40, cases=c.of(1, 2), iseed=c.of(1, 12), derivative=True)


@op('CovData1D.sim_free', 3, kind='covdata', rng=True)
def _(c):
    return 'sim', (), dict(ns=c.of(40, 61), cases=c.of(1, 2))


@op('CovData1D.simcond', 6, kind='covdata_long', rng=True, rtol=1e-7)
def _(c):
    x = c.series(c.of(60, 110))[1]
    if c.of(0, 1):
        return 'simcond', (x,), dict(method=c.of('exact', 'approx'), i_unknown=c.of(np.array([10, 11, 12]), np.array([5, 40])))
    x[20:23] = np.nan
    return 'simcond', (x,), dict(method=c.of('exact', 'approx'))


@op('CovData1D.small', 1, kind='covdata')
def _(c):
    return 'sampling_period', ()


@op('covariance.sptoeplitz', 2)
def _(c):
    return wcc.sptoeplitz, (np.array(c.of([1., .5, 0, .1], [2., .3, .2])),)


@mut('CovData1D.edit', 2, kind='covdata', user=True)
def _(c):
    def edit(r, f):
        r.data[:] = r.data * f
        r.args *= f
        r.labels.title = 'x'
    return edit, (c.of(2.0, 0.5),)


@mut('CovData1D.setlabels', 1, kind='covdata', user=True)
def _(c):
    def edit(r):
        r.norm = not r.norm
        r.setlabels()
    return edit, ()


# ---- transformations --------------------------------------------------------------------------------------
_XT = np.linspace(-2.0, 2.5, 9)


@kind('trhermite', 5)
def _(c):
    return tm.TrHermite(mean=c.of(0.0, 0.3), sigma=c.of(1.0, 1.5), skew=c.of(0.1, 0.2), kurt=c.of(3.2, 3.5), pardef=c.of(1, 2))


@kind('trhermite_hard', 3)
def _(c):
    return tm.TrHermite(mean=c.of(0.0, 0.3), sigma=c.of(1.0, 1.5), skew=c.of(0.05, 0.1), kurt=c.of(2.9, 2.95))


@kind('trochi', 4)
def _(c):
    return tm.TrOchi(mean=c.of(0.0, 0.3), sigma=c.of(1.0, 1.5), skew=c.of(0.1, 0.3))


@kind('trlinear', 3)
def _(c):
    return tm.TrLinear(mean=c.of(0.0, 0.3), sigma=c.of(1.0, 1.5))


@kind('trdata', 4)
def _(c):
    x = np.linspace(-5, 5, 41)
    y = x + 0.02 * x ** 2 * c.of(1, -1)
    return wt.TrData(y, c.of(1.0, 2.0) * x + c.of(0., 0.5), **c.of({}, dict(mean=0.1, sigma=1.2)))


for _k in ('trhermite', 'trhermite_hard', 'trochi', 'trlinear', 'trdata'):
    def _mk(c):
        return (lambda g, x, y: (g.dat2gauss(x), g.gauss2dat(y), g(x))), (_XT * c.of(1.0, 0.5), _XT * c.of(1.0, 0.7))
    op(_k + '.transform', 3, kind=_k)(_mk)

    def _mk(c):
        return 'dist2gauss', (), dict(n=c.of(51, 101), xnmin=c.of(-3, -2), xnmax=3)
    op(_k + '.dist2gauss', 3, kind=_k)(_mk)
for _k in ('trhermite', 'trochi', 'trlinear'):
    def _mk(c):
        return 'trdata', (), dict(n=c.of(51, 101), xnmin=c.of(-3, -2), xnmax=3)
    op(_k + '.trdata', 3, kind=_k)(_mk)


@op('trdata.derivatives', 3, kind='trdata')
def _(c):
    return (lambda g, x, d: (g.dat2gauss(x, *d), g.gauss2dat(x, *d))), (_XT * 0.6, c.of((np.ones(9),), (np.ones(9), 0.1 * _XT)))


@op('trlinear.derivatives', 2, kind='trlinear')
def _(c):
    return (lambda g, x, d: (g.dat2gauss(x, *d), g.gauss2dat(x, *d))), (_XT, c.of((np.ones(9),), (np.ones(9), 0.1 * _XT)))


@op('trdata.trdata', 1, kind='trdata')
def _(c):
    return 'trdata', ()


# ---- wave theory ------------------------------------------------------------------------------------------
@kind('transfer', 8)
def _(c):
    return wtc.TransferFunction(pos=c.of((0, 0, 0), (0, 40, 0), (10, 0, -5)), sensortype=c.of('n', 'n_t', 'n_x', 'p', 'u', 'w', 'n_tt', 'x_p'),
                                h=c.of(50., np.inf), g=c.of(9.81, 9.8))


@op('TransferFunction.tran', 8, kind='transfer')
def _(c):
    w = c.of(np.linspace(0.1, 2, 6), np.linspace(0, 3, 6))
    th = c.of(0, np.linspace(0, 2 * np.pi, 5))
    kw = c.of(None, None, w ** 2 / 9.81)
    return 'tran', (w, th) + ((kw,) if kw is not None else ())


@op('wave_theory.sensor', 2)
def _(c):
    return (lambda a, b: (wtc.sensor_typeid(*a), wtc.sensor_type(*b))), (c.of(('W', 'v'), ('n', 'p')), c.of(range(3), (1, 2)))


@op('wave_theory.hyperbolic_ratio', 3)
def _(c):
    a = np.array([-2., 0.5, 1, 30.])
    return wtc.hyperbolic_ratio, (a, c.of(a + 1, a[::-1].copy()), c.of(1, -1), c.of(1, -1))


@op('wave_theory.wave_pressure', 2)
def _(c):
    return wtc.wave_pressure, (np.linspace(-20., 0, 6),), dict(Hm0=c.of(7., 12.), h=c.of(10000, 20.))


@op('wave_theory.w2k', 6)
def _(c):
    return dr.w2k, (c.of(np.linspace(0, 3, 7), np.linspace(0.1, 2, 5)),), dict(theta=c.of(0.0, 0.5), h=c.of(np.inf, 10., 50.), g=c.of(9.81, 9.8))


@op('wave_theory.k2w', 6)
def _(c):
    k = c.uniform(5, lo=0.01)
    return dr.k2w, (k,), dict(k2=c.of(0.0, 0.05), h=c.of(np.inf, 10., 50.), u1=c.of(0.0, 0.3), g=c.of(9.81, 9.8))


@mut('TransferFunction.set', 8, kind='transfer', fresh='transfer')
def _(c):
    return (lambda e, k, v: setattr(e, k, v)), c.of(('pos', (5, 0, 0)), ('sensortype', 'v'), ('sensortype', 'n_x'), ('h', 30.), ('g', 9.7), ('thetax', 45), ('igam', 3))


# ---- spectral models --------------------------------------------------------------------------------------
_W = np.linspace(0, 3, 23)
_MODELS = dict(
    Jonswap=lambda c: sm.Jonswap(Hm0=c.of(7, 5), Tp=c.of(11, 10), gamma=c.of(None, 2.0), sigmaA=c.of(0.07, 0.08),
                                 method=c.of('integration', 'parametric'), wnc=c.of(6.0, 5.0)),
    Bretschneider=lambda c: sm.Bretschneider(Hm0=c.of(7, 5), Tp=c.of(11, 10), N=c.of(5, 6), M=c.of(4, 5)),
    Tmaspec=lambda c: sm.Tmaspec(Hm0=c.of(7, 5), Tp=c.of(11, 10), gamma=c.of(None, 2.0), h=c.of(42, 20)),
    Torsethaugen=lambda c: sm.Torsethaugen(Hm0=c.of(7, 5), Tp=c.of(11, 10), wnc=c.of(6, 5)),
    McCormick=lambda c: sm.McCormick(Hm0=c.of(7, 5), Tp=c.of(11, 10), Tz=c.of(None, 8.5)),
    OchiHubble=lambda c: sm.OchiHubble(Hm0=c.of(7, 5), par=c.of(0, 1, 2, 5)),
    Wallop=lambda c: sm.Wallop(Hm0=c.of(7, 5), Tp=c.of(11, 10), N=c.of(None, 6)))
for _n, _f in _MODELS.items():
    kind('model.' + _n, 6)(lambda c, _f=_f: _f(c))

    def _mk(c):
        return (lambda s, w: s(w)), (c.of(_W, np.linspace(0.2, 2, 12)),)
    op('models.%s.call' % _n, 2, kind='model.' + _n)(_mk)

    def _mk(c):
        return 'tospecdata', (c.of(None, _W),), dict(nw=c.of(17, 33))
    op('models.%s.tospecdata' % _n, 3, kind='model.' + _n)(_mk)

    def _mk(c, _f=_f):
        def build(w):
            return _f(c2)(w)
        import copy
        c2 = copy.deepcopy(c)
        return (lambda w: _f(copy.deepcopy(c2))(w)), (_W,)
    op('models.%s.build' % _n, 6)(_mk)


@op('models.phi1', 3)
def _(c):
    return sm.phi1, (_W, c.of(30., 50.)), dict(g=c.of(9.81, 9.8))


@op('models.Tmaspec.phi', 3, kind='model.Tmaspec')
def _(c):
    return 'phi', (_W,), dict(h=c.of(None, 30.), g=c.of(None, 9.8))


@op('models.jonswap_peakfact', 3)
def _(c):
    return sm.jonswap_peakfact, (c.of(7., np.array([3., 7., 12.])), c.of(10., np.array([8., 10., 12.])))


@op('models.jonswap_seastate', 4)
def _(c):
    return sm.jonswap_seastate, (c.of(10., np.array([8., 15.])),), dict(fetch=c.of(150e3, 5e4), method=c.of('lewis', 'hasselman73', 'hasselman76'), output=c.of('dict', 'list'))


_SPREAD = ('cos2s', 'box', 'mises', 'poisson', 'sech2', 'wrap_norm')


@kind('spreading', 12)
def _(c):
    return sm.Spreading(c.of(*_SPREAD), theta0=c.of(0.0, 0.4), method=c.of('mitsuyasu', 'mitsuyasu', 'banner', None), s_a=c.of(15., 10.),
                        s_b=c.of(15., 12.), wn_c=c.of(1.0, 0.8), wn_lo=c.of(0.0, 0.3))


@kind('spreading_cb', 3)
def _(c):
    return sm.Spreading(c.of('cos2s', 'mises'), theta0=c.fn(c.of(lambda w: 0.3 * w, lambda w: np.cos(w))), method='mitsuyasu')


@op('Spreading.call', 4, kind='spreading')
def _(c):
    return (lambda d, th, w, wc: d(th, w, wc)), (np.linspace(-np.pi, np.pi, 11), c.of(np.linspace(0.1, 2, 5), np.array([0.5, 1.0])), c.of(0.6, 1.0))


@op('Spreading.call_cb', 3, kind='spreading_cb', cb=True)
def _(c):
    return (lambda d, th, w, wc: d(th, w, wc)), (np.linspace(-np.pi, np.pi, 11), c.of(np.linspace(0.1, 2, 5), np.array([0.5, 1.0])), c.of(0.6, 1.0))


@op('Spreading.tospecdata2d', 3, kind='spreading')
def _(c):
    w = np.linspace(0, 3, 9)
    S = ws.SpecData1D(np.exp(-(w - 1) ** 2), w)
    return 'tospecdata2d', (S,), dict(nt=c.of(9, 11), theta=c.of(None, np.linspace(-np.pi, np.pi, 7)), wc=c.of(0.52, 0.8))


@op('Spreading.spread_parameter_s', 2, kind='spreading')
def _(c):
    return 'spread_parameter_s', (c.of(np.linspace(0.1, 3, 7), np.array([0.5, 1.0])),)


@op('Spreading.fourier2distpar', 2, kind='spreading')
def _(c):
    return 'fourier2distpar', (c.of(np.linspace(0.1, 0.9, 5), np.array([0.3, 0.5])),)


@mut('Spreading.set', 10, kind='spreading', fresh='spreading')
def _(c):
    return (lambda e, k, v: setattr(e, k, v)), c.of(('method', 'donelan'), ('method', 'mitsuyasu'), ('method', None), ('method', 'banner'),
                                                    ('s_a', 8.), ('s_b', 9.), ('theta0', 0.2), ('wn_c', 1.2), ('type', 'box'), ('type', 'mises'), ('m_a', 4.))


@mut('Spreading.method_bad', 2, kind='spreading', bad=True)
def _(c):
    return setter('method'), (c.of('no-such', 17),)


@mut('SpecData2D.rotate_bad', 2, kind='spec2d', bad=True)
def _(c):
    return 'rotate', (c.of('x', np.ones(7)),), dict(rotateGrid=c.of(False, True))


@mut('SpecData1D.resample_bad2', 2, kind='spec1d', bad=True)
def _(c):
    return 'resample', (c.of('x', -1.0),)


for _k in ('trhermite', 'trochi', 'trlinear', 'trhermite_hard'):
    mut(_k + '.set', 8, kind=_k)(lambda c, _k=_k: ((lambda e, k, v: setattr(e, k, v)),
                                                 c.of(*([('mean', .2), ('sigma', 1.2), ('sigma', 2.), ('mean', -.1), ('ymean', .1), ('ysigma', 1.1)]
                                                        + ([('skew', .15), ('skew', .25)] if _k != 'trlinear' else [])
                                                        + ([('kurt', 3.3), ('kurt', 3.6), ('pardef', 2)] if _k == 'trhermite' else [])))))
mut('spec1d_h.h', 2, kind='spec1d_h')(lambda c: (setter('h'), (c.of(20., 40.),)))
mut('spec1d_h.freqtype', 2, kind='spec1d_h')(lambda c: (setter('freqtype'), (c.of('f', 'w'),)))
mut('trest.set', 4, kind='trest')(lambda c: ((lambda e, k, v: setattr(e, k, v)), c.of(('gsm', .08), ('gvar', 3), ('method', 'nonlinear'), ('csm', .9))))
for _n in _MODELS:
    mut('model.%s.set' % _n, 3, kind='model.' + _n)(lambda c: ((lambda e, k, v: setattr(e, k, v)), c.of(('Hm0', 6.), ('Tp', 9.), ('wnc', 5.5))))
