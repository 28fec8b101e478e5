import numpy as np
import wafo.misc as m
import wafo.bitwise as bw
import wafo.dctpack as dct
import wafo.containers as cont
from .base import op, kind, mut, setter, Choice


def _x(c):
    return c.series()[1]


@op('misc.findcross', 8)
def _(c):
    return m.findcross, (_x(c),), dict(v=c.of(0.0, 0.4), kind=c.of(None, 'd', 'u', 'dw', 'uw', 'tw', 'cw'),
                                       method=c.of('clib', 'numba'))


@op('misc.findextrema', 3)
def _(c):
    return m.findextrema, (_x(c),)


@op('misc.findpeaks', 6)
def _(c):
    d = _x(c)
    if c.of(0, 0, 1):
        d = c.normal(6, 20)
    return m.findpeaks, (d,), dict(n=c.of(2, 5), min_h=c.of(None, 0.3), min_p=c.of(0.0, 0.3))


@op('misc.findrfc', 6)
def _(c):
    x = _x(c)
    return (lambda tp, h, method: m.findrfc(tp, h, method)), (x[m.findtp(x)], c.of(0.0, 0.3), c.of('clib', 'py'))


@op('misc.findrfc_astm', 3)
def _(c):
    x = _x(c)
    return m.findrfc_astm, (x[m.findtp(x)],)


@op('misc.rfcfilter', 6)
def _(c):
    return m.rfcfilter, (_x(c), c.of(0.1, 0.5)), dict(method=c.of(0, 1))


@op('misc.findtp', 6)
def _(c):
    return m.findtp, (_x(c),), dict(h=c.of(0.0, 0.3, -1), kind=c.of(None, 'mw', 'Mw', 'astm'),
                                    method=c.of('clib', 'py'))


@op('misc.findtc', 6)
def _(c):
    return m.findtc, (_x(c),), dict(v=c.of(None, 0.2), kind=c.of(None, 'dw', 'uw', 'tw', 'cw'))


@op('misc.findoutliers', 6)
def _(c):
    x = _x(c)
    if c.of(0, 1):
        x[5] = np.nan
    return m.findoutliers, (x,), dict(zcrit=c.of(0.0, 0.05), dcrit=c.of(None, 1.0), ddcrit=c.of(None, 1.5))


@op('misc.ecross', 4)
def _(c):
    t, x = c.series()
    v = c.of(0.0, 0.3)
    return m.ecross, (t, x, m.findcross(x, v), v)


@op('misc.detrendma', 6)
def _(c):
    x = c.normal(40, 2) if c.of(0, 1) else _x(c)
    return m.detrendma, (x, c.of(3, 8)), dict(axis=0)


@op('misc.moving_average', 4)
def _(c):
    return m.moving_average, (_x(c), c.of(3, 8, 200))


@op('misc.trangood', 6)
def _(c):
    x = np.array([0., 1., 2., 3.5, 5.]) if c.of(0, 1) else np.linspace(0, 4, 5)
    return m.trangood, (x, x ** 2), dict(min_n=c.of(None, 10), max_x=c.of(None, 6.0), min_x=c.of(None, -2.0))


@op('misc.tranproc', 6)
def _(c):
    x = np.linspace(0, 5, 21)
    x0 = c.of(np.linspace(0.2, 4.5, 7), np.linspace(1., 4., 5))
    xi = c.of((), (np.ones_like(x0),), (np.ones_like(x0), x0 * 0.5), (np.ones_like(x0), x0 * .5, x0 * .1, x0 * .2))
    return m.tranproc, (x, c.of(x ** 2, np.sqrt(x + 1)), x0) + tuple(xi)


@op('misc.good_bins', 4)
def _(c):
    return m.good_bins, (_x(c),), dict(num_bins=c.of(None, 7), odd=c.of(False, True), loose=c.of(True, False))


@op('misc._histogram', 4)
def _(c):
    return m._histogram, (_x(c),), dict(bins=c.of(None, 9, np.linspace(-4, 4, 12)), density=c.of(False, True))


@op('misc.fourier', 5)
def _(c):
    t, x = c.series(40)
    return m.fourier, (c.of(x, np.vstack((x, x ** 2))), c.of(None, t)), dict(m=c.of(3, 5), method=c.of('trapz', 'simps'))


@op('misc.discretize', 6, cb=True)
def _(c):
    f = c.of(np.cos, lambda x: np.exp(-x ** 2), lambda x: x * np.sin(3 * x))
    return m.discretize, (c.fn(f), c.of(0, -1), c.of(2.0, 3.0)), dict(tol=c.of(5e-3, 1e-2), method=c.of('linear', 'adaptive'))


@op('misc.piecewise', 4, cb=True)
def _(c):
    x = np.linspace(-2, 2, 9)
    fl = [c.fn(lambda v: v ** 2), c.fn(lambda v: 1 + v), c.fn(np.sin)]
    return m.piecewise, ([x < -0.5, x > 0.5], fl if c.of(0, 1) else [1.0, c.fn(np.cos), -1.0]), dict(xi=(x,), fillvalue=c.of(0.0, np.nan))


@op('misc.lazywhere', 4, cb=True)
def _(c):
    a = c.of(np.linspace(-1, 3, 8), np.linspace(0, 2, 6))
    b = a[::-1].copy()
    if c.of(0, 1):
        return m.lazywhere, (a > 1, (a, b), c.fn(lambda x, y: x * y)), dict(fillvalue=c.of(np.nan, 0.0))
    return m.lazywhere, (a > 1, (a, b), c.fn(lambda x, y: x * y)), dict(f2=c.fn(lambda x, y: x - y))


@op('misc.lazyselect', 4, cb=True)
def _(c):
    x = c.of(np.linspace(-2, 2, 7), np.linspace(0, 3, 6))
    return m.lazyselect, ([x < 0, x >= 1], [c.fn(lambda v: v ** 2), c.fn(np.exp)], (x,)), dict(default=c.of(0.0, -1.0))


@op('misc.rotate', 4)
def _(c):
    x = c.uniform(5)
    return m.rotate, (x, x ** 2, 1 - x), dict(heading=c.of(0, 30), pitch=c.of(0, 10), roll=c.of(0, 5))


@op('misc.rotate_2d', 3)
def _(c):
    x = c.uniform(5)
    return m.rotate_2d, (x, 1 - x, c.of(30, 60.))


@op('misc.polar', 4)
def _(c):
    x, y = c.uniform(5), c.normal(5)
    z = c.of(None, x - y)
    return (lambda x, y, z: (m.cart2polar(x, y, z), m.polar2cart(x, y, z))), (x, y, z)


@op('misc.spaceline', 3)
def _(c):
    return m.spaceline, (np.array([0., 0, 1]), c.of(np.array([2., 1, 3]), np.array([1., 1, 1])), c.of(1, 4))


@op('misc.args_flat', 3)
def _(c):
    x = c.uniform(2, 3)
    return m.args_flat, c.of((x,), (x, x[:1], 2.0))


@op('misc.narg_smallest', 3)
def _(c):
    return m.narg_smallest, (c.normal(9), c.of(1, 3))


@op('misc.index', 3)
def _(c):
    shape = c.of((3, 4), (3, 4, 2))
    ix = np.array([1, 5, 7])
    return (lambda s, i, o: (m.index2sub(s, i, o), m.sub2index(s, *m.index2sub(s, i, o), order=o))), (shape, ix, c.of('C', 'F'))


@op('misc.argsreduce', 3)
def _(c):
    x = c.normal(3, 4)
    return m.argsreduce, (x > c.of(0, 0.5), x, 1.5, x[:1].copy())


@op('misc.stirlerr', 2)
def _(c):
    return m.stirlerr, (c.of(np.array([1., 10, 20, 50, 100, 600]), np.array([3., 40])),)


@op('misc.betaloge', 3)
def _(c):
    a = np.array([0., 1., 12., 30.])
    return m.betaloge, (a, c.of(a[::-1].copy(), a + 1))


@op('misc.binomln', 3)
def _(c):
    return m.binomln, (np.array([5., 10., 20.]), c.of(np.array([1., 3., 4.]), np.array([0., 9., 12.])))


@op('misc.getshipchar', 6)
def _(c):
    return m.getshipchar, (), {c.of('length', 'beam', 'draught', 'service_speed', 'propeller_diameter'): c.of(10., 12.)}


@op('misc.gravity', 3)
def _(c):
    return m.gravity, (c.of(45, 60, np.array([0., 45., 90.])),)


@op('misc.nextpow2', 3)
def _(c):
    return m.nextpow2, (c.of(10, 65, np.arange(5)),)


@op('misc.num2pistr', 3)
def _(c):
    return m.num2pistr, (c.of(np.pi / 3, np.pi, 1.234),), dict(n=c.of(3, 5))


@op('misc.ndgrid', 2)
def _(c):
    x = c.uniform(3)
    return m.ndgrid, (x, c.of(x[:2].copy(), x ** 2)), dict(sparse=c.of(False, True))


@op('misc.parse', 3)
def _(c):
    # parse_kwargs updates its first argument by design, so only the selection is observed
    return (lambda o, kw: (m.sub_dict_select(kw, o), m.parse_kwargs(dict.fromkeys(o, 0), **kw))), \
        (['a', 'b'], c.of(dict(a=1, d=2), dict(b=3)))


@op('misc.common_shape', 2)
def _(c):
    x = c.uniform(3, 1)
    return m.common_shape, (x, c.of(x.T, 1.0)), dict(shape=c.of(None, (4, 3, 1)))


@op('misc.lfind', 2)
def _(c):
    return (lambda a, b, k: list(m.lfind(a, b, k))), (c.of([1, 2, 1, 1], [3, 1, 1]), 1, c.of(None, 1, 2))


@op('misc.check_random_state', 2)
def _(c):
    return (lambda s: m.check_random_state(s).normal(size=3)), (c.of(1, 5),)


@op('bitwise', 4)
def _(c):
    i = c.of(5, 200, 77)
    return (lambda i, b, v: (bw.getbit(i, b), bw.setbit(i, b, v), bw.getbits(i, 8), bw.setbits(bw.getbits(i, 8)))), \
        (i, c.of(0, 3), c.of(0, 1))


for _n in ('dct', 'idct', 'dst', 'idst'):
    def _mk(c, _n=_n):
        x = c.of(c.normal(8), c.normal(4, 6))
        return getattr(dct, _n), (x,), dict(type=c.of(2, 3), axis=c.of(-1, 0), norm=c.of('ortho', None))
    op('dctpack.' + _n, 5)(_mk)
for _n in ('dctn', 'idctn', 'dstn', 'idstn'):
    def _mk(c, _n=_n):
        x = c.of(c.normal(5, 6), c.normal(3, 4, 2))
        return getattr(dct, _n), (x,), dict(type=c.of(2, 3), shape=c.of(None, (6, 6)) if x.ndim == 2 else None,
                                            axes=c.of(None, (0, 1)))
    op('dctpack.' + _n, 6)(_mk)


@op('dctpack.shiftdim', 3)
def _(c):
    return dct.shiftdim, (c.of(c.normal(1, 1, 4), c.normal(2, 3, 4)), c.of(None, 1, -1))


# ---- containers -------------------------------------------------------------------------------------------
@kind('plotdata', 4)
def _(c):
    x = np.linspace(0, c.of(3., 5.), c.of(11, 16))
    return cont.PlotData(c.of(np.sin(x) ** 2, np.exp(-x)), x, title=c.of('a', 'b'), xlab='x', ylab='y')


@kind('plotdata2', 3)
def _(c):
    x = np.linspace(0, 3, 5)
    y = np.linspace(0, 2, c.of(4, 6))
    return cont.PlotData(np.outer(np.cos(y), c.of(x, x ** 2)), (x, y), title='2d')


@kind('plotdata_ci', 3)
def _(c):
    x = np.linspace(0, 3, 11)
    f = c.of(np.exp(-x), np.cos(x) ** 2)
    child = cont.PlotData(np.vstack((f * 0.9, f * 1.1)).T, x)
    return cont.PlotData(f, x, children=[child], title='with limits', plot_kwds=dict(color='r'))


@op('PlotData.eval_points', 4, kind='plotdata')
def _(c):
    return 'eval_points', (c.of(np.array([0.2, 1.1]), np.array([0.5])),), dict(method=c.of('linear', 'nearest', 'cubic'))


@op('PlotData.to_cdf', 1, kind='plotdata')
def _(c):
    return 'to_cdf', ()


@op('PlotData.integrate', 5, kind='plotdata')
def _(c):
    return 'integrate', (c.of(None, 0.5), c.of(None, 2.2)), dict(method=c.of('trapz', 'simps'))


@op('PlotData.integrate_ci', 3, kind='plotdata_ci')
def _(c):
    return 'integrate', (c.of(None, 0.5), c.of(None, 2.2)), dict(return_ci=c.of(True, False))


@op('PlotData.plot', 3, kind='plotdata', plot=True, nothread=True)
def _(c):
    def plot(w, flag):
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            w.plot(plotflag=flag)
            ax = fig.gca()
            return [ln.get_xydata() for ln in ax.lines]
        finally:
            plt.close(fig)
    return plot, (c.of(1, 2, 10),)


@op('PlotData.plot_ci', 2, kind='plotdata_ci', plot=True, nothread=True)
def _(c):
    def plot(w, kw):
        import matplotlib.pyplot as plt
        fig = plt.figure()
        try:
            w.plot(**kw)
            return [ln.get_xydata() for ln in fig.gca().lines]
        finally:
            plt.close(fig)
    return plot, (c.of({}, dict(plot_kwds_children=dict(color='g'))),)


@op('containers.transformdata', 4)
def _(c):
    x = np.linspace(0.1, 3, 8)
    return cont.transformdata_1d, (x, x / 3.5, c.of(1, 2, 1000, 2000, 4000, 10))


@op('PlotData.build', 3)
def _(c):
    x = np.linspace(0, 3, 7)
    return (lambda d, a, k: cont.PlotData(d, a, **k)), (x ** 2, x, c.of(dict(title='t'), dict(title='u', xlab='z', plot_args=['r'])))


@mut('PlotData.set_data', 3, kind='plotdata')
def _(c):
    def set_(w, f):
        w.data = w.data * f
    return set_, (c.of(2.0, -1.0),)


@mut('PlotData.scale_in_place', 2, kind='plotdata', user=True)
def _(c):
    def set_(w, f):
        w.data *= f
        w.args += f
    return set_, (c.of(2.0, -1.0),)


@mut('PlotData.relabel', 2, kind='plotdata')
def _(c):
    def set_(w, s):
        w.labels.title = s
    return set_, (c.of('new', 'other'),)


@mut('PlotData.setplotter', 2, kind='plotdata')
def _(c):
    return 'setplotter', (c.of('semilogy', 'plot'),)


@mut('PlotDataCI.edit_child', 2, kind='plotdata_ci', user=True)
def _(c):
    def set_(w, f):
        w.children[0].data *= f
        w.plot_kwds['color'] = 'b'
    return set_, (c.of(2.0, -1.0),)


@mut('PlotData2.edit', 2, kind='plotdata2', user=True)
def _(c):
    def set_(w, f):
        w.args[0][:] *= f
        w.data[0] = f
    return set_, (c.of(2.0, -1.0),)
