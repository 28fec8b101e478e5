"""C06: settings are changed through the public properties in seeded orders, with queries, copies and failing changes in
between; every answer is compared with that of an object built directly with the final settings in a pristine process.

The model of an object is its settings.  A change rebuilds the model: the settings the model object reports, with the
changed one replaced, are given to the constructor.  (So a limit or smoothing value chosen by default counts as chosen.)
"""
import copy
import pickle
import numpy as np
from .. import boot
boot.boot()
import wafo.kdetools as wk
import wafo.transform.models as tm
import wafo.transform.estimation as te
import wafo.covariance.estimation as wce
import wafo.spectrum.models as sm
import wafo.wave_theory.core as wtc
import wafo.sg_filter as sg
import wafo.integrate_oscillating as wio
from .. import gen, world
from ..catalog.base import OPS, fresh as own
from ..core import drop_each
from ..fp import UserFn

PROP, LEVEL = 'C06', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 3
RULE = ('A run builds one configurable object and applies 1-6 changes of settings (some rejected, some aborted by exhausted memory), '
        'interleaved with queries and copies; after each, queries are compared with a freshly built object with the final settings.  '
        'Non-trivial: at least one comparison after a change; distinct by the sequence of steps.')
ASSUMPTIONS = ['the settings of an object are what its public properties report']
_refs = None
_rs = np.random.RandomState
D1 = [_rs(k).rayleigh(1.0, 30 + k) for k in (1, 2, 3)]
D2 = [_rs(k).rayleigh(1.0, (2, 20 + k)) for k in (4, 5)]
XR = np.linspace(0, 3, 30)
YR = [np.exp(-XR) + 0.05 * _rs(k).normal(size=30) for k in (6, 7)]
XB = np.linspace(0, 4, 40)
YB = [(_rs(k).uniform(size=40) < 1 / (1 + np.exp(-(XB - 2) * 2))) * 1 for k in (8, 9)]


class Conf(object):
    def __init__(self, cls, choices, kind=None, asks=None, ctor=None, rtol=1e-8, readonly=(), read=None):
        self.cls, self.choices, self.kind = cls, choices, kind
        self.asks = asks or {}
        self.ctor = ctor or (lambda s: cls(**s))
        self.rtol, self.readonly = rtol, readonly
        self.read = read or (lambda o, s: {k: copy.deepcopy(getattr(o, k)) for k in s})


def kern(n):
    return wk.Kernel(n)


TR = dict(mean=[0.0, 0.3, -0.1], sigma=[1.0, 1.5, 2.0], ymean=[0.0, 0.1], ysigma=[1.0, 1.1])
_X = np.linspace(-2., 2.5, 9)
_P = np.linspace(0.2, 3.5, 9)


def trdata(g):
    t = g.trdata(n=31, xnmin=-3, xnmax=3)
    return t.data, t.args, t.mean, t.sigma


TASK = dict(transform=lambda g: (g.dat2gauss(_X.copy()), g.gauss2dat(_X.copy()), g(_X.copy())), dist=lambda g: g.dist2gauss(n=41), trdata=trdata)
KASK = dict(points=lambda k: k.eval_points(_P.copy()), many=lambda k: k.eval_points(np.linspace(.1, 4, 60)), grid=lambda k: k.eval_grid(_P.copy()),
            fast=lambda k: k.eval_grid_fast(), fastx=lambda k: k.eval_grid_fast(np.linspace(0.05, 6, 40)), settings=lambda k: (k.hs, k.inc, k.xmin, k.xmax, k.n, k.d, k.sigma),
            plot=lambda k: k.eval_grid_fast(output='plotobj'))


def _kde_read(o, s):
    return {k: (copy.deepcopy(getattr(o, k)) if k != 'data' else np.array(o.dataset)) for k in s}


def _tkde_read(o, s):
    d = {}
    for k in s:
        d[k] = o.tkde.alpha if k == 'alpha' else (np.array(o.dataset) if k == 'data' else copy.deepcopy(getattr(o, k)))
    return d


def _kreg_read(o, s):
    t = o.tkde
    return {k: copy.deepcopy(getattr(t, k) if k in ('hs', 'inc', 'kernel') else t.xmin if k == 'xmin' else t.xmax if k == 'xmax' else np.array(t.dataset) if k == 'data'
                             else getattr(o, k)) for k in s}


def _bk_read(o, s):
    return {k: copy.deepcopy(getattr(o, k)) if k != 'data' else np.array(o.kreg.tkde.dataset) for k in s}


YS = np.sin(np.arange(40) * 0.3) + 0.2 * _rs(3).normal(size=40)
OF = [lambda x, w=1: np.exp(-x * x), lambda x, w=1: np.cos(x) / (1 + x * x)]
OG = [lambda x, w=1: w * x, lambda x, w=1: w * (x + 0.1 * x * x)]
CONF = {
    'TrHermite': Conf(tm.TrHermite, dict(TR, skew=[0.1, 0.2, 0.0], kurt=[3.2, 3.5, 3.0, 2.9], pardef=[1, 2]), asks=TASK),
    'TrOchi': Conf(tm.TrOchi, dict(TR, skew=[0.1, 0.3, 0.0, -0.2]), asks=TASK),
    'TrLinear': Conf(tm.TrLinear, dict(TR), asks=dict(TASK, derivatives=lambda g: (g.dat2gauss(_X.copy(), np.ones(9)), g.gauss2dat(_X.copy(), np.ones(9))))),
    'KDE': Conf(wk.KDE, dict(data=D1, hs=[None, 0.4, 0.25, -1.0], kernel=[kern('gauss'), kern('epan'), kern('biweight')], alpha=[0.0, 0.3, 0.5],
                             xmin=[None, 0.0, -1.0], xmax=[None, 6.0], inc=[32, 64]), asks=dict(KASK, factor=lambda k: (k.norm_factor, k.alpha)), read=_kde_read),
    'KDE2': Conf(wk.KDE, dict(data=D2, hs=[None, np.array([.4, .6]), 0.5, np.array([[.4, .1], [.1, .6]])], alpha=[0.0, 0.4], xmin=[None, 0.0, np.array([0., -1.])], xmax=[None, 6.0],
                              inc=[16, 24]), read=_kde_read,
                 asks=dict(points=lambda k: k.eval_points(np.vstack((_P, _P[::-1]))), fast=lambda k: k.eval_grid_fast(), settings=KASK['settings'],
                           grid=lambda k: k.eval_grid(_P[:4].copy(), _P[:5].copy()))),
    'TKDE': Conf(wk.TKDE, dict(data=D1, hs=[None, 0.3, 0.2], kernel=[kern('gauss'), kern('epan')], alpha=[0.0, 0.3], xmin=[None, 0.01, 0.1], xmax=[None, 6.0], inc=[32, 64],
                               L2=[0.5, 0, 1, None]), asks=KASK, readonly=('alpha',), read=_tkde_read),
    'TKDE2': Conf(wk.TKDE, dict(data=D2, hs=[None, np.array([.4, .6])], xmin=[None, 0.01], xmax=[None, 6.0], inc=[16, 20], L2=[0.5, [0.5, 1]]), read=_tkde_read,
                  asks=dict(points=lambda k: k.eval_points(np.vstack((_P, _P[::-1]))), fast=lambda k: k.eval_grid_fast(), settings=KASK['settings'])),
    'KRegression': Conf(wk.KRegression, dict(data=[XR], y=YR, p=[0, 1], hs=[None, .3, .5], kernel=[kern('gauss'), kern('epan')], inc=[32, 48], xmin=[-.5, 0.0], xmax=[3.5, 4.]),
                        read=_kreg_read, readonly=('data',),
                        asks=dict(fast=lambda k: k.eval_grid_fast(), call=lambda k: k(np.linspace(-.3, 3.3, 30)), grid=lambda k: k.eval_grid(_P.copy()))),
    'BKRegression': Conf(wk.BKRegression, dict(data=[XB], y=YB, method=['beta', 'wilson'], a=[.05, .2], b=[.05, .1], hs_e=[None, .5, .8], hs=[None, .5, .7]), read=_bk_read,
                         readonly=('data', 'y'),
                         asks=dict(empirical=lambda k: (k.prb_empirical().data, k.prb_empirical().dataCI), grid=lambda k: k.get_grid(), settings=lambda k: (k.hs, k.hs_e, k.a, k.b),
                                   smoothed=lambda k: k.prb_smoothed(k.prb_empirical(), k.hs[0]), ci=lambda k: k.prb_ci(np.array([10., 20.]), np.array([.2, .9])),
                                   reg=lambda k: k.kreg.eval_grid_fast())),
    'Spreading': Conf(sm.Spreading, dict(type=['cos2s', 'box', 'mises', 'poisson', 'sech2', 'wrap_norm'], theta0=[0.0, 0.4, (lambda w: 0.3 * w)],
                                         method=['mitsuyasu', None, 'donelan', 'banner'], s_a=[15., 8.], s_b=[15., 9.], m_a=[5., 4.], m_b=[-2.5, -2.], wn_lo=[0.0, 0.3],
                                         wn_c=[1.0, 1.2], wn_up=[np.inf, 1.5]), rtol=1e-6,
                      asks=dict(call=lambda d: d(np.linspace(-np.pi, np.pi, 11), np.linspace(.1, 2, 5), 0.6), s=lambda d: d.spread_parameter_s(np.linspace(.1, 3, 7)),
                                par=lambda d: d.fourier2distpar(np.linspace(.1, .9, 5)))),
    'TransferFunction': Conf(wtc.TransferFunction, dict(pos=[(0, 0, 0), (5, 0, -3), (0, 40, 0)], sensortype=['n', 'n_t', 'n_x', 'n_yy', 'p', 'u', 'v', 'w', 'u_t', 'x_p', 'z_p'],
                                                        h=[50., np.inf, 20.], g=[9.81, 9.7], rho=[1028, 1000], bet=[1, -1], igam=[1, 2, 3], thetax=[90, 45], thetay=[0, 30]),
                             asks=dict(tran=lambda f: f.tran(np.linspace(.1, 2, 6), np.linspace(0, 6, 5)), call=lambda f: f(np.linspace(0, 3, 4)),
                                       kw=lambda f: f.tran(np.linspace(.1, 2, 6), 0.3, np.linspace(.1, 2, 6) ** 2 / 9.81))),
    'TransformEstimator': Conf(te.TransformEstimator, dict(method=['nonlinear', 'mnonlinear', 'hermite', 'linear'], param=[(-5, 5, 101), (-4, 4, 81)], gsm=[.05, .1], csm=[.95, .9], gvar=[1, 2],
                                                           ntr=[10000, 60], ne=[7, 5], chkder=[True, False], linextrap=[True, False]), kind='trest'),
    'CovarianceEstimator': Conf(wce.CovarianceEstimator, dict(lag=[None, 20, 30], window=['boxcar', 'parzen'], flag=['biased', 'unbiased'], norm=[False, True], dt=[None, 1.0],
                                                              tr=[None, tm.TrLinear(mean=.2, sigma=2.)]), kind='covest'),
    'SmoothNd': Conf(sg.SmoothNd, dict(s=[None, 5.0], robust=[False, True], fulloutput=[False, True], weight=[None, 'cauchy', 'talworth'], tolz=[1e-3, 1e-2],
                                       maxiter=[100, 3]), kind='smoothnd',
                     read=lambda o, s: dict({k: getattr(o, k) for k in s}, weight=o.weightstr)),
    'SavitzkyGolay': Conf(sg.SavitzkyGolay, dict(n=[3, 4, 5], degree=[1, 2, 3], diff_order=[0, 1], delta=[1.0, 0.5], axis=[-1, 0], mode=['interp', 'nearest', 'constant', 'wrap'],
                                                 cval=[0.0, 2.0]), asks=dict(call=lambda f: f(YS.copy()), two=lambda f: f(np.outer(YS[:20], YS[20:40])), last=lambda f: f.smooth_last(YS.copy()))),
    'HodrickPrescott': Conf(sg.HodrickPrescott, dict(w=[50, 100, 7]), kind='hodrick'),
    'QuadOsc': Conf(wio.QuadOsc, dict(f=[OF[0], OF[1]], g=[OG[0], OG[1]], dg=[None], a=[0.1, 0.0, -np.inf], b=[1.0, 2.0, np.inf], s=[15, 9], precision=[8, 6], full_output=[False, True], maxiter=[9, 5]),
                    asks=dict(call=lambda q: q(3.0), other=lambda q: q(7.0)), readonly=('dg', 'g'), rtol=1e-6),
    'EvansWebster': Conf(wio.EvansWebster, dict(f=[OF[0], OF[1]], g=[OG[0], OG[1]], a=[0.1, 0.0], b=[1.0, 2.0], s=[8, 6], precision=[8, 6], full_output=[False, True]),
                         asks=dict(call=lambda q: q(3.0), other=lambda q: q(20.0)), readonly=('g',), rtol=1e-6),
    'HampelFilter': Conf(sg.HampelFilter, dict(dx=[None, 4], t=[3, 2], adaptive=[None, .1], fulloutput=[False, True]), kind='hampel'),
}
BAD = {'KDE': [('hs', np.ones(3)), ('hs', 'x'), ('alpha', np.ones(7)), ('kernel', 'nosuch'), ('dataset', 'x')], 'TKDE': [('hs', 'x'), ('L2', 'x'), ('kernel', 17)],
       'KDE2': [('hs', np.ones(3)), ('hs', np.array([[1., 3], [3, 1]]))], 'Spreading': [('method', 'nosuch')], 'BKRegression': [('hs', 'x')], 'KRegression': [('hs', 'x')]}
TKDE_ATTRS = ('hs', 'inc', 'kernel', 'xmin', 'xmax')


def assign(name, obj, attr, val):
    if attr == 'data':
        attr = 'dataset'
    tgt = obj.tkde if name == 'KRegression' and attr in TKDE_ATTRS else obj
    setattr(tgt, attr, val)


def setup(refs):
    global _refs
    _refs = refs


def initial(name, init):
    c = CONF[name]
    return {k: own(copy.deepcopy(c.choices[k][i])) for k, i in init}


def model(name, init, sets):
    """the object built directly with the final settings"""
    c = CONF[name]
    s = initial(name, init)
    obj = c.ctor(dict(s))
    for attr, i in sets:
        s = c.read(obj, s)
        s[attr] = own(copy.deepcopy(c.choices[attr][i]))
        obj = c.ctor(dict(s))
    return obj


def ask(name, obj, q, v):
    c = CONF[name]
    if c.kind:
        fn, args, kwds = OPS[q].make(v)
        return fn(obj, *args, **kwds)
    return c.asks[q](obj)


def questions(name):
    c = CONF[name]
    return [(n, v) for n in gen.families()['kind:' + c.kind] for v in range(OPS[n].nv)] if c.kind else [(q, 0) for q in sorted(c.asks)]


def reference(key):
    """('c', name, init, sets, question, v)"""
    _, name, init, sets, q, v = key
    boot.af.set_fill(0)
    UserFn.context = world.CallbackSeam()
    try:
        obj = model(name, init, sets)
    except Exception as e:                                          # noqa
        return dict(out=('nobuild', type(e).__name__))
    return dict(out=world.outcome_of(lambda: ask(name, obj, q, v))[:2])


N = dict(quick=40, thorough=60)


def programs(seed, rnd, tier):
    out = []
    i = 0
    for name in sorted(CONF):
        c = CONF[name]
        qs = questions(name)
        attrs = sorted(c.choices)
        settable = [a for a in attrs if a not in c.readonly]
        for rep in range(N[tier] if len(settable) > 4 else N[tier] // 2):
            r = gen.rng_for(seed, PROP, rnd * 100000 + i)
            i += 1
            init = tuple((a, 0 if r.random() < 0.5 else r.randrange(len(c.choices[a]))) for a in attrs)
            now = dict(init)
            steps = []
            focus = [r.choice(settable) for _ in range(r.choice((1, 2, 3)))]
            pq = r.choice((0.2, 0.6, 1.0))
            for _ in range(r.choice((1, 2, 3, 4, 6))):
                if r.random() < pq:
                    steps.append(['ask'] + list(r.choice(qs)))
                a = r.choice(focus) if r.random() < 0.7 else r.choice(settable)
                opts = [k for k in range(len(c.choices[a])) if k != now[a]]
                if opts:
                    k = r.choice(opts)
                    if r.random() < 0.12:
                        steps.append(['setfail', a, k, r.random(), r.random() < 0.3])
                    else:
                        steps.append(['set', a, k])
                        now[a] = k
                if name in BAD and r.random() < 0.12:
                    steps.append(['bad', r.randrange(len(BAD[name]))])
                if r.random() < 0.1:
                    steps.append(['copy', r.choice(('deepcopy', 'pickle'))])
            for q in r.sample(qs, min(3, len(qs))):
                steps.append(['ask'] + list(q))
            out.append(dict(conf=name, init=[list(x) for x in init], steps=steps, fill=r.choice(gen.FILLS)))
    return out


def walk(prog):
    """(step, sets so far) with the failing changes taken to fail"""
    sets = []
    for st in prog['steps']:
        if st[0] == 'set':
            sets.append((st[1], st[2]))
        yield st, tuple(sets)


def key(prog, sets, st):
    return ('c', prog['conf'], tuple((a, i) for a, i in prog['init']), sets, st[1], st[2])


def needed(prog):
    return [key(prog, sets, st) for st, sets in walk(prog) if st[0] == 'ask']


def execute(prog):
    prog = copy.deepcopy(prog)
    boot.af.set_fill(prog['fill'])
    UserFn.context = world.CallbackSeam()
    world.prevail(None)
    np.random.seed(world.RS)
    name = prog['conf']
    c = CONF[name]
    vs, stats, log = [], {}, []

    def count(k):
        stats[k] = stats.get(k, 0) + 1
    try:
        obj = c.ctor(initial(name, [tuple(x) for x in prog['init']]))
    except Exception:                                               # noqa
        count('not buildable')
        return dict(violations=[], stats=stats, log=[], prog=prog)
    changed = []
    for n, (st, sets) in enumerate(walk(prog)):
        if st[0] == 'set':
            try:
                assign(name, obj, st[1], own(copy.deepcopy(c.choices[st[1]][st[2]])))
            except Exception as e:                                  # noqa
                # a combination the constructor rejects as well is no violation
                count('change rejected')
                ok = True
                try:
                    model(name, [tuple(x) for x in prog['init']], sets)
                except Exception:                                   # noqa
                    ok = False
                if ok:
                    vs.append(dict(property=PROP, kind='rejected', where='%s.%s' % (name, st[1]), step=n,
                                   what='setting %s.%s raised %s: %.60s, but an object can be built with these settings' % (name, st[1], type(e).__name__, e)))
                break
            count('change')
            changed.append(st[1])
        elif st[0] == 'setfail':
            val = own(copy.deepcopy(c.choices[st[1]][st[2]]))
            twin = copy.deepcopy(obj)
            boot.af.arm(0, False)
            try:
                assign(name, twin, st[1], copy.deepcopy(val))
            except Exception:                                       # noqa
                pass
            total = boot.af.disarm()[0]
            if total <= 0:
                continue
            boot.af.arm(1 + int(st[3] * total), bool(st[4]))
            failed = False
            try:
                assign(name, obj, st[1], val)
            except Exception:                                       # noqa
                failed = True
            hit = boot.af.disarm()[1]
            count('fault:mem:fired' if hit else 'fault:mem:armed, call ended first')
            if not failed:
                count('change survived the fault')
                break
        elif st[0] == 'bad':
            a, val = BAD[name][st[1]]
            try:
                assign(name, obj, a, copy.deepcopy(val))
            except Exception:                                       # noqa
                count('bad value rejected')
            else:
                count('bad value accepted')
                break
        elif st[0] == 'copy':
            try:
                obj = copy.deepcopy(obj) if st[1] == 'deepcopy' else pickle.loads(pickle.dumps(obj))
                count('copy:' + st[1])
            except Exception:                                       # noqa
                count('copy refused')
        else:
            ref = _refs.get(key(prog, sets, st))
            if ref is None or ref['out'][0] in ('nobuild', 'hang', 'signal'):
                count('no such object')
                break
            np.random.seed(world.RS)
            out = world.outcome_of(lambda: ask(name, obj, st[1], st[2]))
            count('query')
            d = world.compare(ref['out'], out, c)
            if d:
                vs.append(dict(property=PROP, kind='answer', where='%s:%s' % (name, changed[-1] if changed else 'built'), step=n,
                               what='%s after changing %s: %s differs from a freshly built object: %s' % (name, ', '.join(changed) or 'nothing', st[1], d)))
                break
        log.append(tuple(map(str, st[:3])))
    return dict(violations=vs, stats=stats, log=[(name,)] + log if changed else [], prog=prog)


for _c in CONF.values():
    _c.atol = 1e-300


def shrinks(prog):
    out = [dict(copy.deepcopy(prog), steps=copy.deepcopy(s)) for s in drop_each(prog['steps']) if len(s) < len(prog['steps'])]
    for i, (a, k) in enumerate(prog['init']):
        if k:
            p = copy.deepcopy(prog)
            p['init'][i][1] = 0
            out.append(p)
    return out


def catalogue():
    return dict(kinds=len(CONF), settings=sum(len(c.choices) for c in CONF.values()))
