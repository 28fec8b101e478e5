"""C12: a fitted distribution is refitted, reconfigured, queried, copied and made to fail in seeded orders; at every step the record
it reports is recomputed from its own parameters and data, and compared with a fresh fit made in a pristine process."""
import copy
import pickle
import numpy as np
from scipy import special, optimize
from .. import boot
boot.boot()
import wafo.stats as wst
from .. import gen, world
from ..core import drop_each
from ..fp import canon, diff

PROP, LEVEL = 'C12', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 2
RULE = ('A run fits one distribution to one sample and then makes 2-10 steps: refits with other methods, fixed or starting values, refits that fail '
        '(rejected arguments, optimiser raising at its n-th evaluation, exhausted memory), changes of method and confidence level, profile intervals, '
        'copies and saves.  Non-trivial: at least one refit or failing refit; distinct by distribution and sequence of steps.')
ASSUMPTIONS = ['likelihood, spacing statistic, p-value and limits are recomputed from the public density and distribution function and the formulas of the documentation']
N = dict(quick=220, thorough=450)
_refs = None
DISTS = ['weibull_min', 'rayleigh', 'gumbel_r', 'genpareto', 'norm', 'expon', 'genextreme', 'lognorm', 'gamma', 'invweibull']
SHAPE = dict(weibull_min=(1.8,), genpareto=(0.1,), genextreme=(0.05,), lognorm=(0.4,), gamma=(2.5,), invweibull=(4.,))
KW = [{}, dict(floc=0.0), dict(fscale=1.1), dict(floc=-0.05), dict(f0=None), dict(floc=0.0, f0=None), dict(search=False), dict(floc=0.0, search=False)]
ALPHA = [0.05, 0.1, 0.01]
PARTS = ('par', 'LLmax', 'LPSmax', 'pvalue', 'par_cov', 'par_lower', 'par_upper', 'par_fix', 'i_fixed', 'i_notfixed')
QUERIES = ['profile', 'quantile', 'probability', 'values', 'ci']


def sample(name, k):
    r = np.random.RandomState(300 + k)
    u = r.uniform(0.01, 0.99, size=(40, 60, 25)[k % 3])
    return np.asarray(getattr(wst, name).ppf(u, *SHAPE.get(name, ())), dtype=float) + (0.0 if k != 1 else 0.0)


def kwargs(name, j):
    kw = dict(KW[j])
    if 'f0' in kw:
        if name not in SHAPE:
            kw.pop('f0')
        else:
            kw['f0'] = SHAPE[name][0] * 1.1
    return kw


def fresh_fit(name, k, j, method, alpha):
    return getattr(wst, name).fit2(sample(name, k), method=method, alpha=alpha, **kwargs(name, j))


def record(f):
    return {p: copy.deepcopy(getattr(f, p, None)) for p in PARTS}


def ask(f, q):
    x = np.linspace(0.3, 3, 7)
    if q == 'values':
        return f.pdf(x), f.cdf(x), f.sf(x), f.ppf([.1, .6]), f.stats(moments='mv')
    if q == 'profile':
        return f.profile(n=12).get_bounds(.05)
    if q == 'quantile':
        return f.profile_quantile(x=1.7, n=12).get_bounds(.1)
    if q == 'probability':
        return f.profile_probability(np.log(.2), n=12).get_bounds(.05)
    return f.ci_sf([.2], alpha=.1, i=len(f.par) - 1)


def setup(refs):
    global _refs
    _refs = refs


def reference(key):
    boot.af.set_fill(0)
    world.prevail(None)
    _, name, k, j, method, alpha, q = key
    try:
        f = fresh_fit(name, k, j, method, alpha)
    except Exception as e:                                          # noqa
        return dict(out=('nobuild', type(e).__name__))
    if q:
        return dict(out=world.outcome_of(lambda: ask(f, q))[:2])
    return dict(out=('ok', canon(record(f))))


class Optimiser(object):
    """the default optimiser, except that the n-th evaluation of the goal function raises"""

    def __init__(self, n):
        self.n = n

    def __call__(self, func, x0, *args, **kwds):
        left = [self.n]

        def goal(*a):
            left[0] -= 1
            if left[0] == 0:
                raise world.InjectedError('the goal function failed')
            return func(*a)
        return optimize.fmin(goal, x0, *args, **kwds)


def programs(seed, rnd, tier):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for(seed, PROP, rnd * 100000 + i)
        name = DISTS[i % len(DISTS)]
        steps = []
        for _ in range(r.choice((2, 3, 5, 8))):
            x = r.random()
            if x < 0.35:
                steps.append(['refit', r.randrange(len(KW)), r.choice((None, None, 'ml', 'mps', 'MPS'))])
            elif x < 0.5:
                steps.append(['memfit', r.randrange(len(KW)), r.choice((None, 'ml', 'mps')), r.random(), r.random() < 0.3])
            elif x < 0.6:
                steps.append(['optfit', r.randrange(len(KW)), r.choice((None, 'ml', 'mps')), r.choice((1, 2, 5, 20))])
            elif x < 0.68:
                steps.append(['badfit', r.choice(('method', 'fixed', 'all', 'unknown', 'type'))])
            elif x < 0.74:
                steps.append(['method', r.choice(('ml', 'mps'))])
            elif x < 0.8:
                steps.append(['alpha', r.randrange(len(ALPHA))])
            elif x < 0.93:
                steps.append(['ask', r.choice(QUERIES)])
            else:
                steps.append(['copy', r.choice(('deepcopy', 'pickle'))])
        if r.random() < 0.5:
            steps.append(['ask', r.choice(QUERIES)])
        out.append(dict(dist=name, data=r.randrange(3), first=[r.randrange(len(KW)), r.choice(('ml', 'mps')), r.randrange(len(ALPHA))], steps=steps, fill=r.choice(gen.FILLS)))
    return out


def walk(prog):
    """(step, settings of the fit that is expected to be in force, chosen method and alpha)"""
    j, method, a = prog['first']
    cur = (j, method, a)
    for st in prog['steps']:
        if st[0] == 'refit':
            method = (st[2] or method).lower()
            cur = (st[1], method, a)
        elif st[0] == 'method':
            method = st[1]
        elif st[0] == 'alpha':
            a = st[1]
        yield st, cur, method, a


def key(prog, cur, q=None):
    return ('f', prog['dist'], prog['data'], cur[0], cur[1], ALPHA[cur[2]], q)


def needed(prog):
    keys = [key(prog, tuple(prog['first']))]
    for st, cur, method, a in walk(prog):
        keys.append(key(prog, cur))
        if st[0] == 'ask':
            keys.append(key(prog, cur, st[1]))
    return keys


def consistent(f, name, data, alpha, kw):
    """None, or which part of the record does not belong to the parameters"""
    d = getattr(wst, name)
    par = np.asarray(f.par, dtype=float)
    if not np.array_equal(np.asarray(f.data), np.sort(data)):
        return 'the sample it holds is not the sample it was given'
    if not np.isfinite(par).all() or par[-1] <= 0:
        return None
    i0 = len(par) - 2
    for nm, i in (('floc', i0), ('fscale', i0 + 1), ('f0', 0)):
        if nm in kw and par[i] != kw[nm]:
            return 'parameter %d is %r, it was fixed to %r' % (i, par[i], kw[nm])
    x = np.sort(data)
    ll = d.logpdf(x, *par)
    if np.isfinite(ll).all() and not np.isclose(f.LLmax, ll.sum(), rtol=1e-6, atol=1e-6):
        return 'LLmax is %.8g, the likelihood of the reported parameters is %.8g' % (f.LLmax, ll.sum())
    cdf, sf = d.cdf(x, *par), d.sf(x, *par)
    low, up = np.hstack((0.0, cdf, 1.0)), np.hstack((1.0, sf, 0.0))
    dp = np.where(low[1:] < 0.5, np.diff(low), -np.diff(up))
    if (dp > 1e-12).all() and (np.diff(x) > 0).all():
        lps = np.log(dp).sum()
        if not np.isclose(f.LPSmax, lps, rtol=1e-5, atol=1e-5):
            return 'LPSmax is %.8g, that of the reported parameters is %.8g' % (f.LPSmax, lps)
        n = len(x)
        m = (n + 1) * (np.log(n + 1) + 0.57722) - 0.5 - 1 / (12. * (n + 1))
        v = (n + 1) * (np.pi ** 2 / 6 - 1) - 0.5 - 1 / (6. * (n + 1))
        free = len(par) - sum(1 for nm in ('floc', 'fscale', 'f0') if nm in kw)
        t = (-lps + 0.5 * free - (m - np.sqrt(0.5 * n * v))) / np.sqrt(v / (2. * n))
        pv = special.chdtrc(n, t)
        if not np.isclose(f.pvalue, pv, rtol=1e-4, atol=1e-6):
            return 'the p-value is %.6g, that of the reported parameters is %.6g' % (f.pvalue, pv)
    z = -special.ndtri(alpha / 2) * np.sqrt(np.diag(f.par_cov))
    if not (np.allclose(f.par_lower, par - z, rtol=1e-8, equal_nan=True) and np.allclose(f.par_upper, par + z, rtol=1e-8, equal_nan=True)):
        return 'the confidence limits are not those of the reported parameters, covariance and level'
    q = np.array([x[0], np.median(x), x[-1]])
    if not np.allclose(f.cdf(q), d.cdf(q, *par), rtol=1e-9, atol=1e-12, equal_nan=True):
        return 'its distribution function is not that of the reported parameters'
    return None


def execute(prog):
    prog = copy.deepcopy(prog)
    boot.af.set_fill(prog['fill'])
    world.prevail(None)
    np.random.seed(world.RS)
    name = prog['dist']
    data = sample(name, prog['data'])
    mine = data.copy()
    vs, stats, log = [], {}, []

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def bad(kind, n, what):
        vs.append(dict(property=PROP, kind=kind, where=name, step=n, what='%s, step %d: %s' % (name, n, what)))
    first = tuple(prog['first'])
    r0 = _refs.get(key(prog, first))
    if r0 is None or r0['out'][0] != 'ok':
        return dict(violations=[], stats={'not fittable': 1}, log=[], prog=prog)
    try:
        f = getattr(wst, name).fit2(mine, method=first[1], alpha=ALPHA[first[2]], **kwargs(name, first[0]))
    except Exception as e:                                          # noqa
        bad('refused', -1, 'the first fit raised %s: %.60s' % (type(e).__name__, e))
        return dict(violations=vs, stats=stats, log=[], prog=prog)
    refits = 0

    def check(n, what, cur):
        ref = _refs.get(key(prog, cur))
        if not np.array_equal(mine, data):
            return bad('sample', n, '%s altered the sample of the caller' % what)
        c = consistent(f, name, data, ALPHA[cur[2]], kwargs(name, cur[0]))
        if c:
            return bad('mixed', n, 'after %s %s' % (what, c))
        if ref is not None and ref['out'][0] == 'ok':
            d = diff(ref['out'][1], canon(record(f)), rtol=1e-6, atol=1e-9)
            if d:
                return bad('other', n, 'after %s the record differs from a fresh fit with the same settings: %s' % (what, d))
    check(-1, 'the first fit', first)
    cur = first
    for n, (st, nxt, method, a) in enumerate(walk(prog)):
        if vs:
            break
        what = st[0]
        if what == 'refit':
            kw = kwargs(name, st[1])
            if st[2]:
                kw['method'] = st[2]
            ref = _refs.get(key(prog, nxt))
            if ref is None or ref['out'][0] != 'ok':
                count('refit not possible, run ended')
                break
            try:
                f.fit(**kw)
            except Exception as e:                                  # noqa
                bad('refused', n, 'a refit raised %s: %.60s, a fresh fit with the same settings does not' % (type(e).__name__, e))
                break
            cur = nxt
            refits += 1
            count('refit')
            check(n, 'a refit', cur)
        elif what in ('memfit', 'optfit', 'badfit'):
            before = canon(f)
            hit = 0
            kw = {}
            if what != 'badfit':
                kw = kwargs(name, st[1])
                if st[2]:
                    kw['method'] = st[2]
            if what == 'memfit':
                if st[3] < 1:
                    twin = copy.deepcopy(f)
                    boot.af.arm(0, False)
                    try:
                        twin.fit(**kw)
                    except Exception:                               # noqa
                        pass
                    total = boot.af.disarm()[0]
                    # the beginning, the search and the statistics computed from its result
                    st[3] = max(1, int(1 + st[3] * total) if st[3] < .5 else int(total - (st[3] - .5) * min(300, total)))
                boot.af.arm(int(st[3]), bool(st[4]))
            elif what == 'optfit':
                kw['optimizer'] = Optimiser(st[3])
            else:
                kw = dict(method=dict(method='nosuch'), fixed=dict(floc=0, loc=1, fscale='x'), all=dict(floc=0, fscale=1, f0=1.0),
                          unknown=dict(nosuch=3), type=dict(floc='text'))[st[1]]
            err = None
            try:
                f.fit(**kw)
            except Exception as e:                                  # noqa
                err = e
            if what == 'memfit':
                hit = boot.af.disarm()[1]
                count('fault:mem:fired' if hit else 'fault:mem:armed, call ended first')
            elif what == 'optfit' and err is not None:
                count('fault:callback:fired')
            if err is None:
                count('survived the fault, run ended')
                j = st[1] if what == 'memfit' else None
                if what == 'memfit':
                    m = (st[2] or method).lower()
                    ref = reference_now(prog, (st[1], m, a))
                    if ref is not None:
                        d = diff(ref, canon(record(f)), rtol=1e-6, atol=1e-9)
                        if d:
                            bad('wrong', n, 'a refit that survived exhausted memory differs from a fresh one: %s' % d)
                break
            refits += 1
            count('failed refit')
            d = diff(before, canon(f), exact=True)
            if d:
                bad('trace', n, 'a failed refit (%s, %s) changed the record: %s' % (what, type(err).__name__, d))
                break
            check(n, 'a failed refit', cur)
        elif what == 'method':
            f.method = st[1]
            count('method set')
            check(n, 'choosing another method', cur)
        elif what == 'alpha':
            f.alpha = ALPHA[st[1]]
            count('level set')
            check(n, 'choosing another level', cur)
        elif what == 'copy':
            try:
                f = copy.deepcopy(f) if st[1] == 'deepcopy' else pickle.loads(pickle.dumps(f))
                count('copy:' + st[1])
            except Exception:                                       # noqa
                count('copy refused')
            check(n, 'a copy', cur)
        else:
            ref = _refs.get(key(prog, cur, st[1]))
            out = world.outcome_of(lambda: ask(f, st[1]))
            count('query')
            if ref is not None and ref['out'][0] in ('ok', 'err') and method == cur[1]:
                d = world.compare(ref['out'], out, Tol)
                if d:
                    bad('answer', n, '%s differs from that of a fresh fit with the same settings: %s' % (st[1], d))
                    break
            check(n, 'the query ' + st[1], cur)
        log.append(tuple(map(str, st[:3])))
    return dict(violations=vs, stats=stats, log=[(name, prog['data'], str(first))] + log if refits else [], prog=prog)


class Tol(object):
    rtol, atol = 1e-3, 1e-6


def reference_now(prog, cur):
    try:
        return canon(record(fresh_fit(prog['dist'], prog['data'], cur[0], cur[1], ALPHA[cur[2]])))
    except Exception:                                               # noqa
        return None


def shrinks(prog):
    return [dict(copy.deepcopy(prog), steps=copy.deepcopy(s)) for s in drop_each(prog['steps']) if len(s) < len(prog['steps'])]


def catalogue():
    return dict(distributions=len(DISTS), settings=len(KW))
