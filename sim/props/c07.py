"""C07: histories of draws, seeded and unseeded simulations and failed calls; every simulation is compared with the same one, given
the same seed or generator state, in a pristine process."""
import copy
import numpy as np
from .. import boot, gen, world
from ..core import drop_each
from ..fp import canon, diff
boot.boot()
import wafo.spectrum.models as sm
import wafo.covariance.core as wcc
import wafo.transform.models as tm
import wafo.objects as wo
import wafo.gaussian as wg
import wafo.misc as wm
import wafo.stats as wst

PROP, LEVEL = 'C07', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 70, 1500, 2
RULE = ('A run is a history of 3-12 steps in one process: draws of the user (uniform, odd numbers of normal), reseeding, saving and restoring '
        'the generator, simulations with and without seed on shared and fresh objects, rejected calls and calls aborted by memory exhaustion.  '
        'Each completed simulation is compared with a pristine process.  Non-trivial: at least one comparison after another step; distinct by '
        'the sequence of steps and outcomes.')
ASSUMPTIONS = ['a forked copy of the freshly started process stands for a fresh process']
N = dict(quick=320, thorough=900)
SEEDS = (0, 1, 12, 4294967295)


# ---- models and simulations -------------------------------------------------------------------------------
def spec(v):
    S = (sm.Jonswap(Hm0=7, Tp=11), sm.Bretschneider(Hm0=5, Tp=9))[v % 2].tospecdata(nw=(33, 65)[v // 2 % 2])
    if v % 3 == 1:
        S.tr = tm.TrHermite(mean=0.1, sigma=1.7, skew=0.2, kurt=3.2)
    return S


def spec_h(v):
    S = sm.Jonswap(Hm0=(7, 4)[v % 2], Tp=11).tospecdata(nw=129)
    S.h = 40.
    return S


def acf(v):
    t = np.arange(30) * 0.5
    tr = (None, None, tm.TrLinear(sigma=1.4))[v % 3]
    return wcc.CovData1D(1.3 * np.exp(-0.4 * t), t, tr=tr)


def crossings(v):
    u = np.linspace(-4, 4, 41)
    return wo.LevelCrossings(100 * np.exp(-0.5 * (u / (1.0, 1.3)[v % 2]) ** 2), u)


def missing(v):
    x = np.cos(np.arange(60) * 0.4) + 0.1 * np.sin(np.arange(60) * 1.7)
    x[[5, 6, 30][:1 + v % 3]] = np.nan
    return x


def cov3(v):
    r = (0.3, 0.6)[v % 2]
    return np.eye(4) * (1 - r) + r


def rind(seed, v):
    kw = {} if seed is None else dict(seed=seed)
    r = wg.Rind(method=(3, 0, 5)[v % 3], abseps=(1e-4, 1e-2)[v // 3 % 2], **kw)
    return r(cov3(v), np.zeros(4), np.full(4, -1.0), np.full(4, 1.5))[0]


def user_draw(seed, v):
    rs = wm.check_random_state(seed)
    return rs.rand(3), rs.randn(1 + v % 3), rs.randint(0, 1000, 4)


DISTS = [('weibull_min', (1.5,)), ('genpareto', (0.1,)), ('genextreme', (0.1,)), ('rayleigh', ()), ('gumbel_r', ()), ('truncrayleigh', (.3,)),
         ('exponweib', (1.2, 1.5)), ('norm', ()), ('gamma', (2.,))]
DISTS = [d for d in DISTS if hasattr(wst, d[0])]


def rvs(seed, v):
    n, a = DISTS[v % len(DISTS)]
    d = getattr(wst, n)
    if v // len(DISTS) % 2:
        return d(*a).rvs(size=5, random_state=seed)
    return d.rvs(*a, size=(2, 3), random_state=seed)


# name -> (model builder or None, fn(obj, seed, v), accepts a state, number of variants)
SIMS = dict(
    sim=(spec, lambda S, s, v: S.sim(ns=(40, 61)[v % 2], cases=(1, 2, 3)[v % 3], iseed=s, method='random', derivative=v % 4 == 3), True, 12),
    sim_dt=(spec, lambda S, s, v: S.sim(ns=(40, 64)[v % 2], cases=(1, 2)[v // 2 % 2], dt=(0.8, 1.1)[v % 2], iseed=s), True, 4),
    sim_exact=(spec, lambda S, s, v: S.sim(ns=(40, 61)[v % 2], cases=(1, 2, 3)[v % 3], iseed=s, method='exact', derivative=v % 4 == 3), True, 12),
    sim_nl=(spec_h, lambda S, s, v: S.sim_nl(ns=64, cases=1 + v % 2, iseed=s, method=('random', 'apdeterministic', 'adeterministic')[v % 3],
                                              output=('data', 'timeseries')[v // 2 % 2]), True, 8),
    acf=(acf, lambda R, s, v: R.sim(ns=(20, 45)[v % 2], cases=(1, 2, 3)[v % 3], iseed=s, derivative=v % 4 == 3), True, 12),
    rvs=(None, lambda _, s, v: rvs(s, v), False, 2 * len(DISTS)),
    rind=(None, lambda _, s, v: rind(s, v), False, 6),
    check_random_state=(None, lambda _, s, v: user_draw(s, v), False, 3),
)
FREE = dict(
    simcond=(acf, lambda R, s, v: R.simcond(missing(v), method=('exact', 'approx')[v % 2]), False, 6),
    crossings=(crossings, lambda L, s, v: L.sim(30, (0.3, 0.6)[v % 2]), False, 4),
    rndnormnd=(None, lambda _, s, v: wcc.rndnormnd(np.arange(4.), cov3(v), 1 + v % 3), False, 6),
    testgaussian=(spec, lambda S, s, v: S.testgaussian(50, cases=2, method='linear'), False, 2),
)
ALLSIMS = dict(SIMS, **FREE)
NAMES = sorted(ALLSIMS)
REJECT = [lambda S: S.sim(ns=-3, iseed=5), lambda S: S.sim(ns=40, iseed='x'), lambda S: S.sim(ns=40, iseed=5, method='none'),
          lambda S: S.sim(ns=40, cases=-1, iseed=6), lambda S: S.sim(ns=40, iseed=-1), lambda S: S.sim(ns=40, dt='x', iseed=3)]


def state(k, m):
    """a saved generator state, m normal draws after seeding with k"""
    rs = np.random.RandomState(k)
    if m:
        rs.randn(m)
    return rs


def seed_of(spec_):
    kind = spec_[0]
    if kind == 'int':
        return spec_[1]
    if kind == 'npint':
        return np.int64(spec_[1])
    st = state(spec_[1], spec_[2])
    if kind == 'rs':
        return st
    return st.get_state()


def key_of(st):
    return (st['sim'], st['v'], tuple(st['seed']) if st['seed'] else None, tuple(st['from']) if st.get('from') else None)


def do_sim(obj, st):
    name, v = st['sim'], st['v']
    return ALLSIMS[name][1](obj, seed_of(st['seed']) if st['seed'] else None, v)


def model(name, v):
    b = ALLSIMS[name][0]
    return b(v) if b else None


def reference(key):
    boot.af.set_fill(0)
    name, v, seed, start = key
    obj = model(name, v)
    np.random.set_state(state(*start).get_state() if start else state(91, 0).get_state())
    if seed and seed[0] == 'state':                                 # by definition the simulation from that state
        np.random.set_state(seed_of(seed))
        out = world.outcome_of(lambda: ALLSIMS[name][1](obj, None, v))
    else:
        out = world.outcome_of(lambda: ALLSIMS[name][1](obj, seed_of(seed) if seed else None, v))
    cnt = []
    if boot.af:                                                     # counted on a second run, so that the first is undisturbed
        np.random.set_state(state(*start).get_state() if start else state(91, 0).get_state())
        boot.af.arm(0, False)
        world.outcome_of(lambda: ALLSIMS[name][1](obj, seed_of(seed) if seed else None, v), lambda: cnt.append(boot.af.disarm()[0]))
    return dict(out=out[:2], allocs=cnt[0])


_refs = None


def setup(refs):
    global _refs
    _refs = refs


def needed(prog):
    return [key_of(s) for s in prog['steps'] if s['do'] == 'sim']


def programs(seed, rnd, tier):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for(seed, PROP, rnd * 100000 + i)
        focus = NAMES[i % len(NAMES)]
        steps = []

        def sim(name, fault=False):
            b, _, takes_state, nv = ALLSIMS[name]
            st = dict(do='sim', sim=name, v=r.randrange(nv), seed=None, obj=r.choice(('shared', 'fresh')))
            if name in SIMS and r.random() < 0.75:
                kinds = ['int', 'int', 'npint']
                if takes_state:
                    kinds += ['state', 'state']
                elif name in ('rvs', 'check_random_state'):
                    kinds += ['rs', 'rs']
                k = r.choice(kinds)
                st['seed'] = [k, r.choice(SEEDS)] if k in ('int', 'npint') else [k, r.choice((3, 4)), r.choice((0, 1, 2, 5))]
                if name == 'rind':
                    st['seed'] = ['int', r.choice((1, 7, 12345))]
            else:
                st['from'] = [r.choice((3, 4)), r.choice((0, 1, 2, 5))]
            if fault:
                st['fault'] = dict(frac=r.random(), persist=r.random() < 0.3)
            return st
        for _ in range(r.choice((1, 2, 3, 5, 8))):
            x = r.random()
            if x < 0.3:
                steps.append(dict(do='draw', what=r.choice(('rand', 'randn', 'randn', 'seed', 'permutation')), n=r.choice((1, 2, 3, 7))))
            elif x < 0.42:
                steps.append(dict(do='reject', n=r.randrange(len(REJECT))))
            elif x < 0.6:
                steps.append(sim(r.choice((focus, focus, r.choice(NAMES))), fault=True))
            else:
                steps.append(sim(r.choice((focus, r.choice(NAMES)))))
            if r.random() < 0.15:
                steps.append(dict(do='repeat', sim=r.choice(NAMES), v=r.randrange(2), n=r.choice((1, 2, 3))))
            if steps[-1]['do'] == 'sim' and r.random() < 0.3:       # the very same call again
                steps.append(dict(copy.deepcopy(steps[-1]), obj='shared'))
                steps[-1].pop('fault', None)
        steps.append(sim(focus))
        if r.random() < 0.35:
            steps[-1]['obj'] = 'shared'
            steps.append(copy.deepcopy(steps[-1]))
        if r.random() < 0.5:
            steps.append(dict(do='draw', what=r.choice(('rand', 'randn')), n=r.choice((1, 3))))
            steps.append(sim(focus))
        out.append(dict(steps=steps, fill=r.choice(gen.FILLS)))
    return out


def execute(prog):
    prog = copy.deepcopy(prog)
    boot.af.set_fill(prog.get('fill', 0))
    vs, stats, log = [], {}, []
    shared = {}

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def bad(i, kind, where, what):
        vs.append(dict(property=PROP, what=what, step=i, kind=kind, where=where))
    np.random.seed(5)
    for i, st in enumerate(prog['steps']):
        d = st['do']
        if d == 'draw':
            {'rand': np.random.rand, 'randn': np.random.randn, 'seed': np.random.seed, 'permutation': np.random.permutation}[st['what']](st['n'])
            log.append((d, st['what'], st['n']))
            continue
        if d == 'reject':
            if 'S' not in shared:
                shared['S'] = spec(0)
            out = world.outcome_of(lambda: REJECT[st['n']](shared['S']))
            count('fault:rejected call' if out[0] == 'err' else 'reject: accepted')
            log.append((d, st['n'], out[0]))
            continue
        if d == 'repeat':
            # save the generator, simulate, restore, simulate again
            obj = model(st['sim'], st['v'])
            np.random.randn(st['n'])
            saved = np.random.get_state()
            a = world.outcome_of(lambda: do_sim(obj, dict(st, seed=None)))
            after = np.random.get_state()
            np.random.set_state(saved)
            b = world.outcome_of(lambda: do_sim(obj, dict(st, seed=None)))
            count('restored and repeated')
            x = how(a[:2], b)
            if x:
                bad(i, 'repeat', st['sim'], '%s v%d without seed, repeated after restoring the generator: %s' % (st['sim'], st['v'], x))
            elif a[0] == 'ok' and same_state(saved, after) and st['sim'] != 'rind':
                bad(i, 'unmoved', st['sim'], '%s v%d without seed did not draw from the process-wide generator' % (st['sim'], st['v']))
            log.append((d, st['sim'], a[0]))
            continue
        name, v = st['sim'], st['v']
        ref = _refs.get(key_of(st))
        if ref is None or ref['out'][0] in ('hang', 'signal'):
            continue
        if st['obj'] == 'shared':
            if (name, v) not in shared:
                shared[name, v] = model(name, v)
            obj = shared[name, v]
        else:
            obj = model(name, v)
        if st.get('from'):
            np.random.set_state(state(*st['from']).get_state())
        f = st.get('fault')
        if f:
            if 'n' not in f:
                f['n'] = 1 + int(f.pop('frac') * max(ref['allocs'], 1))
            boot.af.arm(f['n'], f['persist'])
        else:
            boot.af.arm(0, False)
        hits = []
        out = world.outcome_of(lambda: do_sim(obj, st), lambda: hits.append(boot.af.disarm()[1]))
        if f:
            count('fault:memory exhausted' if hits[0] else 'memory fault not reached')
        count('seeded simulation' if st['seed'] else 'simulation from a restored state')
        if not (f and hits[0] and out[0] == 'err'):
            x = how(ref['out'], out)
            if x:
                given = 'seed %s' % (st['seed'],) if st['seed'] else 'the generator restored to state %s' % (st['from'],)
                bad(i, 'answer', name, '%s v%d with %s: %s' % (name, v, given, x))
        log.append((d, name, v, str(st['seed']), out[0], bool(f and hits[0])))
    return dict(violations=vs, stats=stats, log=log, prog=prog)


def same_state(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def how(ref, out):
    if ref[0] != out[0]:
        return 'raised %s: %.60s' % (out[1], out[2]) if out[0] == 'err' else 'returned a value instead of raising %s' % ref[1]
    if ref[0] == 'err':
        return None if ref[1] == out[1] else 'raised %s instead of %s' % (out[1], ref[1])
    return diff(ref[1], out[1], rtol=1e-9, atol=1e-12)


def shrinks(prog):
    out = [dict(prog, steps=copy.deepcopy(s)) for s in drop_each(prog['steps'])]
    if prog.get('fill'):
        out.append(dict(prog, fill=0))
    for i, s in enumerate(prog['steps']):
        if s.get('fault'):
            p = copy.deepcopy(prog)
            p['steps'][i].pop('fault')
            out.append(p)
        if s.get('v'):
            p = copy.deepcopy(prog)
            p['steps'][i]['v'] = 0
            out.append(p)
    return out


def catalogue():
    return dict(simulations=len(ALLSIMS), variants=sum(s[3] for s in ALLSIMS.values()))
