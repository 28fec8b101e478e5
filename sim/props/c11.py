"""C11: two on-line filters are fed seeded histories of measurements, with rejected and aborted measurements, resets, changes of
the model, copies, saves and crashes in between; every reported estimate and covariance is compared with a reference recursion."""
import copy
import pickle
import numpy as np
from .. import boot
boot.boot()
from wafo.sg_filter import Kalman
from .. import gen, world
from ..core import drop_each

PROP, LEVEL = 'C11', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 60, 1200, 4
RULE = ('A run drives 1-2 filters through 3-40 steps (measurements with and without input, rejected measurements, measurements aborted at '
        'an allocation, resets, changed models, copies, saves, crashes with restart from the saved bytes).  Non-trivial: at least two '
        'accepted measurements; distinct by configuration and sequence of steps.')
ASSUMPTIONS = ['state and measurement dimensions 1-3', 'the reference recursion in sim/props/c11.py']
N = dict(quick=700, thorough=1500)


def mats(n, m, k):
    """the k-th matrices of each role for n states and m measured values"""
    r = np.random.RandomState(1000 * n + 100 * m + k)
    g = r.normal(size=(n, n))
    gr = r.normal(size=(m, m))
    h = r.normal(size=(m, n))
    if m == n:
        h = h * 0.3 + np.eye(n) * (1 + 0.5 * k)
    return dict(A=0.6 * g / np.linalg.norm(g, 2) + 0.4 * np.eye(n), B=r.normal(size=(n, 2)), Q=0.1 * g.dot(g.T) + 0.01 * np.eye(n),
                H=h, R=0.5 * gr.dot(gr.T) + 0.2 * np.eye(m), P=(g.dot(g.T) + 0.3 * np.eye(n)) * (k != 3), x=r.normal(size=n) * (k != 2))


class Model(object):
    """the recursion, nothing else"""

    def __init__(self, cfg):
        self.__dict__.update(cfg)
        self.started = False

    def fill(self, n):
        if self.A is None:
            self.A = np.eye(n)
        if self.Q is None:
            self.Q = np.zeros((n, n))
        if self.H is None:
            self.H = np.eye(n)

    def measure(self, z, u):
        if not self.started and self.x is None:
            n = np.size(z)
            self.fill(n)
            singular = self.H.shape[0] != self.H.shape[1] or np.linalg.matrix_rank(self.H) < n
            inv = np.eye(n) if singular else np.linalg.inv(self.H)
            if self.P is None:
                self.P = inv @ np.atleast_2d(self.R) @ inv.T
            self.x = inv @ np.atleast_1d(z)
        else:
            n = np.size(self.x)
            if not self.started:
                self.fill(n)
            pri = self.A @ self.P @ self.A.T + self.Q
            x = self.A @ self.x
            if self.B is not None:
                x = x + self.B @ u
            s = self.H @ pri @ self.H.T + self.R
            gain = np.linalg.solve(s.T, (pri @ self.H.T).T).T
            self.x = x + gain @ (np.atleast_1d(z) - self.H @ x)
            self.P = pri - gain @ self.H @ pri
        self.started = True


def config(c):
    n, m = c['n'], c['m']
    M = mats(n, m, c['k'])
    return {a: (M[a] if c['given'][a] else None) for a in ('x', 'P', 'A', 'B', 'Q', 'H', 'R')}


def make(c):
    cfg = config(c)
    kw = {a: (None if v is None else v.copy()) for a, v in cfg.items()}
    if kw['B'] is None:
        kw['B'] = 0
    if c['scalar']:
        kw = {a: (float(np.ravel(v)[0]) if v is not None and a not in ('x', 'B') else v) for a, v in kw.items()}
    return Kalman(**kw), Model(dict(cfg))


def measurement(c, k):
    z = np.random.RandomState(50 + k).normal(size=c['m']) * 2 + 1
    return float(z[0]) if c['scalar'] else z


def control(c, k):
    return np.random.RandomState(150 + k).normal(size=2)


def setup(refs):
    pass


def reference(key):
    raise NotImplementedError


def needed(prog):
    return []


def programs(seed, rnd, tier):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for(seed, PROP, rnd * 100000 + i)
        n = r.choice((1, 1, 2, 2, 3))
        x = r.random() < 0.5
        m = r.choice((1, 2, 3)) if x else n
        given = dict(x=x, P=x or r.random() < 0.4, A=r.random() < 0.6, B=r.random() < 0.4, Q=r.random() < 0.6, R=True,
                     H=m != n or r.random() < 0.6)
        cfg = dict(n=n, m=m, k=r.randrange(4), given=given, scalar=n == 1 and m == 1 and not given['B'] and r.random() < 0.5)
        steps = []
        two = r.random() < 0.4
        rate = r.choice((0.1, 0.3, 0.6))
        for _ in range(r.choice((3, 6, 12, 40 if tier == 'thorough' else 20))):
            w = r.randrange(2) if two else 0
            if r.random() > rate:
                steps.append(['z', w, r.randrange(8), r.randrange(3)])
                continue
            y = r.random()
            if y < 0.25:
                steps.append(['fail', w, r.randrange(8), r.randrange(3), r.random(), r.random() < 0.3])
            elif y < 0.5:
                steps.append(['bad', w, r.choice(('size', 'text', 'none', 'u'))])
            elif y < 0.6:
                steps.append(['reset', w])
            elif y < 0.75:
                steps.append(['set', w, r.choice('AQHPRBxP'), r.randrange(4)])
            elif y < 0.82:
                steps.append(['copy', w, r.choice(('deepcopy', 'pickle'))])
            elif y < 0.88:
                steps.append(['save', w])
            elif y < 0.94:
                steps.append(['crash', w])
            else:
                steps.append(['fork'])
        out.append(dict(cfg=cfg, steps=steps, fill=r.choice(gen.FILLS)))
    return out


def state(k):
    return [None if getattr(k, a) is None else np.array(getattr(k, a), dtype=float) for a in ('x', 'P', 'A', 'Q', 'H', 'R')]


def same(a, b):
    return all((x is None) == (y is None) and (x is None or (x.shape == y.shape and np.array_equal(x, y))) for x, y in zip(a, b))


def apart(got, want):
    """how far an estimate is from that of the recursion, None when equal within rounding"""
    if got is None or want is None:
        return None if got is None and want is None else 'one of them does not exist'
    g, w = np.ravel(np.asarray(got, dtype=float)), np.ravel(np.asarray(want, dtype=float))
    if g.shape != w.shape:
        return 'has %d values instead of %d' % (g.size, w.size)
    scale = max(1e-3, np.abs(w).max())
    d = np.abs(g - w).max()
    return None if d <= 1e-6 * scale else 'off by %.3g (value %.5g, recursion %.5g)' % (d, g[np.abs(g - w).argmax()], w[np.abs(g - w).argmax()])


def execute(prog):
    prog = copy.deepcopy(prog)
    boot.af.set_fill(prog['fill'])
    world.prevail(None)
    c = prog['cfg']
    vs, stats, log = [], {}, []
    filt, mod, saved = [None, None], [None, None], [None, None]
    for w in (0, 1):
        filt[w], mod[w] = make(c)
    accepted = 0

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def bad(kind, n, what):
        vs.append(dict(property=PROP, kind=kind, where='Kalman', step=n, what='step %d: %s' % (n, what)))

    def check(w, n, what, x=None):
        d = apart(filt[w].x, mod[w].x)
        if d:
            return bad('estimate', n, 'the estimate after %s %s' % (what, d))
        if x is not None:
            d = apart(x, mod[w].x)
            if d:
                return bad('returned', n, 'the estimate returned for %s %s' % (what, d))
        d = apart(filt[w].P, mod[w].P)
        if d:
            return bad('covariance', n, 'the covariance after %s %s' % (what, d))
    for n, st in enumerate(prog['steps']):
        w = st[1] if len(st) > 1 else 0
        if st[0] in ('z', 'fail'):
            z, u = measurement(c, st[2]), control(c, st[3])
            kw = dict(u=u.copy()) if mod[w].B is not None else {}
            nxt = copy.deepcopy(mod[w])
            try:
                nxt.measure(z, u)
                cond = 1.0 if mod[w].x is None or mod[w].P is None else np.linalg.cond(nxt.P + 1e-9 * np.eye(len(nxt.P)))
            except Exception:                                       # noqa
                break                                               # outside the recursion
            if not np.isfinite(nxt.P).all() or np.abs(nxt.P).max() > 1e6 or cond > 1e9:
                count('badly conditioned, run ended')
                break
            before = state(filt[w])
            buf = copy.copy(z)
            hit = 0
            if st[0] == 'fail':
                twin = copy.deepcopy(filt[w])
                boot.af.arm(0, False)
                try:
                    twin(copy.copy(z), **copy.deepcopy(kw))
                except Exception:                                   # noqa
                    pass
                total = boot.af.disarm()[0]
                if total > 0:
                    boot.af.arm(1 + int(st[4] * total), bool(st[5]))
            err = x = None
            try:
                x = filt[w](buf, **kw)
            except Exception as e:                                  # noqa
                err = e
            if st[0] == 'fail':
                hit = boot.af.disarm()[1]
                count('fault:mem:fired' if hit else 'fault:mem:armed, call ended first')
            for b in [buf] + list(kw.values()):                     # the caller uses its arrays again
                if isinstance(b, np.ndarray):
                    b[...] = 1e3
            if err is None:
                mod[w] = nxt
                accepted += 1
                count('measurement')
                check(w, n, 'a measurement' + (' (memory was short)' if hit else ''), x)
            elif hit:
                if not same(before, state(filt[w])):
                    bad('trace', n, 'a measurement lost to exhausted memory changed the filter')
            else:
                bad('refused', n, 'a valid measurement raised %s: %.60s' % (type(err).__name__, err))
        elif st[0] == 'bad':
            before = state(filt[w])
            z, kw = measurement(c, 0), {}
            if st[2] == 'size':
                z = np.arange(5.0)
            elif st[2] == 'text':
                z = 'abc'
            elif st[2] == 'none':
                z = None
            else:
                kw = dict(u=np.ones((7, 3)))
                if mod[w].B is None:
                    continue
            try:
                filt[w](z, **kw)
            except Exception:                                       # noqa
                count('measurement rejected')
                if not same(before, state(filt[w])):
                    bad('trace', n, 'a rejected measurement (%s) changed the filter' % st[2])
            else:
                count('odd measurement accepted, run ended')
                break
        elif st[0] == 'reset':
            filt[w].reset()
            mod[w].started = False
            count('reset')
            check(w, n, 'a reset')
        elif st[0] == 'set':
            if (mod[w].x is None and st[2] in 'Hx') or (mod[w].B is None and st[2] == 'B'):
                continue
            v = mats(c['n'], c['m'], st[3])[st[2]]
            setattr(filt[w], st[2], v.copy())
            setattr(mod[w], st[2], v)
            count('model changed')
        elif st[0] == 'copy':
            filt[w] = copy.deepcopy(filt[w]) if st[2] == 'deepcopy' else pickle.loads(pickle.dumps(filt[w]))
            count('copy')
        elif st[0] == 'save':
            saved[w] = (pickle.dumps(filt[w]), copy.deepcopy(mod[w]))
            count('save')
        elif st[0] == 'crash':
            if saved[w] is None:
                filt[w], mod[w] = make(c)
            else:
                filt[w], mod[w] = pickle.loads(saved[w][0]), copy.deepcopy(saved[w][1])
            count('fault:crash and restart')
            check(w, n, 'a restart')
        elif st[0] == 'fork':
            filt[1], mod[1] = copy.deepcopy(filt[0]), copy.deepcopy(mod[0])
            count('fork')
        log.append(tuple(map(str, st[:4])))
        if vs:
            break
        if two_apart(filt, mod):
            bad('other', n, 'the filter that was not used changed')
            break
    head = [(str(sorted(c.items(), key=str)),)]
    return dict(violations=vs, stats=stats, log=head + log if accepted > 1 else [], prog=prog)


def two_apart(filt, mod):
    return any(apart(f.x, m.x) or (m.P is not None and apart(f.P, m.P)) for f, m in zip(filt, mod))


def shrinks(prog):
    out = [dict(copy.deepcopy(prog), steps=copy.deepcopy(s)) for s in drop_each(prog['steps']) if len(s) < len(prog['steps'])]
    for a in ('A', 'Q', 'B'):
        if prog['cfg']['given'][a]:
            p = copy.deepcopy(prog)
            p['cfg']['given'][a] = False
            out.append(p)
    return out
