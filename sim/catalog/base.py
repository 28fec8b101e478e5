"""Catalogue of what the simulated clients can do with the library.

Kind   builds an object from a variant number.
Op     a query: a free function, or a call on an object of some kind, that must not change anything.
Mut    a change of an object in place, valid or invalid.
All arguments are functions of a small variant number, drawn from few choices per parameter, so that different
variants of one operation often differ in a single parameter only.
"""
import random
import zlib
import numpy as np
from ..fp import UserFn

FORM = 1000                             # variant v in form f is number v + FORM * f
KINDS = {}
OPS = {}
MUTS = {}


class Choice(object):
    """deterministic small choices for one (name, variant)"""

    def __init__(self, name, v):
        self.name, self.v = name, v
        self.r = random.Random(zlib.crc32(('%s/%d' % (name, v)).encode()))
        self.calls = 0

    def of(self, *vals):
        """one of the values; any len(vals) consecutive variants (counted from a multiple of it) take each of them once"""
        n = len(vals)
        self.calls += 1
        order = list(range(n))
        random.Random(zlib.crc32(('%s/%d/%d' % (self.name, self.calls, self.v // n)).encode())).shuffle(order)
        return vals[order[self.v % n]]

    def np(self, k=3):
        """a numpy generator with one of k seeds"""
        return np.random.RandomState(1000 + self.r.randrange(k))

    def normal(self, *shape, **kw):
        return self.np(kw.get('k', 3)).normal(size=shape)

    def uniform(self, *shape, **kw):
        return self.np(kw.get('k', 3)).uniform(kw.get('lo', 0.0), kw.get('hi', 1.0), size=shape)

    def series(self, n=None, k=3):
        """a sea surface like series"""
        n = n or self.of(60, 100)
        rng = self.np(k)
        t = np.arange(n) * 0.5
        x = np.zeros(n)
        for w in (0.5, 0.9, 1.3, 2.0):
            x += rng.rayleigh(1.0) * np.cos(w * t + rng.uniform(0, 6.28)) / w
        return t, x + 0.05 * rng.normal(size=n)

    def fn(self, fun):
        return UserFn(fun)


def fresh(x):
    """arrays and containers of the caller's own, never those of the catalogue"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if type(x) is tuple:
        return tuple(fresh(y) for y in x)
    if type(x) is list:
        return [fresh(y) for y in x]
    if type(x) is dict:
        return {k: fresh(v) for k, v in x.items()}
    return x


# ---- forms: the same arguments as another caller might hand them over ---------------------------------------
def _strided(a):
    b = np.empty(tuple(2 * n for n in a.shape), a.dtype)
    c = b[tuple(slice(None, None, 2) for _ in a.shape)]
    c[...] = a
    return c


def _order(a):
    return np.asfortranarray(a) if a.ndim > 1 else a[::-1].copy()[::-1]


def _readonly(a):
    a.flags.writeable = False
    return a


def _some(a, val, at=2):
    a = a.astype(float)
    a.flat[a.size // at] = val
    return a


LAYOUT = [('list', lambda a: a.tolist()), ('strided', _strided), ('ordered', _order), ('readonly', _readonly), ('zero-dim', None), ('tuple', lambda a: tuple(a))]
VALUES = [('single', lambda a: a.astype(np.float32)), ('integer', lambda a: np.round(a).astype(int)), ('reversed', lambda a: a[::-1].copy()),
          ('nan', lambda a: _some(a, np.nan)), ('inf', lambda a: _some(a, np.inf, 3)), ('one', lambda a: a[:1].copy()), ('none', lambda a: a[:0].copy()),
          ('tie', lambda a: _some(a, a.flat[0])), ('constant', lambda a: np.full_like(a, a.flat[0])), ('negative', lambda a: -a),
          ('column', lambda a: a.reshape(-1, 1).copy()), ('row', lambda a: a.reshape(1, -1).copy()), ('zero', lambda a: _some(a, 0.0)), ('large', lambda a: a * 1e3),
          ('odd', lambda a: a[:-1].copy()), ('long double', lambda a: a.astype(np.longdouble))]
FORMS = LAYOUT + VALUES
WHICH = 3                               # of all arrays, of the first, of the last


def _arrays(x):
    if isinstance(x, np.ndarray):
        return [x] if x.ndim and x.size and x.dtype.kind in 'fi' else []
    if type(x) in (tuple, list):
        return [a for y in x for a in _arrays(y)]
    if type(x) is dict:
        return [a for k in sorted(x, key=str) for a in _arrays(x[k])]
    return []


def _put(x, new):
    if isinstance(x, np.ndarray):
        return new.get(id(x), x)
    if type(x) in (tuple, list):
        return type(x)(_put(y, new) for y in x)
    if type(x) is dict:
        return {k: _put(v, new) for k, v in x.items()}
    return x


def _boxed(x):
    """numbers as arrays without dimensions, which a callee can write into"""
    if type(x) is float:
        return np.array(x)
    if type(x) is tuple:
        return tuple(_boxed(y) for y in x)
    if type(x) is dict:
        return {k: _boxed(v) for k, v in x.items()}
    return x


def formed(args, form):
    """the arguments in another form, or None when there is nothing to form"""
    name, f = FORMS[(form - 1) % len(FORMS)]
    if f is None:
        new = _boxed(args)
        return new if any(isinstance(a, np.ndarray) and not a.ndim for a in list(new[0]) + list(new[1].values())) else None
    arrs = _arrays(args)
    if not arrs:
        return None
    which = (form - 1) // len(FORMS) % WHICH
    if which and len(arrs) == 1:
        return None
    arrs = (arrs, arrs[:1], arrs[-1:])[which]
    return _put(args, {id(a): f(a) for a in arrs})


class Kind(object):
    def __init__(self, name, build, nv, **flags):
        self.name, self._build, self.nv, self.flags = name, build, nv, flags

    def build(self, v):
        return self._build(Choice('kind:' + self.name, v % self.nv))


ENDLESS = {}


def endless(op, form):
    return form in ENDLESS.get(op, ())


class Op(object):
    def __init__(self, name, make, nv, kind=None, rng=False, rtol=1e-9, atol=1e-300, own_state=False, plot=False,
                 cb=False, slow=False, nothread=False, nomem=False, lazy=(), seeded=False):
        self.name, self._make, self.nv, self.kind = name, make, nv, kind
        self.rng, self.rtol, self.atol = rng, rtol, atol
        self.own_state = own_state      # the documented result is stored on the receiver itself
        self.plot, self.cb, self.slow, self.nothread, self.nomem = plot, cb, slow, nothread, nomem
        self.seeded = seeded
        self._forms = None
        self.lazy = tuple(lazy)         # public attributes of the receiver that hold the latest query's by-products

    def make(self, v):
        """(callable, args, kwds) for variant v"""
        form, v = divmod(v, FORM)
        r = self._make(Choice('op:' + self.name, v % self.nv))
        fn, args, kwds = (tuple(r) + ((), {}))[:3] if len(r) < 3 else r
        if isinstance(fn, str):
            name = fn

            def fn(recv, *a, **k):
                return getattr(recv, name)(*a, **k)
        args, kwds = fresh(tuple(args)), fresh(dict(kwds))
        if form:
            args, kwds = formed((args, kwds), form) or (args, kwds)
        return fn, args, kwds

    def forms(self):
        """the forms that make a difference, and are not known to run without end"""
        if self._forms is None:
            _, args, kwds = self.make(0)
            self._forms = [f for f in range(1, WHICH * len(FORMS) + 1)
                           if formed(fresh((args, kwds)), f) is not None and not endless(self.name, FORMS[(f - 1) % len(FORMS)][0])]
        return self._forms


class Mut(object):
    def __init__(self, name, make, nv, kind, bad=False, rng=False, cb=False, fresh=None, user=False):
        self.name, self._make, self.nv, self.kind, self.bad, self.rng, self.cb = name, make, nv, kind, bad, rng, cb
        self.fresh = fresh
        self.user = user                # several steps of the user's own, not one operation of the library

    def make(self, v):
        r = self._make(Choice('mut:' + self.name, v % self.nv))
        fn, args, kwds = (tuple(r) + ((), {}))[:3] if len(r) < 3 else r
        if isinstance(fn, str):
            name = fn

            def fn(recv, *a, **k):
                return getattr(recv, name)(*a, **k)
        return fn, fresh(tuple(args)), fresh(dict(kwds))


def widest(f, nv, most=12):
    """enough variants for each value of the widest choice in the source of f"""
    import ast
    import inspect
    import textwrap
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    except (SyntaxError, OSError):
        return nv
    for c in ast.walk(tree):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'of':
            n = 0
            for a in c.args:
                v = f.__globals__.get(getattr(getattr(a, 'value', None), 'id', None)) if isinstance(a, ast.Starred) else None
                n += len(v) if v is not None else 1
            nv = max(nv, min(n, most))
    return nv


def kind(name, nv=4, **flags):
    def deco(f):
        assert name not in KINDS, name
        KINDS[name] = Kind(name, f, widest(f, nv), **flags)
        return f
    return deco


def op(name, nv=6, kind=None, **flags):
    def deco(f):
        assert name not in OPS, name
        OPS[name] = Op(name, f, widest(f, nv), kind, **flags)
        return f
    return deco


def mut(name, nv=4, kind=None, **flags):
    def deco(f):
        assert name not in MUTS, name
        MUTS[name] = Mut(name, f, widest(f, nv), kind, **flags)
        return f
    return deco


def setter(attr):
    def fn(recv, value):
        setattr(recv, attr, value)
    fn.__name__ = 'set_' + attr
    return fn
