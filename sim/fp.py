"""Canonical, comparable pictures of values, and tolerant or exact comparison of two pictures.

A picture keeps what a user can observe: numbers, shapes, text, and the public attributes of library objects.
Private (underscore) attributes, plotters, time stamps and functions are not part of it.
"""
import types
import numpy as np

SKIP_ATTRS = {'date', 'plotter', 'maxit'}
_NUM = (bool, int, float, complex, np.number, np.bool_)


class UserFn(object):
    """A user supplied callable.  The simulator can make its n-th evaluation raise."""
    context = None   # set by the simulator: object with .enter(userfn)

    def __init__(self, fun, name='user'):
        self._fun = fun
        self.__name__ = name
        self._ncalls = 0

    def __call__(self, *args, **kwds):
        ctx = UserFn.context
        if ctx is not None:
            ctx.enter(self)
        return self._fun(*args, **kwds)

    def __reduce__(self):
        raise TypeError('user function is not saved')

    def __deepcopy__(self, memo):
        return self


class InjectedError(Exception):
    """raised by the simulator inside a user callable"""


def public_properties(obj):
    names = set()
    for cls in type(obj).__mro__:
        if not cls.__module__.startswith('wafo'):
            continue
        for name, val in vars(cls).items():
            if isinstance(val, property) and not name.startswith('_'):
                names.add(name)
    return sorted(names)


def canon(x, props=False, _memo=None):
    if _memo is None:
        _memo = {}
    if x is None or isinstance(x, (str, bytes)):
        return ('v', x)
    if isinstance(x, _NUM):
        return ('a', np.array(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('l', [canon(y, props, _memo) for y in x.ravel().tolist()])
        if x.dtype.kind in 'biufc':
            return ('a', np.array(x, copy=True, subok=False))
        return ('v', x.tolist() if x.dtype.kind in 'SU' else str(x))
    if id(x) in _memo:
        return ('cycle',)
    _memo[id(x)] = x
    try:
        if isinstance(x, (list, tuple)):
            return ('l', [canon(y, props, _memo) for y in x])
        if isinstance(x, dict):
            return ('d', {str(k): canon(v, props, _memo) for k, v in x.items()})
        if isinstance(x, (set, frozenset)):
            return ('v', sorted(map(str, x)))
        if isinstance(x, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType,
                          np.ufunc, UserFn, types.GeneratorType)) or isinstance(x, type):
            return ('f',)
        if hasattr(x, 'toarray') and hasattr(x, 'nnz'):
            return ('a', np.asarray(x.toarray()))
        if isinstance(x, np.random.RandomState):
            return ('l', [canon(y, props, _memo) for y in x.get_state()])
        if isinstance(x, BaseException):
            return ('exc', type(x).__name__)
        mod = type(x).__module__
        if hasattr(x, 'numargs') and hasattr(x, 'nnlf'):        # a distribution family
            return ('v', 'dist:' + str(getattr(x, 'name', '')))
        if mod.startswith(('wafo', 'scipy', 'numpy.polynomial')) or (mod.startswith('numpy') and hasattr(x, 'coeffs')):
            out = {}
            try:
                items = list(vars(x).items())
            except TypeError:
                items = []
            for k, v in items:
                if k.startswith('_') or k in SKIP_ATTRS:
                    continue
                out[k] = canon(v, props, _memo)
            if isinstance(x, np.poly1d):
                out['coeffs'] = canon(x.coeffs)
            for k in ('c', 'x'):                                  # slots of scipy's piecewise polynomials
                if k not in out and mod.startswith('scipy.interpolate') and hasattr(x, k):
                    out[k] = canon(getattr(x, k), props, _memo)
            if props and mod.startswith('wafo'):
                for k in public_properties(x):
                    try:
                        out['@' + k] = canon(getattr(x, k), props, _memo)
                    except Exception as e:                        # noqa
                        out['@' + k] = ('exc', type(e).__name__)
            return ('o', type(x).__name__, out)
        return ('t', type(x).__name__)
    finally:
        _memo.pop(id(x), None)


def _num_diff(a, b, rtol, atol, exact):
    if a.shape != b.shape:
        return 'shape %s became %s' % (a.shape, b.shape)
    if exact:
        if a.dtype != b.dtype:
            return 'type %s became %s' % (a.dtype, b.dtype)
        if a.tobytes() == b.tobytes():
            return None
        if a.dtype.kind in 'fc':
            same = (a == b) | ((a != a) & (b != b))
            if np.all(same):
                return None
        else:
            same = a == b
            if np.all(same):
                return None
        bad = np.argwhere(~np.atleast_1d(same))[0]
        ix = tuple(int(i) for i in bad)
        return 'element %s: %r became %r' % (ix, np.atleast_1d(a)[ix].item(), np.atleast_1d(b)[ix].item())
    if a.size == 0:
        return None
    if a.dtype.kind in 'biu' and b.dtype.kind in 'biu':
        if np.array_equal(a, b):
            return None
    aa = a.astype(complex) if 'c' in (a.dtype.kind + b.dtype.kind) else a.astype(float)
    bb = b.astype(complex) if 'c' in (a.dtype.kind + b.dtype.kind) else b.astype(float)
    with np.errstate(all='ignore'):
        fin = np.isfinite(aa) & np.isfinite(bb)
        same_nonfinite = ((aa != aa) & (bb != bb)) | (aa == bb)
        scale = np.max(np.abs(aa[fin])) if np.any(fin) else 0.0
        tol = atol + rtol * np.maximum(np.abs(np.where(fin, aa, 0)), 1e-3 * scale)
        ok = np.where(fin, np.abs(np.where(fin, aa, 0) - np.where(fin, bb, 0)) <= tol, same_nonfinite)
    if np.all(ok):
        return None
    bad = tuple(int(i) for i in np.argwhere(~np.atleast_1d(ok))[0])
    return 'element %s: expected %r, got %r' % (bad, np.atleast_1d(a)[bad].item(), np.atleast_1d(b)[bad].item())


def diff(a, b, rtol=1e-9, atol=1e-300, exact=False, allow_new=False, path='', ignore=()):
    """None if picture b agrees with picture a, else a text naming the first difference."""
    if a[0] == 'f' or b[0] == 'f' or a[0] == 'cycle' or b[0] == 'cycle':
        return None
    if a[0] != b[0]:
        # a list of numbers and an array of the same numbers are different things only in exact mode
        return '%s: %s became %s' % (path or 'value', _kind(a), _kind(b))
    tag = a[0]
    if tag == 'a':
        d = _num_diff(a[1], b[1], rtol, atol, exact)
        return None if d is None else '%s: %s' % (path or 'value', d)
    if tag == 'v' or tag == 't' or tag == 'exc':
        return None if a[1] == b[1] else '%s: %.60r became %.60r' % (path or 'value', a[1], b[1])
    if tag == 'l':
        if len(a[1]) != len(b[1]):
            return '%s: length %d became %d' % (path or 'value', len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = diff(x, y, rtol, atol, exact, allow_new, '%s[%d]' % (path, i), ignore)
            if d:
                return d
        return None
    if tag == 'o':
        if a[1] != b[1]:
            return '%s: a %s became a %s' % (path or 'value', a[1], b[1])
        da, db = a[2], b[2]
    else:
        da, db = a[1], b[1]
    for k in da:
        if k in ignore:
            continue
        p = '%s.%s' % (path, k) if path else k
        if k not in db:
            return '%s disappeared' % p
        d = diff(da[k], db[k], rtol, atol, exact, allow_new, p, ignore)
        if d:
            return d
    if not allow_new:
        for k in db:
            if k not in da and k not in ignore:
                return '%s appeared' % ('%s.%s' % (path, k) if path else k)
    return None


def _kind(a):
    if a[0] == 'a':
        return 'number(s) of shape %s' % (a[1].shape,)
    if a[0] == 'v':
        return '%.40r' % (a[1],)
    if a[0] == 'exc':
        return 'an error (%s)' % a[1]
    if a[0] == 'l':
        return 'a sequence of %d' % len(a[1])
    if a[0] == 'o':
        return 'a %s' % a[1]
    return {'d': 'a dict', 't': 'an object'}.get(a[0], a[0])


def brief(a, limit=70):
    """short printable form of a picture"""
    if a[0] == 'a':
        x = a[1]
        if x.ndim == 0:
            return repr(x.item())
        return 'array%s[%s]' % (x.shape, ', '.join('%.6g' % v if x.dtype.kind != 'c' else str(v)
                                                  for v in x.ravel()[:4].tolist()))
    return _kind(a)[:limit]
