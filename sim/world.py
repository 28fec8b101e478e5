"""One simulated process: executes the steps of a program against the real library and judges every step."""
import copy
import os
import pickle
import sys
import types
import warnings
import numpy as np
from . import boot, fp
from .catalog.base import KINDS, OPS, MUTS
from .fp import UserFn, InjectedError, canon, diff, brief

RS = 77            # state given to the process-wide generator before a call that draws from it


class InjectedValueError(InjectedError, ValueError):
    pass


class InjectedZeroDivision(InjectedError, ZeroDivisionError):
    pass


class InjectedKeyError(InjectedError, KeyError):
    pass


class InjectedTypeError(InjectedError, TypeError):
    pass


class InjectedIndexError(InjectedError, IndexError):
    pass


class InjectedMemoryError(InjectedError, MemoryError):
    pass


EXCS = dict(plain=InjectedError, value=InjectedValueError, zerodiv=InjectedZeroDivision, key=InjectedKeyError,
            type=InjectedTypeError, index=InjectedIndexError, memory=InjectedMemoryError)


class CallbackSeam(object):
    """sits in every user callable"""

    def __init__(self):
        self.count = 0
        self.fail_at = 0
        self.exc = InjectedError
        self.fired = 0
        self.persist = False

    def arm(self, n=0, exc='plain', persist=False):
        self.count = self.fired = 0
        self.fail_at, self.exc, self.persist = n, EXCS[exc], persist

    def enter(self, fn):
        from . import sched
        s = sched.CURRENT
        if s is not None:
            s.tick('user')
        self.count += 1
        if self.fail_at and (self.count == self.fail_at or (self.persist and self.count > self.fail_at)):
            self.fired += 1
            raise self.exc('injected at evaluation %d' % self.count)


def has_injected(e):
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, InjectedError):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def environment(fds=True):
    st = np.random.get_state()
    env = dict(errstate=tuple(sorted(np.geterr().items())), errcall=np.geterrcall() is None,
               filters=[str(f) for f in warnings.filters], show=id(warnings.showwarning),
               print=str(sorted((k, str(v)) for k, v in np.get_printoptions().items())), cwd=os.getcwd(),
               stdout=id(sys.stdout), stderr=id(sys.stderr), rlimit=sys.getrecursionlimit(),
               environ=sorted(os.environ.items()), path=list(sys.path), bufsize=np.getbufsize())
    env['random'] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
    if fds:
        env['files'] = sorted(os.readlink('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd')
                              if os.path.exists('/proc/self/fd/' + f) and
                              not os.readlink('/proc/self/fd/' + f).endswith(FONTS))    # matplotlib keeps fonts open
    return env


FONTS = ('.ttf', '.afm', '.otf', '.ttc')
NAMES = dict(errstate='floating point error handling', errcall='floating point error callback', filters='warning filters',
             show='warning display', print='print options', cwd='working directory', stdout='standard output',
             stderr='standard error', rlimit='recursion limit', environ='environment variables', path='module search path',
             bufsize='ufunc buffer size', random='random generator', files='open files')


def env_diff(a, b, use_random):
    for k in a:
        if k == 'random' and use_random:
            continue
        if a[k] != b[k]:
            return k
    return None


def outcome_of(fn, after=None):
    """('ok', picture, value) or ('err', type name, exception); after() ends the faults before the result is read"""
    try:
        val = fn()
        if isinstance(val, types.GeneratorType):
            val = list(val)
    except Exception as e:                                          # noqa
        return ('err', type(e).__name__, e)
    finally:
        if after:
            after()
    return ('ok', canon(val), val)


def compare(ref, out, op):
    """None, or how the outcome differs from the reference"""
    if ref[0] != out[0]:
        if out[0] == 'err':
            return 'raised %s: %.80s' % (out[1], str(out[2]).replace('\n', ' '))
        return 'returned %s instead of raising %s' % (brief(out[1]), ref[1])
    if ref[0] == 'err':
        return None if ref[1] == out[1] else 'raised %s instead of %s' % (out[1], ref[1])
    return diff(ref[1], out[1], rtol=op.rtol, atol=op.atol)


# ---- recipes ----------------------------------------------------------------------------------------------
def build(recipe):
    kind, kv, muts = recipe
    np.random.seed(RS)
    obj = KINDS[kind].build(kv)
    for name, v in muts:
        apply_mut(obj, name, v)
    return obj


def apply_mut(obj, name, v):
    fn, args, kwds = MUTS[name].make(v)
    np.random.seed(RS)
    return fn(obj, *args, **kwds)


def sites():
    """first, middle and last allocation made at each place of the library, counted during the reference"""
    if not boot.af:
        return ()
    h = np.frombuffer(boot.af.recorded(), dtype=np.uint32)
    if not h.size:
        return ()
    _, inv = np.unique(h, return_inverse=True)
    order = np.argsort(inv, kind='stable')
    parts = np.split(order, np.flatnonzero(np.diff(inv[order])) + 1)
    return sorted((int(p[0]) + 1, int(p[len(p) // 2]) + 1, int(p[-1]) + 1) for p in parts)


def reference(key):
    """what a call gives when it is the first thing a fresh process does.  key: see below"""
    what = key[0]
    seam = UserFn.context = CallbackSeam()
    res = {}
    if what == 'm':                        # ('m', recipe, mutator, v): a change
        try:
            obj = build(key[1])
        except Exception as e:                                      # noqa
            return dict(out=('nobuild', type(e).__name__))
        seam.arm()
        boot.af and boot.af.record()
        fn, args, kwds = MUTS[key[2]].make(key[3])
        np.random.seed(RS)
        cnt = []
        out = outcome_of(lambda: fn(obj, *args, **kwds), lambda: cnt.append(boot.af.disarm()[0] if boot.af else 0))
        res['allocs'] = cnt[0]
        res['sites'] = sites()
        res['calls'] = seam.count
        res['out'] = out[:2] if out[0] == 'err' else ('ok', canon(obj))
        return res
    _, recipe, opname, v = key[:4]         # ('q', recipe or None, op, v): a query
    op = OPS[opname]
    recv = ()
    if op.kind:
        try:
            recv = (build(recipe),)
        except Exception as e:                                      # noqa
            return dict(out=('nobuild', type(e).__name__))
    fn, args, kwds = op.make(v)
    seam.arm()
    np.random.seed(RS)
    st0 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    boot.af and boot.af.record()
    boot.af and boot.af.scrub()
    cnt = []

    def after():
        cnt.append(boot.af.disarm()[0] if boot.af else 0)
    if len(key) > 4 and key[4]:
        from . import sched
        lines, out = sched.count_lines(lambda: outcome_of(lambda: fn(*(recv + args), **kwds), after))
        res['lines'] = lines
    else:
        out = outcome_of(lambda: fn(*(recv + args), **kwds), after)
    res['allocs'] = cnt[0]
    res['sites'] = sites()
    res['calls'] = seam.count
    st1 = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
    res['random'] = st0 != st1
    res['out'] = out[:2]
    return res


def prevail(env):
    """the environment the user has chosen for the process"""
    np.seterr(all='warn', under='ignore')
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    np.set_printoptions(precision=8, suppress=False, threshold=1000)
    if env == 'raise':
        np.seterr(divide='raise', over='raise')
    elif env == 'warn':
        warnings.simplefilter('error', UserWarning)
    elif env == 'print':
        np.set_printoptions(precision=3, suppress=True, threshold=5)
        warnings.simplefilter('default')


class World(object):
    def __init__(self, refs, want):
        self.refs, self.want = refs, set(want)
        self.objs, self.recipes, self.dead, self.tainted = {}, {}, {}, set()
        self.violations = []
        self.stats = {}
        self.seam = UserFn.context = CallbackSeam()
        self.last = None
        self.log = []

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def bad(self, prop, what, step, kind):
        if prop in self.want:
            s = self.step_no
            self.violations.append(dict(property=prop, what=what, step=s, kind=kind, where=step.get('tag') or step.get('op') or step.get('mut') or step.get('from')))

    # -- fault plumbing
    def _resolve(self, fault, ref):
        if not fault:
            return None
        f = dict(fault)
        if 'n' not in f:
            total = ref.get('allocs' if f['type'] == 'mem' else 'calls', 0) if ref else 0
            if total <= 0:
                return None
            frac, occ = f.pop('frac'), f.pop('occ', None)
            if occ is not None and ref.get('sites'):
                f['n'] = ref['sites'][min(int(frac * len(ref['sites'])), len(ref['sites']) - 1)][occ]
            else:
                f['n'] = 1 + int(frac * total)
        return f

    def _guarded(self, fault, fn):
        self.seam.arm(*((fault['n'], fault.get('exc', 'plain'), fault.get('persist', False)) if fault and fault['type'] == 'cb' else ()))
        if fault and fault['type'] == 'mem':
            boot.af.arm(fault['n'], bool(fault.get('persist')))
        hits = []

        def after():
            hits.append(boot.af.disarm()[1])
        boot.af.scrub()
        out = outcome_of(fn, after)
        fired = 0
        if fault and fault['type'] == 'mem':
            fired = hits[0]
        elif fault:
            fired = self.seam.fired
        self.seam.arm()
        if fault:
            self.count('fault:%s:%s' % (fault['type'], 'fired' if fired else 'armed, call ended first'))
        return out, fired

    # -- steps
    def run(self, steps):
        for i, st in enumerate(steps):
            self.step_no = i
            getattr(self, 'do_' + st['do'])(st)
        return self

    def do_build(self, st):
        recipe = (st['kind'], st['v'], ())
        try:
            self.objs[st['id']] = build(recipe)
            self.recipes[st['id']] = recipe
        except Exception as e:                                      # noqa
            self.dead[st['id']] = type(e).__name__
        self.count('build')

    def ref_for(self, st):
        op = OPS[st['op']]
        rec = None
        if op.kind:
            rec = self.recipes[st['on']]
        return self.refs.get(('q', rec, st['op'], st['v']))

    def do_call(self, st):
        op = OPS[st['op']]
        recv = ()
        if op.kind:
            if st['on'] not in self.objs or st['on'] in self.tainted:
                return
            recv = (self.objs[st['on']],)
        ref = self.ref_for(st)
        if ref is not None and ref['out'][0] in ('nobuild', 'hang', 'signal'):
            return
        fault = self._resolve(st.get('fault'), ref)
        if fault:
            st['fault'] = fault
        elif st.get('fault'):
            return
        fn, args, kwds = op.make(st['v'])
        chk_args = 'C03' in self.want
        if chk_args:
            before = canon([args, kwds]), canon(list(recv))
        chk_env = 'C13' in self.want
        np.random.seed(st.get('rs', RS) if not op.rng else RS)
        if chk_env:
            env0 = environment()
        out, fired = self._guarded(fault, lambda: fn(*(recv + args), **kwds))
        if chk_env:
            d = env_diff(env0, environment(), op.rng or op.seeded)
            if d:
                self.bad('C13', '%s %s left the %s changed' % (st['op'], 'that failed' if out[0] == 'err' else '', NAMES[d]), st, 'env:' + d)
                np.seterr(**dict(env0['errstate']))
        self.count('call')
        how = ''
        if fired:
            how = ' (%s)' % describe_fault(fault)
        if chk_args:
            d = diff(before[0], canon([args, kwds]), exact=True)
            if d:
                self.bad('C03', '%s%s changed its arguments: %s' % (st['op'], how, d), st, 'args')
            d = diff(before[1], canon(list(recv)), exact=True, ignore=op.lazy, allow_new=op.own_state)
            if d and not op.own_state:
                self.bad('C03', '%s%s changed the object it was called on: %s' % (st['op'], how, d), st, 'recv')
        if ref is not None:
            if not fired:
                d = compare(ref['out'], out, op)
                if d:
                    self.bad(st.get('prop', 'C02'), '%s v%d: %s' % (st['op'], st['v'], d), st, 'answer')
            elif fault['type'] == 'cb':
                if out[0] == 'ok':
                    self.bad('C15', '%s returned %s although the user function raised%s' % (st['op'], brief(out[1]), how), st, 'swallowed')
                elif not has_injected(out[2]):
                    self.bad('C15', '%s raised %s: %.60s, without the error of the user function%s' % (st['op'], out[1], out[2], how), st, 'replaced')
            elif fault['type'] == 'mem':
                self.count('mem:raised' if out[0] == 'err' else 'mem:answered')
                if out[0] == 'ok':
                    d = compare(ref['out'], out, op)
                    if d:
                        self.bad('C14', '%s v%d%s gave a wrong answer: %s' % (st['op'], st['v'], how, d), st, 'wrong')
        self.last = (out, args, kwds, st.get('on'))
        self.log.append((st['op'], out[0], fired))

    def do_mut(self, st):
        m = MUTS[st['mut']]
        oid = st['on']
        if oid not in self.objs or oid in self.tainted:
            return
        obj, recipe = self.objs[oid], self.recipes[oid]
        ref = self.refs.get(('m', recipe, st['mut'], st['v']))
        if ref is None or ref['out'][0] in ('nobuild', 'hang', 'signal'):
            return
        fault = self._resolve(st.get('fault'), ref)
        if fault:
            st['fault'] = fault
        elif st.get('fault'):
            return
        before = canon(obj)
        fn, args, kwds = m.make(st['v'])
        np.random.seed(RS)
        out, fired = self._guarded(fault, lambda: fn(obj, *args, **kwds))
        self.count('change')
        how = ' (%s)' % describe_fault(fault) if fired else ''
        if out[0] == 'err':
            self.count('change failed')
            d = diff(before, canon(obj), exact=True)
            if d and m.user:
                self.tainted.add(oid)
            elif d:
                self.bad('C05', '%s%s failed with %s but changed the object: %s' % (st['mut'], how, out[1], d), st, 'partial')
                self.tainted.add(oid)
        else:
            self.recipes[oid] = (recipe[0], recipe[1], recipe[2] + ((st['mut'], st['v']),))
            if ref['out'][0] == 'ok':
                d = diff(ref['out'][1], canon(obj), rtol=1e-9, ignore=KINDS[recipe[0]].flags.get('lazy', ()))
                if d:
                    self.bad('C05' if fired else st.get('prop', 'C05'), '%s%s gave a different object: %s' % (st['mut'], how, d), st, 'result')
        self.log.append((st['mut'], out[0], fired))

    def do_copy(self, st):
        src = st['from']
        if src not in self.objs or src in self.tainted:
            return
        obj = self.objs[src]
        how = st['how']
        try:
            if how == 'copy':
                new = obj.copy()
            elif how == 'deepcopy':
                new = copy.deepcopy(obj)
            elif how == 'shallow':
                new = copy.copy(obj)
            else:
                new = pickle.loads(pickle.dumps(obj))
        except Exception as e:                                      # noqa
            self.count('copy:%s refused' % how)
            return
        self.count('copy:' + how)
        self.objs[st['id']] = new
        self.recipes[st['id']] = self.recipes[src]
        self.log.append(('copy', how))

    def do_scribble(self, st):
        """the user writes into the arrays of an object"""
        oid = st['on']
        if oid not in self.objs:
            return
        n = scribble(self.objs[oid])
        self.tainted.add(oid)
        self.count('scribble', n)
        self.log.append(('scribble', n))

    def do_scribble_last(self, st):
        """the user overwrites the arrays returned by, and passed to, the last call"""
        if self.last is None:
            return
        out, args, kwds, on = self.last
        n = 0
        if st.get('what', 'both') != 'args' and out[0] == 'ok':
            n += scribble(out[2])
        if st.get('what', 'both') != 'result':
            n += scribble([args, kwds])
        if on is not None:
            self.tainted.add(on)
        self.count('scribble', n)
        self.log.append(('scribble', n))

    def do_same(self, st):
        """object st['on'] must still look the way it did when it was marked"""
        oid = st['on']
        if oid not in self.objs or oid in self.tainted or oid not in getattr(self, 'marks', {}):
            return
        d = diff(self.marks[oid], canon(self.objs[oid]), exact=True, ignore=('args',) if st.get('lazy') else ())
        if d:
            self.bad(st['prop'], st.get('say', 'the object changed') + ': ' + d, st, 'content')
            self.tainted.add(oid)

    def do_mark(self, st):
        if st['on'] in self.objs:
            self.__dict__.setdefault('marks', {})[st['on']] = canon(self.objs[st['on']])


def describe_fault(f):
    if f['type'] == 'mem':
        return 'memory exhausted at allocation %d%s' % (f['n'], ' and after' if f.get('persist') else '')
    return 'user function raising at evaluation %d' % f['n']


def scribble(x, depth=0, seen=None):
    """overwrite every writable number reachable through containers and public attributes; returns how many arrays"""
    seen = set() if seen is None else seen
    if depth > 6 or id(x) in seen:
        return 0
    seen.add(id(x))
    n = 0
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for y in x.ravel():
                n += scribble(y, depth + 1, seen)
            return n
        if x.flags.writeable and x.size and x.dtype.kind in 'fiuc':
            x[...] = 13 if x.dtype.kind in 'iu' else -3.75
            return 1
        return 0
    if isinstance(x, (list, tuple)):
        if type(x) is list and len(x) < 2000:
            x.append(-3.75)
            n += 1
        for i, y in enumerate(x):
            if isinstance(x, list) and isinstance(y, (float, int)) and not isinstance(y, bool):
                x[i] = -3.75
                n += 1
            else:
                n += scribble(y, depth + 1, seen)
    elif isinstance(x, dict):
        if type(x) is dict:
            x['scribbled'] = -3.75
            n += 1
        for k in list(x):
            y = x[k]
            if isinstance(y, (float, int)) and not isinstance(y, bool):
                x[k] = -3.75
                n += 1
            else:
                n += scribble(y, depth + 1, seen)
    elif type(x).__module__.startswith('wafo') and not hasattr(x, 'numargs') and not isinstance(x, type):
        try:
            items = list(vars(x).items())
        except TypeError:
            items = []
        for k, y in items:
            if not k.startswith('_') and k != 'plotter':
                n += scribble(y, depth + 1, seen)
    return n
