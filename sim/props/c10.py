"""C10: sequences of loads of the bundled data sets, with I/O errors at open and at any read, short reads, interrupted system calls,
exhausted memory, changed working directories (holding decoy files) and callers that overwrite what they were given."""
import copy
import ctypes
import errno
import os
import shutil
import tempfile
import numpy as np
from .. import boot
boot.boot()
import wafo.data as wd
from .. import gen, world
from ..core import drop_each

PROP, LEVEL = 'C10', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 60, 1200, 2
RULE = ('A run makes 2-12 steps: loads, loads with an I/O or memory fault, edits of returned arrays, changes of working directory.  '
        'Non-trivial: at least one load compared with the stored text; distinct by the sequence of steps.')
ASSUMPTIONS = ['the stored numbers are those obtained by splitting the lines of the .dat file and converting each word',
               'a file shortened on disk is a different file; only failing or short system calls are injected']
N = dict(quick=420, thorough=1000)
DIR = os.path.join(boot.REPO, 'src', 'wafo', 'data') + '/'
NAMES = sorted(f[:-4] for f in os.listdir(DIR) if f.endswith('.dat'))
LOADERS = sorted(set(NAMES) | {n for n in ('atlantic', 'gfaks89', 'gfaksr89', 'japansea', 'northsea', 'sea', 'sfa89', 'sn', 'yura87') if hasattr(wd, n)})
ERRNOS = [errno.EIO, errno.ENOENT, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ESTALE, errno.EINTR]
READ_ERRNOS = [errno.EIO, errno.EIO, errno.ESTALE, errno.ENOMEM, errno.EINTR]
lib = ctypes.CDLL(None)


def _stored(name):
    rows = []
    with open(DIR + name + '.dat', 'rb') as f:
        for line in f.read().decode('ascii').splitlines():
            w = line.split()
            if w:
                rows.append([float('nan') if 'nan' in x.lower() or '#' in x else float(x) for x in w])
    a = np.array(rows)
    return a[:, 0] if a.shape[1] == 1 else a


STORED = {n: _stored(n) for n in NAMES}
SMALL = [n for n in NAMES if STORED[n].size < 3000]


def setup(refs):
    try:
        lib.iofault_dir
    except AttributeError:
        raise RuntimeError('the I/O seam is not preloaded')
    lib.iofault_dir.argtypes = [ctypes.c_char_p]
    lib.iofault_arm.argtypes = [ctypes.c_longlong] * 6
    lib.iofault_disarm.argtypes = [ctypes.POINTER(ctypes.c_longlong)] * 2
    lib.iofault_disarm.restype = ctypes.c_longlong
    lib.iofault_dir(DIR.encode())


def reference(key):
    raise NotImplementedError


def needed(prog):
    return []


def io_arm(oat=0, oerr=0, rat=0, rerr=0, persist=0, smax=0):
    lib.iofault_arm(oat, oerr, rat, rerr, int(persist), smax)


def io_disarm():
    o, r = ctypes.c_longlong(), ctypes.c_longlong()
    f = lib.iofault_disarm(ctypes.byref(o), ctypes.byref(r))
    return f, o.value, r.value


def programs(seed, rnd, tier):
    out = []
    for i in range(N[tier]):
        r = gen.rng_for(seed, PROP, rnd * 100000 + i)
        steps = []
        pool = r.choice((SMALL, SMALL, LOADERS, [r.choice(LOADERS)], [r.choice(LOADERS)]))
        for _ in range(r.choice((2, 3, 5, 8, 12))):
            x = r.random()
            name = r.choice(pool)
            if x < 0.4:
                steps.append(['load', name])
            elif x < 0.75:
                kind = r.choice(('open', 'read', 'read', 'short', 'mem'))
                steps.append(['fault', name, kind, r.random(), r.choice(ERRNOS if kind == 'open' else READ_ERRNOS), r.random() < 0.4])
            elif x < 0.88:
                steps.append(['scribble', r.randrange(100), r.choice(('all', 'one', 'sort', 'nan'))])
            else:
                steps.append(['chdir', r.randrange(3)])
        steps.append(['load', r.choice(pool)])
        out.append(dict(steps=steps, fill=r.choice(gen.FILLS)))
    return out


def differs(got, want):
    if not isinstance(got, np.ndarray):
        return 'is a %s' % type(got).__name__
    if got.dtype != np.float64:
        return 'has type %s' % got.dtype
    if got.shape != want.shape:
        return 'has shape %s, stored are %s' % (got.shape, want.shape)
    bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        k = tuple(int(j) for j in np.argwhere(bad)[0])
        return 'differs in %d values, first at %s: %r, stored is %r' % (bad.sum(), k, float(got[k]), float(want[k]))
    return None


def execute(prog):
    prog = copy.deepcopy(prog)
    scratch = tempfile.mkdtemp(prefix='verif-c10-')
    home = os.getcwd()
    try:
        return _run(prog, scratch)
    finally:
        io_disarm()
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prog, scratch):
    boot.af.set_fill(prog['fill'])
    world.prevail(None)
    dirs = [scratch + '/empty', scratch + '/decoy', scratch + '/decoy/data']
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    for d in dirs[1:]:
        for n in LOADERS:
            with open('%s/%s.dat' % (d, n), 'w') as f:
                f.write('1.0 2.0\n3.0 4.0\n')
    os.chdir(dirs[0])
    vs, stats, log, held = [], {}, [], []
    compared = 0

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def bad(kind, n, name, what):
        vs.append(dict(property=PROP, kind=kind, where=name, step=n, what='step %d: %s' % (n, what)))
    for n, st in enumerate(prog['steps']):
        if st[0] == 'chdir':
            os.chdir(dirs[st[1]])
            count('chdir')
        elif st[0] == 'scribble':
            if not held:
                continue
            h = held[st[1] % len(held)]
            a = h[1]
            try:
                if st[2] == 'all':
                    a[...] = -7.25
                elif st[2] == 'one':
                    a.flat[a.size // 2] = 1e9
                elif st[2] == 'sort':
                    a.sort(axis=0)
                else:
                    a[np.isnan(a)] = 0.0
                    a.flat[0] = np.nan
            except ValueError:
                pass                                                # a read-only array protects itself
            h[2] = a.copy()
            count('array edited by the caller')
        else:
            name = st[1]
            load = getattr(wd, name)
            fired = 0
            kind = None
            if st[0] == 'fault':
                kind = st[2]
                if kind == 'open':
                    io_arm(oat=1, oerr=st[4], persist=st[5] and st[4] != errno.EINTR)
                elif kind == 'short':
                    io_arm(smax=1 + int(st[3] * 5000))
                elif kind == 'read':
                    at = st[3]
                    if at < 1:                                      # a fraction: counted on the stored size
                        size = os.path.getsize(DIR + name + '.dat') if name in STORED else 1
                        at = st[3] = 1 + int(at * (size // 8192 + 2))
                    io_arm(rat=at, rerr=st[4], persist=st[5] and st[4] != errno.EINTR)
                else:
                    if st[3] < 1:
                        boot.af.arm(0, False)
                        try:
                            load()
                        except Exception:                           # noqa
                            pass
                        total = boot.af.disarm()[0]
                        st[3] = 1 + int(st[3] * max(total, 1))
                    boot.af.arm(int(st[3]), bool(st[5]))
            err = got = None
            try:
                got = load()
            except Exception as e:                                  # noqa
                err = e
            if kind == 'mem':
                fired = boot.af.disarm()[1]
            elif kind:
                fired = io_disarm()[0]
            if kind:
                label = kind if kind == 'mem' or kind == 'short' else '%s:%s' % (kind, errno.errorcode[st[4]])
                count('fault:%s:%s' % (label, 'fired' if fired else 'armed, call ended first'))
            transparent = not fired or kind == 'short' or (kind in ('open', 'read') and st[4] == errno.EINTR)
            where = name + (' with failing %s' % kind if fired else '')
            if name not in STORED:
                if err is None:
                    bad('invented', n, name, '%s returned data although there is no such file' % where)
            elif err is None:
                compared += 1
                count('load')
                d = differs(got, STORED[name])
                if d:
                    bad('data', n, name, '%s %s' % (where, d))
                elif any(np.shares_memory(got, h[1]) for h in held):
                    bad('shared', n, name, '%s returned an array it had returned before' % where)
                held.append([name, got, got.copy()])
            elif transparent:
                bad('refused', n, name, '%s raised %s: %.60s' % (where, type(err).__name__, err))
            else:
                count('load failed')
        for h in held:
            if not (isinstance(h[1], np.ndarray) and np.array_equal(h[1], h[2], equal_nan=True)):
                bad('earlier', n, h[0], 'the %s array returned earlier changed' % h[0])
        log.append(tuple(map(str, st)))
        if vs:
            break
    return dict(violations=vs, stats=stats, log=log if compared else [], prog=prog)


def shrinks(prog):
    return [dict(copy.deepcopy(prog), steps=copy.deepcopy(s)) for s in drop_each(prog['steps']) if len(s) < len(prog['steps'])]
