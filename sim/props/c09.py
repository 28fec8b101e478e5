"""C09: the library is started several times, each time with other compiled helpers failing to load (or with the just-in-time compiler
switched off); the same calls are made in each and compared with those of the complete installation."""
import copy
import ctypes
import os
import pickle
import signal
import socket
import struct
import time
from .. import gen
from ..core import drop_each

PROP, LEVEL = 'C09', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 2
RULE = ('A run makes 3-12 calls (catalogue operations; crossing, turning point and rainflow counting of generated sequences with plateaus, ties '
        'and touching levels) in a process of the complete installation and in one where some compiled helpers cannot be loaded, and compares each '
        'result.  Non-trivial: at least one call returned in both; distinct by configuration and calls.')
ASSUMPTIONS = ['a helper that cannot be loaded raises ImportError at its import; the just-in-time compiler is switched off by its own setting']
HELPERS = ['c_library', 'mvnprdmod', 'rindmod', 'cov2mod']
CONFIGS = [('complete',), ('c_library',), ('mvnprdmod', 'rindmod'), ('cov2mod',), ('c_library', 'mvnprdmod', 'rindmod', 'cov2mod'), ('jit',),
           ('c_library', 'jit'), ('numba',)]
N = dict(quick=300, thorough=900)
_sock = {}
NANS = bool(os.environ.get('C09_NANS'))
_pids = []


# ---- the processes ----------------------------------------------------------------------------------------
def serve(listener, config):
    """one installation: every request is answered by a fork of the freshly started process"""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    error = None
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)                    # the compiled helpers print
    try:
        if 'jit' in config:
            os.environ['NUMBA_DISABLE_JIT'] = '1'
        names = ['wafo.' + n if n in HELPERS else n for n in config if n not in ('complete', 'jit')]
        if 'numba' in names:
            names += ['numba.core', 'llvmlite']
        from .. import boot
        boot.boot(import_faults=names)
    except BaseException as e:                                      # noqa
        error = '%s: %s' % (type(e).__name__, e)
        if config == ('complete',):
            import traceback
            error = traceback.format_exc()
    while True:
        c, _ = listener.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        try:
            msg = pickle.loads(recv(c))
            send(c, pickle.dumps(('dead', error) if error else ('ok', answer(msg)), protocol=4))
        except BaseException:                                       # noqa
            import traceback
            send(c, pickle.dumps(('harness', traceback.format_exc())))
        finally:
            os._exit(0)


def send(c, data):
    c.sendall(struct.pack('<q', len(data)) + data)


def recv(c):
    def exactly(n):
        out = b''
        while len(out) < n:
            b = c.recv(n - len(out))
            if not b:
                raise EOFError('the simulated process died')
            out += b
        return out
    n, = struct.unpack('<q', exactly(8))
    return exactly(n)


def ask(config, msg):
    c = socket.socket(socket.AF_UNIX)
    c.connect(_sock[tuple(config)])
    send(c, pickle.dumps(msg))
    try:
        r = pickle.loads(recv(c))
    finally:
        c.close()
    return r


def setup(refs):
    for i, cfg in enumerate(CONFIGS):
        s = socket.socket(socket.AF_UNIX)
        name = '\0verif-c09-%d-%d' % (os.getpid(), i)
        s.bind(name)
        s.listen(64)
        _sock[cfg] = name
        pid = os.fork()
        if pid == 0:
            try:
                serve(s, cfg)
            finally:
                os._exit(1)
        _pids.append(pid)
        s.close()
    from .. import boot                                             # the driver itself needs only the names of the catalogue
    boot.boot(alloc=False)
    r = ask(('complete',), [])
    if r[0] != 'ok':
        raise RuntimeError('the complete installation does not start: %s' % (r[1],))


# ---- the calls --------------------------------------------------------------------------------------------
def answer(calls):
    import numpy as np
    from .. import boot, world
    from ..catalog.base import OPS
    from ..catalog import c_edge
    from ..fp import UserFn
    c_edge.REJECT[0] = False
    UserFn.context = world.CallbackSeam()
    boot.af.set_fill(0)
    out = []
    for c in calls:
        np.random.seed(world.RS)
        if c[0] == 'q':
            if c[2] not in OPS:
                out.append(('err', 'no such operation'))
                continue
            try:
                out.append(tuple(world.reference(c)['out'][:2]))
            except Exception as e:                                  # noqa
                out.append(('err', type(e).__name__))
        else:
            o = world.outcome_of(lambda: sequence_call(c))
            out.append(tuple(o[:2]))
    return out


def sequence_call(c):
    import numpy as np
    import wafo.misc as wm
    import wafo.objects as wo
    _, name, x, par = c
    x = np.array(x, dtype=par.get('dtype', 'float64'))
    if par.get('stride'):
        y = np.empty(2 * len(x), dtype=x.dtype)
        y[::2] = x
        y[1::2] = 99
        x = y[::2]
    if name == 'findcross':
        return wm.findcross(x, par['v'], par['kind'])
    if name == 'findextrema':
        return wm.findextrema(x)
    if name == 'findtp':
        return wm.findtp(x, par['h'], par['tpkind'])
    if name == 'findtc':
        return wm.findtc(x, par['v'], par['tckind'])
    if name == 'ecross':
        t = np.arange(len(x)) * 0.5
        return wm.ecross(t, x.astype(float), wm.findcross(x, par['v']), par['v'])
    tp = x[wm.findextrema(x)] if par['tp'] == 'extrema' else turning(x)
    if name == 'findrfc':
        return wm.findrfc(tp, par['h'])
    if name == 'findrfc_py':
        return wm.findrfc(tp, par['h'], method=par['m'])
    if name == 'rfcfilter':
        return wm.rfcfilter(tp, par['h'], par['m'] % 2)
    if name == 'findrfc_astm':
        return wm.findrfc_astm(tp)
    ts = wo.TimeSeries(x.astype(float), np.arange(len(x)) * 0.5)
    if name == 'turning_points':
        return ts.turning_points(h=par['h'], wavetype=par['tpkind'])
    if name == 'trough_crest':
        return ts.trough_crest(v=par['v'], wavetype=par['tckind'])
    if name == 'cycle_pairs':
        return ts.turning_points().cycle_pairs(h=par['h'], kind=par['pairs'])
    if name == 'rainflow_filter':
        return ts.turning_points().rainflow_filter(h=par['h'])
    if name == 'cycle_astm':
        return ts.turning_points().cycle_astm()
    if name == 'wave_periods':
        return ts.wave_periods(vh=par['v'], pdef=par['pdef'])
    raise KeyError(name)


def turning(x):
    """a strictly alternating sequence, starting with a minimum or a maximum"""
    import numpy as np
    out = []
    for k, y in enumerate(x):
        out.append(abs(y) + 0.5 if k % 2 else -abs(y) - 0.5)
    return np.array(out)


SEQ = ['findcross', 'findextrema', 'findtp', 'findtc', 'ecross', 'findrfc', 'findrfc_py', 'rfcfilter', 'findrfc_astm', 'turning_points',
       'trough_crest', 'cycle_pairs', 'rainflow_filter', 'cycle_astm', 'wave_periods']


def sequence(r):
    n = r.choice((2, 3, 4, 5, 6, 8, 10, 15, 25, 60))
    style = r.choice(('int', 'int', 'plateau', 'smooth', 'normal', 'half'))
    if style == 'int':
        x = [r.randrange(-2, 3) for _ in range(n)]
    elif style == 'half':
        x = [r.randrange(-4, 5) / 2 for _ in range(n)]
    elif style == 'plateau':
        x = []
        while len(x) < n:
            x += [r.randrange(-2, 3)] * r.randrange(1, 4)
        x = x[:n]
    elif style == 'normal':
        x = [round(r.gauss(0, 1), r.choice((1, 2, 6))) for _ in range(n)]
    else:
        x, y = [], 0.0
        for _ in range(n):
            y = 0.8 * y + r.gauss(0, 1)
            x.append(round(y, 3))
    if NANS and r.random() < 0.1:
        x[r.randrange(n)] = float('nan')
    return [float(y) for y in x]


def seq_call(r):
    x = sequence(r)
    whole = all(y == y and y == int(y) for y in x)
    par = dict(v=r.choice((0.0, 0.0, 1.0, 0.5, -0.3)), h=r.choice((0.0, 0.0, 0.3, 1.0, 2.0, -1.0)), kind=r.choice((None, 'd', 'u', 'dw', 'uw', 'tw', 'cw')),
               tpkind=r.choice((None, 'mw', 'Mw')), tckind=r.choice((None, 'dw', 'uw', 'tw', 'cw')), m=r.choice((0, 1, 2)),
               pairs=r.choice(('min2max', 'max2min')), tp=r.choice(('extrema', 'made')), pdef=r.choice(('d2d', 'u2u', 'd2u', 'c2c', 't2t', 'all')),
               dtype='int64' if whole and r.random() < 0.2 else 'float64', stride=r.random() < 0.15)
    return ['s', r.choice(SEQ), x, par]


def programs(seed, rnd, tier):
    from ..catalog.base import OPS, KINDS
    ops = [o for o in gen.ALL() if not OPS[o].slow and not OPS[o].plot]
    near = [o for o in ops if gen.family(o) in ('misc', 'TimeSeries', 'TurningPoints', 'CyclePairs', 'Rind', 'gaussian', 'SpecData1D')]
    out = []
    for i in range(N[tier]):
        r = gen.rng_for(seed, PROP, rnd * 100000 + i)
        cfg = CONFIGS[1 + i % (len(CONFIGS) - 1)]
        if cfg == ('numba',) and i > 40:
            cfg = r.choice(CONFIGS[1:-1])
        calls = []
        for _ in range(r.choice((3, 6, 12, 20))):
            if r.random() < 0.55 or cfg == ('jit',) and r.random() < 0.5:
                calls.append(seq_call(r))
            else:
                o = OPS[r.choice(near) if r.random() < 0.5 else r.choice(ops)]
                rec = (o.kind, r.randrange(KINDS[o.kind].nv), ()) if o.kind else None
                calls.append(['q', rec, o.name, r.randrange(o.nv)])
        out.append(dict(config=list(cfg), steps=calls))
    return out


def reference(key):
    raise NotImplementedError


def needed(prog):
    return []


def execute(prog):
    from ..catalog.base import OPS
    from ..fp import diff
    vs, stats, log = [], {}, []

    def count(k, n=1):
        stats[k] = stats.get(k, 0) + n
    calls = [tuple(tupled(c)) if c[0] == 'q' else c for c in prog['steps']]
    cfg = tuple(prog['config'])
    a = ask(('complete',), calls)
    try:
        b = ask(cfg, calls)
    except EOFError:
        return dict(violations=[dict(property=PROP, what='with %s missing the process died' % ' and '.join(cfg), step=-1, kind='signal', where='run')],
                    stats=stats, log=[], prog=prog)
    for x in (a, b):
        if x[0] == 'harness':
            raise RuntimeError(x[1])
    count('fault:' + ('just-in-time compiler off' if cfg == ('jit',) else ' and '.join(cfg) + ' not loadable'))
    if a[0] != 'ok':
        raise RuntimeError(a[1])
    if b[0] == 'dead':
        count('the library refuses to start')
        return dict(violations=[], stats=stats, log=[('dead', str(cfg), repr(b[1])[:60])], prog=prog)
    for i, (c, x, y) in enumerate(zip(calls, a[1], b[1])):
        name = c[2] if c[0] == 'q' else c[1]
        what = None
        if y[0] != 'ok':
            count('raises without the helper' if x[0] == 'ok' else 'raises in both')
        elif x[0] == 'ok':
            rt, at = (OPS[name].rtol, OPS[name].atol) if c[0] == 'q' else (1e-12, 1e-300)
            what = diff(x[1], y[1], rtol=rt, atol=at)
            count('same result')
        else:
            count('raises in the complete installation (not judged)')
        if what:
            label = '%s v%d' % (name, c[3]) if c[0] == 'q' else '%s(%s, %s)' % (name, c[2], {k: c[3][k] for k in sorted(c[3])})
            vs.append(dict(property=PROP, step=i, kind='answer', where=name, what='without %s, %s: %s' % (' and '.join(cfg), label, what)))
        log.append((str(cfg), name, str(c[2:]), x[0], y[0]))
    return dict(violations=vs, stats=stats, log=log, prog=prog)


def tupled(x):
    return tuple(tupled(y) for y in x) if isinstance(x, (list, tuple)) else x


def shrinks(prog):
    out = [dict(prog, steps=copy.deepcopy(s)) for s in drop_each(prog['steps'])]
    for i, s in enumerate(prog['steps']):
        if s[0] == 's':
            for xs in drop_each(s[2]):
                if len(xs) > 1:
                    p = copy.deepcopy(prog)
                    p['steps'][i][2] = xs
                    out.append(p)
    if len(prog['config']) > 1:
        for k in prog['config']:
            if tuple([k]) in _sock:
                out.append(dict(copy.deepcopy(prog), config=[k]))
    return out


def catalogue():
    from ..catalog.base import OPS
    return dict(operations=len(OPS), counting_functions=len(SEQ), configurations=[' and '.join(c) for c in CONFIGS])
