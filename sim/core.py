"""Search driver: seeds -> programs -> simulated runs -> violations -> minimised replay files and evidence."""
import hashlib
import json
import os
import re
import sys
import time
from . import boot, pool

VERIF = boot.VERIF
OUT = os.path.join(VERIF, 'out')
WORKERS = int(os.environ.get('VERIF_WORKERS') or min(8, os.cpu_count() or 1))
T0 = time.monotonic()


class HarnessError(Exception):
    pass


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


class Refs(dict):
    """references, each computed alone in a pristine process"""

    def __init__(self, fn, workers=WORKERS, timeout=90, twice=False, fn2=None):
        dict.__init__(self)
        self.fn2 = fn2                     # the second run of a reference, made under other conditions
        self.fn, self.workers, self.timeout, self.twice = fn, workers, timeout, twice
        self.unstable = {}

    def ensure(self, keys, deadline=None):
        todo = sorted({k for k in keys if k not in self}, key=repr)
        if not todo:
            return
        res = pool.map_isolated(self.fn, todo, self.workers, self.timeout, deadline)
        again = None
        if self.twice:
            again = pool.map_isolated(self.fn2 or self.fn, todo, self.workers, self.timeout, deadline)
        for i, k in enumerate(todo):
            r = res[i]
            if r is None:
                continue
            if r[0] == 'harness':
                raise HarnessError('reference %r: %s' % (k, r[1]))
            self[k] = r[1] if r[0] == 'ok' else dict(out=r)
            if again is not None and again[i] is not None and again[i][0] == 'ok' and r[0] == 'ok':
                self.unstable[k] = again[i][1]


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        d = json.load(f)
    return [k for k in d['findings'] if k['property'] == prop]


def is_known(v, known):
    for k in known:
        if k['where'] == v['where'] and k['kind'] == v['kind'] and re.search(k.get('match', ''), v['what']):
            return k
    return None


def vclass(v):
    return (v['kind'], v['where'])


def run_one(execute, prog, timeout=120):
    r = pool.map_isolated(execute, [prog], 1, timeout)[0]
    return judge(r, prog)


def judge(r, prog):
    """normalise a raw task result to dict(violations, stats, log)"""
    if r[0] == 'ok':
        return r[1]
    if r[0] == 'harness':
        raise HarnessError(r[1])
    faulty = any('fault' in s for s in all_steps(prog))
    if r[0] == 'signal' and faulty:
        return dict(violations=[], stats={'run died under injected fault (discarded)': 1}, log=[], prog=prog)
    what = 'the process was killed by signal %d' % r[1] if r[0] == 'signal' else 'a call never finished'
    return dict(violations=[dict(property=None, what=what, step=-1, kind=r[0], where='run')], stats={}, log=[], prog=prog)


def all_steps(prog):
    for s in prog.get('steps', ()):
        yield s
    for th in prog.get('threads', ()):
        for s in th:
            yield s


def minimise(mod, refs, prog, cls, budget=25.0, known=()):
    """drop and simplify parts of the program while a violation of the same class remains"""
    end = time.monotonic() + budget
    best = prog
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        cands = mod.shrinks(best)
        i = 0
        while i < len(cands) and time.monotonic() < end:
            batch = cands[i:i + WORKERS]
            i += len(batch)
            keys = [k for c in batch for k in mod.needed(c)]
            refs.ensure(keys)
            res = pool.map_isolated(mod.execute, batch, WORKERS, 120)
            for c, r in zip(batch, res):
                if r is None:
                    continue
                try:
                    j = judge(r, c)
                except HarnessError:
                    continue
                if any(vclass(v) == cls and not is_known(v, known) for v in j['violations']):
                    best = j.get('prog') or c
                    progress = True
                    break
            if progress:
                break
    return best


def drop_each(steps):
    """candidate step lists: halves first, then single steps"""
    out = []
    n = len(steps)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            out.append(steps[:a] + steps[a + size:])
        size //= 2
    return out


def save_replay(prop, n, prog, v, seed, tier):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s-%d.json' % (prop, n))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, violation={k: v[k] for k in ('what', 'kind', 'where')}, program=prog), f, indent=1)
    return path


def evidence(prop, tier, seed, level, coverage, nviol, assumptions):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    data = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(time.monotonic() - T0, 2),
                violations=nviol, assumptions=assumptions)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1, default=str)


REAL = ['the whole wafo package and its compiled extensions (c_library, rindmod, cov2mod, mvn, mvnprdmod), built from /repo',
        'numpy, scipy, numba, matplotlib (Agg back end) as installed']
STUB = ['numpy data allocator (NEP 49 handler that can fail the n-th allocation and fills fresh memory)',
        'threading.Lock/RLock as seen by library code (cooperative locks)', 'thread scheduling (one thread released at a time)',
        'user callables (wrapped, can raise at the n-th evaluation)']


def main(mod, tier, seed, replay=None):
    prop = mod.PROP
    refs = Refs(mod.reference, twice=getattr(mod, 'TWICE', False), fn2=getattr(mod, 'reference2', None))
    mod.setup(refs)
    if replay:
        return do_replay(mod, refs, replay)
    known = load_known(prop)
    quick = tier == 'quick'
    limit = float(os.environ.get('VERIF_BUDGET') or (mod.QUICK_S if quick else mod.THOROUGH_S))
    deadline = T0 + limit
    total = dict(runs=0, steps=0)
    stats, hashes, samples, found = {}, set(), [], {}
    knownhits = {}
    rnd = 0
    discarded = 0
    while True:
        progs = mod.programs(seed, rnd, tier)
        if not progs:
            break
        keys = [k for p in progs for k in mod.needed(p)]
        if hasattr(mod, 'sweep'):
            keys += mod.sweep(seed, rnd, tier)
        refs.ensure(keys, deadline + 60)
        for k, second in sorted(refs.unstable.items(), key=lambda kv: repr(kv[0])):
            v = mod.unstable(k, refs[k], second)
            if v:
                found.setdefault(vclass(v), (dict(steps=[], ref=k), v))
        refs.unstable.clear()
        res = pool.map_isolated(mod.execute, progs, WORKERS, 150, deadline)
        for p, r in zip(progs, res):
            if r is None:
                discarded += 1
                continue
            j = judge(r, p)
            total['runs'] += 1
            for k, n in j['stats'].items():
                stats[k] = stats.get(k, 0) + n
            total['steps'] += len(j['log'])
            h = hashlib.sha1(repr(j.get('sig', j['log'])).encode()).hexdigest()
            if j['log']:
                if h not in hashes and len(samples) < 3:
                    samples.append(dict(program=j.get('prog') or p, log=[list(map(str, e)) for e in j['log']][:20]))
                hashes.add(h)
            for v in j['violations']:
                v['property'] = prop
                k = is_known(v, known)
                if k:
                    knownhits[k['id']] = knownhits.get(k['id'], 0) + 1
                else:
                    found.setdefault(vclass(v), (j.get('prog') or p, v))
        rnd += 1
        if (found and not os.environ.get("VERIF_ALL")) or time.monotonic() > deadline or (quick and rnd >= mod.QUICK_ROUNDS):
            break
    nviol = len(found)
    lines = []
    mend = time.monotonic() + 90
    most = int(os.environ.get("VERIF_MAX") or 8)
    for n, cls in enumerate(sorted(found, key=str)):
        if len(lines) >= most:
            break
        prog, v = found[cls]
        if prog.get('ref') is None:
            dies = cls[0] in ('signal', 'hang')
            again = [any(vclass(x) == cls for x in run_one(mod.execute, prog)['violations']) for _ in range(2)]
            if not (all(again) if dies else any(again)):
                stats['seen once, not reproducible (discarded)'] = stats.get('seen once, not reproducible (discarded)', 0) + 1
                print('%s: seen once, not reproducible, discarded: %s' % (prop, v['what']))
                nviol -= 1
                continue
            if time.monotonic() < mend and cls[0] != 'hang':
                prog = minimise(mod, refs, prog, cls, min(25.0, mend - time.monotonic()), known)
                refs.ensure(mod.needed(prog))
                j = run_one(mod.execute, prog)
                same = [x for x in j['violations'] if vclass(x) == cls]
                if same:
                    v = same[0]
                    prog = j.get('prog') or prog
        path = save_replay(prop, n, prog, v, seed, tier)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s: %s' % (prop, v['what']))
    for k in known:
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (prop, k['what'], knownhits.get(k['id'], 0)))
    wall = time.monotonic() - T0
    faults = {k: v for k, v in sorted(stats.items()) if k.startswith('fault:') or 'died' in k}
    cov = dict(evaluations=total['runs'], distinct_nontrivial=len(hashes), rule=mod.RULE, samples=samples,
               simulated_steps=total['steps'], references=len(refs), runs_per_hour=int(total['runs'] / max(wall, 1e-9) * 3600),
               seeds='every run derives from VERIF_SEED=%d and its run number; %d run seeds' % (seed, total['runs']),
               simulated_time='the library has no clock; time is counted in executed steps (%d)' % total['steps'],
               faults_injected=faults, events={k: v for k, v in sorted(stats.items()) if k not in faults},
               runs_not_started_before_deadline=discarded, components_real=REAL, components_stubbed=STUB,
               catalogue=mod.catalogue() if hasattr(mod, 'catalogue') else None)
    cov.update(mod.extra_coverage() if hasattr(mod, 'extra_coverage') else {})
    evidence(prop, tier, seed, mod.LEVEL, cov, nviol, getattr(mod, 'ASSUMPTIONS', []))
    for l in lines:
        print(l)
    print('%s %s: %d runs, %d references, %d distinct, %.1f s, %d violation(s)' % (
        prop, tier, total['runs'], len(refs), len(hashes), wall, nviol))
    if nviol:
        return 1
    if total['runs'] == 0:
        raise HarnessError('no run finished')
    return 0


def do_replay(mod, refs, path):
    with open(path) as f:
        d = json.load(f)
    prog = d['program']
    if prog.get('ref'):
        key = tup(prog['ref'])
        refs.twice = True
        refs.ensure([key])
        v = mod.unstable(key, refs[key], refs.unstable.get(key))
        vs = [v] if v else []
    else:
        refs.ensure(mod.needed(prog))
        vs = run_one(mod.execute, prog)['violations']
    want = d['violation']
    for v in vs:
        if (v['kind'], v['where']) == (want['kind'], want['where']):
            print('%s: %s' % (mod.PROP, v['what']))
            print('VIOLATION property=%s replay=%s' % (mod.PROP, os.path.abspath(path)))
            return 1
    print('the recorded violation does not occur on this tree')
    return 0
