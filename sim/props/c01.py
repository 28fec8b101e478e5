"""C01: several threads, parked and released one at a time by the seeded scheduler; every call must return what it
returns alone in a pristine process, and every call must finish."""
import copy
import _thread
import random as _pyrandom
import numpy as np
from .. import boot, gen, sched, world
from ..catalog.base import OPS, KINDS, MUTS
from ..core import drop_each
from ..fp import UserFn

PROP, LEVEL = 'C01', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 90, 1700, 3
RULE = ('A run has 2-3 threads of 1-3 steps each (queries of a shared, completely built object, or builds, changes and queries of '
        'objects of their own, sometimes with a failing user function in one thread).  Before every library line (or bytecode), user '
        'function and lock operation the seeded scheduler may switch threads.  Every finished call is compared with its answer alone. '
        'Non-trivial: at least one switch inside a call; distinct by the sequence of operations and the list of switch sites.')
ASSUMPTIONS = ['switches happen between lines or bytecodes of library code, not inside numpy, scipy or compiled helpers (which hold the '
               'interpreter lock, or release it only around code without shared state)',
               'calls that draw from or reseed the process-wide generator, plotting calls and Rind.__call__ (known finding C02-rind) are not threaded']
_refs = None


def ok(o):
    return not (o.rng or o.seeded or o.nothread or o.plot or o.slow or (o.kind and KINDS[o.kind].flags.get('exclusive')))


def setup(refs):
    global _refs
    boot.boot()
    _refs = refs


def reference(key):
    boot.af.set_fill(0)
    return world.reference(key)


class ThreadSeam(world.CallbackSeam):
    """a counter of its own for every thread"""

    def __init__(self):
        self.by = {}

    def mine(self):
        me = _thread.get_ident()
        if me not in self.by:
            self.by[me] = world.CallbackSeam()
        return self.by[me]

    def arm(self, *a, **k):
        self.mine().arm(*a, **k)

    def enter(self, fn):
        self.mine().enter(fn)


def programs(seed, rnd, tier):
    ops = [n for n in gen.ALL() if ok(OPS[n])]
    out = []
    for i, focus in enumerate(ops):
        out.append(free_program(gen.rng_for(seed, PROP, rnd * 100000 + i), focus))
    for i, focus in enumerate(ops):
        out.append(swept_program(gen.rng_for(seed, PROP, rnd * 100000 + 50000 + i), focus))
    return out


def swept_program(r, focus):
    """two calls; the first is switched out at one place after another, and the second runs to its end or some way"""
    o = OPS[focus]
    m0 = gen.Maker(r)
    if o.kind and r.random() < 0.65:
        m0.obj(o.kind)
        good = gen.muts_of(o.kind, False)
        if good and r.random() < 0.2:
            m0.mut('o1', good[r.randrange(len(good))])
    threads = []
    v0 = r.randrange(o.nv)
    for t in range(2):
        m = gen.Maker(r)
        m.n = 100 * (t + 1)
        name = focus if t == 0 or r.random() < 0.75 else gen.related(r, focus, ok)
        oo = OPS[name]
        if oo.kind and m0.objs.get('o1') == oo.kind:
            m.steps.append(dict(do='call', op=name, v=0, on='o1'))
        else:
            m.call(name, 0.3)
        v = v0
        if t and oo.nv > 1:
            v = r.randrange(oo.nv) if name != focus else (v0 + 1 + r.randrange(oo.nv - 1)) % oo.nv
        m.steps[-1]['v'] = v
        if t and oo.cb and r.random() < 0.15:
            m.steps[-1]['fault'] = dict(type='cb', frac=r.random(), exc=r.choice(('plain', 'value')), persist=False)
        threads.append(m.steps)
    mode = dict(sweep=r.choice((6, 10)))
    if r.random() < 0.15:
        mode['opcodes'] = True
    return dict(steps=m0.steps, threads=threads, mode=mode, seed=r.randrange(1 << 30))


def free_program(r, focus):
    nth = r.choice((2, 2, 3))
    o = OPS[focus]
    m0 = gen.Maker(r)
    if o.kind and r.random() < 0.6:
        m0.obj(o.kind)
        good = gen.muts_of(o.kind, False)
        if good and r.random() < 0.3:
            m0.mut('o1', good[r.randrange(len(good))])
    threads = []
    same = r.random() < 0.5
    for t in range(nth):
        m = gen.Maker(r)
        m.n = 100 * (t + 1)
        for k in range(r.choice((1, 1, 2, 3))):
            name = focus if (same or (k == 0 and t < 2)) else gen.related(r, focus, ok)
            oo = OPS[name]
            if oo.kind and m0.objs.get('o1') == oo.kind:
                m.steps.append(dict(do='call', op=name, v=gen.variant(r, oo), on='o1'))
            else:
                st = m.call(name, 0.3)
                good = gen.muts_of(oo.kind, False) if oo.kind else ()
                if good and r.random() < 0.25:
                    m.steps.pop()
                    m.mut(st['on'], good[r.randrange(len(good))])
                    m.steps.append(st)
            st = m.steps[-1]
            if oo.cb and r.random() < 0.25:
                st['fault'] = dict(type='cb', frac=r.random(), exc=r.choice(('plain', 'value', 'key')), persist=False)
        threads.append(m.steps)
    mode = r.choice((dict(gap=r.choice((3, 8, 25, 80))), dict(gap=r.choice((8, 40)), hot=r.choice((0.2, 0.5, 0.9))),
                     dict(hot=r.choice((0.1, 0.5, 0.9))), dict(gap=r.choice((200, 1000)), hot=0.3), dict(gap=r.choice((10, 50)), opcodes=True)))
    return dict(steps=m0.steps, threads=threads, mode=mode, seed=r.randrange(1 << 30))


def needed(prog):
    keys = []
    for th in prog['threads']:
        keys += gen.needed(dict(steps=prog['steps'] + th))
    return keys


class ThreadWorld(world.World):
    """the steps of one thread; nothing process-wide is touched between them"""

    def __init__(self, refs, shared, number):
        self.refs, self.want = refs, {PROP}
        self.objs, self.recipes = dict(shared.objs), dict(shared.recipes)
        self.shared = set(shared.objs)
        self.dead, self.tainted = {}, set()
        self.violations, self.stats, self.log = [], {}, []
        self.seam = UserFn.context
        self.last = None
        self.step_no = -1

    def _guarded(self, fault, fn):
        self.seam.arm(*((fault['n'], fault.get('exc', 'plain'), fault.get('persist', False)) if fault else ()))
        out = world.outcome_of(fn)
        fired = self.seam.mine().fired if fault else 0
        self.seam.arm()
        if fault:
            self.count('fault:cb:%s' % ('fired' if fired else 'armed, call ended first'))
        return out, fired

    def do_call(self, st):
        op = OPS[st['op']]
        recv = ()
        if op.kind:
            if st['on'] not in self.objs or st['on'] in self.tainted:
                return
            recv = (self.objs[st['on']],)
        ref = self.ref_for(st)
        if ref is None or ref['out'][0] in ('nobuild', 'hang', 'signal') or ref.get('random'):
            return
        fault = self._resolve(st.get('fault'), ref)
        if st.get('fault') and not fault:
            return
        if fault:
            st['fault'] = fault
        fn, args, kwds = op.make(st['v'])
        out, fired = self._guarded(fault, lambda: fn(*(recv + args), **kwds))
        self.count('call')
        if not fired:
            d = world.compare(ref['out'], out, op)
            if d:
                self.bad(PROP, '%s v%d, while other threads ran: %s' % (st['op'], st['v'], d), st, 'answer')
        self.log.append((st['op'], out[0], fired))

    def do_mut(self, st):
        oid = st['on']
        if oid not in self.objs or oid in self.tainted or oid in self.shared:
            return
        recipe = self.recipes[oid]
        ref = self.refs.get(('m', recipe, st['mut'], st['v']))
        if ref is None or ref['out'][0] != 'ok':
            self.tainted.add(oid)
            return
        fn, args, kwds = MUTS[st['mut']].make(st['v'])
        out = world.outcome_of(lambda: fn(self.objs[oid], *args, **kwds))
        self.count('change')
        if out[0] == 'err':
            self.bad(PROP, '%s raised %s: %.60s while other threads ran' % (st['mut'], out[1], out[2]), st, 'answer')
            self.tainted.add(oid)
        else:
            self.recipes[oid] = (recipe[0], recipe[1], recipe[2] + ((st['mut'], st['v']),))
        self.log.append((st['mut'], out[0], 0))


def one(prog, schedule=None, plan=None):
    """one simulated run: the shared objects are built, then the threads"""
    np.random.seed(world.RS)
    seam = UserFn.context = ThreadSeam()
    shared = world.World(_refs, set())
    UserFn.context = seam
    shared.seam = seam
    shared.run(prog['steps'])
    shared.objs.pop('', None)
    worlds = [ThreadWorld(_refs, shared, i) for i in range(len(prog['threads']))]
    np.random.seed(world.RS)
    # objects the threads own are built inside the threads; build() seeds the generator, which no threaded call uses
    s = sched.Sched([lambda w=w, st=st: w.run(st) for w, st in zip(worlds, prog['threads'])], prog['mode'], prog['seed'], schedule, plan=plan)
    s.run()
    vs = [v for w in worlds for v in w.violations]
    if s.failure:
        if s.failure.startswith('harness'):
            raise RuntimeError(s.failure)
        vs.append(dict(property=PROP, what=s.failure, step=-1, kind='deadlock', where='run'))
    stats = {'switches': s.switches, 'scheduling points': s.ticks, 'schedules': 1, 'fault:thread switch:fired': s.switches}
    for w in worlds + [shared]:
        for k, n in w.stats.items():
            stats[k] = stats.get(k, 0) + n
    log = [('t%d' % i,) + tuple(e) for i, w in enumerate(worlds) for e in w.log]
    return s, vs, stats, log


def pick(r, seen):
    """a scheduling point of a thread: one of the places it passed, those after a write to shared state first"""
    if not seen:
        return 1
    by = {}
    for n, (where, hot) in enumerate(seen):
        by.setdefault((where, hot), []).append(n + 1)
    keys = sorted(by, key=str)
    hot = [k for k in keys if k[1]]
    k = r.choice(hot if hot and r.random() < 0.5 else keys)
    at = by[k]
    return at[0] if r.random() < 0.6 else r.choice(at)


def plans(prog, first):
    """the plans of a swept program, made as the runs go; first: scheduling points seen in the latest run"""
    r = _pyrandom.Random(prog['seed'])
    yield [[0, 1 + int(r.expovariate(1 / 30.0)), 1]]
    for _ in range(prog['mode']['sweep']):
        a, b = first()
        plan = [[0, pick(r, a), 1]]
        x = r.random()
        if x < 0.35:
            plan.append([1, pick(r, b), 0])
            if x < 0.12:
                plan.append([0, plan[0][1] + 1 + int(r.expovariate(1 / 10.0)), 1])
        yield plan


def execute(prog):
    prog = copy.deepcopy(prog)
    world.prevail(None)
    if not prog['mode'].get('sweep'):
        s, vs, stats, log = one(prog, prog.get('schedule'))
        prog['schedule'] = s.log if prog.get('schedule') is None else prog['schedule']
        log = log if s.switches > 1 else []
        return dict(violations=vs, stats=stats, log=log, sig=(log, s.log, sorted(s.sites)), prog=prog)
    given = prog.get('plans')
    latest, done, total, logs, sig = [None], [], {}, [], []
    vs = []
    ticks = 0
    for plan in (given if given is not None else plans(prog, lambda: latest[0])):
        s, vs, stats, log = one(prog, plan=plan)
        latest[0] = s.seen[0], s.seen[1]
        done.append(plan)
        ticks += s.ticks
        for k, n in stats.items():
            total[k] = total.get(k, 0) + n
        if s.switches:
            logs += log
            sig.append((plan, sorted(s.sites)))
        if vs or (given is None and ticks > 60000):
            break
    prog['plans'] = done
    return dict(violations=vs, stats=total, log=logs, sig=(logs, sig), prog=prog)


def shrinks(prog):
    out = []
    base = {k: v for k, v in prog.items() if k not in ('schedule', 'plans')}
    # fewer threads and steps, first with the recorded switches, then under a few other seeds
    for t in range(len(prog['threads'])):
        if len(prog['threads']) > 2:
            for s in range(4):
                out.append(dict(copy.deepcopy(base), threads=copy.deepcopy(prog['threads'][:t] + prog['threads'][t + 1:]), seed=prog['seed'] + s))
        for steps in drop_each(prog['threads'][t]):
            if len(steps) == len(prog['threads'][t]):
                continue
            p = dict(copy.deepcopy(base))
            p['threads'][t] = copy.deepcopy(steps)
            for s in range(3):
                out.append(dict(p, seed=prog['seed'] + s))
    for i, st in enumerate(prog['steps']):
        if st['do'] == 'mut':
            p = copy.deepcopy(base)
            p['steps'].pop(i)
            out.append(p)
    if prog.get('plans'):
        for p in drop_each(prog['plans']):
            if p and len(p) < len(prog['plans']):
                out.insert(0, dict(copy.deepcopy(prog), plans=copy.deepcopy(p)))
        for i, plan in enumerate(prog['plans']):
            if len(plan) > 1:
                p = copy.deepcopy(prog)
                p['plans'][i].pop()
                out.append(p)
    sch = prog.get('schedule')
    if sch:
        for s in drop_each(sch):
            if len(s) < len(sch):
                out.append(dict(copy.deepcopy(prog), schedule=s))
    return out


def catalogue():
    return dict(operations=len([n for n in OPS if ok(OPS[n])]), kinds=len(KINDS), changes=len(MUTS))
