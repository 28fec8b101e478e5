"""Seeded generation of programs, and the parts shared by the checks whose programs are lists of steps."""
import copy
import random
import zlib
from . import boot, world
from .catalog.base import KINDS, OPS, MUTS, FORM
from .core import drop_each

FILLS = (0, 63, 127, 201, 255)


def rng_for(seed, prop, n):
    return random.Random((seed * 1000003 + zlib.crc32(prop.encode())) * 1000003 + n)


def family(name):
    return name.split('.')[0]


_fam = {}


def families():
    if not _fam:
        for o in OPS.values():
            _fam.setdefault(family(o.name), []).append(o.name)
            if o.kind:
                _fam.setdefault('kind:' + o.kind, []).append(o.name)
    return _fam


_mk = {}


def muts_of(kind, bad=None):
    if not _mk:
        for m in MUTS.values():
            _mk.setdefault(m.kind, []).append(m.name)
    return [n for n in _mk.get(kind, ()) if bad is None or MUTS[n].bad == bad]


def related(r, name, pred=lambda o: True):
    """an operation likely to share state with the given one"""
    x = r.random()
    o = OPS[name]
    if x < 0.4:
        cand = name
    elif x < 0.75:
        fam = families()['kind:' + o.kind] if o.kind and r.random() < 0.5 else families()[family(name)]
        cand = fam[r.randrange(len(fam))]
    else:
        cand = ALL()[r.randrange(len(ALL()))]
    return cand if pred(OPS[cand]) else name


_all = []


def ALL():
    if not _all:
        _all.extend(sorted(OPS))
    return _all


def variant(r, o, p=0.15):
    """a variant of the operation, sometimes with its arguments in another form"""
    v = r.randrange(o.nv)
    if r.random() < p and o.forms():
        v += FORM * r.choice(o.forms())
    return v


def mem_fault(r, part=0, parts=1, p_persist=0.25):
    """the allocation that fails: one of all the call makes, or one at a chosen place of the library"""
    f = dict(type='mem', frac=(part + r.random()) / parts, persist=r.random() < p_persist)
    if r.random() < 0.65:
        f['occ'] = r.randrange(3)
    return f


class Maker(object):
    """builds a list of steps, keeping track of the objects"""

    def __init__(self, r):
        self.r, self.steps, self.objs, self.n = r, [], {}, 0

    def obj(self, kind, fresh=0.5):
        if KINDS[kind].flags.get('exclusive') and fresh:
            fresh = 1.0                    # see known finding C02-rind
        have = [k for k, v in self.objs.items() if v == kind]
        if have and self.r.random() > fresh:
            return have[self.r.randrange(len(have))]
        self.n += 1
        oid = 'o%d' % self.n
        self.steps.append(dict(do='build', id=oid, kind=kind, v=self.r.randrange(KINDS[kind].nv)))
        self.objs[oid] = kind
        return oid

    def call(self, name, fresh=0.5, **extra):
        o = OPS[name]
        st = dict(do='call', op=name, v=variant(self.r, o))
        if o.kind:
            st['on'] = self.obj(o.kind, fresh)
        st.update(extra)
        self.steps.append(st)
        return st

    def mut(self, oid, name=None, **extra):
        ms = muts_of(self.objs[oid])
        if not ms:
            return None
        name = name or ms[self.r.randrange(len(ms))]
        st = dict(do='mut', mut=name, v=self.r.randrange(MUTS[name].nv), on=oid)
        st.update(extra)
        self.steps.append(st)
        return st

    def fault(self, o, p_persist=0.25):
        """a fault fit for the operation"""
        r = self.r
        if o.cb and r.random() < 0.6:
            return dict(type='cb', frac=r.random() ** r.choice((1, 1, 3)), exc=r.choice(sorted(world.EXCS)), persist=r.random() < p_persist)
        return mem_fault(r, p_persist=p_persist)


def needed(prog):
    """keys of the references a program needs"""
    keys = []
    rec = {}
    for st in prog['steps']:
        d = st['do']
        if d == 'build':
            rec[st['id']] = (st['kind'], st['v'], ())
        elif d == 'copy':
            if st['from'] in rec:
                rec[st['id']] = rec[st['from']]
        elif d == 'mut':
            if st['on'] not in rec:
                continue
            keys.append(('m', rec[st['on']], st['mut'], st['v']))
            r0 = rec[st['on']]
            r1 = (r0[0], r0[1], r0[2] + ((st['mut'], st['v']),))
            # whether the change succeeds is known only when it runs: both continuations may be needed
            rec.setdefault('alt', {})
            rec[st['on']] = r0 if (MUTS[st['mut']].bad or st.get('fault')) else r1
        elif d == 'call':
            o = OPS[st['op']]
            if o.kind and st['on'] not in rec or st.get('bare'):
                continue
            keys.append(('q', rec[st['on']] if o.kind else None, st['op'], st['v']))
    return keys


def shrinks(prog):
    out = []
    for steps in drop_each(prog['steps']):
        out.append(dict(prog, steps=copy.deepcopy(steps)))
    if prog.get('fill'):
        out.append(dict(prog, fill=0))
    for i, s in enumerate(prog['steps']):
        f = s.get('fault')
        if f and f.get('persist'):
            p = copy.deepcopy(prog)
            p['steps'][i]['fault']['persist'] = False
            out.append(p)
        if f and f.get('n', 0) > 1:
            for n in sorted({1, f['n'] // 2, f['n'] - 1}):
                p = copy.deepcopy(prog)
                p['steps'][i]['fault']['n'] = n
                out.append(p)
        for v in {0, s.get('v', 0) % FORM, s.get('v', 0) // FORM * FORM}:
            if s.get('v', 0) != v:
                p = copy.deepcopy(prog)
                p['steps'][i]['v'] = v
                out.append(p)
    return out


def form_programs(seed, prop, rnd, slow=False, most=8, **extra):
    """every operation with its arguments in each of the other forms, several calls per process"""
    out = []
    for i, name in enumerate(ALL()):
        o = OPS[name]
        if o.slow and not slow:
            continue
        r = rng_for(seed, prop + 'forms', rnd * 100000 + i)
        forms = list(o.forms())
        r.shuffle(forms)
        for j in range(0, len(forms), most):
            m = Maker(r)
            oid = m.obj(o.kind) if o.kind else None
            for f in forms[j:j + most]:
                st = dict(do='call', op=name, v=r.randrange(o.nv) + FORM * f, bare=True)
                if oid:
                    st['on'] = oid
                m.steps.append(st)
            out.append(dict(steps=m.steps, fill=r.choice(FILLS), **{k: v(r) for k, v in extra.items()}))
    return out


class StepCheck(object):
    """what the driver needs from a property whose programs are lists of steps; the modules fill in programs()"""

    def __init__(self, prop, want=None):
        self.prop, self.want, self.refs = prop, want or {prop}, None

    def setup(self, refs):
        boot.boot()
        self.refs = refs

    def reference(self, key):
        boot.af.set_fill(0)
        return world.reference(key)

    def execute(self, prog):
        prog = copy.deepcopy(prog)
        boot.af.set_fill(prog.get('fill', 0))
        w = world.World(self.refs, self.want)
        world.prevail(prog.get('env'))
        w.run(prog['steps'])
        world.prevail(None)
        return dict(violations=w.violations, stats=w.stats, log=w.log, prog=prog)

    needed = staticmethod(needed)
    shrinks = staticmethod(shrinks)


def export(check, ns):
    for n in ('setup', 'reference', 'execute', 'needed', 'shrinks'):
        ns[n] = getattr(check, n)
    ns['catalogue'] = lambda: dict(operations=len(OPS), operation_variants=sum(o.nv for o in OPS.values()),
                                   kinds=len(KINDS), changes=len(MUTS))
