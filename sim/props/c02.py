"""C02: histories of calls, changes, faults and scribbles; every answer must equal that of a pristine process."""
from .. import boot, gen, world
from ..catalog.base import OPS, KINDS, MUTS, FORM
from ..fp import diff
from ..world import compare

PROP, LEVEL = 'C02', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 1
TWICE = True
RULE = ('A run is a history of 4-14 steps (builds, queries with close parameter variants, changes of other objects, failing calls, '
        'overwriting of returned and passed arrays) in one process; each unfaulted query is compared with the same query made first '
        'thing in a pristine process.  Non-trivial: at least one comparison after at least one other step; distinct by the sequence '
        'of operations and outcomes.')
ASSUMPTIONS = ['a forked copy of the freshly started process stands for a fresh process']
check = gen.StepCheck(PROP)
gen.export(check, globals())
PER_ROUND = dict(quick=2, thorough=2)


def programs(seed, rnd, tier):
    ops = [o for o in gen.ALL()]
    out = []
    reps = PER_ROUND[tier]
    for i in range(len(ops) * reps):
        n = rnd * len(ops) * reps + i
        r = gen.rng_for(seed, PROP, n)
        focus = ops[i % len(ops)]
        m = gen.Maker(r)
        k = r.choice((2, 3, 4, 5, 7))
        pf, ps, pm = r.choice((0, 0.15, 0.4)), r.choice((0, 0.2, 0.5)), r.choice((0, 0.2))
        fresh = r.choice((0.3, 0.7, 1.0))
        for _ in range(k):
            name = gen.related(r, focus)
            o = OPS[name]
            if o.slow and r.random() < 0.7:
                name = focus
            st = m.call(name, fresh)
            if r.random() < pf:
                st['fault'] = m.fault(o)
            if r.random() < ps and not o.plot:
                m.steps.append(dict(do='scribble_last', what=r.choice(('both', 'args', 'result'))))
                if 'on' in st:
                    m.objs.pop(st['on'], None)
            if m.objs and r.random() < pm:
                oid = r.choice(sorted(m.objs))
                if m.mut(oid):
                    # other objects of the kind must not notice; this one is left alone from here on
                    m.objs.pop(oid)
        for _ in range(2):
            m.call(focus, fresh)
        out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    if rnd == 0:
        # the history of known finding C02-rind: another Rind object is made between building one and calling it
        out.append(dict(steps=[dict(do='build', id='a', kind='rind', v=0), dict(do='build', id='b', kind='rind', v=3),
                               dict(do='call', op='Rind.call', v=0, on='a', tag='Rind.call after another Rind was built')], fill=0))
    return out


def reference2(key):
    """the same call in another pristine process, in which fresh memory and stack hold other bytes"""
    boot.af.set_fill(FILL2[key[-1] % 2])
    return world.reference(key)


FILL2 = (255, 201)                 # NaN as a number, or a huge one


def sweep(seed, rnd, tier):
    """calls that are made in two pristine processes only: every variant of every operation"""
    keys = []
    for i, name in enumerate(gen.ALL()):
        o = OPS[name]
        r = gen.rng_for(seed, PROP + 'sweep', rnd * 100000 + i)
        if o.slow and rnd == 0 and tier == 'quick':
            continue
        for v in range(o.nv):
            keys.append(('q', (o.kind, r.randrange(KINDS[o.kind].nv), ()) if o.kind else None, name, v))
        forms = o.forms() if not o.slow else ()
        for f in r.sample(forms, min(4, len(forms))):
            keys.append(('q', (o.kind, r.randrange(KINDS[o.kind].nv), ()) if o.kind else None, name, r.randrange(o.nv) + FORM * f))
        for mu in gen.muts_of(o.kind, False) if o.kind else ():
            keys.append(('q', (o.kind, r.randrange(KINDS[o.kind].nv), ((mu, r.randrange(MUTS[mu].nv)),)), name, r.randrange(o.nv)))
    return keys


def unstable(key, a, b):
    if key[0] != 'q' or b is None:
        return None
    op = OPS[key[2]]
    x, y = a['out'], b['out']
    if x[0] != y[0] or (x[0] == 'err' and x[1] != y[1]):
        d = 'outcome %s or %s' % (x[0], y[0])
    elif x[0] == 'ok':
        d = diff(x[1], y[1], rtol=op.rtol, atol=op.atol)
    else:
        d = None
    if d:
        return dict(property=PROP, kind='unstable', where=key[2], step=-1,
                    what='%s v%d gives different answers in two fresh processes: %s' % (key[2], key[3], d))
    return None
