"""C05: changes that fail, by a rejected value or by a fault at a seeded point, must leave no trace."""
from .. import gen
from ..catalog.base import OPS, KINDS, MUTS

PROP, LEVEL = 'C05', 'fault_enumeration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 3
RULE = ('A run builds an object, applies 0-2 changes and queries, then a change that fails: invalid value, or memory exhausted at a seeded '
        'allocation of the change.  The object is compared bit for bit with its picture from before the failed change, its answers with '
        'those of an object for which the change was never tried, and the same change repeated without the fault with one that never '
        'failed.  Non-trivial: the change failed; distinct by the sequence of steps and outcomes.')
ASSUMPTIONS = ['what a user can observe of an object is its public attributes and its answers']
check = gen.StepCheck(PROP)
gen.export(check, globals())


def programs(seed, rnd, tier):
    out = []
    i = 0
    for name in sorted(MUTS):
        mu = MUTS[name]
        qs = sorted(n for n in gen.families().get('kind:' + mu.kind, ()) if not OPS[n].slow)
        good = gen.muts_of(mu.kind, False)
        for v in range(mu.nv):
            for rep in range(2):
                r = gen.rng_for(seed, PROP, rnd * 100000 + i)
                i += 1
                m = gen.Maker(r)
                m.steps.append(dict(do='build', id='a', kind=mu.kind, v=r.randrange(KINDS[mu.kind].nv)))
                m.objs['a'] = mu.kind
                for _ in range(r.choice((0, 0, 1, 2))):
                    if good and r.random() < 0.6:
                        m.mut('a', r.choice(good))
                    elif qs:
                        m.steps.append(call(r, r.choice(qs)))
                st = dict(do='mut', mut=name, v=v, on='a')
                if not mu.bad or r.random() < 0.2:
                    st['fault'] = m.fault(mu) if mu.cb else dict(type='mem', frac=r.random(), persist=r.random() < 0.3)
                m.steps.append(st)
                for _ in range(2):
                    if qs:
                        m.steps.append(call(r, r.choice(qs)))
                if not mu.bad:
                    again = {k: w for k, w in st.items() if k != 'fault'}
                    m.steps.append(again)
                elif good:
                    m.mut('a', r.choice(good))
                for _ in range(2):
                    if qs:
                        m.steps.append(call(r, r.choice(qs)))
                out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    return out


def call(r, name):
    return dict(do='call', op=name, v=r.randrange(OPS[name].nv), on='a', prop=PROP)


def needed(prog):
    """whether a faulted change succeeds is known only when it runs, so both continuations are needed"""
    keys = gen.needed(prog)
    alt = dict(prog, steps=[{k: v for k, v in s.items() if k != 'fault'} for s in prog['steps']])
    keys += gen.needed(alt)
    return keys







