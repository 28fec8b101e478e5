"""C15: the user function raises at a chosen evaluation; the error must surface and leave no trace."""
from .. import gen
from ..catalog.base import OPS, KINDS, MUTS, FORM

PROP, LEVEL = 'C15', 'fault_enumeration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 70, 1500, 2
RULE = ('Every operation that takes a user function is run with that function raising (one of seven error types) at its first, last and two seeded evaluations; the error must reach the caller, and the same call and related calls afterwards must give the answers of a pristine process. Non-trivial: the fault fired; distinct by sequence of operations and outcomes.')
ASSUMPTIONS = ['the number of evaluations is that of the undisturbed call']
check = gen.StepCheck(PROP)
gen.export(check, globals())

def programs(seed, rnd, tier):
    out = []
    i = 0
    cbs = [n for n in gen.ALL() if OPS[n].cb]
    for name in cbs:
        o = OPS[name]
        for v in range(o.nv):
            for rep in range(4):
                r = gen.rng_for(seed, PROP, rnd * 100000 + i)
                i += 1
                m = gen.Maker(r)
                st = m.call(name, 1.0)
                st['v'] = v + st['v'] // FORM * FORM
                frac = (0.0, 0.999999, r.random(), r.random())[rep]
                st['fault'] = dict(type='cb', frac=frac, exc=r.choice(EXC), persist=r.random() < 0.3)
                again = dict(st, prop=PROP)
                again.pop('fault')
                m.steps.append(again)
                for _ in range(2):
                    q = gen.related(r, name, lambda o: not o.slow)
                    m.call(q, 0.5, prop=PROP)
                out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    return out


EXC = ('plain', 'value', 'zerodiv', 'key', 'type', 'index', 'memory')
