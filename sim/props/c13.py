"""C13: the process environment is compared before and after every call, under several prevailing environments."""
from .. import gen
from ..catalog.base import OPS, KINDS, MUTS

PROP, LEVEL = 'C13', 'fault_enumeration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 70, 1500, 2
RULE = ('Every operation variant is called once per round under one of four prevailing environments (default; floating point errors raised; warnings as errors; unusual print options), without a fault or with one at a seeded point; the process-wide settings are compared before and after. Non-trivial: a judged call; distinct by operation, outcome, environment and whether the fault fired.')
ASSUMPTIONS = ['figures opened by plotting calls are closed by the caller']
check = gen.StepCheck(PROP)
gen.export(check, globals())

def programs(seed, rnd, tier):
    out = []
    i = 0
    for name in gen.ALL():
        o = OPS[name]
        for v in range(o.nv):
            r = gen.rng_for(seed, PROP, rnd * 100000 + i)
            i += 1
            m = gen.Maker(r)
            st = m.call(name, 1.0)
            st['v'] = v
            st['rs'] = r.randrange(1000)
            if rnd % 3:
                st['fault'] = m.fault(o)
            out.append(dict(steps=m.steps, fill=0, env=r.choice(ENVS)))
    if rnd % 3 == 0:
        out += gen.form_programs(seed, PROP, rnd, tier != 'quick', env=lambda r: r.choice(ENVS))
    return out


ENVS = ('default', 'raise', 'warn', 'print')
