"""C14: one allocation of the call (or every one from there on) fails; the answer, if any, must be right."""
from .. import gen
from ..catalog.base import OPS, KINDS, MUTS, FORM

PROP, LEVEL = 'C14', 'fault_enumeration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 2
RULE = ('Every operation variant is called several times per round with one numpy allocation failing (drawn from all the allocations the call makes, or from the places of the library that allocate; sometimes all later ones too); a returned answer must equal the undisturbed one, and the same call repeated with memory available must too. Non-trivial: the fault fired; distinct by operation, outcome and whether the fault fired.')
ASSUMPTIONS = ['only allocations of numpy array data are made to fail', 'a process killed by the fault (in compiled third-party code) is not judged']
check = gen.StepCheck(PROP)
gen.export(check, globals())
_setup = setup                                              # noqa

PER = dict(quick=4, thorough=8)


def setup(refs):
    _setup(refs)
    from ..catalog import c_edge
    c_edge.REJECT[0] = False                                # numpy may turn a failed allocation into another error; an error is not an answer


def programs(seed, rnd, tier):
    out = []
    i = 0
    for name in gen.ALL():
        o = OPS[name]
        for v in range(o.nv):
            r = gen.rng_for(seed, PROP, rnd * 100000 + i)
            i += 1
            m = gen.Maker(r)
            st = m.call(name, 1.0)
            st['v'] = v + (st['v'] // FORM * FORM if rnd else 0)
            m.steps.pop()
            k = 1 if o.slow else PER[tier]
            for j in range(k):
                m.steps.append(dict(st, fault=gen.mem_fault(r, j, k)))
            m.steps.append(dict(st, prop=PROP))
            out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    return out
