"""C03: arguments and queried objects are compared bit for bit before and after every call, with and without faults."""
from .. import gen
from ..catalog.base import OPS, KINDS, MUTS

PROP, LEVEL = 'C03', 'fault_enumeration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 70, 1500, 2
RULE = ('Every operation variant of the catalogue is called once per round on a (sometimes reconfigured) object, without a fault or with memory exhausted at, or the user function raising at, a seeded point of the call; arguments and receiver are compared bit for bit with their pictures from before the call, and the receiver then has to give the answers of an untouched object. Non-trivial: a judged call; distinct by sequence of operations, outcomes and whether the fault fired.')
ASSUMPTIONS = ['what a user can observe of an object is its public attributes and its answers']
check = gen.StepCheck(PROP)
gen.export(check, globals())



def programs(seed, rnd, tier):
    """every operation and variant on every kind of object it applies to, once without a fault and then with one"""
    out = []
    i = 0
    for name in gen.ALL():
        o = OPS[name]
        kinds = range(KINDS[o.kind].nv) if o.kind and rnd % 4 == 0 else (None,)
        for v in range(o.nv):
            for kv in kinds:
                r = gen.rng_for(seed, PROP, rnd * 100000 + i)
                i += 1
                m = gen.Maker(r)
                if o.kind:
                    oid = m.obj(o.kind)
                    if kv is not None:
                        m.steps[-1]['v'] = kv
                    good = gen.muts_of(o.kind, False)
                    if good and r.random() < 0.3:
                        m.mut(oid, good[r.randrange(len(good))])
                st = m.call(name, 0.0)
                st['v'] = v
                if rnd % 4 or r.random() < 0.1:
                    st['fault'] = m.fault(o)
                if o.kind:
                    # the object must answer as before, also where it keeps things out of sight; what is judged is
                    # the change made by the first call, not the answer of the first call itself
                    for _ in range(2 if kv is None else 1):
                        fam = gen.families()['kind:' + o.kind]
                        q = fam[r.randrange(len(fam))]
                        if not OPS[q].slow:
                            m.call(q, 0.0, prop=PROP)
                out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    if rnd % 4 == 0:
        out += gen.form_programs(seed, PROP, rnd, tier != 'quick')
    return out
