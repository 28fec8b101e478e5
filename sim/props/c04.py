"""C04: an object is copied or saved and reloaded; one of the two is then used, changed, overwritten and made to fail;
the other must keep its content and answers."""
from .. import gen
from ..catalog.base import OPS, KINDS, MUTS

PROP, LEVEL = 'C04', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 3
RULE = ('A run builds an object (sometimes changed or queried first), copies it (copy method, deep copy, or save and reload; sometimes '
        'a copy of a copy), then acts on one of the two with 1-4 queries, changes, failing changes and direct writes into its arrays.  '
        'The other is compared bit for bit with its picture from just after the copy, and its answers, like the first answers of the '
        'copy, with those of an object that was never copied.  Non-trivial: the copy was made and compared; distinct by the sequence of steps and outcomes.')
ASSUMPTIONS = ['what a user can observe of an object is its public attributes and its answers']
check = gen.StepCheck(PROP)
gen.export(check, globals())
REPS = dict(quick=4, thorough=6)


def programs(seed, rnd, tier):
    out = []
    i = 0
    for kind in sorted(KINDS):
        qs = sorted(n for n in gen.families().get('kind:' + kind, ()) if not OPS[n].slow)
        for v in range(KINDS[kind].nv):
            for rep in range(REPS[tier]):
                r = gen.rng_for(seed, PROP, rnd * 100000 + i)
                i += 1
                m = gen.Maker(r)
                m.steps.append(dict(do='build', id='a', kind=kind, v=v))
                m.objs['a'] = kind
                good, bad = gen.muts_of(kind, False), gen.muts_of(kind, True)
                if good and r.random() < 0.4:
                    m.mut('a', r.choice(good))
                if qs and r.random() < 0.4:
                    m.steps.append(call(r, r.choice(qs), 'a'))
                how = ('copy', 'deepcopy', 'pickle')[rep % 3]
                m.steps.append(dict(do='copy', id='b', how=how, **{'from': 'a'}))
                m.objs['b'] = kind
                act, kept = ('a', 'b') if r.random() < 0.5 else ('b', 'a')
                if r.random() < 0.15:
                    m.steps.append(dict(do='copy', id='c', how=r.choice(('copy', 'deepcopy', 'pickle')), **{'from': 'b'}))
                    m.objs['c'] = kind
                    if r.random() < 0.5:
                        kept = 'c'
                    else:
                        act = 'c'
                m.steps.append(dict(do='mark', on=kept))
                for _ in range(r.choice((1, 2, 4))):
                    x = r.random()
                    if x < 0.35 and good:
                        st = m.mut(act, r.choice(good))
                        if r.random() < 0.2:
                            st['fault'] = dict(type='mem', frac=r.random(), persist=r.random() < 0.3)
                    elif x < 0.45 and bad:
                        m.mut(act, r.choice(bad))
                    elif x < 0.65 and qs:
                        st = call(r, r.choice(qs), act)
                        if r.random() < 0.2:
                            st['fault'] = m.fault(OPS[st['op']])
                        if good:
                            st.pop('prop')
                        m.steps.append(st)
                    else:
                        m.steps.append(dict(do='scribble', on=act))
                if r.random() < 0.5:
                    m.steps.append(dict(do='scribble', on=act))
                m.steps.append(dict(do='same', on=kept, prop=PROP, tag='%s:%s' % (how, kind),
                                    say='work on one of an object and its %s changed the other' % how))
                for _ in range(3):
                    if qs:
                        m.steps.append(call(r, r.choice(qs), kept))
                out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    return out


def call(r, name, on):
    return dict(do='call', op=name, v=r.randrange(OPS[name].nv), on=on, prop=PROP)
