"""C16: an object goes through a history, is saved, its process is lost; another process loads the bytes and carries on."""
import copy
import os
import pickle
import socket
import subprocess
import sys
import time
from .. import boot, gen, pool, world
from ..catalog.base import KINDS, OPS
from ..fp import canon, diff
from .c09 import recv, send

PROP, LEVEL = 'C16', 'exploration'
QUICK_S, THOROUGH_S, QUICK_ROUNDS = 75, 1500, 2
RULE = ('A run has 2-4 processes, one after the other.  The first builds an object; each applies 0-4 changes, queries, failing changes and calls '
        'aborted by memory exhaustion, saves the object (pickle protocols 2 to 5) and is lost; the next has nothing but the bytes.  It compares '
        'the content of the loaded object with its picture at the time of the save and its answers with those of an object that was never saved.  '
        'Some saves are torn (bytes missing at the end).  Non-trivial: a loaded object was compared; distinct by the sequence of steps and outcomes.')
ASSUMPTIONS = ['what a user can observe of an object is its public attributes and its answers', 'saving is pickling; objects that refuse to be pickled are not judged']
REPS = dict(quick=3, thorough=6)
check = gen.StepCheck(PROP)
gen.export(check, globals())
_other = None
_refs = None


def setup(refs):
    global _other, _refs
    name = 'verif-c16-%d' % os.getpid()
    env = dict(os.environ, PYTHONHASHSEED='4242', PYTHONPATH=boot.VERIF)
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'sim.loader', name], env=env, cwd='/')
    check.setup(refs)
    _refs = refs
    _other = '\0' + name
    end = time.monotonic() + 120
    s = socket.socket(socket.AF_UNIX)
    while True:
        try:
            s.connect(_other)
            break
        except OSError:
            if p.poll() is not None or time.monotonic() > end:
                raise RuntimeError('the second installation does not start')
            time.sleep(0.05)
    send(s, pickle.dumps(None))
    r = pickle.loads(recv(s))
    if r[0] != 'ok':
        raise RuntimeError(r[1])


def programs(seed, rnd, tier):
    out = []
    i = 0
    for kind in sorted(KINDS):
        qs = sorted(n for n in gen.families().get('kind:' + kind, ()) if not OPS[n].slow)
        good, bad = gen.muts_of(kind, False), gen.muts_of(kind, True)
        for v in range(KINDS[kind].nv):
            for rep in range(REPS[tier] if good else max(1, REPS[tier] // 3)):
                r = gen.rng_for(seed, PROP, rnd * 100000 + i)
                i += 1
                m = gen.Maker(r)
                m.steps.append(dict(do='build', id='a', kind=kind, v=v))
                m.objs['a'] = kind
                for g in range(r.choice((1, 1, 2, 3))):
                    for _ in range(r.choice((0, 1, 2, 4))):
                        x = r.random()
                        if x < 0.45 and good:
                            st = m.mut('a', r.choice(good), prop=PROP)
                            if r.random() < 0.2:
                                st['fault'] = dict(type='mem', frac=r.random(), persist=r.random() < 0.3)
                        elif x < 0.55 and bad:
                            m.mut('a', r.choice(bad))
                        elif qs:
                            st = call(r, r.choice(qs))
                            if g == 0:
                                st.pop('prop')
                            if r.random() < 0.25:
                                st['fault'] = m.fault(OPS[st['op']])
                            m.steps.append(st)
                    m.steps.append(dict(do='save', protocol=r.choice((2, 3, 4, 5)), into=r.choice(('same', 'other')), torn=r.random() < 0.1,
                                        frac=r.random(), kind=kind, fault=dict(frac=r.random()) if r.random() < 0.1 else None))
                for _ in range(2 if qs else 0):
                    m.steps.append(call(r, r.choice(qs)))
                out.append(dict(steps=m.steps, fill=r.choice(gen.FILLS)))
    return out


def call(r, name):
    return dict(do='call', op=name, v=r.randrange(OPS[name].nv), on='a', prop=PROP)


def needed(prog):
    return gen.needed(dict(steps=[s for s in prog['steps'] if s['do'] != 'save']))


def generation(task):
    """one process: takes over from the bytes (if any), runs its steps, saves"""
    if task is None:
        return None
    data, picture, recipe, steps, save, fill, refs = task
    boot.af.set_fill(fill)
    w = world.World(refs, {PROP, 'load'})
    world.prevail(None)
    res = dict(violations=[], stats=w.stats, log=w.log)
    if data is not None:
        w.count('restarts')
        try:
            obj = pickle.loads(data)
        except Exception as e:                                      # noqa
            res['loaded'] = '%s: %s' % (type(e).__name__, e)
            return res
        d = diff(picture, canon(obj), exact=True)
        if d:
            res['violations'].append(dict(property=PROP, kind='content', step=0, where=recipe[0], what='a %s loaded by a new process differs from the one saved: %s' % (recipe[0], d)))
        w.objs['a'], w.recipes['a'] = obj, recipe
        w.log.append(('loaded', recipe[0]))
    w.run(steps)
    res['violations'] += w.violations
    res['steps'] = steps
    res['alive'] = 'a' in w.objs and 'a' not in w.tainted
    if save and res['alive']:
        obj = w.objs['a']
        if save.get('fault'):
            boot.af.arm(1 + int(save['fault']['frac'] * 6), False)
            try:
                pickle.dumps(obj, protocol=save['protocol'])
            except Exception:                                       # noqa
                w.count('fault:save failed')
            finally:
                boot.af.disarm()
        try:
            res['data'] = pickle.dumps(obj, protocol=save['protocol'])
        except Exception as e:                                      # noqa
            w.count('save refused (%s)' % recipe[0] if recipe else 'save refused')
            res['alive'] = False
            return res
        res['picture'] = canon(obj)
        res['recipe'] = w.recipes['a']
        w.count('saves')
    return res


def execute(prog):
    prog = copy.deepcopy(prog)
    gens, cur = [], []
    for s in prog['steps']:
        if s['do'] == 'save':
            gens.append((cur, s))
            cur = []
        else:
            cur.append(s)
    gens.append((cur, None))
    refs = {k: _refs[k] for k in needed(prog) if k in _refs}
    data = picture = recipe = None
    vs, stats, log, out = [], {}, [], []
    where = 'same'
    for g, (steps, save) in enumerate(gens):
        task = (data, picture, recipe, steps, save, prog.get('fill', 0) if where == 'same' else 0, refs)
        if where == 'other':
            s = socket.socket(socket.AF_UNIX)
            s.connect(_other)
            send(s, pickle.dumps(task))
            try:
                r = pickle.loads(recv(s))
            except EOFError:
                r = ('signal', 0)
            s.close()
        else:
            r = pool.run_isolated(generation, task, 100)
        if r[0] == 'harness':
            raise RuntimeError(r[1])
        if r[0] != 'ok':
            stats['a process died (discarded)'] = 1
            break
        r = r[1]
        for k, n in r['stats'].items():
            stats[k] = stats.get(k, 0) + n
        vs += r['violations']
        log += [('process', g)] + r['log']
        if 'loaded' in r:
            vs.append(dict(property=PROP, kind='load', step=g, where=recipe[0], what='a saved %s could not be loaded by a new process: %s' % (recipe[0], r['loaded'])))
            break
        out += r['steps']
        if save is None or not r['alive']:
            break
        out.append(save)
        data, picture, recipe, where = r['data'], r['picture'], r['recipe'], save['into']
        if save.get('torn'):
            # a crash in the middle of the save: a new process must find out
            cut = data[:int(len(data) * save['frac'])]
            x = pool.run_isolated(generation, (cut, picture, recipe, [], None, 0, {}), 100)
            stats['fault:torn save'] = stats.get('fault:torn save', 0) + 1
            if x[0] == 'ok' and 'loaded' not in x[1]:
                vs.append(dict(property=PROP, kind='torn', step=g, where=recipe[0], what='a %s saved in part only was loaded without an error' % recipe[0]))
    return dict(violations=vs, stats=stats, log=log, prog=dict(prog, steps=out + [s for s in prog['steps'][len(out):]]))


def shrinks(prog):
    return gen.shrinks(prog)
