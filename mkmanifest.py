#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import importlib
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
LEVELS = {}
for f in sorted(os.listdir(os.path.join(HERE, 'sim', 'props'))):
    m = re.match(r'c(\d\d)\.py$', f)
    if m:
        text = open(os.path.join(HERE, 'sim', 'props', f)).read()
        LEVELS['C' + m.group(1)] = re.search(r"^PROP, LEVEL = '\w+', '(\w+)'", text, re.M).group(1)

NOTES = dict(
    C01=('deterministic thread scheduling (seeded, one thread released at a time) against each call run alone',
         'Seeded sample of interleavings at the granularity of library source lines, calls and locks; compiled code runs without preemption inside one call.'),
    C02=('deterministic simulation of call histories with allocation and callback faults, against a pristine process',
         'Seeded sample of histories; the observed call is compared bit for bit (small rounding tolerance only where numpy itself is address dependent) with a forked pristine process.'),
    C03=('deterministic simulation with injected allocation and callback faults, argument and receiver fingerprints',
         'Every catalogue query is run fault free and with faults at a seeded sample of its allocations and callback evaluations.'),
    C04=('deterministic simulation of copy/change histories', 'Seeded sample of histories over all copyable catalogue objects.'),
    C05=('deterministic simulation with a fault at an allocation or callback of each in-place change',
         'Faults at a seeded sample of allocations (all of them in the thorough tier for small changes), then content, answers and retry compared.'),
    C06=('deterministic simulation of settings histories against a freshly built object', 'Seeded sample of histories over the listed classes.'),
    C07=('deterministic simulation with the process-wide generator as seam: histories of draws, simulations and failures',
         'Seeded sample of histories; every simulated series is compared with the same call in a pristine process.'),
    C08=('deterministic simulation with a scripted random generator; linear map of draws to series against the covariance of the model',
         'Decides the law of the series exactly for each sampled model, length and method; trusts that draws are independent standard normal.'),
    C09=('deterministic simulation with injected load failures of compiled helpers, against the full installation',
         'Subsets of helpers failing to load; results compared with those of the complete installation.'),
    C10=('deterministic simulation with injected open/read errors and short reads below the data loader',
         'LD_PRELOAD seam under the real reader; seeded sample of histories and fault points.'),
    C11=('deterministic simulation of arrival histories (chunking, gaps, faults) of on-line filters against a reference filter',
         'Seeded sample of feeds; the reference is a small executable model.'),
    C12=('deterministic simulation of fit histories with faults in optimiser callbacks and allocations, against pristine fits', 'Seeded sample of histories.'),
    C13=('deterministic simulation with allocation and callback faults; process-wide settings compared before and after each call',
         'Every catalogue call fault free and with faults at a seeded sample of its allocations and callback evaluations.'),
    C14=('deterministic simulation with memory exhausted at each allocation', 'Faults at a seeded sample of the allocations of every catalogue call.'),
    C15=('deterministic simulation with user callables failing at each evaluation', 'Faults at a seeded sample of the evaluations of every catalogue call that takes a callable.'),
    C16=('deterministic simulation of save/crash/restart: saved bytes loaded by another process', 'Seeded sample of histories before the save.'),
)
PURE = 'a pure function of its input: no scheduling, clock, I/O, randomness or fault can change whether it holds, so simulation has nothing to decide; it would need input generation against a mathematical oracle, which is another technique'


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in LEVELS:
            t, n = NOTES[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                               technique=t, level=LEVELS[i], level_note=n))
        else:
            na.append(dict(property=i, reason=PURE if i[0] == 'N' else 'check not built yet'))
    d = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             notes='No hooks were added to /repo: the seams are numpy\'s allocator interface, sys.settrace, threading.Lock, numpy.random, sys.meta_path and LD_PRELOAD.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
