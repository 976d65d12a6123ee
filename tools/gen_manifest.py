#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(here, 'vf', 'props')) if not f.startswith('_')}
ref = ('runtime monitoring: reference-model oracles and metamorphic monitors over executions of the real code '
       'on generated and hostile inputs')
tech = {
    'M01': 'compiler sanitizers (AddressSanitizer, UndefinedBehaviorSanitizer, gfortran bounds checks) on an instrumented '
           'build, and ThreadSanitizer with an instrumented OpenMP runtime shim for the parallel loops',
    'S02': ref + '; repeated parallel runs over thread counts',
    'B01': 'runtime monitoring: model-based histories; an offline checker compares files and database with a sequential model after every operation',
    'B02': 'runtime monitoring: model-based histories; database content read back with sqlite3 is compared with a sequential model after every operation',
    'B03': 'runtime monitoring: model-based histories; conservation of all file contents is checked after every operation',
    'C06': 'runtime monitoring: snapshot monitor around every monitored public call (arguments before/after), aliasing monitor for copies',
    'C07': 'runtime monitoring: model-based histories of container operations against a list-of-frames model',
    'U03': 'runtime monitoring: differential monitor of real calls with the same numbers in differently stored arrays (order, strides, byte order, alignment, read-only, integer, single precision), result and written files observed',
    'U02': 'runtime monitoring: differential monitor of real calls: argument left out against argument given, with result, exceptions, arguments, output and files observed',
    'P03': 'runtime monitoring: histories of reader construction and queries; results compared with those of a fresh process',
}
lvl = 'Exploration: decided by oracles on the executions actually produced (counts in the evidence file); nothing is claimed about inputs outside the generated classes.'
m = dict(version=1, setup_cmd='./run --selfcheck',
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in have:
        m['checks'].append(dict(property=i, quick_cmd='./run %s --tier quick' % i,
                                thorough_cmd='./run %s --tier thorough' % i,
                                technique=tech.get(i, ref), level='exploration', level_note=lvl,
                                evidence_file='evidence/%s.json' % i))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check built yet'))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', len(m['not_applicable']), 'without')
