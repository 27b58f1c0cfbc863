#!/usr/bin/env python3
"""writes MANIFEST.json from the property modules that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
NOTE = {
    'C01': 'Seeded exploration of interleavings at line and bytecode granularity of the real code, each operation compared with its own solo execution; sound for what was explored, no exhaustive claim.',
}
TECH = 'deterministic simulation: seeded {what}'
WHAT = {
    'C01': 'thread schedules over real code, solo executions as oracle',
    'C02': 'histories with callback faults and asynchronous interrupts, fresh process as oracle',
    'C03': 'operations with callback faults and interrupts, deep before/after comparison of every argument',
    'C04': 'injection of BaseExceptions at callbacks, stream calls and execution steps',
    'C05': 'fault plans and schedules, reference interpreter of filling as oracle',
    'C06': 'fault plans and schedules over union fields, reference interpreter as oracle',
    'C07': 'fault plans and schedules, individually executed parsers as oracle',
    'C08': 'fault plans, schedules and hash seeds, identity and order of factory calls',
    'C09': 'histories, schedules and interrupts on frozen records',
    'C10': 'simulated disk (short, failing, torn writes, crashes) and restarted processes with other hash seeds',
    'C11': 'simulated text streams and disk (short, failing, torn writes, crashes) and restarted processes',
    'C12': 'sequences and interleavings of complete, failing and interrupted class definitions, probe batteries',
    'C13': 'derivation trees, schedules and failed uses, reference model of selections',
    'C14': 'histories of copies and mutations with failing and interrupted copying, identity graph comparison',
    'C15': 'schedules of assignments and reads, per-field register linearizability of the recorded history',
    'C16': 'programs executed in processes with different hash seeds, transcripts compared',
    'C18': 'nesting of operations at arbitrary steps of others, solo executions as oracle',
    'C19': 'histories with failing and interrupted callbacks and streams, reference counts and censuses of live objects',
    'C20': 'failing comparisons and arithmetic of values, interrupts and thread schedules over shared validators, own comparison with the bounds as oracle',
    'C21': 'failing and interrupted conversions and thread schedules over shared coercers, reference of each documented coercer as oracle',
    'C24': 'sequences and interleavings of complete, failing and interrupted declarations sharing hints and tokens, own reading of declarations as oracle',
    'C25': 'histories and schedules of imports from failing mappings, objects, streams and pickles, construction from the combined values in a fork as oracle',
    'C26': 'histories and schedules of constructions with failing callbacks and steps, the same class without its step plus an emulation of the step as oracle',
    'C22': 'histories and schedules of assignments and comparisons with failing value comparisons, field-wise model as oracle',
    'C23': 'histories and schedules of assignments and exports with failing value comparisons, model of the filters as oracle',
    'C27': 'histories and schedules of questions to field objects and textual forms amid assignments and definitions, failing comparisons, factories and reprs; the declaration and a model of exports as oracle',
    'C17': 'schedules of backend swaps and failing spy backends, recorded history checked',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(os.path.join(V, 'dst', 'props', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'no check yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': TECH.format(what=WHAT[i]),
        'level': 'exploration',
        'level_note': NOTE.get(i, 'Seeded search over executions of the real code under the simulator; sound for every execution explored (oracle stated in DESIGN.md), no claim of exhaustiveness. Trusts the simulator, the oracle and CPython.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the interpreter (tracing, threads, fork), the callbacks, extras backends and streams the library already takes are the seams. One seed is one repeatable execution; replay files are written to /verif/replays and run with: python3 check.py <ID> --replay <file>.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
