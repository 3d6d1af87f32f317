#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plan
TECH = {
    'C01': 'runtime monitoring: online model-based monitor of every call, random histories',
    'C02': 'runtime monitoring: online model-based monitor of every call, random histories',
    'C03': 'runtime monitoring: online order monitor on every search, removal and bucket walk',
    'C04': 'runtime monitoring: online model-based monitor of every call, random and short exhaustive histories',
    'C05': 'runtime monitoring: comparison counters, executed basic blocks (trace-pc), shape reconstructed from lookups',
    'C06': 'runtime monitoring: online sequence and link monitor after every operation, ASan',
    'C07': 'runtime monitoring: offline comparison with a stable reference sort, exhaustive short inputs',
    'C08': 'runtime monitoring: comparison counters and executed basic blocks (trace-pc)',
    'C09': 'runtime monitoring: shadow values and addresses of the elements, ASan',
    'C10': 'runtime monitoring: block interval, alignment, ownership and content monitors, ASan',
    'C11': 'runtime monitoring: exactly-once monitor in the callbacks, deallocation in callbacks under ASan',
    'C12': 'sanitizers: ASan, UBSan, MSan in 64 and 32 bits over all the workloads',
    'C13': 'runtime monitoring: monitored heap behind the allocation functions',
    'C14': 'runtime monitoring: reported usage against the monitored heap',
    'C15': 'runtime monitoring: every result compared with independent implementations',
    'C16': 'runtime monitoring: guard pages and read-only keys, ASan on exact-size blocks',
    'C17': 'runtime monitoring: every result compared with the published function and its inverse, all 2^32 keys',
    'C18': 'runtime monitoring: every result compared with its definition, all 2^32 arguments',
    'C19': 'runtime monitoring: bucket count from the monitored heap after every operation, chain and search lengths',
    'C20': 'runtime monitoring: executed basic blocks (trace-pc) of each single operation',
    'C21': 'runtime monitoring: inner nodes against the canonical number for the key set, executed basic blocks',
    'C22': 'race detection: ThreadSanitizer (clang and gcc) and comparison with single-threaded results',
    'C23': 'runtime monitoring: signatures of recorded result traces compared between builds',
    'C24': 'runtime monitoring: shadow copy of every object compared after each call, ASan poisoned nodes',
    'C25': 'runtime monitoring: protocol monitor inside the callbacks',
    'C27': 'runtime monitoring: bytes and requests on the monitored heap against the elements and blocks in use',
    'C28': 'runtime monitoring: executed basic blocks (trace-pc) of each single operation',
    'C29': 'runtime monitoring: lowest stack address at each executed basic block (trace-pc) of each single operation',
    'C30': 'runtime monitoring: memory mapped read-only during lookups, digests of all the memory around operations with nothing to do',
    'C26': 'runtime monitoring: online model-based monitor on builds with edited parameters',
}
m = {'version': 1, 'setup_cmd': './check.py setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks are needed in /repo: the harnesses compile its sources in their own configurations, with the allocation functions overridden as the library documents. DESIGN.md tells how each property is decided.'}
for ln in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(ln)
    if p['id'] not in plan.PLAN:
        continue
    q = plan.PLAN[p['id']]
    note = 'Decided on the executions performed: ' + q['rule'].split('.')[0] + '. Trusts the models in harness/ and the compilers with their sanitizers.'
    if q.get('exhaustive'):
        note += ' Complete for ' + q['exhaustive'] + '.'
    m['checks'].append({'property': p['id'], 'quick_cmd': './check.py %s' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                        'technique': TECH[p['id']], 'level': 'exploration', 'level_note': note})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
