#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'engine')]
import rules
NA = {
    'C27': 'latency and memory under overload are quantitative runtime properties (the queues are unbounded by design); no static rule over the source bounds them',
    'C28': 'which frames a stack trace names depends on the unwinder, the compiler and the loaded images at run time, not on this source',
    'C29': 'real-time order across threads depends on the scheduler and the clock; the source only determines the order in which the queue lock is taken (C02, C03)',
}
NOTE = ('Holds for every path the abstract interpreter follows through the analysed functions, loops closed by summaries; paths on which precision was lost '
        'are reported as undecided in the evidence, never as violations. Trusted: clang front end, extractor, interpreter, standard library model.')
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
           'evidence_file': 'evidence/%s.json' % p, 'technique': rules.RULES[p]['technique'], 'level': rules.RULES[p]['level'], 'level_note': NOTE}
          for p in props if p in rules.RULES]
na = [{'property': p, 'reason': NA.get(p, 'check under construction')} for p in props if p not in rules.RULES]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
