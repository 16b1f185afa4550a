#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules present"""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
METHOD = {
  'C01': 'runtime monitoring: invariant monitor on every die constructed while workloads and programs run',
  'C02': 'runtime monitoring: differential oracle (exact enumeration) on observed operator results',
  'C03': 'runtime monitoring: differential oracle (exact convolution) on observed rolls',
  'C04': 'runtime monitoring: differential oracle (exact order statistics) on observed selections',
  'C05': 'runtime monitoring: recorded call traces of typed functions against joint enumeration',
  'C06': 'runtime monitoring: recorded expansion traces against multiset enumeration',
  'C07': 'runtime monitoring: differential oracle for mixtures and blank algebra',
  'C08': 'runtime monitoring: reference library run beside the observed one',
  'C09': 'runtime monitoring: reference sequence semantics beside the observed one',
  'C10': 'runtime monitoring: exact rational moments and listings as oracle',
  'C11': 'runtime monitoring: report text captured from every sink and parsed by an independent checker',
  'C12': 'runtime monitoring: statistical monitor (Bernstein bounds) over recorded draws',
  'C13': 'runtime monitoring: state-machine monitor over settings histories with behavioural probes',
  'C14': 'runtime monitoring: live-value immutability monitor and fresh-process differential with fault injection',
  'C15': 'runtime monitoring: nesting-depth trace monitor with injected faults',
  'C16': 'runtime monitoring: compiled expressions executed beside a reference AnyDice evaluator',
  'C17': 'runtime monitoring: compiled programs executed beside a reference AnyDice interpreter',
  'C18': 'runtime monitoring: accept/refuse oracle over generated, mutated and fuzzed program texts',
  'C19': 'runtime monitoring: generated-code and namespace monitor with canaries, label capture',
  'C20': 'runtime monitoring: metamorphic and reference comparison over options and names',
  'C21': 'runtime monitoring: big-integer oracle on observed large rolls',
  'C22': 'runtime monitoring: text outcomes read back and compared with enumeration; order/hash consistency monitor',
  'C23': 'runtime monitoring: descriptions of observed dice against notation rules, re-observed later',
  'C24': 'runtime monitoring: differential execution of generated code, namespace-isolation histories, audit-hook monitor over hostile code',
  'C25': 'runtime monitoring: positions read from observed refusals against an independent scanner and recognizer',
  'C26': 'runtime monitoring: audit hook, captured streams and process-state snapshots around every operation',
}
NOTE = ('Bounded exploration of the real code: seeded random and hostile workloads, every observation judged by an oracle written independently of the library (monitor/model.py and the module). '
        'Trusts the oracle, CPython and the bounds in the module\'s ASSUMPTIONS; says nothing about inputs not generated.')
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  pid = p['id']
  if os.path.exists(os.path.join(HERE, 'monitor', 'props', pid.lower() + '.py')):
    checks.append(dict(property=pid, quick_cmd=f'VERIF_TIER=quick python3 check.py {pid}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {pid}',
                       evidence_file=f'evidence/{pid}.json', technique=METHOD[pid], level='exploration', level_note=NOTE))
  else:
    na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); import monitor.core"', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the monitors wrap public entry points of the library loaded from /repo/src at run time. Known and repaired defects: known_findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
