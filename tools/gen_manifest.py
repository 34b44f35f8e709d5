#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/harness')
import registry
NA = {
 'N01': 'the binding layer is Python/nanobind glue whose headers and interpreter embedding are not available offline; it cannot be compiled to the IR the engine executes',
 'N02': 'the loading tasks are std::async threads of the C++ runtime; the engine executes one thread and encodes no schedules (tasks are run in sequence by the stub, see D05)',
 'N03': 'logging is provided by spdlog, which is not installed here; the engine runs the code against inert logging stubs, so logging configurations cannot be varied',
}
T = 'symbolic execution of the LLVM IR compiled from the current source, with every branch, memory bound and assertion decided by Z3 over all values within the bounds; counterexamples replayed natively under AddressSanitizer'
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in registry.PROPS:
        P = registry.PROPS[p]; b = P['bounds']; b = b if isinstance(b, str) else b['quick']
        checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p, 'technique': P.get('technique', T), 'level': P.get('level', 'model_checking'),
                       'level_note': ('Decided: %s. Bounds: %s. Outside: %s.' % (P['claim'], b, P['outside']))[:1500]})
    else: na.append({'property': p, 'reason': NA.get(p, 'not yet claimed: the harness for this property is not finished')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na, 'hooks': {'guard': 'none', 'enable': '', 'source_commits': []}}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed;', len(na), 'not')
