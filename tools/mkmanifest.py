#!/usr/bin/env python3
# writes MANIFEST.json from checks.json and properties.jsonl
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/checks.json'))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
 'asan': ('exhaustive enumeration (stateless model checking) of the real code under a controlled environment',
          'Every choice sequence (inputs, fragmentation, environment answers, operations) within the stated alphabet and bounds is executed on the real code under AddressSanitizer and compared with an independent reference; nothing is claimed outside those bounds.'),
 'fibers': ('stateless model checking of the real threads under a controlled scheduler (bounded deviations)',
            'Every schedule of the real threads with at most the stated number of scheduling deviations and environment deviations is executed under AddressSanitizer; the queues are a model that is itself replayed against the kernel. Nothing is claimed beyond the bounds.'),
 'race': ('stateless model checking of the real threads with vector-clock race detection on every schedule',
          'Every memory access of the repository code on every explored schedule is checked with a happens-before (vector clock) analysis; schedules are bounded in deviations.'),
 'cmd': ('exhaustive enumeration of bounded contexts, templates and address placements against the real binding',
         'Every case within the bounds is executed on the real binding and library; nothing is claimed outside those bounds.'),
}
checks, na = [], []
for p in P:
    i = p['id']
    if i not in C:
        na.append({'property': i, 'reason': 'no check yet: under construction'}); continue
    c = C[i]
    t, n = TECH['cmd' if 'cmd' in c else c['parts'][0]['mode']]
    checks.append({'property': i, 'quick_cmd': 'python3 run.py %s' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                   'technique': c.get('technique', t), 'level': 'model_checking', 'level_note': c.get('note', n)})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/selfcheck.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
