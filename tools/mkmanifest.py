#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in rv/props."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'W03': 'fault injection (death at every executed line, OS-call failures, size limits) with a file-content oracle',
 'N12': 'allocation and step counters on a live connection, growth oracle',
 'N': 'runtime monitoring of a live node under fault-injecting sockets and a virtual clock, history checkers',
 'P': 'differential runtime monitor against an independent wire codec, step counting',
 'E': 'differential runtime monitor against an independent EC/number model, small groups completely',
 'C': 'the monitors of the other properties run in an optimised interpreter (python -O)',
 'U': 'runtime monitor against independent models, thread-history conservation checkers',
 'A': 'differential runtime monitor against an independent AES model over random call histories',
 'W': 'runtime monitor of wallet operations against an independent key/address model',
 'H': 'runtime monitor of derivations against an independent BIP32 model',
 'K': 'runtime monitor of codecs and key algebra against an independent model',
}
NOTE = {'W03': 'Every executed line of each generated save is a crash point; process death, not power loss, is simulated.'}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if not os.path.exists(os.path.join(HERE, 'rv', 'props', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'}); continue
    checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i + ' --tier thorough',
        'evidence_file': 'evidence/%s.json' % i, 'technique': TECH.get(i, TECH[i[0]]),
        'level': 'fault_enumeration' if i == 'W03' else 'exploration',
        'level_note': NOTE.get(i, 'Holds on the executions observed (counts and distinct cases in the evidence file); trusts the reference models in rv/ref, self-tested by setup.')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
