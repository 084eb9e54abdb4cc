#!/usr/bin/env python3
# Writes MANIFEST.json from the properties that have a harness.
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
TECH = {
 'D01': 'property-based testing: round trip against a reference document tree',
 'D02': 'property-based testing: differential against a map, adversarial key families',
 'D03': 'stateful model-based testing against a map',
 'D04': 'stateful model-based testing against a vector',
 'D05': 'stateful model-based testing of a handle pool with deep-copy model',
 'D06': 'property-based testing: independent JSON writer/parser as oracle, differential mutable/immutable',
 'D07': 'mutation fuzzing of JSON text with an acceptance oracle under sanitizers (thorough: guided by coverage)',
 'D08': 'structure-aware mutation fuzzing of buffers under sanitizers with a full read-out (thorough: guided by coverage)',
 'D09': 'property-based testing: validation of generated buffers, truncations and out-of-range corruptions',
 'D10': 'metamorphic property-based testing of bytes over construction routes with a dirtying allocator',
 'D11': 'property-based testing against map update/restriction, differential mutable/immutable',
 'D12': 'stateful property-based testing of iterator walks against an index model',
 'D13': 'property-based testing: equality against structural equality of models over all type pairs',
 'D14': 'property-based testing: accessor matrix against a reference table, differential over forms',
 'D15': 'property-based testing: native value round trips over generated nested types',
 'D16': 'property-based testing: differential typed/untyped and native arithmetic',
 'D17': 'stateful model-based testing of lifetimes under AddressSanitizer with block accounting',
 'D18': 'randomised concurrent histories under ThreadSanitizer against per-thread models',
 'D19': 'stateful model-based testing of the C interface',
 'D20': 'property-based misuse testing of the C interface with error-code oracle',
 'D21': 'property-based testing: generated YAML against the generating tree, mutation fuzzing',
 'D22': 'property-based testing: differential against stepwise lookup',
 'D23': 'stateful model-based testing with a finalized-state model',
 'D24': 'fault injection at every allocation of generated operations, with before/after comparison',
 'D25': 'property-based testing over several reference counters with an instrumented counter',
 'D26': 'property-based testing: differential against the standard types',
 'D27': 'property-based testing: differential against an independent encoder/decoder of the wire format',
}
NOTE = {}
exec(open(root + '/tools/notes.py').read(), {'NOTE': NOTE})
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob(root + '/harness/p_%s.cc' % i):
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': TECH[i],
            'level': 'fault_enumeration' if i == 'D24' else 'exploration',
            'level_note': NOTE.get(i, 'Searches generated cases only; trusts the reference model in harness/model.cc, the sanitizers and the compiler.'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'Each check compiles its own harness from /repo\'s current tree (no hooks in /repo). Replay a violation with ./check.sh <id> replay <file>. See DESIGN.md.'},
  open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
