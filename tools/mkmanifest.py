#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C20': 'stateful property-based testing of allocator histories against a shadow map of the pool, in fresh processes',
 'C21': 'stateful property-based testing of allocator histories against a byte account of the pool, in fresh processes',
 'C22': 'stateful property-based testing against reference models on static pools, and differential against the heap',
 'C24': 'property-based testing: counted element work and memory over generated histories against stated bounds',
 'C25': 'property-based testing of each algorithm against its definition (reference implementation, laws, metamorphic relations)',
 'C27': 'property-based testing with injected allocation failures and generated misuse, each case in its own process',
 'C31': 'property-based testing of generated multi-threaded histories against reference models under a happens-before race detector (ThreadSanitizer)',
 'C33': 'property-based testing: executed branches of generated histories, counted by compiler instrumentation, against stated cost bounds',
 'C32': 'property-based testing: generated element types, comparators and histories in generated programs and builds, every result compared with a reference model made of ints',
 'C29': 'property-based testing: generated programs, each compiled in several generated build configurations, whose output must be what a reference model predicts (differential across builds)',
}
DEF = 'stateful (model-based) property-based testing: generated histories against a reference model after every step, with shrinking'
NOTE29 = ('Exploration: no violation in the generated programs and builds (counts and samples in the evidence), with the two installed compilers; '
          'the thorough tier builds more programs, each in more configurations. It does not establish absence. Trusts the model in harness/C29.py and the compilers.')
NOTE32 = ('Exploration: no violation in the generated element types, containers, histories and builds (counts and samples in the evidence); the thorough tier '
          'generates more. It does not establish absence. Trusts the table of needs and the model in harness/C32.py and harness/types.hpp, the compilers and the sanitizers.')
NOTE31 = ('Exploration: no violation in the generated multi-threaded histories (counts and samples in the evidence), in a clang ThreadSanitizer build with the '
          'library\'s assertions and in a g++ -O2 NDEBUG build; the thorough tier adds cases and seeds. It does not establish absence. '
          'Trusts the reference models in harness/, the compilers and the race detector.')
NOTE = ('Exploration: no violation in the generated histories (counts and samples in the evidence), in a clang ASan+UBSan build with the '
        'library\'s assertions and in a g++ -O2 NDEBUG build; the thorough tier adds cases, seeds and %s. It does not establish absence. '
        'Trusts the reference models in harness/, the compilers and the sanitizers.')
checks = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)['id']
    script = os.path.exists(os.path.join(ROOT, 'harness', p + '.py'))
    src = open(os.path.join(ROOT, 'harness', p + ('.py' if script else '.cpp'))).read()
    fuzz = not script and not re.search(r'^// FUZZ: no', src, re.M)
    checks.append({'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                   'technique': TECH.get(p, DEF) + ('; coverage-guided fuzzing (libFuzzer) of the same cases in the thorough tier' if fuzz else ''),
                   'level': 'exploration', 'level_note': NOTE32 if p == 'C32' else NOTE29 if script else NOTE31 if p == 'C31' else NOTE % ('libFuzzer' if fuzz else 'longer histories of the same generators')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks: the checks use the public API and template parameters (allocator, element type, comparator, block size) only.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
