import json
notes = {
 'default': 'Bounded exhaustive: every operation of every explored sequence runs on the real library compiled from /repo/include and is compared '
            'with a reference model written from the documented semantics. Assurance ends at the machine families, sequence depths and graph bounds '
            'reported in the evidence file. Trusts g++ 13 and the reference model (mc/gen.py, mc/explore.cpp).',
 'C16': 'Bounded exhaustive lock-step comparison of the same machine written in different notations; no model needed. Trusts g++ 13 and the generator.',
 'C21': 'Bounded exhaustive lock-step comparison of builds against hsm/hsm.h and hsm/gen/hsm.h; no model needed. Trusts g++ 13 and the generator.',
 'C23': 'Bounded exhaustive enumeration of programs; reference predicate against the compiler verdict (g++ 13).',
 'C28': 'Bounded exhaustive exploration of pairs of histories; dependence of the threads is decided on the actual memory accesses of the instrumented '
        'library (static storage and operator new memory; accesses inside the compiled libstdc++ are not seen). Lock-protected sharing would be reported, the library has none.',
 'C20': 'Bounded exhaustive exploration with allocation and object accounting, poisoned memory before construction, and re-runs under '
        'AddressSanitizer and UndefinedBehaviorSanitizer. Trusts the sanitizers for what they can detect.',
}
tech = {
 'default': 'explicit-state and stateless model checking of the real implementation against a reference model',
 'C16': 'explicit-state lock-step exploration of two real builds (notations)',
 'C21': 'explicit-state lock-step exploration of two real builds (headers)',
 'C23': 'exhaustive enumeration of programs against a reference predicate',
 'C20': 'explicit-state exploration of the real implementation under sanitizers and allocation accounting',
 'C28': 'dynamic partial-order reduction: every pair of histories executed on the real implementation under a controlled scheduler, dependent memory accesses of the threads detected',
 'C27': 'explicit-state exploration of the real implementation with a move at every position of a history',
 'C19': 'explicit-state exploration with a fault injected at every callback',
 'C22': 'explicit-state exploration of all interleavings of several machine instances',
}
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    checks.append(dict(property=i, quick_cmd='python3 mc/check.py ' + i, thorough_cmd='python3 mc/check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech.get(i, tech['default']), level='model_checking',
                       level_note=notes.get(i, notes['default'])))
json.dump(dict(version=1, setup_cmd='python3 mc/families.py', checks=checks, not_applicable=[],
               notes='No hooks: the checks compile the unmodified headers of /repo/include. Known findings: known_findings.txt.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
