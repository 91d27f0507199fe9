# Writes /verif/MANIFEST.json from plan.py.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
TECH = {
    'C01': 'ASan/UBSan/memcheck monitoring of loads of generated and damaged documents',
    'C02': 'runtime comparison of loaded structures with the generating value tree',
    'C03': 'runtime comparison of results with a reference model',
    'C04': 'allocator live map and output monitors around failing calls',
    'C05': 'enumerated allocation faults under ASan with allocator monitor',
    'C06': 'allocator monitor (live map, context, ownership) and C allocator interception',
    'C07': 'round trip monitoring of generated data',
    'C08': 'runtime comparison, aliasing and alteration monitors on copies, ASan and memcheck',
    'C09': 'runtime comparison of emitted events with an independent writer',
    'C10': 'runtime comparison with a replaying model and with written out documents',
    'C11': 'runtime comparison with a model of defaults, block ownership monitor',
    'C12': 'enumerated letters and generated names against an independent folding table, guard pages',
    'C13': 'enumerated I/O faults (fault injecting streams, full device, size limits)',
    'C14': 'ThreadSanitizer and result comparison under stress; reentrant callbacks',
    'C15': 'log recorder against model paths, differential runs over log levels',
    'C16': 'descriptor, stream and heap accounting hooks around calls',
    'C17': 'recorded callback trace against a model trace',
    'C18': 'runtime comparison with a model of NULL handling',
    'C19': 'runtime comparison with model and with documents without the ignored parts; log trace',
    'C20': 'enumerated parameter combinations and damaged schemas under ASan/UBSan',
    'C21': 'repeated runs under varied memory contents and histories, write protection, memcheck',
    'C22': 'metamorphic runs over presentations of one node tree',
    'C23': 'differential runs over file, memory and faulty streams',
    'C24': 'stress runs at large sizes with complete comparison',
    'C25': 'runtime comparison of macro schemas with written-out ones over generated C structures',
    'C26': 'runtime monitor on standard error and returned text, with enumerated result codes',
}
checks = []
for p in sorted(PLAN):
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s --tier quick' % p,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
        'technique': TECH[p],
        'level': PLAN[p]['level'],
        'level_note': 'Monitors real executions of the library built from the working tree; holds for the executions observed (see the evidence file). Trusts: ' + '; '.join(PLAN[p]['assumptions']) + '.',
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py --prepare', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the checks compile its sources with sanitizers and redirect allocation and file calls of the objects with objcopy. '
              'Findings repaired in /repo are listed in known-findings.txt; DESIGN.md describes the machinery.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
