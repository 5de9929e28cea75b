#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contracts registered in dv/registry.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from dv import registry
cs = registry.contracts()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'C21': 'the grammar is a value assembled by macros at run time, not a function with a contract; the language it accepts is a property of the interplay of about sixty matcher values and no contract within reach of the verifier states "exactly the documented language"',
 'C22': 'the contracts are partial-correctness contracts over unknown child matchers, and the code has no termination guarantee to verify: loops whose patterns match without moving forward and self-referencing Ref matchers do not terminate',
}
TECH = "contract-based deductive verification: symbolic execution of the compiler's MIR of the real functions against pre/postconditions and checked loop invariants, obligations discharged by z3"
NOTE = {}
PART = {
 'C02': ' The regex crate is an assumed contract: its leftmost match is an uninterpreted function of the pattern and the window text.',
 'C12': ' Part bounded: that the line-break pattern denotes CRLF, LF and CR is enumerated over all texts of at most 6 characters.',
 'C13': ' Claimed for standard tokens; range setters of pin tokens do not refresh their text.',
 'C16': ' The conversion of a parsed repetition is proved; that the grammar hands over the written numbers is covered by the bounded search only.',
 'C17': ' The construction from script tokens is proved for the token shapes the grammar yields (assumed, listed in the evidence); what the functions in the grammar make of their tokens is proved (dv/grammar.py), that its patterns yield the shapes is covered by the bounded search only. One known finding is listed in known_findings.txt (pattern-name).',
 'C18': ' Part bounded: that the emptiness pattern of an offset denotes white space only is enumerated over all texts of at most 5 characters.',
}
checks = []; na = []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if i not in cs: na.append({'property': i, 'reason': 'contracts for this property are not written yet'}); continue
    checks.append({
        'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'proof',
        'level_note': "Every obligation of the contracts %s is discharged for all inputs from /repo's current MIR on every run; child matchers and the standard library are assumed contracts (listed in the evidence), machine integers are mathematical within the stated windows. A seeded bounded search on the compiled crate runs beside it to supply concrete failing inputs; it is labelled bounded and never counted as proof.%s" % (', '.join(c for _, c in cs[i]), PART.get(i, ''))})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the verified text is the MIR the compiler builds from the unannotated source.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', [c['property'] for c in checks], 'not applicable', [x['property'] for x in na])
