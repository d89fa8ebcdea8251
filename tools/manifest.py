"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = dict(
 C01='property-based testing: random pattern trees and inputs against an independent reference matcher',
 C02='property-based testing: capture-heavy random patterns against the reference matcher',
 C03='property-based testing: quantifier bounds and modes against the reference matcher and across unroll',
 C04='property-based testing: lookaround-heavy random patterns against the reference matcher',
 C05='property-based testing: backreference-heavy random patterns against the reference matcher',
 C06='exhaustive and random enumeration of character matchers over all bytes against set semantics',
 C07='property-based testing: anchor-heavy random patterns against the reference matcher',
 C08='metamorphic and differential testing of flag sets against the reference matcher',
 C09='grammar fuzzing of the compile-time parser against an independent recursive-descent parser',
 C10='text-level fuzzing of accepted patterns and respelling, against an independent parser and matcher',
 C11='stateful property-based testing of searchers, tokenizers and ranges against a model enumeration',
 C12='property-based differential testing over iterator types with position-checking iterators and guard pages',
 C13='differential testing: constant evaluation vs run time vs model, gcc vs clang, optimisation levels',
 C14='property-based testing of result accessors and ownership against model contents, with address sanitizer',
 C15='property-based testing: random expression trees printed as API expressions, against the reference matcher and the pattern string',
 C16='property-based testing of empty-matching quantifiers with step and time limits against the reference matcher',
 C17='property-based testing of group numbering and names against the generated tree',
 C18='stateful and concurrent random interleavings of operations against the model, with thread sanitizer',
)
d = dict(version=1, setup_cmd='python3 -m vf.selftest', checks=[], not_applicable=[],
         notes='No hooks: all checks use the public headers of /repo. Commits in /repo are fix: commits, listed in KNOWN_FINDINGS.txt.')
for p, t in T.items():
    d['checks'].append(dict(property=p, quick_cmd='python3 -m vf ' + p, thorough_cmd='VERIF_TIER=thorough python3 -m vf ' + p, evidence_file='evidence/%s.json' % p, technique=t, level='exploration',
        level_note='Generated-input search against an explicit oracle: finds violations reachable by the generators within their size bounds, proves nothing beyond the cases counted in the evidence. '
                   'Trusts the reference model and parser in /verif (no code shared with the library), gcc 13 and clang 18.'))
json.dump(d, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
