"""writes MANIFEST.json: one check per contracts/cNN.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = {}
NOTE = ('Every obligation of the contracts in contracts/{m}.py is generated by symbolic execution of the current source of /repo '
        '(pydv, the code that runs, read through its AST; helpers inlined or by their own contract) and discharged by z3/cvc5 for all '
        'inputs. Trusted: pydv\'s semantics of Python and its built-in models (cross-checked against CPython by concrete replay of '
        'every contract), the solvers. {x}')
EXTRA = {
    'C01': 'Division uses the lemmas of proofs/Div.lean.',
    'C03': 'Double rounding is innocuous by proofs/DoubleRounding.v; NaN bit patterns as on x86-64.',
    'C04': 'NaN bit patterns as on x86-64.',
}
BOUNDED = {
    'C10': 'one end-to-end contract with up to 3 local declarations',
    'C14': 'signatures compared end to end with up to 2 parameters and results',
    'C15': 'instantiations with at most 4 segments of each kind (sizes and contents unbounded)',
    'C17': 'histories of one trap two calls deep followed by one call',
    'C18': 'fd_readdir (listings) and poll_oneoff (one subscription)',
    'C19': 'poll_oneoff (up to 2 subscriptions)',
    'C20': 'path texts enumerated for the containment test and its stand-ins',
    'C21': 'fd_readdir (5 entries) and poll_oneoff (one subscription)',
    'C22': 'end-to-end contracts with up to 2 entries, next to the unbounded ones',
    'C23': 'end-to-end contracts with up to 2 buffers, next to the unbounded ones',
    'C24': 'Preview1.main with up to 5 descriptors, fd_readdir, poll_oneoff',
    'C25': 'fd_readdir listings and poll_oneoff with one subscription',
}
NA = {}


def main():
    checks, na = [], []
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        if os.path.exists(os.path.join(V, 'contracts', i.lower() + '.py')) and i not in NA:
            checks.append({'property': i, 'quick_cmd': f'python3-vt -m pydv.check {i} --tier quick',
                           'thorough_cmd': f'python3-vt -m pydv.check {i} --tier thorough',
                           'evidence_file': f'evidence/{i}.json',
                           'technique': 'contract-based deductive verification: symbolic execution of the real Python source against '
                                        'pre/postconditions, invariants and frame conditions, SMT-discharged',
                           'level': 'proof', 'level_note': NOTE.format(m=i.lower(), x=' '.join(filter(None, [EXTRA.get(i), BOUNDED.get(i) and
                           f'Bounded checks, not counted as proved: {BOUNDED[i]}.']))).strip()})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'contracts not yet built')})
    m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'See DESIGN.md. known_findings.json lists genuine defects: repaired (fixed) and recorded (open).'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
