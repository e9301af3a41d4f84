"""python3-vt -m pydv.replay FILE: runs the input recorded in a replay file against the current source of /repo"""
import json
import sys

from pydv.check import confirm, load


def value(v):
    if isinstance(v, list) and len(v) == 2 and isinstance(v[1], dict):
        return [v[0], {int(k): x for k, x in v[1].items()}]
    return v


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    print(f"property {rec['property']}, contract {rec.get('contract')}, on {rec.get('target')}")
    if 'input' not in rec:
        print(f"obligation not discharged: {rec.get('obligation')}")
        print('no failing input is known; the verifier says:')
        print(rec.get('verifier_output'))
        print('counterexample of the solver, not reproduced on the real code:', rec.get('counterexample'))
        return 1
    ct = [c for c in load(rec['property']) if c.id == rec['contract']][0]
    got = confirm(ct, {k: value(v) for k, v in rec['input'].items()})
    print('input:', json.dumps(rec['input'])[:2000])
    if not got:
        print('the contract holds for this input')
        return 0
    for o in got[0]:
        print('fails:', o)
    return 1


if __name__ == '__main__':
    sys.exit(main())
