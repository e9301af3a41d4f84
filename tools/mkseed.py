"""mkseed.py DEFS.py: writes and confirms seeded bugs.  DEFS.py holds SEEDS = [dict(id, property, file, edits, needs, breaks, demo)]"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, t=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)


def main():
    defs = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    for d in defs:
        if only and d['id'] not in only:
            continue
        w = '/tmp/seedwork'
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        out = os.path.join(V, 'seeded', d['id'])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write('from wb import *  # noqa\n' + d['demo'].strip('\n') + '\n')
        shutil.copy(os.path.join(V, 'tools', 'wb.py'), os.path.join(out, 'wb.py'))
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, f, indent=1)
            f.write('\n')
        a = sh(f'sh {out}/demo.sh', w)
        path = os.path.join(w, d.get('file', 'pywasm/core.py'))
        src = open(path).read()
        ok = True
        for old, new in d['edits']:
            if src.count(old) != 1:
                print(d['id'], 'edit matches', src.count(old), 'times:', old[:60])
                ok = False
            src = src.replace(old, new)
        if not ok:
            continue
        open(path, 'w').write(src)
        p = sh('git diff', w).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(p)
        b = sh(f'sh {out}/demo.sh', w)
        fails = []
        if not d.get('skip_tests'):
            # the stable tests
            ts = base.get('stable') or base.get('passed') or base
            cmds = [t.split('::', 1)[1] for t in (ts if isinstance(ts, list) else list(ts))]
            ps = [(c, subprocess.Popen(c, shell=True, cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                       env={**os.environ, 'PYTHONPATH': w, 'PATH': '/opt/venv/bin:' + os.environ['PATH']})) for c in cmds]
            fails = [c for c, q in ps if q.wait() != 0]
        print(d['id'], 'clean', a.returncode, 'patched', b.returncode, 'tests failing', fails, '' if a.returncode == 0 and b.returncode and not fails
              else '*** BAD ' + (a.stdout + a.stderr)[-500:] + '|' + (b.stdout + b.stderr)[-300:])
        shutil.rmtree(w, ignore_errors=True)


main()
