#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from a description in a scratch copy of /repo.

Usage: mkbug.py FILE [ids...]   where FILE defines a list BUGS of dicts
  id, property, edits: [(path, old, new), ...], demo (python text), needs, breaks
"""
import json, os, shutil, subprocess, sys, runpy
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
for b in bugs:
    if only and b['id'] not in only:
        continue
    d = os.environ.get('V', '/verif') + '/seeded/' + b['id']
    w = '/tmp/mk/' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a commit -qm a' % (w, w), shell=True)
    for path, old, new in b['edits']:
        t = open(os.path.join(w, path)).read()
        if t.count(old) < 1 or (t.count(old) > 1 and not b.get('all')):
            sys.exit('%s: %d matches in %s of %r' % (b['id'], t.count(old), path, old))
        open(os.path.join(w, path), 'w').write(t.replace(old, new))
    patch = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Run in the repository after its build: 0 if the property holds, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export PYTHONPATH="$PWD/_build/lib:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 SCRATCH="$scratch"
%scd "$scratch"
timeout 250 /usr/bin/python3 "$here/demo.py"
''' % b.get('env', ''))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    for name, text in b.get('files', {}).items():
        open(d + '/' + name, 'w').write(text)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    # at least one removed line must be of the original repository
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
    orig = False
    cur = None
    for line in patch.splitlines():
        if line.startswith('--- a/'):
            cur = line[6:]
            src = subprocess.run(['git', '-C', '/repo', 'show', 'd8ac1a8:' + cur], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:] in src:
            orig = True
    print(b['id'], 'ok' if orig else 'NO ORIGINAL LINE CHANGED')
    shutil.rmtree(w)
