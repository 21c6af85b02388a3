#!/usr/bin/env python3
"""Regenerates /verif/seeded/<id>/ from tools/seeds/*.seed (python literal dicts):
id, property, file, old, new (or edits=[(file,old,new)...]), needs, breaks, demo (C++ source of the demonstration)."""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# runs in /repo after the build; the demonstration beside this file exits nonzero when the property is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w -Iinclude -Isrc %s "$D/demo.cpp" _build/librapidcheck.a -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
REPO = tempfile.mkdtemp() + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', REPO], check=True)
for f in sorted(glob.glob(V + '/tools/seeds/*.seed')):
    d = ast.literal_eval(open(f).read())
    sid = os.path.basename(f)[:-5]
    if len(sys.argv) > 1 and sid not in sys.argv[1:]:
        continue
    out = V + '/seeded/' + sid
    os.makedirs(out, exist_ok=True)
    edits = d.get('edits') or [(d['file'], d['old'], d['new'])]
    paths = []
    try:
        for p, a, b in edits:
            s = open(REPO + '/' + p).read()
            if s.count(a) != 1:
                print(sid, 'pattern occurs', s.count(a), 'times in', p)
            open(REPO + '/' + p, 'w').write(s.replace(a, b, 1))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(out + '/patch.diff', 'wb').write(diff)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    open(out + '/demo.sh', 'w').write(DEMO % d.get('flags', ''))
    os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.cpp', 'w').write(d['demo'])
shutil.rmtree(os.path.dirname(REPO))
