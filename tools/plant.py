#!/usr/bin/env python3
# plant.py ID: makes seeded/ID/patch.diff from edit.json-like argument on stdin, and tries it (build, tests, demo, check).
# stdin: JSON {"property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"C++ source"}
import json, os, subprocess, sys
ID = sys.argv[1]; d = f'/verif/seeded/{ID}'; R = '/repo'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh(f'git -C {R} status --porcelain').stdout.strip(), 'repo not clean'
if len(sys.argv) < 3:
    x = json.load(sys.stdin); os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in x['edits']:
            p = f'{R}/include/nwgraph/{f}'; s = open(p).read()
            n = s.count(old); assert n == 1, f'{f}: {n} matches of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
    finally: sh(f'git -C {R} checkout -- .')
    open(d + '/demo.cpp', 'w').write(x['demo'].lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nset -e\nd=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap \'rm -rf "$w"\' EXIT\n'
        'g++ -w -std=c++20 -g -O1 -include cstdint -include functional -Iinclude "$d/demo.cpp" -o "$w/demo" -ltbb -lpthread\ncd "$w" && timeout 120 ./demo\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({k: x[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
prop = json.load(open(d + '/meta.json'))['property']
demo = lambda: sh(f'bash {d}/demo.sh', cwd=R)
r = demo(); print('demo unchanged:', r.returncode, r.stderr[-1500:] if r.returncode else '')
ok = r.returncode == 0
a = sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
try:
    b = sh('bash /opt/vp/build.sh'); print('build:', b.returncode)
    sh('bash /opt/vp/test.sh /tmp/p/res.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open('/tmp/p/res.json'))['passed']); print('tests lost:', sorted(base - got)[:5])
    r = demo(); print('demo patched:', r.returncode, (r.stdout + r.stderr)[-300:])
    c = sh(f'bin/check {prop}', cwd='/verif'); print('check:', c.returncode, '\n'.join(l[:300] for l in c.stdout.splitlines() if 'VIOL' in l or 'OK' in l))
    ok &= b.returncode == 0 and base <= got and r.returncode != 0; print('COUNTS' if ok else 'DOES NOT COUNT', 'CAUGHT' if c.returncode == 1 and f'VIOLATION property={prop} ' in c.stdout else 'MISSED')
finally: sh(f'git -C {R} checkout -- .')
