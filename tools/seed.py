#!/usr/bin/env python3
"""seed.py SPEC.py: plant a bug in a scratch copy of /repo and keep it under /verif/seeded/<id> when it
builds, passes the stable tests, and its demo passes without and fails with the change.
SPEC.py defines id, property, pkg, edits=[(file, old, new)...], demo (Go test source), needs, breaks."""
import sys, os, json, subprocess, shutil, tempfile
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        w = tmp + '/repo'
        sh(f'cp -a /repo {w}', '/')
        d = tmp + '/demo'
        os.makedirs(d)
        open(d + '/demo_test.go', 'w').write(g['demo'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Exit 0 when the behaviour is right. Runs an in-package test laid over the working tree.
d="$(cd "$(dirname "$0")" && pwd)"
ov="$(mktemp)"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$ov"
timeout 250 go test -vet=off -overlay "$ov" -count=1 -run '^TestZZDemo' ./PKG
rc=$?
rm -f "$ov"
exit $rc
'''.replace('PKG', g['pkg']))
        os.chmod(d + '/demo.sh', 0o755)
        r = sh(f'bash {d}/demo.sh', w)
        if r.returncode != 0:
            print('demo fails on the unchanged tree\n', r.stdout, r.stderr); return 1
        for f, o, n in g['edits']:
            s = open(f'{w}/{f}').read()
            if s.count(o) < 1: print('not found', f, o); return 1
            open(f'{w}/{f}', 'w').write(s.replace(o, n, 1))
        # the change has to touch lines of the original repository
        import re
        mine = sh("git log --format=%H 32fd975..HEAD", w).stdout.split()
        for blk in re.split(r'^diff --git ', sh('git diff -U0', w).stdout, flags=re.M)[1:]:
            f = re.match(r'a/(\S+)', blk).group(1)
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', blk, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    for l in sh(f'git blame -l -s -L {a},{a+n-1} HEAD -- {f}', w).stdout.splitlines():
                        if l.split()[0].lstrip('^') in mine: print('touches a line of a fix commit:', f, l); return 1
        r = sh('gofmt -l . ; go build ./... && go vet . >/dev/null', w)
        if r.returncode != 0 : print('build', r.stdout, r.stderr); return 1
        if r.stdout.strip(): print('gofmt:', r.stdout)
        base = json.load(open('/opt/vp/BASELINE.json'))
        passed = set()
        for l in sh('go test -vet=off -count=1 -json ./...', w).stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Test') and e['Action'] == 'pass': passed.add(e['Package'] + '/' + e['Test'])
        bad = [n for n in base['stable'] if n not in passed]
        if bad: print('stable tests fail:', bad[:10]); return 1
        r = sh(f'bash {d}/demo.sh', w)
        if r.returncode == 0: print('demo passes with the change'); return 1
        print('demo with change:', [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:6])
        diff = sh('git diff', w).stdout
        out = f'/verif/seeded/{g["id"]}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.sh', 'demo_test.go'): shutil.copy(d + '/' + f, out + '/' + f)
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        print('kept', out)
        return 0
    finally:
        shutil.rmtree(tmp)
sys.exit(main(sys.argv[1]))
