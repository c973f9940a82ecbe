#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from /verif/tools/seeds/<id>.py.

Each definition sets: property, edits=[(file, old, new)], pkg (directory of the
in-package demo test), demo (go test source), needs, breaks.
A seed is written only if, in a scratch worktree, it builds, passes the stable
tests, its demo passes without and fails with the change.
usage: mkseeds.py [id ...]
"""
import sys, os, subprocess, json, glob, shutil, tempfile
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOPATH='/root/go', GOCACHE='/root/.cache/go-build')
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 iff the demonstration passes
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cat > "$T/o.json" <<E
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$D/demo_test.go"}}
E
timeout 240 go test -vet=off -overlay "$T/o.json" -run '^TestDemo$' -count=1 ./%(pkg)s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def tests(w):
    r = subprocess.run('go test -json -vet=off -count=1 -timeout 10m ./...', shell=True, cwd=w, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    ok = 0; bad = []
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Test'):
            if e['Action'] == 'pass': ok += 1
            if e['Action'] == 'fail': bad.append(e['Test'])
    return ok, bad
def main():
    ids = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob('/verif/tools/seeds/*.py'))
    base_ok = None
    for i in ids:
        d = {}
        exec(open(f'/verif/tools/seeds/{i}.py').read(), d)
        w = f'/tmp/wt/seed_{i}'
        subprocess.run(f'git -C /repo worktree remove --force {w}', shell=True, stderr=subprocess.DEVNULL)
        subprocess.run(f'git -C /repo worktree add -q --detach {w} HEAD', shell=True, check=True)
        try:
            out = f'/verif/seeded/{i}'
            tmp = tempfile.mkdtemp()
            open(f'{tmp}/demo.sh', 'w').write(DEMO % d); os.chmod(f'{tmp}/demo.sh', 0o755)
            open(f'{tmp}/demo_test.go', 'w').write(d['demo'].lstrip())
            for extra, txt in d.get('files', {}).items(): open(f'{tmp}/{extra}', 'w').write(txt)
            r0 = sh(f'{tmp}/demo.sh', w)
            if r0.returncode != 0: print(i, 'DEMO FAILS ON CLEAN', r0.stdout[-1500:]); continue
            if base_ok is None: base_ok = tests(w)[0]
            for f, old, new in d['edits']:
                s = open(f'{w}/{f}').read()
                if s.count(old) != 1: print(i, 'EDIT MATCHES', s.count(old), f, repr(old)); raise SystemExit(1)
                open(f'{w}/{f}', 'w').write(s.replace(old, new))
            b = sh('go build ./... && go vet ./internal/... ./pkg/... 2>&1 | head -5', w)
            if b.stdout.strip(): print(i, 'BUILD', b.stdout[-800:])
            ok, bad = tests(w)
            if bad or ok < base_ok: print(i, 'TESTS FAIL', bad[:5], ok, base_ok); continue
            r1 = sh(f'{tmp}/demo.sh', w)
            if r1.returncode == 0: print(i, 'DEMO DOES NOT FAIL'); continue
            p = sh('git diff', w).stdout
            os.makedirs(out, exist_ok=True)
            open(f'{out}/patch.diff', 'w').write(p)
            for f in os.listdir(tmp): shutil.copy(f'{tmp}/{f}', f'{out}/{f}')
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
            print(i, 'ok', d['property'], [l for l in r1.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:1])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            subprocess.run(f'git -C /repo worktree remove --force {w}', shell=True)
main()
