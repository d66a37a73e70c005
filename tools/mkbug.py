"""mkbug.py: writes /verif/seeded/<id>/ from a spec (used by hand).
spec: dict(id, property, edits=[(file, old, new)], demo=Go test body or None, sh=extra demo.sh body, needs, breaks)"""
import json, os, subprocess, shutil
DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package at the current directory, through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= HOME=${HOME:-/root}
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
go test -overlay "$T/o.json" -vet=off -run '^TestZZDemo$' -count=1 -timeout 240s .
'''
def make(id, property, edits, needs, breaks, demo=None, sh=None, extra=None):
    W = '/tmp/mkbug.' + id
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    for f, old, new in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    subprocess.check_call(['gofmt', '-l', '.'], cwd=W)
    d = subprocess.check_output(['git', 'diff'], cwd=W, text=True)
    shutil.rmtree(W)
    D = '/verif/seeded/' + id
    os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'w').write(d)
    open(D + '/demo.sh', 'w').write(sh or DEMO)
    if demo: open(D + '/demo_test.go', 'w').write(demo)
    for n, t in (extra or {}).items(): open(D + '/' + n, 'w').write(t)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(D + '/meta.json', 'w'), indent=1)
