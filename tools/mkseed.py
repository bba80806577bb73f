"""mkseed.py: writes /verif/seeded/<id>/ from a description; used by hand while planting bugs, by no check."""
import json, os, subprocess, sys, tempfile, shutil

DEMO = '''#!/bin/bash
# Runs demo_test.go as an in-package test through an overlay; fails if the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d)
trap 'rm -rf "${tmp:?}"' EXIT
export TMPDIR=$tmp
printf '{"Replace":{"%s":"%s"}}' "$PWD/PKG/zz_demo_test.go" "$here/demo_test.go" >"$tmp/overlay.json"
go test -count=1 -vet=off -timeout 120s -overlay "$tmp/overlay.json" -run 'TestSeededDemo' ./PKG
'''

def seed(id, prop, pkg, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'edit does not match once:', f, s.count(old), old[:60]); return False
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
    open(d + '/demo.sh', 'w').write(DEMO.replace('PKG', pkg))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo_test.go', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r = subprocess.call(['bash', '/verif/tools/seedtest.sh', id])
    return r == 0
