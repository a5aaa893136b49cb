#!/usr/bin/env python3
"""Dev tool: builds seeded/<id>/ from a bug description file (tools/bugs/<id>.py) and
confirms it in a scratch copy of /repo: applies, builds, existing tests pass,
demo 0 on the clean tree and non-zero with the patch. Not used by any check."""
import sys, os, subprocess, json, shutil, tempfile, runpy
ENV = dict(os.environ, GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = '''#!/bin/bash
# run with cwd = the repository: 0 on the unchanged tree, non-zero with the patch
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:${PATH:-}"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH="${GOPATH:-/root/go}"
export GOMODCACHE="${GOMODCACHE:-$GOPATH/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/zzdemo/demo_test.go":"%%s/demo_test.go.txt"}}\\n' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -vet=off %s -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 4
cd "$tmp" && ./demo -test.timeout 200s
'''
HEAD = '''package zzdemo

import (
	"testing"
%s
)

var _ = tensor.CPU
%s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for src in sys.argv[1:]:
        b = runpy.run_path(src); bid = os.path.basename(src)[:-3]
        out = os.path.join(root, 'seeded', bid); os.makedirs(out, exist_ok=True)
        imps = ''.join('\t"%s"\n' % i for i in b.get('imports', [])) + '\t"github.com/sahandsafizadeh/qeep/tensor"\n'
        body = b['demo']
        open(out + '/demo_test.go.txt', 'w').write(HEAD % (imps.rstrip('\n'), body))
        open(out + '/demo.sh', 'w').write(DEMO % b.get('flags', '')); os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        scratch = tempfile.mkdtemp(prefix='plant.'); w = scratch + '/w'
        try:
            sh('git worktree prune; cp -a /repo %s' % w, '/')
            r = sh('bash %s/demo.sh' % out, w)
            if r.returncode != 0: print(bid, 'DEMO FAILS ON CLEAN\n', r.stdout[-3000:]); continue
            for f, old, new in b['edits']:
                p = w + '/' + f; s = open(p).read()
                if s.count(old) < 1 or (s.count(old) > 1 and not old.startswith('@')):
                    print(bid, 'EDIT does not match once', f, s.count(old), old); raise SystemExit(1)
                open(p, 'w').write(s.replace(old, new))
            sh('gofmt -w .', w)
            d = sh('git diff', w).stdout
            open(out + '/patch.diff', 'w').write(d)
            r = sh('go build ./... && go vet ./... && go test -count=1 ./...', w)
            if r.returncode != 0: print(bid, 'TESTS FAIL\n', r.stdout[-2500:]); continue
            r = sh('bash %s/demo.sh' % out, w)
            if r.returncode == 0: print(bid, 'DEMO PASSES WITH PATCH'); continue
            if r.returncode == 4: print(bid, 'DEMO BUILD', r.stdout[-2000:]); continue
            print(bid, 'OK:', [l for l in r.stdout.splitlines() if 'demo_test' in l or 'RACE' in l or 'panic' in l][:2])
        finally:
            shutil.rmtree(scratch)
main()
