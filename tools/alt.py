#!/usr/bin/env python3
"""Dev tool: runs checks against a modified scratch copy of /repo, from a scratch copy of
/verif, so that several modifications can be tried at once.
alt.py [-t tier] [-p C01,C08] [-j N] FILE.py|PATCH...   (FILE.py: edits=[(file, old, new)...])"""
import sys, os, subprocess, tempfile, shutil, runpy, argparse, time, concurrent.futures as cf
ENV = dict(os.environ, GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
ALL = 'C01,C08,C10,C11,C16,C17,C18,C19,C20'
ap = argparse.ArgumentParser(); ap.add_argument('-t', default='quick'); ap.add_argument('-p', default=ALL)
ap.add_argument('-j', type=int, default=1); ap.add_argument('-x', default=''); ap.add_argument('-s', default='1'); ap.add_argument('files', nargs='*')
a = ap.parse_args()
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def one(f):
    name = os.path.basename(f); name = os.path.basename(os.path.dirname(os.path.abspath(f))) if name == 'patch.diff' else name
    d = tempfile.mkdtemp(prefix='alt.'); out = []
    try:
        sh('cp -a /repo %s/repo; mkdir %s/verif; cd /verif && cp -a check.sh cmd simrt go.mod go.sum known_findings.txt properties.jsonl %s/verif/' % (d, d, d), '/')
        r, v = d + '/repo', d + '/verif'
        if f != 'none':
            if f.endswith('.py'):
                b = runpy.run_path(f)
                for p, old, new in b['edits']:
                    s = open(r + '/' + p).read()
                    if s.count(old) != 1: return '%s: EDIT matches %d times in %s: %s' % (name, s.count(old), p, old)
                    open(r + '/' + p, 'w').write(s.replace(old, new))
                sh('gofmt -w .', r)
            else:
                x = sh('git apply ' + os.path.abspath(f), r)
                if x.returncode: return name + ': does not apply ' + x.stdout
            x = sh('go build ./... && go vet ./... && go test -count=1 ./...', r)
            if x.returncode: return name + ': TESTS FAIL\n' + x.stdout[-1500:]
        sh("sed -i 's#=> /repo#=> %s#' go.mod; sed -i 's#-src /repo#-src %s#' check.sh" % (r, r), v)
        os.makedirs(v + '/evidence')
        for p in a.p.split(','):
            t = time.time()
            x = sh('VERIF_SEED=%s ./check.sh %s %s -replays /tmp/rep %s' % (a.s, p, a.t, a.x), v)
            lines = x.stdout.splitlines()
            what = [l for l in lines if 'VIOLATION' in l or 'panic' in l or 'FALLBACK' in l][:2]
            tail = '' if x.returncode == 0 else ' | '.join(lines[-6:])[:700]
            out.append('%s %s rc=%d %ds %s %s' % (name, p, x.returncode, time.time() - t, what, tail))
    finally: shutil.rmtree(d)
    return '\n'.join(out)
with cf.ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, a.files): print(r, flush=True)
