#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/*.py and verifies each change.

usage: mkseed.py [ID ...]      (default: all)
Each seed: dict(id, prop, needs, breaks, edits=[(file, old, new)...], demo=go test body, [imports], [decls])
Verified in a scratch copy of /repo: the patch compiles, the stable tests pass, the
demo passes without it and fails with it, and it changes at least one original line.
"""
import sys, os, json, subprocess, shutil, tempfile, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2daffe6'
seeds = []
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    seeds += runpy.run_path(f)['SEEDS']
ids = [s['id'] for s in seeds]
assert len(ids) == len(set(ids)), 'duplicate ids'
want = sys.argv[1:] or ids

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_seed_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$D" >"$T/overlay.json"
timeout 250 go test @FLAGS@-overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' .
'''

def sh(cmd, cwd, timeout=400):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

def stable(repo, env):
    # same as /opt/vp/test.sh, in the scratch copy
    b = json.load(open('/opt/vp/BASELINE.json'))
    rc, out = sh('. /opt/vp/env.sh; go test -count=1 -json ./... 2>&1', repo)
    passed = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'):
            passed.add(e['Test']); passed.add(e['Package'] + '/' + e['Test']); passed.add(e['Package'] + '.' + e['Test']); passed.add(e['Package'] + '::' + e['Test'])
    miss = [x for x in b['stable'] if x not in passed]
    return miss, out

bad = 0
for s in seeds:
    if s['id'] not in want: continue
    T = tempfile.mkdtemp(prefix='seed.')
    try:
        R = T + '/repo'
        shutil.copytree('/repo', R, symlinks=True)
        sh('git checkout -q -- . && git clean -qfd', R)
        ok = True
        for f, old, new in s['edits']:
            src = open(R + '/' + f).read()
            if src.count(old) != 1:
                print(s['id'], 'EDIT: %d matches in %s for %r' % (src.count(old), f, old[:60])); ok = False; break
            open(R + '/' + f, 'w').write(src.replace(old, new))
        if not ok: bad += 1; continue
        sh('. /opt/vp/env.sh; gofmt -w *.go', R) if s.get('fmt') else None
        rc, diff = sh('git diff', R)
        # removed lines must be original ones
        orig = False
        for f, _, _ in s['edits']:
            rc, bl = sh("git diff -U0 HEAD -- %s | grep -E '^@@' | sed -E 's/^@@ -([0-9]+)(,([0-9]+))? .*/\\1 \\3/'" % f, R)
            for l in bl.split('\n'):
                p = l.split()
                if not p: continue
                a = int(p[0]); n = int(p[1]) if len(p) > 1 else 1
                for k in range(a, a + n):
                    rc, o = sh('git blame -s -L%d,%d HEAD -- %s' % (k, k, f), R)
                    if o.lstrip('^').startswith(BASE): orig = True
        if not orig: print(s['id'], 'NOT ORIGINAL LINES'); bad += 1; continue
        out = V + '/seeded/' + s['id']
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        imports = ['testing'] + s.get('imports', [])
        go = 'package jsonutils_test\n\nimport (\n' + ''.join('\t"%s"\n' % i for i in sorted(imports)) + '\n\tju "yunion.io/x/jsonutils"\n)\n\nvar _ = ju.NewDict\n\n' + s.get('decls', '').strip() + '\n\nfunc TestSeedDemo(t *testing.T) {\n' + s['demo'].strip('\n') + '\n}\n'
        open(out + '/demo_test.go', 'w').write(go)
        sh('/opt/veriftools/go1.27.3/bin/gofmt -w %s/demo_test.go' % out, '/')
        open(out + '/demo.sh', 'w').write(DEMO_SH.replace('@FLAGS@', s.get('flags', '')))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        rc, o = sh('. /opt/vp/env.sh; go build ./...', R)
        if rc: print(s['id'], 'BUILD', o[-500:]); bad += 1; continue
        miss, o = stable(R, None)
        if miss: print(s['id'], 'STABLE TESTS FAIL', miss[:5]); bad += 1; continue
        rc, o1 = sh('bash %s/demo.sh' % out, R)
        rc0, o0 = sh('bash %s/demo.sh' % out, '/repo')
        if rc == 0: print(s['id'], 'DEMO PASSES WITH PATCH'); bad += 1; continue
        if rc0 != 0: print(s['id'], 'DEMO FAILS WITHOUT PATCH', o0[-800:]); bad += 1; continue
        if 'build failed' in o1 or 'setup failed' in o1: print(s['id'], 'DEMO BUILD', o1[-800:]); bad += 1; continue
        print(s['id'], 'ok')
    finally:
        shutil.rmtree(T)
sys.exit(1 if bad else 0)
