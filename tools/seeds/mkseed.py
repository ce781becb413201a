#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from the specs in seeds.py and confirms each one in
scratch copies of /repo.  usage: mkseed.py [id-prefix ...]"""
import sys, os, subprocess, shutil, tempfile, json, concurrent.futures
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
from seeds import S
HELP = open(H + '/help.go.txt').read()
DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of the package in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$t/overlay.json"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' . > "$t/log" 2>&1
rc=$?
grep -aE 'zz_demo_test|demo_test.go|^panic|^--- |^ok|^FAIL|DATA RACE|fatal' "$t/log" | head -20
exit $rc
'''
def run(c, cwd): return subprocess.run(c, cwd=cwd, capture_output=True, text=True)
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
def one(s):
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        r = d + '/r'; subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, o, n in s['edits']:
            t = open(r + '/' + f).read()
            if t.count(o) != 1: return f"{s['id']}: {t.count(o)} matches in {f} for {o!r}"
            open(r + '/' + f, 'w').write(t.replace(o, n))
        diff = run(['git', 'diff'], r).stdout
        # lines of the original repository?
        import re
        orig = 0; f = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                f = l[6:]; mine = set()
                for h in run(['git', 'diff', '-U0', 'f59a643', 'HEAD', '--', f], '/repo').stdout.split('\n'):
                    g = re.match(r'@@ \S+ \+(\d+)(?:,(\d+))? @@', h)
                    if g: mine |= set(range(int(g[1]), int(g[1]) + int(g[2] or 1)))
            elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l)[1])
            elif l.startswith('-') and not l.startswith('---'):
                t = l[1:].strip()
                if n not in mine and t and not t.startswith('//'): orig += 1
                n += 1
            elif l.startswith(' '): n += 1
        o = V + '/seeded/' + s['id']; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write(DEMO); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo_test.go', 'w').write(HELP + '\n' + s['demo'].strip() + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        msg = '' if orig else ' NO-ORIGINAL-LINE-REMOVED'
        t = subprocess.run(['go', 'test', '-vet=off', '-count=1', './...'], cwd=r, env=ENV, capture_output=True, text=True)
        if t.returncode: return s['id'] + ': TESTFAIL ' + t.stdout[-500:] + t.stderr[-500:]
        bad = [run(['bash', o + '/demo.sh'], r) for _ in range(3)]
        run(['git', 'checkout', '-q', '--', '.'], r)
        good = [run(['bash', o + '/demo.sh'], r) for _ in range(5)]
        if any(b.returncode == 0 for b in bad): msg += ' DEMO-PASSES-WITH-PATCH'
        if any(g.returncode for g in good): msg += ' DEMO-FAILS-WITHOUT ' + '\n'.join(g.stdout for g in good)
        return s['id'] + ': ' + (msg or 'ok') + ' | ' + bad[0].stdout.strip().replace('\n', ' / ')[:200]
    finally: shutil.rmtree(d, ignore_errors=True)
sel = [s for s in S if len(sys.argv) < 2 or any(s['id'].startswith(a) for a in sys.argv[1:])]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, sel): print(r, flush=True)
