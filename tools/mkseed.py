#!/usr/bin/env python3
"""Makes and verifies planted bugs: python3 tools/mkseed.py [-n] [substr]   (-n: only run the checks against existing seeds)

Specs are in tools/seedspecs/*.py: S = [(id, property, [(file, old, new)...], demo test body, needs, what_it_breaks)].
"""
import sys, os, glob, json, shutil, subprocess, tempfile, concurrent.futures as cf
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
conly = '-n' in args
if conly: args.remove('-n')
sub = args[0] if args else ''
ORIG = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H'], capture_output=True, text=True).stdout.split()[0]
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
HELPER = open(root + '/tools/seedspecs/helper.go.txt').read()
DEMO = '''#!/bin/bash
# Exit 0 when the property holds on the sample, non-zero when it is broken.
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
echo '{"Replace":{"'"$PWD"'/flatjsonl/zz_demo_test.go":"'"$D"'/demo_test.go.txt"}}' > "$T/overlay.json"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run 'TestDemo$' ./flatjsonl
'''
def sh(cmd, cwd, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')
base = tempfile.mkdtemp(prefix='seed')
def copy():
    d = tempfile.mkdtemp(dir=base); os.rmdir(d)
    shutil.copytree('/repo', d)
    return d
def one(s):
    sid, prop, edits, body, needs, breaks = s
    out = root + '/seeded/' + sid
    d = copy()
    msgs = []
    try:
        for f, old, new in edits:
            fn = os.path.join(d, f)
            t = open(fn).read()
            if t.count(old) < 1: return sid, 'NOTFOUND ' + old[:60]
            open(fn, 'w').write(t.replace(old, new, 1))
        diff = sh(['git', 'diff'], d).stdout
        orig = {f: sh(['git', 'show', ORIG + ':' + f], d).stdout.splitlines() for f, _, _ in edits}
        minus = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        allorig = [x for v in orig.values() for x in v]
        notorig = [m for m in minus if m.strip() and m not in allorig]
        if not [m for m in minus if m.strip() and m in allorig]: msgs.append('NO ORIGINAL LINE CHANGED')
        if notorig: msgs.append('note: touches non-original line: ' + notorig[0].strip())
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo_test.go.txt', 'w').write(HELPER + body)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
        if not conly:
            b = sh(['go', 'build', './...'], d)
            if b.returncode: return sid, 'BUILD ' + b.stderr[:300]
            x = sh([out + '/demo.sh'], d)
            if x.returncode == 0: msgs.append('DEMO PASSES WITH PATCH')
            elif 'FAIL' not in x.stdout and 'panic' not in x.stdout + x.stderr: msgs.append('DEMO BROKEN ' + (x.stdout + x.stderr)[-400:])
            c = copy()
            x = sh([out + '/demo.sh'], c)
            if x.returncode: msgs.append('DEMO FAILS ON CLEAN ' + (x.stdout + x.stderr)[-1500:])
            shutil.rmtree(c, ignore_errors=True)
            t = sh(['go', 'test', './...'], d)
            if t.returncode: msgs.append('TESTS FAIL ' + ' '.join(l for l in t.stdout.splitlines() if '--- FAIL' in l)[:300])
        k = sh([root + '/bin/checker', '-prop', prop, '-repo', d, '-out', d + '/.out'], d)
        lines = [l for l in k.stdout.splitlines() if '[' in l and not l.startswith('     ')]
        res = 'caught: ' + lines[0][:200] if k.returncode == 1 and lines else 'MISSED rc=%d' % k.returncode
        return sid, '; '.join(msgs + [res])
    finally:
        shutil.rmtree(d, ignore_errors=True)
S = []
for f in sorted(glob.glob(root + '/tools/seedspecs/*.py')):
    d = {}
    exec(open(f).read(), d)
    S += d['S']
S = [s for s in S if sub in s[0]]
with cf.ThreadPoolExecutor(3) as ex:
    for sid, r in ex.map(one, S): print(sid, '->', r, flush=True)
shutil.rmtree(base, ignore_errors=True)
