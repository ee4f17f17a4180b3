#!/usr/bin/env python3
"""Self-test of the checker: mutants (one edit each) must be reported by the named property, refactorings by none.

usage: mut.py [-p PROP] [-r] [substring]   (-r: refactorings only, -m: mutants only)
Cases are in tools/mutants/*.py: lists M of (name, property, file, old, new[, count]) and R of (name, [(file, old, new), ...]).
"""
import sys, os, glob, shutil, subprocess, concurrent.futures as cf, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = None
ronly = '-r' in args
if ronly: args.remove('-r')
monly = '-m' in args
if monly: args.remove('-m')
verb = '-v' in args
if verb: args.remove('-v')
if '-p' in args:
    i = args.index('-p'); prop = args[i + 1]; del args[i:i + 2]
sub = args[0] if args else ''
M, R = [], []
for f in sorted(glob.glob(root + '/tools/mutants/*.py')):
    d = {}
    exec(open(f).read(), d)
    M += d.get('M', []); R += d.get('R', [])
base = tempfile.mkdtemp(prefix='mut')
checker = shutil.copy(root + '/bin/checker', base + '/checker')
shutil.copytree('/repo', base + '/orig', ignore=shutil.ignore_patterns('.git', 'testdata'))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')

def run(case):
    kind, name, p, edits = case
    d = tempfile.mkdtemp(dir=base); os.rmdir(d)
    shutil.copytree(base + '/orig', d, ignore=shutil.ignore_patterns('.git', 'testdata'))
    try:
        for f, old, new in edits:
            fn = os.path.join(d, f)
            s = open(fn).read()
            if old not in s: return (kind, name, p, 'NOTFOUND ' + old[:60])
            s = s.replace(old, new, 1)
            open(fn, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return (kind, name, p, 'BUILD ' + b.stderr[:300])
        o = os.path.join(d, '.out')
        c = subprocess.run([checker, '-prop', p, '-repo', d, '-out', o], env=env, capture_output=True, text=True)
        lines = [l for l in c.stdout.splitlines() if verb or not l.startswith('     ')]
        if kind == 'M':
            if c.returncode == 1: return (kind, name, p, 'caught: ' + lines[0][:170])
            return (kind, name, p, 'MISSED rc=%d' % c.returncode)
        if c.returncode == 0: return (kind, name, p, 'quiet')
        return (kind, name, p, 'ALARM\n' + '\n'.join(l for l in lines if verb or '[' in l))
    finally:
        shutil.rmtree(d, ignore_errors=True)

cases = []
for m in ([] if ronly else M):
    if (prop and m[1] != prop) or sub not in m[0]: continue
    cases.append(('M', m[0], m[1], [(m[2], m[3], m[4])] if isinstance(m[2], str) else m[2]))
for r in ([] if monly else R):
    if sub not in r[0]: continue
    cases.append(('R', r[0], prop or 'all', r[1]))
with cf.ThreadPoolExecutor(6) as ex:
    res = list(ex.map(run, cases))
shutil.rmtree(base, ignore_errors=True)
bad = 0
for k, n, p, r in res:
    ok = r.startswith('caught') or r == 'quiet'
    bad += not ok
    print(('   ' if ok else '!! ') + f'{k} {p} {n}: {r}')
print(len(res), 'cases', bad, 'bad')
