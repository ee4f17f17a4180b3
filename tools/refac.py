#!/usr/bin/env python3
"""Automatic refactorings (tools/refac) must not make any check report something.

usage: refac.py [-k KINDS] [-f FUNCS] [-r RATE] [-s SEED[-SEED]] [-p PROP] [-t] [-j N]
Each seed picks a random set of edits, builds it (-t: and runs the tests), runs the checker; for every property that is
not quiet the set is reduced to the edits that cause it.
"""
import sys, os, shutil, subprocess, tempfile, argparse, concurrent.futures as cf
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-k', default=''); ap.add_argument('-f', default=''); ap.add_argument('-r', default='0.3')
ap.add_argument('-s', default='1'); ap.add_argument('-p', default='all'); ap.add_argument('-t', action='store_true')
ap.add_argument('-j', type=int, default=4); ap.add_argument('-sites', default='')
a = ap.parse_args()
lo, _, hi = a.s.partition('-')
seeds = range(int(lo), int(hi or lo) + 1)
base = tempfile.mkdtemp(prefix='refac')
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', CGO_ENABLED='0')
checker = shutil.copy(root + '/bin/checker', base + '/checker')
shutil.copytree('/repo', base + '/orig', ignore=shutil.ignore_patterns('.git'))
subprocess.run(['go', 'build', '-o', base + '/refac', '.'], cwd=root + '/tools/refac', env=env, check=True)

def tree(extra):
    d = tempfile.mkdtemp(dir=base); os.rmdir(d)
    shutil.copytree(base + '/orig', d)
    o = subprocess.run([base + '/refac', '-repo', d] + extra, env=env, capture_output=True, text=True)
    if o.returncode: print('REFAC', o.stderr[:500])
    return d, o.stdout.splitlines()

def check(d, prop):
    c = subprocess.run([checker, '-prop', prop, '-repo', d, '-out', d + '/.out'], env=env, capture_output=True, text=True)
    return c.returncode, c.stdout + c.stderr

def bad_props(out):
    s = set()
    for l in out.splitlines():
        if l.startswith('VIOLATION property='):
            s.add(l.split('property=')[1].split()[0])
    return s

def fails(prop, sites):
    d, _ = tree(['-nocheck', '-sites', ','.join(sites)])
    try:
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return False, 'build'
        rc, out = check(d, prop)
        return rc != 0, out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def reduce(prop, sites):
    n = 2
    while len(sites) > 1:
        k = max(1, len(sites) // n)
        parts = [sites[i:i + k] for i in range(0, len(sites), k)]
        for part in parts:
            if fails(prop, part)[0]:
                sites = part; n = 2; break
        else:
            for part in parts if len(parts) > 2 else []:
                rest = [s for s in sites if s not in part]
                if fails(prop, rest)[0]:
                    sites = rest; n = max(n - 1, 2); break
            else:
                if k == 1: break
                n = min(n * 2, len(sites))
    return sites

def run(seed):
    extra = ['-kinds', a.k, '-funcs', a.f, '-seed', str(seed), '-rate', a.r]
    if a.sites: extra = ['-nocheck', '-sites', a.sites]
    d, log = tree(extra)
    res = []
    try:
        names = {l.split()[0]: l for l in log}
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return seed, len(log), ['BUILD ' + b.stderr[:500]]
        if a.t:
            b = subprocess.run(['go', 'test', './flatjsonl/...'], cwd=d, env=env, capture_output=True, text=True)
            if b.returncode: return seed, len(log), ['TEST ' + (b.stdout + b.stderr)[-600:]] + log
        rc, out = check(d, a.p)
        for p in sorted(bad_props(out)) or (['?'] if rc else []):
            if p == '?':
                res.append('rc %d: %s' % (rc, out[-400:])); continue
            if a.sites:
                res.append(out); continue
            m = reduce(p, list(names))
            ok, o = fails(p, m)
            res.append('%s ALARM from\n%s\n%s' % (p, '\n'.join('    ' + names[s] for s in m), '\n'.join('      > ' + l[:260] for l in o.splitlines()[:3] if not l.startswith('     '))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return seed, len(log), res

with cf.ThreadPoolExecutor(a.j) as ex:
    for f in cf.as_completed([ex.submit(run, s) for s in seeds]):
        s, n, r = f.result()
        print('seed', s, n, 'edits', 'quiet' if not r else '\n  ' + '\n  '.join(r), flush=True)
shutil.rmtree(base, ignore_errors=True)
