#!/usr/bin/env python3
"""Mutation and refactoring self-test of the analyzer (development aid, not a check).

usage: run.py [-k substr] [-p C07,C08] [-t] [-v]
Each entry of cases/*.py: dict(name, edits=[(file, old, new)], bug=[ids that must alarm] or ok=True (must stay quiet)).
"""
import sys, os, subprocess, shutil, glob, runpy, argparse, json, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
here = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument('-k', default='')
ap.add_argument('-p', default='')
ap.add_argument('-t', action='store_true', help='also run the stable tests')
ap.add_argument('-v', action='store_true')
ap.add_argument('-j', type=int, default=6)
ap.add_argument('-o', default='', help='only bug / only ok')
a = ap.parse_args()
lc = os.environ.get('LC', '/tmp/lc')
allp = [c['property'] for c in json.load(open(os.path.join(here, '..', 'MANIFEST.json')))['checks']] if os.path.exists(os.path.join(here, '..', 'MANIFEST.json')) else []
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
cases = []
for f in sorted(glob.glob(os.path.join(here, 'cases', '*.py'))):
    cases += runpy.run_path(f)['cases']
def run(c):
    d = tempfile.mkdtemp(prefix='mut')
    out = []
    try:
        r = os.path.join(d, 'repo')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git', 'testdata') if not a.t else shutil.ignore_patterns('.git'))
        for fn, old, new in c['edits']:
            p = os.path.join(r, fn)
            s = open(p).read()
            if s.count(old) < 1:
                return c, 'BAD-EDIT ' + fn + ': ' + old[:60], True
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=r, env=env, capture_output=True, text=True, errors='replace')
        if b.returncode:
            return c, 'NO-BUILD ' + b.stderr[:400], True
        if a.t:
            b = subprocess.run(['go', 'test', './...'], cwd=r, env=env, capture_output=True, text=True, errors='replace')
            out.append('tests ' + ('ok' if b.returncode == 0 else 'FAIL'))
        want = c.get('bug', [])
        ids = [x for x in (a.p.split(',') if a.p else (want if want and not a.v else allp)) if x]
        bad = False
        if not a.p and all(f.startswith(('internal/', 'mat/', 'util/io')) or f.endswith('io.go') or 'equal' in f for f, _, _ in c['edits']):
            ids = [i for i in ids if i in want or not 'C02' <= i <= 'C08']
        for i in ids:
            q = subprocess.run([lc, 'check', i], cwd=d, env=dict(env, REPO=r, VERIF_DIR=d), capture_output=True, text=True, errors='replace')
            alarm = 'VIOLATION property=' in q.stdout
            if i in want and not alarm:
                out.append('%s MISSED' % i); bad = True
            elif i not in want and alarm:
                if c.get('ok'):
                    out.append('%s FALSE ALARM\n%s' % (i, '\n'.join(l[:600] for l in q.stdout.split('\n')[1:4]))); bad = True
                else:
                    out.append('(%s also)' % i)
            elif i in want and a.v:
                out.append('%s caught: %s' % (i, q.stdout.split('\n')[1][:300]))
            if q.returncode not in (0, 1) or (q.returncode == 1) != alarm:
                out.append('%s rc=%d %s' % (i, q.returncode, q.stderr[-300:])); bad = True
        return c, ' '.join(out), bad
    finally:
        shutil.rmtree(d)
todo = [c for c in cases if a.k in c['name'] and not (a.o == 'ok' and not c.get('ok')) and not (a.o == 'bug' and c.get('ok'))]
if a.p:
    ps = set(a.p.split(','))
    todo = [c for c in todo if c.get('ok') or ps & set(c.get('bug', []))]
nb = 0
with ThreadPoolExecutor(a.j) as ex:
    for f in as_completed([ex.submit(run, c) for c in todo]):
        c, msg, bad = f.result()
        nb += bad
        if bad or a.v:
            print(('!! ' if bad else 'ok ') + c['name'], msg, flush=True)
print(len(todo), 'cases,', nb, 'bad')
