#!/usr/bin/env python3
"""Confirm planted changes: seedrun.py [-t] [-c C01,C02] id...   (-t: also build and run the repository's tests; -c: which checks, default the seed's own; -c none)"""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
WT = os.environ.get('SEEDWT', '/tmp/seedwt'); VP = WT + '-vp'
a = sys.argv[1:]; tests = '-t' in a; checks = None
if '-c' in a: i = a.index('-c'); checks = a[i + 1]; del a[i:i + 2]
ids = [x for x in a if x != '-t'] or sorted(os.listdir(V + '/seeded'))
for s in ids:
    d = os.path.join(V, 'seeded', s); meta = json.load(open(d + '/meta.json')); w = WT
    shutil.rmtree(w, ignore_errors=True)
    sh('mkdir -p %s && git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x' % (w, w, w))
    out = [s]
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=w); out.append('demo-clean=%d' % r.returncode)
    if r.returncode: out.append(r.stderr[-500:])
    r = sh('git apply %s/patch.diff' % d, cwd=w)
    if r.returncode: print(s, 'DOES NOT APPLY', r.stderr); continue
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=w); out.append('demo-patched=%d' % r.returncode)
    if tests:
        os.makedirs(VP, exist_ok=True)
        for f in os.listdir('/opt/vp'):
            try: t = open('/opt/vp/' + f, encoding='latin-1').read()
            except OSError: continue
            open(VP + '/' + f, 'w', encoding='latin-1').write(t.replace('/opt/vp', VP).replace('/repo', w))
        r = sh('bash '+VP+'/test.sh '+VP+'/out.json'); open("/tmp/sw/test.%s.txt" % s,"w").write(r.stdout+r.stderr)
        try:
            o = json.load(open(''+VP+'/out.json')); st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            bad = st - set(o['passed']); out.append('tests=%s' % ('ok' if not bad else 'FAIL ' + ','.join(sorted(bad)[:4])))
        except Exception as e: out.append('tests=? %s %s' % (e, r.stderr[-300:]))
    for c in ([meta['property']] if checks is None else [] if checks == 'none' else checks.split(',')):
        r = sh('python3 %s/check.py %s' % (V, c), env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER=os.environ.get('VERIF_TIER', 'quick')))
        m = re.search(r'total ([\d.]+) s', r.stdout)
        k = re.findall(r'\n  \[([^\]]+)\] (\S+)', r.stdout)
        out.append('%s=%s(%ss)%s' % (c, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d' % r.returncode), m and m.group(1), k[:2]))
    print(' '.join(out), flush=True)
shutil.rmtree(WT, ignore_errors=True)
