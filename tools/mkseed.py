#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy and files them under /verif/seeded (exploration aid).

  mkseed.py SCRATCH spec.py...    a spec defines ID, PROP, EDITS=[(file, old, new)], MAIN, NEEDS, BREAKS
SCRATCH holds repo/ (a copy of /repo), verif/ (a copy of the harness pointing at it), build.sh and test.sh."""
import subprocess, sys, os, json, shutil
S = sys.argv[1]; R = S + '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=R, t=900):
    p = subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
def one(path):
    g = {}
    exec(open(path).read(), g)
    sid = g['ID']
    print('==', sid, g['PROP'], flush=True)
    sh('git checkout -q . && git pull -q /repo HEAD')
    for f, old, new in g['EDITS']:
        p = f'{R}/{f}'; s = open(p).read()
        if s.count(old) != 1: print('   edit matches', s.count(old), 'times in', f, ':', old[:60]); return
        open(p, 'w').write(s.replace(old, new))
    _, diff = sh('git diff')
    # every hunk must touch lines of the original
    out = f'{S}/new/{sid}'
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    demo = open(V + '/tools/seedlib/demo.sh').read()
    if g.get('NOSTD'): demo = demo.replace('gdbstub = { path = "$repo" }', 'gdbstub = { path = "$repo", default-features = false }')
    open(out + '/demo.sh', 'w').write(demo)
    if 'mod common' in g['MAIN']: shutil.copy(V + '/tools/seedlib/common.rs', out)
    open(out + '/main.rs', 'w').write(g['MAIN'].lstrip())
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    rc, o = sh(f'bash {out}/demo.sh')
    if rc == 0: print('   demo passes with the change'); return
    if rc == 3: print('   demo does not build\n', o[-1500:]); return
    print('   demo:', o.strip().replace('\n', ' ')[:300], flush=True)
    rc, o = sh(f'bash {S}/build.sh')
    if rc: print('   build fails', o[-1500:]); return
    rc, o = sh(f'bash {S}/test.sh {S}/out.json')
    r = json.load(open(f'{S}/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    b = base['stable']
    miss = [x for x in b if x not in r['passed']]
    if miss: print('   tests fail:', miss); return
    sh('git checkout -q example_no_std')
    vt = f'{S}/verif'
    sh(f'cp -a {V}/harness/hsrc/. {vt}/harness/hsrc/; cp {V}/run.sh {V}/known_findings.txt {vt}/')
    rc, o = sh(f'VERIF_SEED=1 VERIF_TIER=quick bash {vt}/run.sh {g["PROP"]}', cwd=vt)
    if rc == 1 and 'VIOLATION property=' + g['PROP'] in o: print('   CAUGHT')
    else: print('   MISSED rc', rc, o[-600:])
    sh('git checkout -q .')
    rc, o = sh(f'bash {out}/demo.sh')
    if rc: print('   demo fails without the change', o[-800:]); return
    d = f'{V}/seeded/{sid}'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(out, d)
    print('   kept', flush=True)
for p in sys.argv[2:]:
    try: one(p)
    except subprocess.TimeoutExpired: print('   timeout')
