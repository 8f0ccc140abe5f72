#!/usr/bin/env python3
"""usage: plant.py SPEC.py [id ...]   (SPEC defines BUGS list)"""
import sys, subprocess, json, pathlib, os, runpy, shutil
spec=runpy.run_path(sys.argv[1])['BUGS']; only=sys.argv[2:]
S=pathlib.Path('/verif/seeded')
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): sh('git -C /repo checkout -- .')
assert sh('git -C /repo status --porcelain').stdout=='' , 'dirty'
for b in spec:
    if only and b['id'] not in only: continue
    d=S/b['id']; d.mkdir(exist_ok=True)
    (d/'demo.py').write_text(b['demo'].lstrip())
    (d/'demo.sh').write_text('#!/bin/bash\n# run in /repo after the build\nset -u\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    mp=d/'meta.json'
    old=json.loads(mp.read_text()) if mp.exists() else {}
    meta=dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks'])
    if 'first' in old: meta['first']=old['first']
    mp.write_text(json.dumps(meta,indent=1)+'\n')
    try:
        r0=sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
        for f,old,new in b['edits']:
            p=pathlib.Path('/repo')/f; t=p.read_text()
            assert t.count(old)==1,(b['id'],f,t.count(old))
            p.write_text(t.replace(old,new))
        (d/'patch.diff').write_text(sh('git -C /repo diff').stdout)
        # original lines
        base={}
        t=sh('bash /opt/vp/test.sh /tmp/plant_o.json').stdout.strip().splitlines()[-1]
        r1=sh(f'cd /repo && timeout 300 bash {d}/demo.sh')
        c=sh(f'cd /verif && timeout 900 ./run.sh {b["prop"]} quick --seed 1')
        v=[l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        meta['caught']='yes' if c.returncode==1 and v else 'no'
        meta.setdefault('first',meta['caught'])
        mp.write_text(json.dumps(meta,indent=1)+'\n')
        print(f"{b['id']}: demo {r0.returncode}/{r1.returncode} tests[{t}] check rc={c.returncode} {v[:1]}",flush=True)
        if r0.returncode: print(r0.stdout[-800:],r0.stderr[-800:])
        if r1.returncode==0: print('  demo does not fail')
        if os.environ.get('V'): print(r1.stdout[-800:],r1.stderr[-800:]); print(c.stdout[-1500:])
    finally:
        clean()
