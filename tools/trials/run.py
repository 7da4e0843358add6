#!/usr/bin/env python3
"""Development driver: build planted bugs and behaviour-preserving edits from
the tables in seeds.py / refactors.py, confirm them in scratch copies of /repo
and run the checks against them.
  run.py seeds  [filter]   confirm seeds and write /verif/seeded/<id>
  run.py check  [filter]   run each seed's property check on its patched copy
  run.py refac  [filter]   run checks on each refactoring
"""
import sys, os, subprocess, shutil, json, tempfile, concurrent.futures as cf
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
REPO='/repo'; V='/verif'
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off')
DEMO='''#!/bin/bash
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
printf '{"Replace": {"%s/utils/zz_demo_test.go": "%s/demo.go.txt"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -run "^TestDemo$" -overlay "$t/o.json" ./utils
rc=$?
rm -f "$t/o.json"; rmdir "$t"
exit $rc
'''
def sh(c,cwd=None,t=300):
    try: return subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode=124; stdout='TIMEOUT'
        return R
BASE=set()
try:
    b=json.load(open('/opt/vp/BASELINE.json'))
    def walk(x):
        if isinstance(x,str): BASE.add(x)
        elif isinstance(x,list): [walk(y) for y in x]
    walk(b.get('stable') or b.get('tests') or b)
except Exception as e: pass
def scratch(name,edits):
    d=f'/tmp/scr/{name}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/scr',exist_ok=True)
    subprocess.run(['cp','-a',REPO,d],check=True)
    for f,a,b in edits:
        p=f'{d}/{f}'; s=open(p).read()
        if s.count(a)!=1: shutil.rmtree(d); raise SystemExit(f'{name}: {f}: pattern occurs {s.count(a)} times')
        open(p,'w').write(s.replace(a,b))
    return d
def tests(d):
    r=sh('go build ./... && go test -vet=off -count=1 ./...',d)
    return r
def seed(s):
    n=s['id']; d=scratch('s_'+n,s['edits'])
    try:
        r=tests(d)
        if r.returncode: return f'{n}: BUILD/TESTS FAIL\n'+r.stdout[-1500:]
        patch=sh('git diff',d).stdout
        o=f'{V}/seeded/{n}'; os.makedirs(o,exist_ok=True)
        open(o+'/patch.diff','w').write(patch)
        open(o+'/demo.go.txt','w').write(s['demo'])
        open(o+'/demo.sh','w').write(DEMO); os.chmod(o+'/demo.sh',0o755)
        json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(o+'/meta.json','w'),indent=1)
        a=sh(f'bash {o}/demo.sh',d); b=sh(f'bash {o}/demo.sh',REPO)
        if a.returncode==0 or b.returncode: 
            shutil.rmtree(o)
            return f'{n}: DEMO patched={a.returncode} clean={b.returncode}\n'+a.stdout[-800:]+b.stdout[-800:]
        return f'{n}: ok'
    finally: shutil.rmtree(d,ignore_errors=True)
def runcheck(d,p,tag):
    ev=f'/tmp/scr/ev_{tag}_{p}'; os.makedirs(ev,exist_ok=True)
    if os.path.exists(V+'/KNOWN_FINDINGS'): shutil.copy(V+'/KNOWN_FINDINGS',ev)
    r=sh(f'ulimit -v 16000000; exec timeout 880 {AN} -check {p} -verif {ev} -spec {V}/spec -repo {d}',t=900)
    shutil.rmtree(ev,ignore_errors=True)
    return r
AN=os.environ.get('AN','/tmp/an')
CLAIMS=open(V+'/tools/claims.txt').read().split()
def check(s):
    n=s['id']; d=scratch('c_'+n,s['edits'])
    try:
        r=runcheck(d,s['property'],n)
        return f'{n} [{s["property"]}]: '+('CAUGHT' if r.returncode==1 and 'VIOLATION property='+s['property'] in r.stdout else f'MISSED rc={r.returncode}')+'  '+r.stdout[-3000:].strip().split('\n')[0][:160] + (' | '+[x for x in r.stdout.split('\n') if 'REPORT' in x or 'UNDEC' in x or 'UNREACH' in x or 'ounded' in x][:1][0][:220] if r.returncode==1 and any(('REPORT' in x or 'UNDEC' in x or 'UNREACH' in x) for x in r.stdout.split('\n')) else '')
    finally: shutil.rmtree(d,ignore_errors=True)
def affected(d):
    import re
    names=set()
    files=sh('git diff --name-only',d).stdout.split()
    for l in sh('git diff -U8',d).stdout.split('\n'):
        for m in re.finditer(r'func (?:\([^)]*\) )?(\w+)\(',l): names.add(m.group(1))
    out=[]
    for c in CLAIMS:
        try: ev=json.load(open('/tmp/evref/evidence/%s.json'%c))
        except Exception: out.append(c); continue
        fs={f.split('.')[-1].split('$')[0] for f in ev['coverage']['functions_analysed']}
        if fs&names: out.append(c)
    return out
def refac(s):
    n=s['id']; d=scratch('r_'+n,s['edits'])
    out=[]
    try:
        r=tests(d)
        if r.returncode: return f'{n}: BUILD/TESTS FAIL\n'+r.stdout[-1500:]
        for p in (affected(d) if os.environ.get('ALL') else [q for q in s['properties'] if q in CLAIMS]):
            r=runcheck(d,p,n)
            if r.returncode: out.append(f'   {p} rc={r.returncode}: '+'\n      '.join(x[:300] for x in r.stdout.strip().split('\n')[:6]))
        return f'{n}: '+('quiet' if not out else 'ALARM\n'+'\n'.join(out))
    finally: shutil.rmtree(d,ignore_errors=True)
mode=sys.argv[1]; flt=sys.argv[2] if len(sys.argv)>2 else ''
if mode in('seeds','check'):
    from seeds import SEEDS as L; f=seed if mode=='seeds' else check
else:
    from refactors import REFS as L; f=refac
if flt.startswith('@'):
    ids=[s['id'] for s in L]; L=L[ids.index(flt[1:]):]; flt=''
L=[s for s in L if any(x in s['id'] or x in s.get('property','') for x in flt.split(','))]
with cf.ThreadPoolExecutor(int(os.environ.get('JOBS','4'))) as ex:
    for o in ex.map(f,L): print(o,flush=True)
