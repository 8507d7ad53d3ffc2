#!/usr/bin/env python3
"""matrix.py OUT.json [ID...]: runs every check (at a fraction of its quick count) against every planted bug of
/verif/seeded in scratch copies and writes which check catches which. Not part of any check."""
import json,os,re,subprocess,sys,shutil,tempfile
V='/verif'; out=sys.argv[1]; ids=sys.argv[2:] or sorted(os.listdir(V+'/seeded'))
FRAC=float(os.environ.get('FRAC','0.2'))
env=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],stdout=subprocess.PIPE,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
quick={}
for f in os.listdir(V+'/harness'):
    if f.endswith('.go'):
        for m in re.finditer(r'ID: "(C\d\d)",(?: Level: "\w+",)? Quick: (\d+)',open(f'{V}/harness/{f}').read()): quick[m[1]]=int(m[2])
res=json.load(open(out)) if os.path.exists(out) else {}
def sh(c,cwd,e=env,t=1200):
    try: p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 99,'timeout'
for b in ids:
    own=json.load(open(f'{V}/seeded/{b}/meta.json'))['property']
    t=tempfile.mkdtemp(prefix='mx.',dir='/tmp'); r=t+'/repo'; h=t+'/h'; got=[]
    try:
        sh(f'git clone -q /repo {r} && git -C {r} apply {V}/seeded/{b}/patch.diff && mkdir {h} {t}/v && cp {V}/harness/*.go {V}/harness/go.sum {h}/ && cp {V}/known_findings.txt {t}/v/ && sed "s#=> /repo#=> {r}#" {V}/harness/go.mod > {h}/go.mod','/')
        rc,o=sh('go build -o h . && go build -race -o hr . && cd ../repo && go build -o ../h/dump ./_example/dump',h)
        if rc: print(b,'BUILD',o[-300:]); continue
        for c in sorted(quick):
            n=max(1,int(quick[c]*(1 if c==own else FRAC)))
            e=dict(env,VERIF_CHECKS=str(n),VERIF_DIR=t+'/v',TMPDIR=t,VERIF_DUMP=h+'/dump')
            rc,o=sh(f'./{"hr" if c=="C10" else "h"} run {c}',h,e)
            if rc==1 and 'VIOLATION' in o: got.append(c)
            elif rc: print(b,c,'rc',rc,o[-200:])
    finally: shutil.rmtree(t,ignore_errors=True)
    res[b]={'own':own,'caught':got}
    print(b,'OWN' if own in got else 'MISSED',' '.join(got),flush=True)
    json.dump(res,open(out,'w'),indent=1)
