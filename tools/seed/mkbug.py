#!/usr/bin/env python3
"""mkbug.py BUG.py...: makes /verif/seeded/<id>/ from a description of a planted bug and confirms it in a scratch copy.
BUG.py defines id, prop, needs, breaks, edits=[(file, old, new)], demo (Go source of package main), and optionally pre
(shell lines of demo.sh before 'go run')."""
import json,os,subprocess,sys,shutil,tempfile
DEMO='''#!/bin/bash
# Run in the root of the repository: exits 0 if the property holds, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
repo=$PWD
cp "$here/demo.go" "$t/main.go" || exit 2
printf 'module demo\\n\\ngo 1.13\\n\\nrequire github.com/yoheimuta/go-protoparser/v4 v4.0.0\\n\\nreplace github.com/yoheimuta/go-protoparser/v4 => %s\\n' "$repo" > "$t/go.mod"
@PRE@cd "$t" && @RUN@
'''
env=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],stdout=subprocess.PIPE,text=True).stdout.splitlines():
    k,_,v=l.partition('='); env[k]=v
def sh(cmd,cwd,t=600):
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 99,'timeout'
stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if False else None
for f in sys.argv[1:]:
    b={}; exec(open(f).read(),b)
    t=tempfile.mkdtemp(prefix='seed.',dir='/tmp'); r=t+'/repo'
    try:
        sh(f'git clone -q /repo {r}','/tmp')
        base=None
        for (p,old,new) in b['edits']:
            s=open(f'{r}/{p}').read()
            n=b.get('count',1)
            if s.count(old)!=n: print(b['id'],'edit matches',s.count(old),'times:',p,repr(old[:60])); raise SystemExit(1)
            open(f'{r}/{p}','w').write(s.replace(old,new))
        rc,o=sh('gofmt -l parser lexer interpret _example protoparser.go',r)
        if o.strip(): print(b['id'],'gofmt',o)
        _,diff=sh('git diff',r)
        # original lines only
        _,names=sh('git diff -U0',r); ok=False
        for (p,_,_) in b['edits']:
            _,bl=sh(f'git diff -U0 {p} | grep "^@@" | sed "s/^@@ -\\([0-9,]*\\) .*/\\1/"',r)
            for h in bl.split():
                a,_,c=h.partition(','); c=int(c or 1)
                if c==0: continue
                _,x=sh(f'git blame -s HEAD -L {a},+{c} -- {p}',r)
                for l in x.splitlines():
                    ok|=l.startswith('^a9c9a28')
                    if not l.startswith('^a9c9a28'): print(b['id'],'own line:',l)
        if not ok: print(b['id'],'NO ORIGINAL LINE CHANGED')
        d=f"/verif/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(diff)
        open(d+'/demo.go','w').write(b['demo'].lstrip('\n'))
        open(d+'/demo.sh','w').write(DEMO.replace('@PRE@',b.get('pre','')).replace('@RUN@',b.get('run','go run .')))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        sh(f'gofmt -w {d}/demo.go',r)
        rc,o=sh('go build ./... && go build -o /dev/null ./_example/dump && go vet ./...',r)
        print(b['id'],'build',rc,o[-300:] if rc else '',end=' | ')
        rc,o=sh('go test -race -vet=off -count=1 ./... 2>&1 | grep -v "no test files"',r)
        print('tests','FAIL' if 'FAIL' in o else 'pass','\n'.join(x for x in o.splitlines() if 'FAIL' in x)[:400] if 'FAIL' in o else '',end=' | ')
        rc,o=sh(f'bash {d}/demo.sh',r,300); print('patched',rc,o[-200:].strip().replace('\n',' / '),end=' | ')
        sh('git checkout -q -- .',r)
        rc,o=sh(f'bash {d}/demo.sh',r,300); print('clean',rc,o[-200:].strip() if rc else '')
    finally: shutil.rmtree(t)
