# mkseeds.py FILE.py OUTDIR [filter]: generates and validates seeded/<id>
import sys,os,subprocess,shutil,json,re
ns={}; exec(open(sys.argv[1]).read(),ns); out=os.path.abspath(sys.argv[2]); flt=sys.argv[3] if len(sys.argv)>3 else ''
ENV=dict(os.environ,PATH='/opt/veriftools/go1.23.12/bin:'+os.environ['PATH'],GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GO111MODULE='on',HOME='/root')
def sh(c,cwd,t=900):
    p=subprocess.run(c,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return p.returncode,p.stdout.decode(errors='replace')
DEMO='''#!/bin/bash
# Runs the demonstration in demo_test.go inside package PKG of /repo (cwd).
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.23.12/bin/go ] && export PATH="/opt/veriftools/go1.23.12/bin:$PATH"
export GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off GOFLAGS=-mod=mod
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "$repo/PKG/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 250 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestDemo$' ./PKG
'''
for sid,(prop,needs,breaks,edits,pkg,demo) in ns['S'].items():
    if flt and not re.search(flt,sid): continue
    L='/tmp/lab/seed'; shutil.rmtree(L,ignore_errors=True); os.makedirs('/tmp/lab',exist_ok=True)
    sh(f'cp -a /repo {L}','/')
    d=f'{out}/{sid}'; os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(DEMO.replace('PKG',pkg)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    rc,o=sh(f'{d}/demo.sh',L)
    clean='demo clean OK' if rc==0 else 'DEMO FAILS ON CLEAN '+o[-400:]
    bad=None
    for f,old,new in edits:
        p=f'{L}/{f}'; s=open(p).read()
        if s.count(old)!=1: bad=f'MATCHES {s.count(old)} {f} {old[:50]}'; break
        open(p,'w').write(s.replace(old,new))
    if bad: print(sid,bad); continue
    rc,o=sh('gofmt -l $(git diff --name-only)',L)
    if o.strip(): print(sid,'gofmt',o)
    rc,diff=sh('git diff',L); open(d+'/patch.diff','w').write(diff)
    # removed lines must be original
    rc,files=sh('git diff --name-only',L); mine=[]
    for f in files.split():
        rc,bl=sh(f'git blame -s HEAD -- {f}',L)
        bl=bl.splitlines()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',sh(f'git diff -U0 -- {f}',L)[1],re.M):
            a=int(m[1]); n=int(m[2] or 1)
            for i in range(a,a+n):
                if not bl[i-1].startswith(('^','0e9e113')): mine.append((f,i))
    rc,o=sh('go build ./...',L)
    if rc: print(sid,'BUILD',o[:400]); continue
    rc,o=sh(f'{d}/demo.sh',L)
    patched='demo patched FAILS(ok): '+' '.join(l.strip() for l in o.splitlines() if 'zz_demo' in l or 'panic' in l)[:120] if rc else 'DEMO PASSES ON PATCHED'
    rc,o=sh('go test -vet=off -count=1 -p 1 ./... 2>&1 | grep -E "^(---|FAIL|panic)" | head -5',L)
    tests='TESTS FAIL '+o[:200] if o.strip() else 'tests pass'
    print(f'{sid:26} {prop} {clean} | {patched} | {tests} | mine={mine}',flush=True)
