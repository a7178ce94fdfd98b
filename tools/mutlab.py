#!/usr/bin/env python3
# mutlab.py FILE.py [filter]   tries hand-written mutants against the checks in
# scratch copies under /tmp/lab (nothing in /repo or /verif changes).
# FILE.py defines M=[(id, "C01,C02", [(file, old, new), ...]), ...]
import sys,os,subprocess,shutil,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=os.environ.get('LAB','/tmp/lab/m%d'%os.getpid())
BUD=os.environ.get('BUDGET','20s')
def sh(c,cwd=None,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode(errors='replace')
ns={}; exec(open(sys.argv[1]).read(),ns)
flt=sys.argv[2] if len(sys.argv)>2 else ''
os.makedirs(L,exist_ok=True)
sh(f'mkdir -p {L}/verif && rsync -a --delete --exclude .git --exclude replays {V}/ {L}/verif/ 2>/dev/null || (rm -rf {L}/verif; cp -a {V} {L}/verif)')
for mid,props,edits in ns['M']:
    if flt and not re.search(flt,mid): continue
    sh(f'rm -rf {L}/repo; cp -a /repo {L}/repo')
    bad=False
    for f,old,new in edits:
        p=f'{L}/repo/{f}'; s=open(p).read()
        if s.count(old)<1: print(mid,'NO MATCH',f,old[:60]); bad=True; break
        open(p,'w').write(s.replace(old,new,1))
    if bad: continue
    rc,out=sh('/opt/veriftools/go1.23.12/bin/go build ./... 2>&1' if False else 'go build ./...',cwd=f'{L}/repo',env={'GOFLAGS':'-mod=mod','GOPROXY':'off'})
    if rc: print(mid,'DOES NOT BUILD',out[:300]); continue
    tests=''
    if os.environ.get('TESTS'):
        rc,out=sh('go test ./... 2>&1 | grep -E "^(---|FAIL)" | head -5',cwd=f'{L}/repo',env={'GOFLAGS':'-mod=mod','GOPROXY':'off'})
        tests='TESTS FAIL '+out.strip()[:200] if out.strip() else 'tests pass'
    rc,out=sh('./build.sh',cwd=f'{L}/verif',env={'VREPO':f'{L}/repo'})
    if rc: print(mid,'HARNESS BUILD',out[-500:]); continue
    for p in props.split(','):
        rc,out=sh(f'.build/bin/harness check -budget {BUD} {p} quick',cwd=f'{L}/verif',env={'VERIF_DIR':f'{L}/verif'})
        line=[l for l in out.splitlines() if 'violates' in l or 'held' in l]
        print(f'{mid:28} {p} rc={rc} {tests} {(line or [out[-200:]])[0][:230]}',flush=True)
sh(f'rm -rf {L}')
