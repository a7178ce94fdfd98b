#!/usr/bin/env python3
# refcheck.py DIFF...   runs every claimed check on scratch copies of /repo with
# a behaviour-preserving edit applied (tools/refactors/*.diff). Each has to stay
# quiet: exit 0, no VIOLATION, no nondeterminism warning.
import sys,os,subprocess,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L='/tmp/lab/rf'
BUD=os.environ.get('BUDGET','15s')
FLT=os.environ.get('PROPS','')
def sh(c,cwd=None,env=None,t=900):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(c,shell=True,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode(errors='replace')
ids=open(f'{V}/tools/claimed.txt').read().split()
sh(f'mkdir -p {L}; rm -rf {L}/verif; mkdir -p {L}/verif; cd {V} && tar cf - --exclude=.git --exclude=replays --exclude=seeded . | tar xf - -C {L}/verif')
for d in sys.argv[1:]:
    d=os.path.abspath(d)
    sh(f'rm -rf {L}/repo; cp -a /repo {L}/repo')
    rc,out=sh(f'git apply {d}',cwd=f'{L}/repo')
    if rc: print(d,'DOES NOT APPLY',out[:400]); continue
    rc,out=sh('go build ./...',cwd=f'{L}/repo',env={'GOFLAGS':'-mod=mod','GOPROXY':'off'})
    if rc: print(d,'DOES NOT BUILD',out[:400]); continue
    rc,out=sh('./build.sh',cwd=f'{L}/verif',env={'VREPO':f'{L}/repo'})
    if rc: print(d,'HARNESS BUILD',out[-800:]); continue
    for p in ids:
        if FLT and not re.search(FLT,p): continue
        rc,out=sh(f'.build/bin/harness check -budget {BUD} {p} quick',cwd=f'{L}/verif',env={'VERIF_DIR':f'{L}/verif'})
        bad=[l for l in out.splitlines() if re.search('violates|VIOLATION|warning|note: a run',l)]
        held=[l for l in out.splitlines() if 'held' in l]
        print(os.path.basename(d),p,f'rc={rc}',(bad or held or [out[-300:]])[0][:300],flush=True)
        for b in bad[1:4]: print('     ',b[:300],flush=True)
