#!/usr/bin/env python3
# seedcheck.py [filter]: runs the check of each seeded change's property against
# a scratch copy with the change applied (env BUDGET, default 40s; PROPS to override)
import sys,os,subprocess,json,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); L='/tmp/lab/sc'; BUD=os.environ.get('BUDGET','40s')
def sh(c,cwd=None,env=None):
    p=subprocess.run(c,shell=True,cwd=cwd,env=dict(os.environ,**(env or {})),stdout=subprocess.PIPE,stderr=subprocess.STDOUT); return p.returncode,p.stdout.decode(errors='replace')
flt=sys.argv[1] if len(sys.argv)>1 else ''
os.makedirs(L,exist_ok=True); sh(f'rm -rf {L}/verif; mkdir -p {L}/verif; cd {V}; tar c --exclude .git --exclude replays . | tar x -C {L}/verif')
for d in sorted(glob.glob(V+'/seeded/*')):
    sid=os.path.basename(d)
    if flt and not re.search(flt,sid): continue
    props=os.environ.get('PROPS') or json.load(open(d+'/meta.json'))['property']
    sh(f'rm -rf {L}/repo; cp -a /repo {L}/repo')
    rc,o=sh(f'git apply {d}/patch.diff',f'{L}/repo')
    if rc: print(sid,'DOES NOT APPLY',o); continue
    rc,o=sh('./build.sh',f'{L}/verif',{'VREPO':f'{L}/repo'})
    if rc: print(sid,'HARNESS BUILD',o[-500:]); continue
    for p in props.split(','):
        rc,o=sh(f'.build/bin/harness check -budget {BUD} {p} quick',f'{L}/verif',{'VERIF_DIR':f'{L}/verif','VERIF_SEED':os.environ.get('VERIF_SEED','1')})
        line=[l for l in o.splitlines() if 'violates' in l or 'held' in l]
        print(f'{sid:28} {p} rc={rc} {(line or [o[-200:]])[0][:200]}',flush=True)
