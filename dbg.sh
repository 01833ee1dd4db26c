#!/bin/bash
# usage: dbg.sh ID ENTRY : runs one entry and prints the raw candidates (developer aid)
cd "$(dirname "$0")"; python3 - "$1" "$2" <<'P'
import sys,os,json,subprocess
sys.argv,(pid,ent)=sys.argv[:1],sys.argv[1:]
import check as K
spec=K.C.CHECKS[pid]; b=K.Build(os.environ.get('VERIF_TIER')=='thorough'); omp=bool(spec.get('omp'))
bcs=[f.result() for f in b.submit([f'{K.V}/harness/{x}' for x in [spec["harness"]]+spec.get('extra',[])]+b.sources()+[f'{K.V}/rt/runtime.cpp',f'{K.V}/stubs/image_stub.cpp'],'bc',K.BC,omp)]
out='/tmp/dbgout'; subprocess.call(['rm','-rf','/tmp/dbgout']); os.makedirs(out)
r=K.sh([b.dw.result(),'run','--out',out,'--entries',ent,'--time','300','--jobs',os.environ.get('J','8'),'--wit','4','--seed','1']+bcs); print(r.stdout[-2000:])
for n in ('cand.jsonl',):
    if os.path.exists(f'{out}/{n}'):
        for l in open(f'{out}/{n}'):
            d=json.loads(l); print(d['entry'],d['kind'],d['msg'],d['where']); print('   ',d['inputs'][0].replace('\n','; ')[:600])
s=json.load(open(out+'/summary.json')); print({k:s[k] for k in s if k not in('repo_functions','functions_executed')})
P
