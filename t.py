import sys,time,json
sys.path.insert(0,'/verif')
from vf import build,runner
spec,fn,cfg=sys.argv[1],sys.argv[2],int(sys.argv[3])
t=time.time(); p=build.module(spec); print('build',round(time.time()-t,2))
r=runner.run(p,fn,cfg,{'log':print,'budget':float(sys.argv[4]) if len(sys.argv)>4 else 300})
for k in ('fn','cfg','obligations','discharged','paths','asserts','covers','havoc','steps','solver_s','queries','wall_s','uninit'): print(k,r[k],end='; ')
print()
print('loops',[(l[1].split('/')[-1],l[2]) for l in r['loops']],'unrolled',r['unrolled'])
for x in r['incomplete']: print('INC',x)
for f in r['failures']:
    print('FAIL',f['label'],f['where'],f['kind'],f['stack'][-6:])
    for x in f['inputs'] or []: print('    ',x[:300])
