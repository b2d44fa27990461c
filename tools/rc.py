import os,sys
if os.environ.get('PYTHONHASHSEED')!='0':
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable,*sys.argv])
import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.dont_write_bytecode=True
import importlib
m=importlib.import_module('contracts.'+sys.argv[1])
from contracts.base import explore
want=sys.argv[2] if len(sys.argv)>2 else ''
un=int(sys.argv[3]) if len(sys.argv)>3 else None
for c in m.CONTRACTS:
    if want not in c.name: continue
    r=explore(c,unroll=un,debug=True)
    print('==',c.name,'error:',r.error,'complete paths',r.complete,r.stats,'%.1fs'%r.seconds)
    agg={}
    for o in r.obls: agg.setdefault(o.name,{}).setdefault((o.status,o.backend),[]).append(o)
    for n,d in agg.items(): print('   ',n,{k:len(v) for k,v in d.items()})
    for o in r.obls:
        if o.status!='proved': print('  FAIL',o.name,o.status,o.path,{k:v for k,v in (o.model or {}).items() if k!='model'}); break
    print('  slow', sorted(((round(sum(o.seconds for os in d.values() for o in os),1), n) for n,d in agg.items()), reverse=True)[:5])
    for k,v in r.loops:
        print('  loop',k[1:], 'iters',v.iterated,'kept',len(v.kept), [x[:2] for x in v.kept][:4])
