import json,sys
d=json.load(open(f'/tmp/out.{sys.argv[1]}.json'))
fns=d.pop('functions',None); 
for k,v in d.items():
    if k in('witnesses',): print(k,len(v)); continue
    if k=='forks_at':
        for a,b in sorted(v.items(),key=lambda x:-x[1])[:12]: print('  fork',b,a[:300])
        continue
    if k=='panics':
        for a,b in sorted(v.items(),key=lambda x:-x[1])[:12]: print('  panic',b,a[:300])
        continue
    if isinstance(v,list):
        print(k,len(v))
        for x in v[:6]: print('    ',str(x)[:900])
    elif isinstance(v,dict):
        print(k)
        for a,b in v.items(): print('    ',a[:200],b)
    else: print(k,v)
