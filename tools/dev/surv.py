import json,sys,collections
start=int(sys.argv[1])
c=collections.Counter()
for i,l in enumerate(open('/tmp/w/mut.jsonl')):
    r=json.loads(l); c[r['result']]+=1
    if i<start or r['result']!='SURVIVED': continue
    if 'BlockMode' in r['old'] or 'p.debug' in r['old'] : continue
    if r['func'] in('writeToBuffer',) and r['kind'] in('return nil error',): continue
    print(r['file'][6:],r['line'],r['func'],'|',r['kind'],'|',r['old'][:90],'=>',r['new'][:90])
print(i+1,c)
