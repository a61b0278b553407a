import sys; sys.path.insert(0,'/tmp/w')
from alt import *
R=[
('e93868d','C23','key.go',[('if !(val >= min && val <= max) {','if val < min || val > max {')]),
]
only=sys.argv[1:]
head='/tmp/w/alt/head'
build('/repo',head); build('/repo',head+'r',True)
for h,p,f,rs in R:
    if only and h not in only: continue
    if rs==[None]: continue
    tree='/tmp/w/alt/tree'; shutil.rmtree(tree,ignore_errors=True); sh(f'cp -a /repo {tree}')
    s=open(f'{tree}/{f}').read()
    bad=False
    for a,b in rs:
        if a not in s: print(h,'PATTERN',a); bad=True
        s=s.replace(a,b)
    if bad: continue
    open(f'{tree}/{f}','w').write(s)
    b='/tmp/w/alt/bin'
    rc,o=build(tree,b,p=='C29')
    if rc: print(h,'build',o[:300]); continue
    rc,o,ff=run(b,p)
    if not ff: print(h,p,'NOT CAUGHT',rc,o[-300:]); continue
    rr,oo=replay(head+('r' if p=='C29' else ''),ff)
    print(h,p,'head',rr,flush=True)
    if rr==0:
        j=json.load(open(ff)); j['error']=j['error'][:300]; os.makedirs(f'/verif/corpus/{p}',exist_ok=True); json.dump(j,open(f'/verif/corpus/{p}/{h}.json','w'),indent=1)
