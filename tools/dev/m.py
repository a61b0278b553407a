# m.py FILE OLD NEW PROP...  : try one replacement
import sys,subprocess,shutil,os
sys.path.insert(0,'/tmp/w'); import alt
f,old,new,*props=sys.argv[1:]
tree='/tmp/w/mtree'
if os.path.exists(tree): shutil.rmtree(tree)
subprocess.run(['cp','-a','/repo',tree],check=True)
p=f'{tree}/{f}'; s=open(p).read(); assert s.count(old)>=1,(s.count(old)); s=s.replace(old,new,1); open(p,'w').write(s)
rc,o=alt.sh('bash -c "go test ./... 2>&1 | tail -3"',cwd=tree); print('tests:',o.strip()[-200:])
rc,o=alt.build(tree,'/tmp/w/mbin'); 
if rc: print(o); sys.exit(1)
for pr in props:
    rc,o,rp=alt.run('/tmp/w/mbin',pr,'quick'); print(pr,rc,[l[:300] for l in o.splitlines() if l.startswith(pr+'/')])
