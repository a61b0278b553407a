import sys; sys.path.insert(0,'/tmp/w'); import alt
tree=sys.argv[1]
print(alt.build(tree,'/tmp/w/rbin')); print(alt.build(tree,'/tmp/w/rbinr',True))
for i in range(1,33):
    p=f'C{i:02d}'
    rc,o,rp=alt.run('/tmp/w/rbinr' if p=='C29' else '/tmp/w/rbin',p,'quick',vd='/tmp/w/refvd')
    if rc: print(p,rc,o[-600:],flush=True)
print('done')
