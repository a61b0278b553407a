import json,sys
for i in sys.argv[1:]:
    d=json.load(open(f'/tmp/w/vd/evidence/{i}.json'))
    for k,v in d['coverage']['checks'].items(): print(i,k,v['evaluations'],v['distinct_nontrivial'],v['excluded'],v['classes'])
