import json,sys
for i in sys.argv[1:]:
    e=json.load(open('evidence/%s.json'%i)); print(i, e['wall_s']); 
    for k,v in e['coverage']['facets'].items(): print('  ',k,v['evaluations'],v['distinct_nontrivial'],v['labels'])
