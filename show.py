import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']
    print(p,e['tier'],'eval',c['evaluations'],'nontrivial',c['distinct_nontrivial'],'wall',e['wall_s'],'viol',e['violations'])
    for k,v in c['facets'].items(): print('  ',k,v['evaluations'],v['distinct_nontrivial'],v['shards_cut_by_time_budget'] or '',v['labels'])
