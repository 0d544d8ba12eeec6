import json,sys
for i in sys.argv[1:]:
  d=json.load(open('/verif/evidence/%s.json'%i))
  print(i,d['tier'],'wall',round(d['wall_s'],1),'viol',d['violations'])
  for k,v in d['coverage']['parts'].items(): print('  ',k,v['evaluations'],v['distinct_nontrivial'],'CUT' if v['cut_short_by_time_budget'] else '',v['labels'])
