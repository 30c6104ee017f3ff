import json,os,sys,collections
p='/verif/evidence/replay/%s.json'%sys.argv[1]
c=collections.Counter()
for x in json.load(open(p)):
    e=x['event']
    print(x['clauses'], e['ev'], {k:v for k,v in e.items() if len(str(v))<200})
