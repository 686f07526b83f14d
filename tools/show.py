import json,sys
d=json.load(open(sys.argv[1])); print(d['cfg'],d['deviation'])
k=int(sys.argv[2]) if len(sys.argv)>2 else 99
for i,e in enumerate(d['trace']['ev'][-k:]):
    o={k:v for k,v in e['o'].items() if k!='val'}; r=e['r']
    print(i+1,json.dumps(o),'->',r['res'],r['msg'],r['ids'],r['lev'],r['sm'],r['sb'],str(r['val'])[:70],'db',r['db'], r['frame'])
