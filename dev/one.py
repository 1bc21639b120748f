import sys,json
ss=json.load(open('/tmp/ss.json'))
for sid in sys.argv[1].split(','):
    s=[x for x in ss if x['id']==sid][0]; at=int(sys.argv[2]) if len(sys.argv)>2 else None
    e=s['evs'][at-1]
    def sl(x):
        if isinstance(x,dict):
            return {k:sl(v) for k,v in x.items() if v not in ([],"",False,["none"],["any"],-1,["none",""],["const",["none"]],["undef"],"none","unchanged",["float","int"],["unset"])}
        if isinstance(x,list): return [sl(y) for y in x]
        return x
    print(json.dumps(sl({k:v for k,v in e.items() if k not in('post','cont')})))
