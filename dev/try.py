import sys,time,json
sys.path[:0]=['/repo','/verif']; sys.dont_write_bytecode=True
from vf import drivers, tlc
f=getattr(drivers,sys.argv[1]); n=int(sys.argv[2]); base=int(sys.argv[3]) if len(sys.argv)>3 else 0
t=time.time(); ss=[]
import collections
okc=collections.Counter()
for i in range(n):
    s=f(base*100000+i,'%s-%d'%(sys.argv[1],i)); s.close(); ss.append(s.record())
    for e in s.evs: okc[(e['op'],e['res']['ok'])]+=1
ev=sum(len(s['evs']) for s in ss); print('python',time.time()-t,ev,dict(okc))
t=time.time(); bad,states=tlc.judge('HPTrace',ss); dt=time.time()-t
print('tlc',dt,'ev/s',ev/dt,'bad',len(bad), collections.Counter(tuple(b['clauses']) for b in bad), 'relevant', sum(1 for b in bad if b['relevant']))
by={s['id']:s for s in ss}
def show(b):
    s=by[b['id']]; i=b['at']
    print('=====',b['id'],'at',i,b['clauses'],'relevant',b['relevant'])
    w=b['want']
    if 'error' in w: print(w['error'][:200], '.....', w['error'][-900:])
    if not i:
        print(str(w)[:700]); return
    e=s['evs'][i-1]
    ops={k:v for k,v in e.items() if k not in ('post','cont','res','fires','hooks','warns','argsame')}
    W=int(__import__('os').environ.get('W','700'))
    print('  OP',json.dumps(ops)[:W]); print('  GOT',json.dumps({**e['res'],'kinds':e['res']['kinds'][:1]})[:400])
    m={'fires':'fires','hooks':'hooks','heap':'post','cont':'cont'}
    for c in b['clauses']:
        if c in m: print('  GOT',c,json.dumps(e[m[c]])[:W]); print('  WANT',c,str(w.get({'cont':'ch'}.get(c,c)))[:W*2])
    'ok' in w and print('  WANT ok',w.get('ok'),'kind',w.get('kind'),'v',str(w.get('v'))[:300],'tups',w.get('tups')[:200], 'warns',e['warns'],w.get('warns'))
lim=int(sys.argv[4]) if len(sys.argv)>4 else 3
seen=set()
for b in bad:
    key=(tuple(b['clauses']), b['at'] and by[b['id']]['evs'][b['at']-1]['op'], by[b['id']]['evs'][b['at']-1].get('m') if b['at'] else '')
    if key in seen and lim<50: continue
    seen.add(key); show(b)
    lim-=1
    if lim<=0: break
json.dump(ss,open('/tmp/ss.json','w'))
