"""C22: the statistics file over all short histories of runs and days, and what crashstats prints."""
import _boot,itertools,struct,re,time
import world; from world import *
from emodel import *
from harness import *
DAY=86400
NODES=['1:1/10','1:1/20','1:1/30','2:1/10','1:1/10.5']
E3='AREA.WITH.COMMON.E3'   # two names that begin alike
def areas():
    return [Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),Area('E1','1:1/1',('MSG','areas/e1'),[('1:1/10',''),('1:1/20','')],group='A'),
            Area('E2','1:1/1',None,[('1:1/20',''),('1:1/30','')]),Area(E3,'1:1/1',('JAM','areas/e3'),[('1:1/10','')],group='B'),
            Area(E3+'X','1:1/1',('JAM','areas/e3x'),[('2:1/10',''),('1:1/10.5','')],group='B')]
def config(dupes='KILL',order=None,nodeorder=None,drop=()):
    a=areas(); n=[Node(x) for x in NODES]
    if order: a=[a[i] for i in order]+a[len(order):]
    if nodeorder: n=[n[i] for i in nodeorder]
    return Cfg([Aka('1:1/1')],n,[x for x in a if x.tag not in drop],dupes=('dupes',200,dupes),routes=['"1:1/*.*" "1:1/*.0" 1:1/1']).text()
def parse(data):
    """statistics file -> day, areas{tag:..}, nodes{addr:..}"""
    if data[:4]!=b'CST3': raise Violation('statistics file begins with %r'%data[:4])
    day,n=struct.unpack('<2I',data[4:12]); p=12; ar={}; no={}; orda=[]
    for i in range(n):
        r=data[p:p+136]; p+=136
        if len(r)<136: raise Violation('statistics file is short')
        tag=r[:80].split(b'\0')[0].decode(); tot=struct.unpack('<I',r[92:96])[0]; l8=struct.unpack('<8H',r[96:112]); du=struct.unpack('<I',r[112:116])[0]; ft,lt=struct.unpack('<2q',r[120:136])
        if tag in ar: raise Violation('area %s twice in the statistics file'%tag)
        ar[tag]=dict(texts=tot,days=list(l8),dupes=du,first=ft,last=lt,aka=struct.unpack('<4H',r[80:88]),group=chr(r[88]) if r[88] else None)
    n=struct.unpack('<I',data[p:p+4])[0]; p+=4
    for i in range(n):
        r=data[p:p+56]; p+=56
        if len(r)<56: raise Violation('statistics file is short')
        a='%d:%d/%d.%d'%struct.unpack('<4H',r[:8]); a=a[:-2] if a.endswith('.0') else a; v=struct.unpack('<9I',r[8:44])
        no[a]=dict(zip(('gotnet','gotnetb','sentnet','sentnetb','gotecho','gotechob','sentecho','sentechob','dupes'),v)); no[a]['first']=struct.unpack('<q',r[48:56])[0]
    if p!=len(data): raise Violation('statistics file has %d bytes, expected %d'%(len(data),p))
    return day,ar,no
def build(day,ar,no):
    """ar: list of (tag,dict) no: list of (addr tuple,dict)"""
    d=b'CST3'+struct.pack('<2I',day,len(ar))
    for t,x in ar: d+=t.encode().ljust(80,b'\0')+struct.pack('<4H',1,1,1,0)+bytes([ord(x.get('group') or '\0'),0])+b'\0\0'+struct.pack('<I',x['texts'])+struct.pack('<8H',*x['days'])+struct.pack('<I',x['dupes'])+b'\0'*4+struct.pack('<2q',x['first'],x['last'])
    d+=struct.pack('<I',len(no))
    for a,x in no: d+=struct.pack('<4H',*a)+struct.pack('<9I',*[x[k] for k in ('gotnet','gotnetb','sentnet','sentnetb','gotecho','gotechob','sentecho','sentechob','dupes')])+b'\0'*4+struct.pack('<q',x['first'])
    return d
EV=['e1','e2','e3','e0','d1','b1','n0','n1','nx','l1','l2','e4','e5','nothing','junk']
class Hist:
    def __init__(s,dupes='KILL'):
        s.dupes=dupes; s.w=World(config(dupes)); s.k=0; s.num={'e1':1,'net':1}
        for d in ('bad','net','e1'): os.mkdir(s.w.p('areas/'+d))
        z=lambda: dict(texts=0,days=[0]*8,dupes=0,first=0,last=0)
        s.A={a.tag:z() for a in areas()}; s.N={n:dict(gotnet=0,sentnet=0,gotecho=0,sentecho=0,dupes=0,first=0) for n in NODES}; s.day=None
        s.new={}; s.dup=None
    def text(s,a): s.new[a]=s.new.get(a,0)+1
    def event(s,e):
        """prepares the event; returns the kind of run"""
        s.k+=1; N=s.N; k=s.k
        me=A('1:1/1'); pk=lambda frm,m: s.w.inbound(mkpkt(A(frm),me,[m]))
        ec=lambda frm,area,k: Msg(A(frm)[1:3],(1,1),subj=b'S%d'%k,body=b'AREA:%s\r\1MSGID: %s %08x\rtext %d\r'%(area,frm.encode(),k,k)+b'SEEN-BY: 1/%s\r'%frm.split('/')[1].encode())
        nm=lambda frm,to: Msg(A(frm)[1:3],A(to)[1:3],attr=1,to=b'Somebody',subj=b'N%d'%k,body=b'\1INTL %s %s\r'%(to.encode(),frm.encode())+b'\1MSGID: %s %08x\rnetmail %d\r'%(frm.encode(),k,k))
        if e=='e1': pk('1:1/10',ec('1:1/10',b'E1',k)); s.text('E1'); N['1:1/10']['gotecho']+=1; N['1:1/20']['sentecho']+=1; s.dup=k
        elif e=='e2': pk('1:1/20',ec('1:1/20',b'E2',k)); s.text('E2'); N['1:1/20']['gotecho']+=1; N['1:1/30']['sentecho']+=1
        elif e=='e0': pk('1:1/20',Msg((1,20),(1,1),subj=b'S%d'%k,body=b'AREA:E2\r')); s.text('E2'); N['1:1/20']['gotecho']+=1; N['1:1/30']['sentecho']+=1
        elif e=='e3': pk('1:1/10',ec('1:1/10',E3.lower().encode(),k)); s.text(E3); N['1:1/10']['gotecho']+=1
        elif e in('e4','e5'):
            f,o=('2:1/10','1:1/10.5') if e=='e4' else ('1:1/10.5','2:1/10')
            pk(f,Msg((1,10),(1,1),subj=b'S%d'%k,body=b'AREA:%sX\r\1MSGID: %s %08x\rtext %d\r'%(E3.encode(),f.encode(),k,k))); s.text(E3+'X'); N[f]['gotecho']+=1; N[o]['sentecho']+=1
        elif e=='d1':
            if s.dup is None: return s.event('e1')
            pk('1:1/10',ec('1:1/10',b'E1',s.dup)); N['1:1/10']['gotecho']+=1
            if s.dupes=='IGNORE': s.text('E1'); N['1:1/20']['sentecho']+=1
            else:
                s.A['E1']['dupes']+=1; N['1:1/10']['dupes']+=1
                if s.dupes=='BAD': s.text('BAD')
        elif e=='b1': pk('1:1/10',ec('1:1/10',b'NOSUCH',k)); N['1:1/10']['gotecho']+=1; s.text('BAD')
        elif e=='n0': pk('1:1/10',nm('1:1/10','1:1/1')); N['1:1/10']['gotnet']+=1; s.text('NET')
        elif e=='n1': pk('1:1/10',nm('1:1/10','1:1/20')); N['1:1/10']['gotnet']+=1; N['1:1/20']['sentnet']+=1
        elif e=='nx': pk('1:1/30',nm('1:1/30','3:3/3')); N['1:1/30']['gotnet']+=1; s.text('BAD')
        elif e in ('l1','l2'):
            d,o=('e1',()) if e=='l1' else ('net',(1,1,20,0)); ex=[int(f.split('.')[0]) for f in s.w.ls('areas/'+d)]
            s.w.write('areas/%s/%d.msg'%(d,max([1]+ex)+1),mkmsg(subj=b'L%d'%k,attr=LOCAL|(1 if o else 0),text=(b'\1INTL 1:1/20 1:1/1\r' if o else b'')+b'local %d\r'%k,orig=(1,1,1,0),dest=o or (0,0,0,0)))
            if e=='l1': s.text('E1'); N['1:1/10']['sentecho']+=1; N['1:1/20']['sentecho']+=1
            else: N['1:1/20']['sentnet']+=1; 
            return 'SCAN'
        elif e=='junk': s.w.inbound(b'not a packet at all')
        return 'TOSS'
    def run(s,evs,gap):
        s.w.now+=gap*DAY; s.new={}; now=s.w.now; day=now//DAY
        kinds=[s.event(e) for e in evs]; 
        for kd in [x for x in ('TOSS','SCAN') if x in kinds]:
            t0=s.w.now
            r=s.w.cm(kd)
            if r.rc!=0: raise Violation('%s: exit %r'%(kd,r.rc))
            s.w.now=t0           # the same moment for both
        if s.day is not None and day>s.day:
            for a in s.A.values():
                a['days']=([0]*(day-s.day)+a['days'])[:8]
        s.day=day
        for t,c in s.new.items():
            a=s.A[t]; a['texts']+=c; a['days'][0]+=c; a['last']=now; a['first']=a['first'] or now
        for n in s.N.values():
            if not n['first'] and (n['gotnet'] or n['sentnet'] or n['gotecho'] or n['sentecho']): n['first']=now
        s.w.now=now+60
    def judge(s,tag,gone=()):
        day,ar,no=parse(s.w.read('cm.stats'))
        if day!=s.day: raise Violation(tag+'day %d, expected %d'%(day,s.day))
        want={t for t in s.A if t not in gone}
        if set(ar)!=want: raise Violation(tag+'areas %r'%sorted(ar))
        for t in sorted(want):
            for k in ('texts','days','dupes','first','last'):
                if ar[t][k]!=s.A[t][k]: raise Violation(tag+'area %s: %s is %r, expected %r'%(t,k,ar[t][k],s.A[t][k]))
        if set(no)!=set(s.N): raise Violation(tag+'nodes %r'%sorted(no))
        for n in no:
            for k in s.N[n]:
                if no[n][k]!=s.N[n][k]: raise Violation(tag+'node %s: %s is %r, expected %r'%(n,k,no[n][k],s.N[n][k]))
        return ar,no
def histcase(c):
    dupes,steps=c; h=Hist(dupes); ev=0
    try:
        for i,(evs,gap) in enumerate(steps):
            h.run(evs,gap); ev+=1
            h.judge('dupe mode %s, runs (events, days before) %r, after run %d: '%(dupes,steps,i+1))
    finally: h.w.close()
    return dict(evaluations=ev,nontrivial=[c],states=ev,transitions=ev,sample=dict(steps=repr(steps)))
def many(c):
    """batches of histories"""
    o=dict(evaluations=0,nontrivial=[],states=0,transitions=0)
    for x in c:
        r=histcase(x)
        for k in ('evaluations','states','transitions'): o[k]+=r[k]
        o['nontrivial']+=r['nontrivial']; o['sample']=r['sample']
    return o
SIZES={}
def bytescase(c):
    """byte counters of a history are the sums over its messages"""
    steps=c; tot={}
    for e in set(x for evs,_ in steps for x in evs):
        h=Hist('IGNORE')
        try: h.run((e,),0); tot[e]=h.judge('single %s: '%e)[1]
        finally: h.w.close()
    h=Hist('IGNORE')
    try:
        for evs,gap in steps: h.run(evs,gap)
        no=h.judge('runs %r: '%(steps,))[1]
        for n in NODES:
            for k in ('gotnetb','sentnetb','gotechob','sentechob'):
                e=sum(tot[x][n][k] for evs,_ in steps for x in evs)
                if no[n][k]!=e: raise Violation('runs %r: %s of %s is %d; the messages have %d'%(steps,k,n,no[n][k],e))
                cnt=no[n][k[:-1]]
                if bool(cnt)!=bool(no[n][k]): raise Violation('runs %r: %d messages, %d bytes'%(steps,cnt,no[n][k]))
    finally: h.w.close()
    return dict(evaluations=1,nontrivial=[c],states=len(steps),transitions=len(steps),sample=dict(steps=repr(steps)))
def reorder(c):
    """the configuration changes between runs"""
    order,nodeorder,drop,gap,evs=c; h=Hist()
    try:
        h.run(evs,0); h.judge('before: ')
        h.w.write('cm.cfg',config('KILL',order,nodeorder,drop))
        h.run(('nothing',) if drop else evs,gap)
        for t in drop: h.A[t]=dict(texts=0,days=[0]*8,dupes=0,first=0,last=0)
        h.judge('areas in order %r, nodes %r, without %r: '%(order,nodeorder,drop),drop)
        h.w.write('cm.cfg',config('KILL')); h.run(('nothing',),1); h.judge('areas in order %r, nodes %r, without %r, then as before: '%(order,nodeorder,drop))
    finally: h.w.close()
    return dict(evaluations=1,nontrivial=[c],states=3,transitions=3,sample=repr(c))
# ---------------------------------------------------------------- crashstats
MON='Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
def dm(t): x=time.gmtime(t); return '%02d-%s-%02d'%(x.tm_mday,MON[x.tm_mon-1],x.tm_year%100)
def unit(i): return '%d MB'%(i//1048576) if i>10000000 else '%d KB'%(i//1024) if i>10000 else '%d bytes'%i
def average(d8,total,day,first):
    if not day or not first: return 0
    n=day-first
    k=min(n,7); sm=sum(d8[1:k+1])
    if sm==0 and total: return total//(n or 1)
    return sm//(k or 1)
def show(c):
    ar,no,args,day=c
    w=World('x')
    try:
        w.write('s',build(day,ar,no)); r=w.run(['s']+list(args),prog='crashstats')
        tag='crashstats %s of %r %r: '%(' '.join(args),ar,no)
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        L=r.out.decode('latin1').split('\n')
        grp=args[args.index('GROUP')+1] if 'GROUP' in args else None; sort=args[args.index('SORT')+1].lower() if 'SORT' in args else 'a'
        sel=[x for x in ar if grp is None or (x[1].get('group') or '\0').upper() in grp.upper()]
        av=lambda x: average(x[1]['days'],x[1]['texts'],day,x[1]['first']//DAY)
        key={'a':lambda x: x[0].lower(),'t':lambda x: -x[1]['texts'],'m':lambda x: -av(x),'d':lambda x: -x[1]['first'],'l':lambda x: -x[1]['last'],'u':lambda x: -x[1]['dupes']}[sort[0]]
        rows=[]
        if 'NOAREAS' not in args:
            if 'LAST7' in args: rx=re.compile(r'^(.{33}) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+) +(\d+) : +(\d+)$')
            else: rx=re.compile(r'^(.{29,30}) (\S+) +(\S+) +(\d+) +(\d+) +(\d+)$')
            def row(x): 
                if 'LAST7' in args: return (x[0][:33],)+tuple(x[1]['days'][1:])+(sum(x[1]['days'][1:]),)
                d=lambda t: dm(t) if t else '<Never>'
                return (x[0][:30],d(x[1]['first']),d(x[1]['last']),x[1]['texts'],av(x),x[1]['dupes'])
            got=[]
            for l in L:
                m=rx.match(l)
                if m and not l.startswith('Totally'): g=m.groups(); got.append((g[0].rstrip(),)+tuple(int(v) if v.isdigit() else v for v in g[1:]))
            want=[row(x) for x in sel]
            if sorted(got)!=sorted(want): raise Violation(tag+'shows %r, expected %r'%(got,want))
            ks=[key([x for x in sel if row(x)==g][0]) for g in got]
            if ks!=sorted(ks): raise Violation(tag+'areas are not sorted: %r'%[g[0] for g in got])
            tl=[l for l in L if l.startswith('Totally')]
            if len(tl)!=1: raise Violation(tag+'no total')
            nums=[int(v) for v in re.findall(r'\d+',tl[0])]
            if 'LAST7' in args: e=[len(sel)]+[sum(x[1]['days'][i] for x in sel) for i in range(1,8)]; e.append(sum(e[1:]))
            else: e=[len(sel),sum(x[1]['texts'] for x in sel),None,sum(x[1]['dupes'] for x in sel)]
            if len(e)!=len(nums) or any(a is not None and a!=b for a,b in zip(e,nums)): raise Violation(tag+'total %r, expected %r'%(nums,e))
        elif any(l.startswith('Totally') for l in L): raise Violation(tag+'shows areas')
        out='\n'.join(L); blk=re.findall(r'^(\d+:\d+/\d+\.\d+) +Statistics since: (\S+)\n\n +Sent netmails: (\d+)/(.*)\n +Received netmails: (\d+)/(.*)\n +Sent echomails: (\d+)/(.*)\n +Received echomails: (\d+)/(.*)\n +Dupes: (\d+)\n',out,re.M)
        if 'NONODES' in args:
            if blk: raise Violation(tag+'shows nodes')
        else:
            e=[]
            for a,x in sorted(no,key=lambda z: z[0]):
                t=time.gmtime(x['first']); d='%d-%s-%d'%(t.tm_mday,MON[t.tm_mon-1],t.tm_year%100) if x['first'] else '<Never>'
                e.append(('%d:%d/%d.%d'%a,d,str(x['sentnet']),unit(x['sentnetb']),str(x['gotnet']),unit(x['gotnetb']),str(x['sentecho']),unit(x['sentechob']),str(x['gotecho']),unit(x['gotechob']),str(x['dupes'])))
            if blk!=e: raise Violation(tag+'nodes shown as %r, expected %r'%(blk,e))
        fs=[x['first'] for _,x in (ar if 'NOAREAS' not in args else []) if x['first']]+[x['first'] for _,x in (no if 'NONODES' not in args else []) if x['first']]
        if fs and 'Statistics from %s to %s'%(dm(min(fs)),dm(day*DAY)) not in out: raise Violation(tag+'period is wrong: %r'%[l for l in L if l.startswith('Statistics from')])
    finally: w.close()
    return dict(evaluations=1,nontrivial=[repr(c)],states=1,transitions=1,sample=dict(args=args))
def showmany(c):
    o=None
    for x in c: o=show(x)
    return dict(o,evaluations=len(c),nontrivial=[repr(x) for x in c],states=len(c),transitions=len(c))
def chunks(l,n): return [tuple(l[i:i+n]) for i in range(0,len(l),n)]
def main():
    ck=Check('C22','exploration','all histories of up to 3 (4) runs over the event alphabet with day gaps, all gap sequences over 0..9 days, all dupe modes, all reorderings of the configuration; crashstats on all orders of small files with all options; non-trivial = distinct history or file x options')
    world.init(('plain',)); L=thorough()
    ev=EV; g2=(0,1,8)
    hs=[('KILL',((( a,),0),((b,),g))) for a in ev for b in ev for g in (0,1,7,8)]
    core=['e1','d1','b1','n0','n1','l1','nothing'] if not L else ev
    hs+=[('KILL',(((a,),0),((b,),g),((d,),h))) for a in core for b in core for d in core for g in g2[:2] for h in g2]
    hs+=[(dm_,((('e1',),0),((b,),g),((d,),1))) for dm_ in ('BAD','IGNORE') for b in ev for d in ev for g in (0,1)]
    hs+=[('KILL',((('e1','e1'),0),(('e1',),a),(('nothing',) if b%2 else ('e1',),b),(('e2',),d))) for a in range(10) for b in range(10) for d in ((0,1,7,8) if not L else range(10))]
    hs+=[('KILL',((x,0),(y,g))) for x in itertools.combinations(ev[:10],3) for y in itertools.combinations(ev[:10],2) for g in ((1,) if not L else (0,1,3))]
    hs+=[('KILL',((('e1',)*300+('n1',)*300,0),(('d1',)*260+('e1',),1)))]
    ck.explore('histories',many,chunks(hs,8))
    bev=['e1','e2','e3','b1','n0','n1','nx','l1','l2','e4','e5']
    ck.explore('bytes',bytescase,[(((a,),0),((b,d),1)) for a in bev for b in bev for d in (bev if L else bev[::3])])
    ck.explore('config',reorder,[(o,n,dr,g,e) for o in list(itertools.permutations(range(6)))[::7 if L else 41] for n in [q for p in itertools.permutations(range(3)) for q in ((3,4)+p,(4,)+p+(3,),p+(3,4))][::1 if L else 2] for dr in ((),('E1',),('E2',E3)) for g in (0,1) for e in (('e1','e2','e3','n0','b1','e4','e4','e5'),)])
    base=17000*DAY
    def ar_(k,t,l8,d,f,l,g=None): return (k,dict(texts=t,days=list(l8),dupes=d,first=f,last=l,group=g))
    pool=[ar_('ALPHA',10,(1,2,3,4,0,0,0,0),5,base-3*DAY,base,'A'),ar_('beta',7,(0,)*8,9,base-30*DAY,base-20*DAY,'B'),ar_('Gamma.Long.Tag.That.Goes.On.And.On.And.On',70000,(9,8,7,6,5,4,3,2),0,base-300*DAY,base-DAY),ar_('delta',0,(0,)*8,0,0,0,'A'),ar_('EPS',3,(3,0,0,0,0,0,0,0),1,base,base+5,'b'),ar_('beta2',50,(0,70,0,0,0,0,0,0),8,base-DAY+3,base+7,'C')]
    nn=lambda v,f: dict(zip(('gotnet','gotnetb','sentnet','sentnetb','gotecho','gotechob','sentecho','sentechob','dupes'),v),first=f)
    npool=[((1,1,10,0),nn((1,10000,2,10001,3,10000000,4,10000001,5),base)),((1,1,2,5),nn((0,)*9,0)),((2,1,1,0),nn((7,5,6,1024*1024*3000,4,12345,2,20480,9),base-2*DAY)),((1,20,3,0),nn((1,1,1,1,1,1,1,1,1),base-400*DAY))]
    sc=[]
    A_=[(),('SORT','a'),('SORT','t'),('SORT','m'),('SORT','d'),('SORT','l'),('SORT','u'),('SORT','Total'),('LAST7',),('LAST7','SORT','t'),('NOAREAS',),('NONODES',),('GROUP','A'),('GROUP','ab'),('GROUP','Z'),('GROUP','B','LAST7'),('GROUP','A','SORT','u')]
    for p in itertools.permutations(pool,3 if not L else 4):
        for a in A_: sc.append((list(p),npool[:2],a,17000))
    for p in [x for k in (0,1,2,3,4) for x in itertools.permutations(npool,k)]:
        for a in ((),('NOAREAS',),('NONODES',)): sc.append((pool[:2],list(p),a,17000))
    for k in (0,1): sc+=[(pool[:k],[],a,17000) for a in A_]
    # averages: days since the first message x distribution of the last days
    for f in range(0,12):
        for l8 in itertools.product((0,1,9),repeat=3):
            for rest in (0,7): sc.append(([ar_('X',30,(5,)+l8+(rest,)*4,0,base-f*DAY,base)],[],(),17000))
    ck.explore('crashstats',showmany,chunks(sc,10))
    ck.finish()
if __name__=='__main__': main()
