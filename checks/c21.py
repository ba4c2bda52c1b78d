"""C21: crashmaint on all small bases, limits and operations, and what scanning does afterwards."""
import _boot,itertools,struct
import world; from world import *
from emodel import *
from harness import *
DAY=86400
def config(areas,tail='',hw=True):
    return Cfg([Aka('1:1/1')],[Node('1:1/10')],[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL')]+areas,tail=('MSG_HIGHWATER\nJAM_HIGHWATER\n' if hw else '')+tail).text()
def opts(kn,kd): return (['KEEPNUM %d'%kn] if kn else [])+(['KEEPDAYS %d'%kd] if kd else [])
def midnight(w): return w.now//DAY*DAY
def when(w,age): return midnight(w)-age[0]*DAY+(0 if age[1]=='s' else DAY-1 if age[1]=='e' else 43200)
def maint(w,op,extra=(),env=None):
    r=w.run(list(op)+['SETTINGS','cm.cfg']+list(extra),prog='crashmaint',env=env)
    if r.rc!=0: raise Violation('crashmaint %r: exit %r %r'%(op,r.rc,r.out[-300:]))
    return r
def snapshot(w,keep=True):
    o={}
    for d,ds,fs in os.walk(w.p('areas')):
        for f in fs:
            p=os.path.join(d,f); o[os.path.relpath(p,w.root)]=(open(p,'rb').read(),int(os.stat(p).st_mtime) if keep and f.endswith('.msg') else 0)
    return o
def exported(w,tag):
    items,prob=outbound(w,{'out':1})
    if prob: raise Violation(tag+prob[0])
    return sorted(m.subj for it in items for p in it.pkts for m in p.msgs)
def limit(live,kn,kd,today,op):
    """live: [(key,day)] in order -> keys that remain"""
    live=list(live)
    if 'MAINT' in op:
        if kn and len(live)>kn: live=live[len(live)-kn:]
        if kd: live=[x for x in live if not x[1]+kd<today]
    return [k for k,_ in live]
# ------------------------------------------------ *.MSG
def mraw(a,n,links=(0,0),sent=False): return mkmsg(subj=b'A%d.%d'%(a,n),text=b'AREA%d message %d\rsecond line\r'%(a,n),attr=LOCAL|(SENT if sent else 0)|(PVT if n%2 else 0),replyto=links[0],nextreply=links[1],orig=(1,1,1,0),cost=n%1000)
PVT=1
def msgcase(c):
    """areas: [(slots {num:age}, links {num:(r,n)}, kn, kd, hw)], one operation"""
    op,areas,junk=c[:3]; n=len(areas); env={'CM_DIRORDER':'desc'} if c[3:] else None
    w=World(config([Area('A%d'%i,'1:1/1',('MSG','areas/a%d'%i),[('1:1/10','')],opts(x[2],x[3])) for i,x in enumerate(areas)]))
    try:
        for d in ('bad','net'): os.mkdir(w.p('areas/'+d))
        today=w.now//DAY
        for i,(slots,links,kn,kd,hw) in enumerate(areas):
            os.mkdir(w.p('areas/a%d'%i))
            for num,age in slots.items(): w.write('areas/a%d/%d.msg'%(i,num),mraw(i,num,links.get(num,(0,0)),sent=num%3==0),when(w,age))
            if hw is not None: w.write('areas/a%d/1.msg'%i,mkmsg(frm=b'CrashMail II',subj=b'HighWater mark',attr=SENT|PVT,replyto=hw),w.now-90*DAY)
            for f in junk: w.write('areas/a%d/%s'%(i,f),b'not a message '*20,w.now-90*DAY)
        before=snapshot(w); maint(w,op,env=env)
        after=snapshot(w); want={}; exp=[]; tags=[]; newhw={}
        for i,(slots,links,kn,kd,hw) in enumerate(areas):
            tag='%s of *.MSG area %r%s, KEEPNUM %d KEEPDAYS %d high water %r: '%(' '.join(op),{k:v for k,v in slots.items()},' links %r'%links if links else '',kn,kd,hw); tags.append(tag)
            live=limit([(k,when(w,slots[k])//DAY) for k in sorted(slots)],kn,kd,today,op)
            new={k:(j+2 if 'PACK' in op else k) for j,k in enumerate(live)}
            hw2=hw
            if hw and slots: hw2=max([0]+[k for k in live if k<=hw]); hw2=new.get(hw2,0)
            newhw[i]=hw2
            for k in live:
                r,x=links.get(k,(0,0))
                if 'PACK' in op: r,x=new.get(r,0) if r in slots else 0,new.get(x,0) if x in slots else 0
                want['areas/a%d/%d.msg'%(i,new[k])]=(mraw(i,k,(r,x),sent=k%3==0),before['areas/a%d/%d.msg'%(i,k)][1])
                if new[k]>(hw2 or 0) and k%3: exp.append(b'A%d.%d'%(i,k))
            for f in junk: want['areas/a%d/%s'%(i,f)]=before['areas/a%d/%s'%(i,f)]
            pre='areas/a%d/'%i
            got={p:v for p,v in after.items() if p.startswith(pre)}
            if hw is not None:
                f=pre+'1.msg'
                if f not in got: raise Violation(tag+'1.msg is gone')
                if hw2==hw and got[f]!=before[f]: raise Violation(tag+'1.msg changed although the mark is right')
                m=parse_msg(got[f][0])
                if m.replyto!=hw2: raise Violation(tag+'high-water mark %d, expected %d'%(m.replyto,hw2))
                del got[f]
            wi={p:v for p,v in want.items() if p.startswith(pre)}
            if sorted(got)!=sorted(wi): raise Violation(tag+'files %r, expected %r'%(sorted(os.path.basename(x) for x in got),sorted(os.path.basename(x) for x in wi)))
            for p in wi:
                if got[p][0]!=wi[p][0]:
                    try: g,e=parse_msg(got[p][0]),parse_msg(wi[p][0]); d='links %r, expected %r; subject %r, expected %r'%((g.replyto,g.nextreply),(e.replyto,e.nextreply),g.subj,e.subj)
                    except Exception: d=repr(got[p][0][:100])
                    raise Violation(tag+'%s differs: %s'%(p,d))
                if got[p][1]!=wi[p][1]: raise Violation(tag+'date of %s changed, which makes it expire later'%p)
        maint(w,op,env=env)
        again=snapshot(w)
        if 'PACK' in op or op==('MAINT',):
            for p in sorted(set(after)|set(again)):
                if after.get(p)!=again.get(p):
                    i=int(p.split('/')[1][1:]); raise Violation(tags[i]+'second run changed %s'%p)
        # somebody writes a message in each area, then everything is scanned
        for i,x in enumerate(areas):
            if not x[0] and x[4]: continue      # emptied by someone else before: not crashmaint's doing
            k=max([1]+[int(f.split('.')[0]) for f in os.listdir(w.p('areas/a%d'%i)) if f.split('.')[0].isdigit()])+1
            w.write('areas/a%d/%d.msg'%(i,k),mraw(i,k*1000+1)); exp.append(b'A%d.%d'%(i,k*1000+1))
        r=w.cm('SCAN')
        if r.rc!=0: raise Violation('SCAN exit %r'%r.rc)
        got=exported(w,'scan after maintenance: ')
        if got!=sorted(exp):
            d=sorted(set(got)^set(exp)) or got; i=int(d[0][1:].split(b'.')[0])
            raise Violation(tags[i]+'scanning afterwards %s %r'%('exported' if d[0] in got else 'did not export',d[0]))
    finally: w.close()
    return dict(evaluations=n,nontrivial=[(op,repr(x)) for x in areas],states=n,transitions=3*n,sample=dict(op=op,last=repr(areas[-1])))
# ------------------------------------------------ JAM
KINDS=dict(fresh=(None,(0,'s'),(9,'s')),old=(None,(9,'e'),(0,'s')),rfresh=((1,'s'),(9,'e'),(9,'e')),rold=((9,'s'),(0,'e'),(0,'s')),wfresh=(None,None,(1,'s')),wold=(None,None,(9,'e')),edge=(None,(3,'s'),(9,'s')),past=(None,(4,'e'),(0,'s')),future=(None,(-4,'s'),(0,'s')))
def same(m): return (m.num,tuple(m.sub),m.text,m.attr,m.attr2,m.datewritten,m.dateproc,m.datereceived,m.msgidcrc,m.replycrc,m.timesread,m.cost,m.pwcrc,m.ucrc)
TZOFF=dict(UTC=0,WST13=-13*3600,**{'EST-14':14*3600})   # the local day is yesterday or tomorrow
def jamcase(c):
    """areas: [(slots [kind|'hole'|'del'...], links {i:(to,1st,next)} as slot indexes, kn, kd, hw index)]"""
    op,areas,basenum,tz=c; n=len(areas)
    w=World(config([Area('A%d'%i,'1:1/1',('JAM','areas/a%d'%i),[('1:1/10','')],opts(x[2],x[3])) for i,x in enumerate(areas)]))
    try:
        for d in ('bad','net'): os.mkdir(w.p('areas/'+d))
        env={'TZ':tz}; today=(w.now+TZOFF[tz])//DAY
        wh=lambda a: 0 if a is None else today*DAY-a[0]*DAY+(0 if a[1]=='s' else DAY-1)
        bef=[];lr=[(0x1234,7,basenum,basenum+1),(0x99,8,basenum+len(areas[0][0]),basenum)]
        for i,(slots,links,kn,kd,hw) in enumerate(areas):
            W=JamWriter(basenum=basenum); num=lambda k: 0 if k is None else basenum+k
            for k,s in enumerate(slots):
                if s=='hole': W.add(hole=True); continue
                rec,pro,wri=KINDS['fresh' if s=='del' else s]
                l=links.get(k,(None,None,None))
                W.add(subj=b'A%d.%d'%(i,k),text=b'' if k==1 else b'AREA%d message %d\rsecond line\r'%(i,k),attr=JTYPEECHO|JTYPELOCAL|JL|(JDELETED if s=='del' else 0)|(JPRIV if k%2 else 0)|(JSENT if k==2 else 0),sub=[(0,b'1:1/1'),(4,b'1:1/1 %d.%d'%(i,k)),(2000,b'XKLUDGE: %d'%k)],
                    date=wh(wri),dateproc=wh(pro),received=wh(rec),replyto=num(l[0]),reply1st=num(l[1]),replynext=num(l[2]),timesread=k,cost=k)
            W.write(w.p('areas/a%d'%i),lr)
            if hw is not None: w.write('areas/a%d.cmhw'%i,struct.pack('<I',basenum+hw))
            bef.append(read_jam(w.p('areas/a%d'%i)))
        hws={i:w.read('areas/a%d.cmhw'%i) for i,x in enumerate(areas) if x[4] is not None}
        maint(w,op,env=env)
        exp=[];tags=[]
        def look(tag,i):
            try: return read_jam(w.p('areas/a%d'%i))
            except PktError as e: raise Violation(tag+str(e))
            except FileNotFoundError as e: raise Violation(tag+'base is not complete: %s'%e)
        res=[]
        for i,(slots,links,kn,kd,hw) in enumerate(areas):
            tag='%s of JAM area %r%s from %d, KEEPNUM %d KEEPDAYS %d high water %r, TZ %s: '%(' '.join(op),slots,' links %r'%links if links else '',basenum,kn,kd,hw,tz); tags.append(tag)
            b=bef[i]; j=look(tag,i); res.append(j); B={m.num:m for m in b.msgs}; G={m.num:m for m in j.msgs}
            day=lambda m: (m.datereceived or m.dateproc or m.datewritten)//DAY
            live=limit([(m.num,day(m)) for m in b.msgs if not m.deleted],kn,kd,today,op)
            if 'PACK' in op and slots:
                first=min(live) if live else basenum+len(slots)
                if j.basenum!=first or j.slots!=basenum+len(slots)-first: raise Violation(tag+'numbers from %d, %d of them; expected %d, %d'%(j.basenum,j.slots,first,basenum+len(slots)-first))
                if sorted(G)!=live: raise Violation(tag+'messages %r, expected %r'%(sorted(G),live))
            else:
                if (j.basenum,j.slots)!=(b.basenum,b.slots) or sorted(G)!=sorted(B): raise Violation(tag+'numbering changed')
                if [k for k in sorted(G) if not G[k].deleted]!=live: raise Violation(tag+'remaining %r, expected %r'%([k for k in sorted(G) if not G[k].deleted],live))
            if j.lastread!=b.lastread: raise Violation(tag+'last-read records changed')
            for k in G:
                m,o=G[k],B[k]
                x,y=same(m),same(o)
                if m.deleted and not o.deleted: y=y[:3]+(o.attr|JDELETED,)+y[4:]
                if x!=y: raise Violation(tag+'message %d: %r was %r'%(k,x,y))
                if 'PACK' in op:
                    def alive(q):
                        seen=set()
                        while q and q not in seen:
                            if q in live: return q
                            seen.add(q); q=B[q].replynext if q in B else 0
                        return 0
                    e=(o.replyto if o.replyto in live else 0,alive(o.reply1st),alive(o.replynext))
                else: e=(o.replyto,o.reply1st,o.replynext)
                if (m.replyto,m.reply1st,m.replynext)!=e: raise Violation(tag+'links of message %d are %r, expected %r'%(k,(m.replyto,m.reply1st,m.replynext),e))
            exp+=[b'A%d.%d'%(i,k-basenum) for k in live if (hw is None or k>basenum+hw) and k-basenum!=2]
            if i in hws and (not w.exists('areas/a%d.cmhw'%i) or w.read('areas/a%d.cmhw'%i)!=hws[i]): raise Violation(tag+'high-water mark changed')
            junk=[f for f in os.listdir(w.p('areas')) if 'cmtemp' in f]
            if junk: raise Violation(tag+'left %r'%junk)
        maint(w,op,env=env)
        for i,x in enumerate(areas):
            j=look(tags[i]+'second run: ',i); a=res[i]
            f=lambda j: (j.basenum,j.slots,j.lastread,[(same(m),m.replyto,m.reply1st,m.replynext) for m in j.msgs])
            if f(j)!=f(a): raise Violation(tags[i]+'second run changed the base')
            n2=jam_append(w.p('areas/a%d'%i),subj=b'A%d.900'%i,text=b'new\r',sub=[(0,b'1:1/1')]); exp.append(b'A%d.900'%i)
            if n2!=basenum+len(x[0]): raise Violation(tags[i]+'the next message gets number %d'%n2)
            if x[4] is not None and x[4]>=len(x[0]): exp.pop()
        r=w.cm('SCAN')
        if r.rc!=0: raise Violation('SCAN exit %r'%r.rc)
        got=exported(w,'scan after maintenance: ')
        if got!=sorted(exp):
            d=sorted(set(got)^set(exp)) or got; i=int(d[0][1:].split(b'.')[0])
            raise Violation(tags[i]+'scanning afterwards %s %r'%('exported' if d[0] in got else 'did not export',d[0]))
        for i,x in enumerate(areas): look(tags[i]+'after scanning: ',i)
    finally: w.close()
    return dict(evaluations=n,nontrivial=[(op,repr(x),basenum,tz) for x in areas],states=n,transitions=3*n,sample=dict(op=op,last=repr(areas[-1]),basenum=basenum))
# ------------------------------------------------ which area a limit belongs to, patterns
def cfgcase(c):
    order,fmt,style,op,pat=c
    kw=(lambda s: s.lower()) if style=='lower' else (lambda s: s)
    ind='   ' if style=='indent' else ''
    base=lambda p: '%s "areas/%s"'%(fmt,p)
    B={'lim':'AREA LIM.A 1:1/1 %s\n%sKEEPNUM 1\n'%(base('lim'),ind),'def':'AREA DEFAULT 1:1/1 %s\n%sKEEPNUM 1\n%sKEEPDAYS 1\n'%(base('def'),ind,ind),'def2':'AREA DEFAULT_X 1:1/1 %s\n%sKEEPNUM 1\n'%(base('def'),ind),'pass':'AREA PASS.A 1:1/1\n%sKEEPNUM 1\n%sKEEPDAYS 1\n'%(ind,ind),
       'free':'AREA FREE.A 1:1/1 %s\n;KEEPNUM 1\n'%base('free'),'loc':'LOCALAREA LOC.B 1:1/1 %s\n%sKEEPDAYS 2\n%sDESCRIPTION "KEEPNUM 1"\n'%(base('loc'),ind,ind),'net':'NETMAIL LIM.B 1:1/1 %s\n%sKEEPNUM 2\n'%(base('net'),ind)}
    keep={'lim':(1,0),'free':(0,0),'loc':(0,2),'net':(2,0)}; tagof={'lim':'LIM.A','free':'FREE.A','loc':'LOC.B','net':'LIM.B'}
    cfg='SYSOP "x"\n;KEEPNUM 1\n'+''.join(kw(B[o].split(' ')[0])+B[o][len(B[o].split(' ')[0]):].replace('KEEPNUM 1\n',kw('KEEPNUM')+' 1\n') for o in order)
    w=World(cfg); ages=[(5,'s'),(0,'s'),(2,'s'),(3,'s')]
    try:
        for d in ('lim','free','loc','net','def'):
            if fmt=='MSG':
                os.mkdir(w.p('areas/'+d))
                for k,a in enumerate(ages): w.write('areas/%s/%d.msg'%(d,k+2),mraw(0,k+2),when(w,a))
            else:
                W=JamWriter()
                for k,a in enumerate(ages): W.add(subj=b'%d'%(k+2),date=when(w,a))
                W.write(w.p('areas/'+d))
        def state(d):
            if fmt=='MSG': return sorted(int(m.subj.split(b'.')[1])-2 for m in read_msgdir(w.p('areas/'+d)).values())
            return [int(jamfield(m,6))-2 for m in read_jam(w.p('areas/'+d)).msgs if not m.deleted]
        today=w.now//DAY
        maint(w,op,['PATTERN',pat] if pat else [])
        tag='%s of %s areas %s, %s, pattern %r: '%(' '.join(op),fmt,' '.join(order),style,pat)
        def match(p,t):
            for i,ch in enumerate(p):
                if ch=='*': return True
                if i>=len(t) or ch!='?' and ch.lower()!=t[i].lower(): return False
            return len(p)==len(t)
        for d in ('lim','free','loc','net','def'):
            live=list(range(4))
            if d in order and d in keep and (not pat or match(pat,tagof[d])): live=limit([(k,when(w,a)//DAY) for k,a in enumerate(ages)],keep[d][0],keep[d][1],today,op)
            if state(d)!=live: raise Violation(tag+'%s has messages %r, expected %r'%(d,state(d),live))
    finally: w.close()
    return dict(evaluations=1,nontrivial=[c],states=5,transitions=1,sample=dict(order=order,pat=pat))
def chunks(l,n): return [tuple(l[i:i+n]) for i in range(0,len(l),n)]
OPS=(('MAINT',),('PACK',),('MAINT','PACK'))
def main():
    ck=Check('C21','exploration','all *.MSG areas over 4 (5) numbers with all age classes, limits, high-water marks; all reply links among 3; all JAM bases of up to 4 (5) slots with holes, deleted and all date classes; every operation twice, then a scan; all orders of area definitions; non-trivial = distinct area x operation')
    world.init(('plain',)); L=thorough()
    ages=[None,(0,'e'),(2,'s'),(5,'e')]
    areas=[]
    for sl in itertools.product(ages,repeat=4 if not L else 5):
        s={k+2:a for k,a in enumerate(sl) if a}
        for kn,kd in ((0,0),(1,0),(2,0),(0,2),(2,2),(3,4)):
            for hw in (None,0,2,3,4,5,9): areas.append((s,{},kn,kd,hw))
    sp=[(dict(zip(nums,ag)),{},kn,kd,hw) for nums in ((2,9),(10,9,100),(3,),(99,100,101)) for ag in itertools.product([(-400,'s'),(1,'s'),(1,'e'),(2,'s'),(2,'e'),(15000,'s')] if len(nums)<3 else [(-1,'e'),(2,'s'),(3,'e')],repeat=len(nums)) for kn in (0,1,2,50) for kd in (0,1,2) for hw in (None,9,150)]
    ck.explore('msg',msgcase,[(op,q,()) for op in OPS for q in chunks(areas+sp,150)]+[(op,q,(),'desc') for op in OPS for q in chunks(areas+sp if L else areas[::4]+sp,150)])
    ln=[({2:(0,'s'),3:a,4:(0,'s')} if g==0 else {3:(0,'s'),5:a,8:(0,'s')},dict(zip(((2,3,4) if g==0 else (3,5,8)),ll)),0,2,hw) for g in (0,1) for a in ((0,'s'),(5,'s')) for hw in (None,4) for ll in itertools.product([(r,x) for r in ((0,2,4,9) if g==0 else (0,3,5,8)) for x in ((0,3) if g==0 else (0,5,8))],repeat=3 if L else 2)]
    ck.explore('msglinks',msgcase,[(op,q,()) for op in OPS[1:] for q in chunks(ln,150)]+[(op,q,(),'desc') for op in OPS[1:] for q in chunks(ln,150)])
    ck.explore('msgother',msgcase,[(op,(({2:(5,'s'),3:(0,'s'),12:(0,'s')},{},kn,kd,hw),),j) for op in OPS for kn in (0,1,2) for kd in (0,2) for hw in (None,3) for j in (('12old.msg',),('3.txt','msg','a.msg'),('2.msgx','0.msg','-3.msg'),('03.msg',))])
    kinds=['hole','del','fresh','old']
    ja=[(sl,{},kn,kd,hw) for N in range(0,5 if not L else 6) for sl in itertools.product(kinds,repeat=N) for kn,kd in ((0,0),(1,0),(2,0),(0,3),(2,3)) for hw in (None,1,9)]
    ck.explore('jam',jamcase,[(op,q,b,'UTC') for op in OPS for b in (1,7) for q in chunks(ja,100)])
    jd=[(sl,{},kn,kd,None) for sl in itertools.product(list(KINDS)+['del'],repeat=2) for kn in (0,1) for kd in (1,3,8,30000)]
    ck.explore('jamdates',jamcase,[(op,q,5,tz) for op in OPS[::2] for tz in TZOFF for q in chunks(jd,100)])
    jl=[]
    for dead in itertools.product((0,1),repeat=4):
        sl=tuple('del' if d==1 else 'fresh' for d in dead)
        for tos in itertools.product((None,0,1,2),repeat=3):
            par=[None]+[t if t is not None and t<k else None for k,t in enumerate(tos,1)]
            lk={}
            for k in range(4):
                kids=[x for x in range(4) if par[x]==k]; sib=[x for x in range(4) if par[x]==par[k] and x>k] if par[k] is not None else []
                lk[k]=(par[k],kids[0] if kids else None,sib[0] if sib else None)
            if (sl,lk,0,0,None) not in jl: jl.append((sl,lk,0,0,None))
    jl+=[(('fresh','fresh','del'),dict(zip(range(3),((None,a,b),(None,c_,d),(None,e,f)))),0,0,None) for a in (None,2) for b in (0,2) for c_ in (9,2) for d in (1,2) for e in (None,0) for f in (0,2)]
    jl+=[(('old','fresh','old','fresh'),lk,0,3,None) for lk in {repr(x[1]):x[1] for x in jl if len(x[0])==4}.values()]
    ck.explore('jamlinks',jamcase,[(op,q,b,'UTC') for op in OPS[1:] for b in (1,7) for q in chunks(jl,100)])
    names=['lim','def','pass','free','loc','net','def2']
    orders=list(itertools.permutations(names,3))+([p for p in itertools.permutations(names,4)] if L else [])
    ck.explore('config',cfgcase,[(o,f,'plain',OPS[0],None) for o in orders for f in ('MSG','JAM')]+[(o,f,st,op,p) for o in (('lim','free','net','loc'),('net','def','lim','pass','loc')) for f in ('MSG','JAM') for st in ('plain','lower','indent') for op in OPS for p in (None,'*','LIM.*','lim.a','*.B','L*','FREE.?','?IM.B','LIM','LIM.AA','')])
    ck.finish()
if __name__=='__main__': main()
