"""C06: netmail routing: first matching rule, next hop, flavour."""
import _boot,itertools,subprocess
import world; from world import *
from harness import *; from emodel import *; import nmodel
NL='''Zone,2,Europe,x,y,z,300
Region,20,Sweden,x,y,z,300
,11,Indep,x,y,z,300
Host,200,Net,x,y,z,300
,20,N,x,y,z,300
,108,Me,x,y,z,300
Hub,100,H,x,y,z,300
,207,N,x,y,z,300
Pvt,208,N,x,y,z,300
Host,201,Net,x,y,z,300
,128,N,x,y,z,300
,274,N,x,y,z,300
Region,21,Other,x,y,z,300
Host,205,Net,x,y,z,300
Hub,300,H,x,y,z,300
,301,N,x,y,z,300
Zone,3,Oceania,x,y,z,300
Host,300,Net,x,y,z,300
,1,N,x,y,z,300
'''.replace('\n','\r\n')
DESTS=['2:200/207','2:200/207.5','2:200/100','2:200/0','2:200/20','2:200/208','2:201/274','2:201/274.3','2:2/0','2:20/0','2:20/11','2:205/301','2:205/300','2:2000/1','2:200/9999','3:300/1','3:300/1.2','3:301/7','1:5/20','2:200/108.7','2:21/0','3:200/207','1:200/100']
PATS=['*:*/*.*','*','2:200/207.*','2:200/207','2:200/2*.*','2:200/2?.*','2:*/*.0','2:*/*.*','*:*/*.0','ZONE 2','zone 3','REGION 2:20','REGION 2:2*','REGION *:*','NET 2:200','NET 2:20?','HUB 2:200/100','HUB 2:*/0','HUB 2:205/300','NODE 2:200/207','NODE 2:200/*','3:300/1.0','2:200/207.?','?:*/*.*']
DPATS=['*:*/*.*','*:*/*.0','*:*/0.0','2:200/100','2:201/128.0','2:*/100.0','3:300/1.?','ZONE','REGION','NET','HUB','NODE','node','*:200/207.5']
AKAS=['2:200/108','1:1/1']
ZONES={'out':2,'out.001':1,'out.003':3}
NODES=[Node('2:200/100',('PACKNETMAIL',)),Node('2:200/207.5',pw='PW'),Node('2:201/128',('PACKNETMAIL','CRASH')),Node('2:200/0',pktfrom='1:1/1'),Node('3:300/1'),Node('2:200/207',('PACKNETMAIL','HOLD'))]
def nodemap(): return {n.addr:n for n in NODES}
LATT=[0,CRASH,HOLD,FATT,CRASH|HOLD,CRASH|FATT,HOLD|FATT]
def ltype(at,noda):
    if at&HOLD: return 'hold'
    if at&CRASH: return 'crash'
    if at&FATT and not noda: return 'direct'
    return 'normal'
NLDIR=None
def mkworld(routes,changes,noda,usenl):
    cfg=Cfg([Aka(a) for a in AKAS],NODES,[Area('NET','2:200/108',('MSG','areas/net'),kind='NETMAIL'),Area('BAD','2:200/108',('MSG','areas/bad'))],
        opts=(['NODIRECTATTACH'] if noda else []),routes=['"%s" "%s" %s'%r for r in routes],
        tail=''.join('CHANGE %s "%s" %s\n'%c for c in changes)+'FILEATTACH "*:*/*.*"\n')
    t=cfg.text()
    if usenl: t='NODELIST "%s" CMNL\n'%NLDIR+t
    return cfg,World(t)
def case(c):
    routes,changes,noda,usenl,local=c
    nl=nmodel.Nodelist(NL) if usenl else None
    cfg,w=mkworld(routes,changes,noda,usenl); tag='routes %r changes %r%s%s: '%(routes,changes,' NODIRECTATTACH' if noda else '','' if usenl else ' (no nodelist)')
    exp={};badexp={};n=0;nt=set()
    with w:
        ms=[]
        def body(d,o,mid):
            b=b'\1INTL %s %s\r'%(S(d,False).encode(),S(o,False).encode())
            if d.p: b+=b'\1TOPT %d\r'%d.p
            if o.p: b+=b'\1FMPT %d\r'%o.p
            return b+b'\1MSGID: %s\rText %s\r'%(mid.encode(),mid.encode())
        def expect(mid,d,o,typ,at,subj,body,frm):
            h=nmodel.netmail_hop(routes,changes,nodemap(),d,typ,nl)
            if h is None: badexp[mid]=(d,body)
            else:
                hop,t,aka=h; nd=nodemap().get(hop); kind='netmail';fl=t
                if t=='packed': kind='pkt'; fl=nd.flavour()
                exp[mid]=(hop,kind,fl,A(aka) if not(nd and nd.pktfrom) else nd.pktfrom,aka,d,o,at,subj,body,frm)
                nt.add((S(hop),kind,fl))
        o=A('1:77/1.3')
        for i,ds in enumerate(DESTS):
            for at in ((0,PVT|CRASH,HOLD,FATT) if local else (PVT,CRASH|HOLD)):
                d=A(ds); mid='t%d.%d'%(i,at); n+=1; b=body(d,o,mid)
                subj=b'none%s.zip'%mid.encode() if at&FATT else b'Subject'
                ms.append(Msg((o.n,o.f),(d.n,d.f),attr=at|LOCAL|SENT|TRANSIT,to=b'Someone',frm=b'Sender',subj=subj,body=b))
                expect(mid,d,o,'direct' if at&FATT and not noda else 'normal',at&(PVT|FATT),subj,b,'t')
                if at&FATT: w.write('in/none%s.zip'%mid,mid)
        w.inbound(mkpkt(A('1:5/20'),A('1:1/1'),ms))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-200:]))
        if local:
            os.mkdir(w.p('areas/net')); k=2; o=A('2:200/108')
            for i,ds in enumerate(DESTS):
                for at in LATT:
                    d=A(ds); mid='l%d.%d'%(i,at); n+=1; b=body(d,o,mid); subj=b'f%s.zip'%mid.encode() if at&FATT else b'Subject'
                    if at&FATT: w.write('f%s.zip'%mid,mid)
                    w.write('areas/net/%d.msg'%k,mkmsg(b'Local',b'Someone',subj,attr=at|LOCAL,text=b,orig=o,dest=d)); k+=1
                    expect(mid,d,o,ltype(at,noda),at,subj,b,'l')
            r=w.cm('SCAN')
            if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-200:]))
        files={};got={}
        items,prob=outbound(w,ZONES)
        if prob: raise Violation(tag+'; '.join(prob[:3]))
        for it in items:
            if it.kind=='file': files.setdefault(os.path.basename(it.name),[]).append((it.dest,it.flavour,it.name,it.pre)); continue
            for p in it.pkts:
                if p.dest!=it.dest: raise Violation(tag+'packet for %s in the queue of %s'%(S(p.dest),S(it.dest)))
                nd=nodemap().get(p.dest)
                if p.pw!=(nd.pw.encode() if nd else b''): raise Violation(tag+'packet password %r for %s'%(p.pw,S(p.dest)))
                for m in p.msgs:
                    mid=m.body.split(b'MSGID: ')[1].split(b'\r')[0].decode(); got.setdefault(mid,[]).append((it.dest,it.kind,it.flavour,p.orig,m))
        for mid in set(got)|set(exp):
            g=got.get(mid,[]); e=exp.get(mid)
            if e is None: raise Violation(tag+'message %s to %s has no route but was queued for %s'%(mid,S(badexp[mid][0]),S(g[0][0])))
            ds='message to %s (%s, attr %x)'%(S(e[5]),{'t':'transit','l':'local'}[e[10]],e[7])
            if len(g)!=1: raise Violation(tag+'%s queued %d times, expected once for %s'%(ds,len(g),S(e[0])))
            g=g[0]
            if g[:3]!=e[:3]: raise Violation(tag+'%s queued for %s as %s/%s, expected %s %s/%s'%(ds,S(g[0]),g[1],g[2],S(e[0]),e[1],e[2]))
            if g[3]!=e[3]: raise Violation(tag+'%s in a packet from %s, expected %s'%(ds,S(g[3]),S(e[3])))
            m=g[4]
            if (m.orig,m.dest)!=((e[6].n,e[6].f),(e[5].n,e[5].f)): raise Violation(tag+'%s: header addresses %r %r'%(ds,m.orig,m.dest))
            if m.attr!=e[7]: raise Violation(tag+'%s: attributes %x expected %x'%(ds,m.attr,e[7]))
            if m.subj!=e[8]: raise Violation(tag+'%s: subject %r expected %r'%(ds,m.subj,e[8]))
            if not m.body.startswith(e[9]): raise Violation(tag+'%s: text changed: %r'%(ds,m.body))
            rest=m.body[len(e[9]):]
            if rest.count(b'\r')!=1 or not rest.startswith(tuple(b'\1Via '+S(A(e[4]),x).encode()+b' @' for x in ((True,) if A(e[4]).p else (True,False)))) or not rest.endswith(b'\r'): raise Violation(tag+'%s: Via line %r'%(ds,rest))
            if e[7]&FATT:
                f=files.get(e[8].decode(),[]); fl=e[2]
                if len(f)!=1 or f[0][0]!=e[0] or f[0][3]!='^' or w.read(f[0][2])!=mid.encode(): raise Violation(tag+'%s: attached file queued as %r'%(ds,f))
                if e[1]=='netmail' and f[0][1]!=fl: raise Violation(tag+'%s: attached file in %s flow file, expected %s'%(ds,f[0][1],fl))
        bad={}
        for k,m in read_msgdir(w.p('areas/bad')).items():
            if k<2: continue
            mid=m.text.split(b'MSGID: ')[1].split(b'\r')[0].decode()
            if mid in bad: raise Violation(tag+'%s twice in BAD'%mid)
            bad[mid]=m
        if set(bad)!=set(badexp): raise Violation(tag+'BAD: difference %r'%sorted(set(bad)^set(badexp))[:4])
        for mid,(d,b) in badexp.items():
            t=bad[mid].text
            if b'ERROR:No routing for destination node\r' not in t or not any(b'DEST:'+S(d,x).encode()+b'\r' in t for x in ((True,) if d.p else (True,False))) or b'Text %s\r'%mid.encode() not in t: raise Violation(tag+'BAD copy of %s: %r'%(mid,t[:200]))
        if w.ls('in') and not (local and badexp): raise Violation(tag+'left in inbound: %r'%w.ls('in')[:4])
        if any(k>1 and not k<2 for k in read_msgdir(w.p('areas/net'))) and not local: raise Violation(tag+'netmail imported')
    return dict(evaluations=n,nontrivial=[(c[0],c[1],x) for x in nt],states=n,transitions=n,sample=dict(routes=repr(routes),hops=sorted(map(repr,nt))[:4]) if len(nt)>4 else None)
def main():
    global NLDIR
    ck=Check('C06','exploration','23 destinations x transit/local attribute combinations for: every (pattern, destination pattern) single rule, every ordered pair of patterns with distinguishable hops, every ordered triple of a reduced rule set, every CHANGE table of up to two lines, with/without nodelist and NODIRECTATTACH; non-trivial = distinct (tables, hop, class)')
    world.init()
    NLDIR=tempfile.mkdtemp(prefix='cmnl.',dir=scratchroot())
    try:
        open(NLDIR+'/nodelist.100','w',newline='').write(NL); open(NLDIR+'/cmnodelist.prefs','w').write('nodelist\n')
        subprocess.run([os.path.join(BIN['plain'] if isinstance(BIN,dict) else BIN,'crashlist'),NLDIR],check=True,stdout=subprocess.DEVNULL,timeout=60)
        R=lambda p,d,i=0: (p,d,AKAS[i%2])
        cs=[]
        for u in (True,False):
            for p in PATS:
                for d in DPATS:
                    if not u and (p.upper().startswith(('REGION','HUB')) or d in ('REGION','HUB')): continue   # documented to need a nodelist
                    if not u and not thorough() and d not in ('*:*/*.*','ZONE'): continue
                    cs.append(((R(p,d,len(d)),),(),False,u,thorough() or d in ('2:200/100','HUB','NODE')))
        for p,q in itertools.permutations(PATS,2): cs.append(((R(p,'3:300/1',0),R(q,'2:201/128.0',1)),(),False,True,False))
        T=PATS if thorough() else ['*:*/*.*','2:200/2*.*','REGION 2:20','NET 2:20?','HUB 2:200/100','NODE 2:200/207','2:*/*.0','zone 3']
        for t in itertools.permutations(T,3): cs.append(((R(t[0],'3:300/1',0),R(t[1],'2:201/128.0',1),R(t[2],'*:*/*.*',0)),(),False,True,False))
        ck.explore('routes',case,cs,chunk=8)
        CH=[(o,p,n) for o in ('*','NORMAL','CRASH','Hold,Direct','Direct','Normal,Crash') for p in ('*:*/*.*','2:200/207.*','ZONE 3','2:200/100') for n in ('NORMAL','CRASH','HOLD','DIRECT')]
        C1=[(o,p,n) for o in ('*','NORMAL','CRASH') for p in ('*:*/*.*','2:200/207.*','2:200/100') for n in ('Crash','hold')]
        RT=[(('2:200/207.*','*:*/*.*',AKAS[0]),('NET 2:200','2:200/100',AKAS[0]),('*:*/*.*','*:*/*.*',AKAS[1]))]
        cs=[(RT[0],(a,),nd,True,True) for a in CH for nd in (False,True)]
        cs+=[(RT[0],(a,b),False,True,True) for a,b in itertools.product(CH if thorough() else C1,repeat=2) if a!=b]
        ck.explore('changes',case,cs,chunk=2)
    finally: shutil.rmtree(NLDIR,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
