"""C20: reply links after tossing, for all small reply graphs, arrival orders and run splits."""
import _boot,itertools
import world; from world import *
from emodel import *
from harness import *
def config(n,mode):
    a=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL')]+[Area('A%d'%i,'1:1/1',('JAM','areas/a%d'%i),[('1:1/10','')]) for i in range(n)]
    return Cfg([Aka('1:1/1')],[Node('1:1/10')],a,tail={'none':'','link':'JAM_LINK\n','quick':'JAM_LINK\nJAM_QUICKLINK\n'}[mode]).text()
def msg(area,k,mid,rep):
    b=b'AREA:A%d\r'%area
    if mid is not None: b+=b'\1MSGID: '+mid+b'\r'
    if rep is not None: b+=b'\1REPLY: '+rep+b'\r'
    return Msg((1,10),(1,1),subj=b'S%d'%k,body=b+b'text %d\r'%k)
def same(m): return (m.num,tuple(m.sub),m.text,m.attr,m.attr2,m.datewritten,m.dateproc,m.datereceived,m.msgidcrc,m.replycrc,m.timesread,m.cost,m.txtoff,m.pwcrc)
def judge(tag,j,quick):
    """links of a base against its MSGID and REPLY fields"""
    M={m.num:m for m in j.msgs}; mid={n:jamfield(m,4) for n,m in M.items()}; rep={n:jamfield(m,5) for n,m in M.items()}
    dupid=len({v for v in mid.values() if v})!=sum(1 for v in mid.values() if v)
    norm=(lambda b: b.lower()) if quick else (lambda b: b)
    par={}
    for n in M:
        c=[p for p in M if rep[n] and mid[p] and norm(mid[p])==norm(rep[n]) and p!=n]
        strict=[p for p in c if mid[p]==rep[n]]
        m=M[n]
        if m.replyto and m.replyto not in c: raise Violation(tag+'message %d is linked as a reply to %d; its parents are %r'%(n,m.replyto,c))
        # a missing link is excused only where it would close a cycle
        if not m.replyto and strict:
            ok=False
            for p in strict:
                q=p; seen=set()
                while q and q not in seen:
                    if q==n: ok=True
                    seen.add(q); q=M[q].replyto if q in M else 0
            if not ok: raise Violation(tag+'message %d is not linked to its parent %r'%(n,strict))
        par[n]=m.replyto
    for n in M:
        q=n; seen=set()
        while q:
            if q in seen: raise Violation(tag+'reply links form a cycle through %d'%q)
            seen.add(q); q=par.get(q,0)
    for n in M:
        kids=[]; q=M[n].reply1st
        while q:
            if q in kids: raise Violation(tag+'chain of replies to %d is circular'%n)
            if q not in M: raise Violation(tag+'chain of replies to %d leads to %d, which does not exist'%(n,q))
            kids.append(q); q=M[q].replynext
        if sorted(kids)!=sorted(k for k in par if par[k]==n): raise Violation(tag+'replies to %d are %r, the chain says %r'%(n,sorted(k for k in par if par[k]==n),kids))
        if M[n].replynext and not par[n]: raise Violation(tag+'message %d has a next reply but is no reply'%n)
def desc(g): return ' '.join('%s<-%s'%(m.decode() if m else '-',r.decode() if r else '-') for m,r in g)
def batch(c):
    """many areas per world: every area one graph; split into runs"""
    graphs,cuts,mode=c; n=len(graphs); ev=0
    R={}
    for md in (mode,'none'):
        w=World(config(n,md))
        try:
            N=max(len(g) for g in graphs)
            bounds=[0]+list(cuts)+[N]
            for x,y in zip(bounds,bounds[1:]):
                P=[msg(a,k,*g[k]) for k in range(x,y) for a,g in enumerate(graphs) if k<len(g)]
                if not P: continue
                w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),P))
                r=w.cm('TOSS')
                if r.rc!=0: raise Violation('exit %r %r'%(r.rc,r.out[-300:]))
            R[md]=[]
            for a,g in enumerate(graphs):
                try: R[md].append(read_jam(w.p('areas/a%d'%a)))
                except PktError as e: raise Violation('%s, runs split %r, %s: %s'%(desc(g),cuts,md,e))
        finally: w.close()
    for g,j,z in zip(graphs,R[mode],R['none']):
        tag='messages (MSGID<-REPLY) %s, runs split %r, %s: '%(desc(g),cuts,mode); ev+=1
        if [same(m) for m in j.msgs]!=[same(m) for m in z.msgs]: raise Violation(tag+'linking changed something else')
        if any(m.replyto or m.reply1st or m.replynext for m in z.msgs): raise Violation(tag+'links without linking enabled')
        if len(j.msgs)!=len(g): raise Violation(tag+'%d messages'%len(j.msgs))
        judge(tag,j,mode=='quick')
    return dict(evaluations=ev,nontrivial=[(g,cuts,mode) for g in graphs],states=ev,transitions=ev*(len(cuts)+1),sample=dict(last=desc(graphs[-1]),cuts=cuts,mode=mode))
IDS=[b'1:1/1 %08x'%i for i in range(8)]
def graphs(N,full):
    """all graphs of N messages: own MSGID (or none), REPLY to none, any message, or an unknown one"""
    reps=[None]+IDS[:N]+[IDS[7]]
    mids=lambda i: [IDS[i]] if not full else [IDS[i],None]
    return [tuple(g) for g in itertools.product(*[[(m,r) for m in mids(i) for r in reps] for i in range(N)])]
def existing(c):
    """new messages arrive in bases made by other programs: holes, any base number, unlinked replies"""
    cases,mode,basenum=c; ev=0; n=len(cases)
    w=World(config(n,mode))
    try:
        old={}
        for a,(slots,new) in enumerate(cases):
            W=JamWriter(basenum=basenum)
            for k,s in enumerate(slots):
                if s is None: W.add(hole=True)
                else: W.add(text=b'text %d\r'%k,attr=JTYPEECHO|JSENT,subj=b'S%d'%k,sub=[(0,b'1:1/1')]+([(4,IDS[k])] if s[0] else [])+([(5,IDS[s[1]])] if s[1] is not None else []))
            W.write(w.p('areas/a%d'%a)); old[a]={m.num:same(m) for m in read_jam(w.p('areas/a%d'%a)).msgs}
        for k in range(max(len(x[1]) for x in cases)):
            P=[msg(a,k,IDS[len(x[0])+k],IDS[x[1][k]] if x[1][k] is not None else None) for a,x in enumerate(cases) if k<len(x[1])]
            w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),P)); r=w.cm('TOSS')
            if r.rc!=0: raise Violation('exit %r %r'%(r.rc,r.out[-300:]))
        for a,(slots,new) in enumerate(cases):
            tag='base from %d with %r, then replies to %r, %s: '%(basenum,slots,new,mode); ev+=1
            try: j=read_jam(w.p('areas/a%d'%a))
            except PktError as e: raise Violation(tag+str(e))
            for m in j.msgs:
                if m.num in old[a] and old[a][m.num]!=same(m): raise Violation(tag+'linking altered message %d'%m.num)
            # only replies that involve a new message must be linked
            new0=basenum+len(slots)
            M={m.num:m for m in j.msgs}
            for m in j.msgs:
                rp=jamfield(m,5); par=[p.num for p in j.msgs if rp and jamfield(p,4)==rp and p.num!=m.num]
                if m.replyto and m.replyto not in par: raise Violation(tag+'message %d linked to %d'%(m.num,m.replyto))
                if par and (m.num>=new0 or par[0]>=new0) and not m.replyto:
                    q=par[0];seen=set(); cyc=False
                    while q and q not in seen: cyc|=q==m.num; seen.add(q); q=M[q].replyto if q in M else 0
                    if not cyc: raise Violation(tag+'message %d is not linked to %r'%(m.num,par))
            for m in j.msgs:
                kids=[];q=m.reply1st
                while q:
                    if q in kids or q not in M: raise Violation(tag+'chain of replies to %d: %r then %d'%(m.num,kids,q))
                    kids.append(q); q=M[q].replynext
                if sorted(kids)!=sorted(x.num for x in j.msgs if x.replyto==m.num): raise Violation(tag+'replies to %d: chain %r'%(m.num,kids))
    finally: w.close()
    return dict(evaluations=ev,nontrivial=[(x,mode,basenum) for x in cases],states=ev,transitions=2*ev,sample=dict(last=repr(cases[-1]),basenum=basenum))
def many(c):
    """one parent with k replies, arriving before or after it"""
    k,pos,mode=c
    g=[(IDS[0],None) if i==pos else (b'1:1/1 r%d'%i,IDS[0]) for i in range(k+1)]
    return batch(((tuple(g),),(pos,) if pos and pos<k else (),mode))
def chunks(l,n): return [tuple(l[i:i+n]) for i in range(0,len(l),n)]
def splits(N): return [tuple(i for i in range(1,N) if m>>(i-1)&1) for m in range(1<<(N-1))]
def main():
    ck=Check('C20','exploration','all graphs of up to 3 messages with or without MSGID and with any REPLY, all graphs of 4 (5) messages with MSGIDs, all splits into runs, both modes; all pairs of ids over the id alphabet; all small existing bases; non-trivial = distinct graph x split x mode')
    world.init(('plain',)); L=thorough()
    cases=[]
    for N in (1,2,3): cases+=[(q,s,m) for m in ('link','quick') for s in splits(N) for q in chunks(graphs(N,True),50)]
    cases+=[(q,s,m) for m in ('link','quick') for s in splits(4) for q in chunks(graphs(4,L),50)]
    if L: cases+=[(q,s,m) for m in ('link','quick') for s in ((),(1,2,3,4),(2,),(4,)) for q in chunks(graphs(5,False),50)]
    ck.explore('graphs',batch,cases)
    al=[b'a',b'A',b'ab',b'a b',b'1:1/1 00000001',b'1:1/1 00000001 ',b'1:1/1  00000001',b'x'*80,b'x'*81,b'x'*199+b'y',b'x'*199+b'z',b'x'*240,None]
    pairs=[((m,None),(n,r)) for m in al for n in (IDS[0],None) for r in al]+[((n,r),(m,None)) for m in al for n in (IDS[0],None) for r in al]
    al2=[b'a',b'b',b'a\r\1MSGID: b',b'b\r\1MSGID: a',b'a\r\1MSGID: a']; rl2=[None,b'a',b'b',b'a\r\1REPLY: b',b'b\r\1REPLY: a']
    pairs+=[((m,None),(n,r)) for m in al2 for n in (IDS[0],b'a\r\1MSGID: b') for r in rl2]+[((n,r),(m,None)) for m in al2 for n in (IDS[0],b'b\r\1MSGID: a') for r in rl2]
    ck.explore('ids',batch,[(q,s,m) for m in ('link','quick') for s in ((),(1,)) for q in chunks(pairs,50)])
    dup=[g for g in itertools.product([(m,r) for m in (IDS[0],IDS[1],None) for r in (None,IDS[0],IDS[1])],repeat=3)]+([g for g in itertools.product([(m,r) for m in (IDS[0],IDS[1]) for r in (None,IDS[0],IDS[1])],repeat=4)] if L else [])
    ck.explore('duplicates',batch,[(q,s,m) for m in ('link','quick') for s in splits(3) for q in chunks(dup,50)])
    sl=[None]+[(h,r) for h in (True,False) for r in (None,0,1,2,3)]
    ex=[(s,nw) for k in (1,2) for s in itertools.product(sl,repeat=k) for nw in [(r,) for r in (None,0,1,2)]+[(0,0),(0,1),(1,0),(3,0)]]
    ck.explore('existing',existing,[(q,m,b) for m in ('link','quick') for b in (1,7,100000) for q in chunks(ex,50)])
    ck.explore('many',many,[(k,p,m) for m in ('link','quick') for k in ((1,5,30,200) if not L else range(1,300,7)) for p in {0,k//2,k}])
    ck.finish()
if __name__=='__main__': main()
