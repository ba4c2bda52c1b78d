"""C01: recipients of echomail are exact, for all link/flag/seen-by combinations and message successions."""
import _boot,itertools
import world; from world import *
from harness import *; from emodel import *
AKA1='1:1/1'
def seq2(k):
    """sequence over range(k) containing every ordered pair (i,j) as neighbours (de Bruijn B(k,2) + wrap)"""
    out=[];a=[0]*(k*2)
    def db(t,p):
        if t>2:
            if 2%p==0: out.extend(a[1:p+1])
        else:
            a[t]=a[t-p]; db(t+1,p)
            for j in range(a[t-p]+1,k): a[t]=j; db(t+1,t)
    db(1,1); return out+out[:1]
def mkcfg(third,links,nflags,opts,own=AKA1,own2='2:5/1',a2=('IGNORESEENBY',),kind='JAM'):
    addrs=['1:1/10','1:1/20',third]
    nodes=[Node(a,f) for a,f in zip(addrs,nflags)]+[Node('1:1/99')]
    l=[(a,f) for a,f in zip(addrs,links) if f is not None]
    areas=[Area('BAD',own,('JAM','areas/bad'),kind='AREA'),
           Area('AREA.ONE',own,(kind,'areas/one'),l),
           Area('AREA.TWO',own,None,l[::-1],opts=a2),
           Area('OTHER',own,('JAM','areas/other'),[('1:1/99','')])]
    return Cfg([Aka(AKA1),Aka(own2)]+([Aka(own)] if own not in (AKA1,own2) else []),nodes,areas,opts=opts)
# message kinds: (area, seen-by selection, rescanned)
def kinds(third):
    t=A(third)
    sb={0:[],1:[(1,10)],2:[(1,20),(5,5)],3:[(1,10),(1,20),(t.n,t.f)],4:[(t.n,t.f)]}
    K=[('AREA.ONE',sb[i],False) for i in range(5)]+[('area.two',sb[i],False) for i in (0,3)]+[('AREA.ONE',sb[0],True)]
    return K
def body(area,mid,sb,path,resc,text=b'Hello\r'):
    b=b'AREA:'+area.encode()+b'\r\x01MSGID: '+mid+b'\r'
    if resc: b+=b'\x01RESCANNED 1:1/20\r'
    b+=text+b'--- x\r * Origin: o (1:1/20)\r'
    if sb: b+=b'SEEN-BY: '+b' '.join(b'%d/%d'%x for x in sb)+b'\r'
    if path: b+=b'\x01PATH: '+b' '.join(b'%d/%d'%x for x in path)+b'\r'
    return b
def observe(w,cfg):
    """-> {(dest addr): {msgid: [Echo]}} , problems"""
    items,prob=outbound(w,cfg.zones()); out={}
    for it in items:
        for p in it.pkts:
            if p.dest!=it.dest: prob.append('packet for %s in queue of %s'%(S(p.dest),S(it.dest)))
            for m in p.msgs:
                e=parse_echo(m.body)
                if e is None: prob.append('not echomail'); continue
                e.msg=m; e.pkt=p; e.item=it
                mid=[l for l in e.rest if l.startswith(b'\1MSGID: ')][0][8:-1]
                out.setdefault(it.dest,{}).setdefault(mid,[]).append(e)
    return out,prob
def imported(w,area):
    c={}
    if area.base is None: return c
    if area.base[0]=='MSG':
        for m in read_msgdir(w.p(area.base[1])).values():
            if m.num==1 and b'MSGID' not in m.text: continue
            mid=m.text.split(b'\1MSGID: ')[1].split(b'\r')[0]; c[mid]=c.get(mid,0)+1
        return c
    if not w.exists(area.base[1]+'.jhr'): return c
    for m in read_jam(w.p(area.base[1])).msgs:
        mid=jamfield(m,4)
        if mid is None: mid=m.text.split(b'MSGID: ')[1].split(b'\r')[0]
        c[mid]=c.get(mid,0)+1
    return c
def case(c):
    third,links,nflags,opts,kind,packs,own=c
    cfg=mkcfg(third,links,nflags,opts,own=own,kind=kind)
    K=kinds(third); seq=seq2(len(K)); exp={}; imp={'AREA.ONE':{},'BAD':{}}; n=0; nt=set()
    with World(cfg.text()) as w:
        senders=[a for a,f in zip(['1:1/10','1:1/20',third],links) if f is not None]
        for si,snd in enumerate(senders):
            msgs=[]; o=A(snd)
            for i,k in enumerate(seq):
                area,sb,resc=K[k]; mid=b'%d.%d'%(si,i)
                ar=cfg.area(area)
                v,rec,_,_=toss_echo(cfg,o,ar,sb,[],resc); n+=1
                msgs.append(Msg((o.n,o.f),(1,1),body=body(area,mid,sb,[],resc)))
                if v=='ok':
                    nt.add((si,k,len(rec)))
                    for r in rec: exp.setdefault(r,{})[mid]=1
                    if ar.base: imp[ar.tag][mid]=1
                else: imp['BAD'][mid]=1
            if packs==1: w.inbound(mkpkt(o,A(AKA1),msgs))
            else:
                h=len(msgs)//2; w.inbound(mkpkt(o,A(AKA1),msgs[:h])); w.inbound(mkpkt(o,A(AKA1),msgs[h:]))
        r=w.cm('TOSS')
        desc='config third=%s links=%r flags=%r opts=%r base=%s area aka=%s: '%(third,links,nflags,opts,kind,own)
        if r.rc!=0: raise Violation(desc+'crashmail TOSS exit %r'%r.rc)
        got,prob=observe(w,cfg)
        if prob: raise Violation(desc+'; '.join(prob[:4]))
        for d in set(exp)|set(got):
            e=exp.get(d,{}); g={k:len(v) for k,v in got.get(d,{}).items()}
            if e!=g:
                bad=[(m,e.get(m,0),g.get(m,0)) for m in sorted(set(e)|set(g)) if e.get(m,0)!=g.get(m,0)][0]
                si,i=map(int,bad[0].split(b'.')); k=K[seq[i]]; pk=K[seq[i-1]] if i else None
                raise Violation(desc+'message (area %s, seen-by %r, rescanned %s) from %s (previous message %r): %d copies queued for %s, expected %d'%(k[0],k[1],k[2],senders[si],pk,bad[2],S(d),bad[1]))
        for tag,e in imp.items():
            g=imported(w,cfg.area(tag))
            if g!=e:
                bad=[(m,e.get(m,0),g.get(m,0)) for m in sorted(set(e)|set(g)) if e.get(m,0)!=g.get(m,0)][0]
                raise Violation(desc+'message %r stored %d times in %s, expected %d'%(bad[0],bad[2],tag,bad[1]))
        if w.ls('in'): raise Violation(desc+'inbound not empty: %r'%w.ls('in'))
    return dict(evaluations=n,nontrivial=[(c,x) for x in nt],states=len(nt),transitions=n,sample=dict(config=repr(c),messages=n,kinds=len(K)) if hash(repr(c))%50==0 else None)
def longsb(c):
    """link at every position of a SEEN-BY list of n entries, in three layouts"""
    n,layout,third=c; cfg=mkcfg(third,('','',''),((),(),()),('CHECKSEENBY',)); exp={};N=0
    with World(cfg.text()) as w:
        msgs=[];o=A('1:1/10')
        for pos in range(n+1):
            for who in ('1:1/20',third):
                a=A(who); sb=[(1 if i<n//2 else 7,1000+i) for i in range(n)]; sb.insert(pos,(a.n,a.f)); mid=b'%d.%s'%(pos,who.encode())
                v,rec,_,_=toss_echo(cfg,o,cfg.area('AREA.ONE'),sb,[],False); N+=1
                for r in rec: exp.setdefault(r,{})[mid]=1
                per={'one':1,'eight':8,'net':14}[layout]; L=b''
                for i in range(0,len(sb),per):
                    L+=b'SEEN-BY:'; net=None
                    for x in sb[i:i+per]:
                        L+=b' %d'%x[1] if layout=='net' and x[0]==net else b' %d/%d'%x
                        net=x[0]
                    L+=b'\r'
                msgs.append(Msg((o.n,o.f),(1,1),body=b'AREA:AREA.ONE\r\1MSGID: '+mid+b'\rHello\r'+L+b'\1PATH: 1/10\r'))
        w.inbound(mkpkt(o,A(AKA1),msgs)); r=w.cm('TOSS')
        if r.rc!=0: raise Violation('long seen-by: exit %r'%r.rc)
        got,prob=observe(w,cfg)
        if prob: raise Violation('; '.join(prob[:3]))
        for d in set(exp)|set(got):
            e=exp.get(d,{}); g={k:len(v) for k,v in got.get(d,{}).items()}
            if e!=g:
                m=sorted(x for x in set(e)|set(g) if e.get(x,0)!=g.get(x,0))[0]
                raise Violation('SEEN-BY of %d entries (layout %s), listed link %s at position %s: %d copies queued for %s, expected %d'%(n+1,layout,m.split(b'.',1)[1].decode(),m.split(b'.')[0].decode(),g.get(m,0),S(d),e.get(m,0)))
    return dict(evaluations=N,nontrivial=[(c,N)],states=N,transitions=N)
def wide(c):
    """areas of every number of links 1..n (some with colliding net/node numbers in other zones, points), tags that are prefixes of each other, mixed case"""
    n,order,case_=c
    addrs=['%d:%d/%d%s'%(z,1,100+i,p) for i in range(n) for z,p in ((1,''),(2,''),(1,'.3'))]
    nodes=[Node(a) for a in addrs]+[Node('1:1/20')]
    tags=['T'+'X'*i for i in range(min(n,12))]+['T.%d'%i for i in range(n)]
    areas=[]
    for i,t in enumerate(tags):
        L=[addrs[j] for j in range(len(addrs)) if (j+i)%(i%3+1)==0]
        if order=='rev': L=L[::-1]
        areas.append(Area(t,AKA1,('JAM','areas/a%d'%i) if i%2 else None,[('1:1/20','')]+[(a,['','@','%','!'][(i+k)%4] if i%5==4 else '') for k,a in enumerate(L)]))
    if order=='rev': areas=areas[::-1]
    cfg=Cfg([Aka(AKA1),Aka('2:5/1')],nodes,[Area('BAD',AKA1,('JAM','areas/bad'))]+areas,opts=('CHECKSEENBY',)); exp={};imp={};o=A('1:1/20');msgs=[];N=0
    with World(cfg.text()) as w:
        for rep in range(2):
            for t in tags:
                mid=b'%d.%s'%(rep,t.encode()); ar=cfg.area(t); sb=[(1,100+rep)]
                v,rec,_,_=toss_echo(cfg,o,ar,sb,[],False); N+=1
                for r in rec: exp.setdefault(r,{})[mid]=1
                if ar.base: imp.setdefault(t,{})[mid]=1
                tt=t.lower() if case_ else t
                msgs.append(Msg((o.n,o.f),(1,1),body=body(tt,mid,sb,[],False)))
        w.inbound(mkpkt(o,A(AKA1),msgs)); r=w.cm('TOSS')
        if r.rc!=0: raise Violation('wide: exit %r'%r.rc)
        got,prob=observe(w,cfg)
        if prob: raise Violation('; '.join(prob[:3]))
        for d in set(exp)|set(got):
            e=exp.get(d,{}); g={k:len(v) for k,v in got.get(d,{}).items()}
            if e!=g:
                m=sorted(x for x in set(e)|set(g) if e.get(x,0)!=g.get(x,0))[0]
                raise Violation('%d areas with up to %d links (%s): message of area %s: %d copies queued for %s, expected %d'%(len(tags),len(addrs),order,m.split(b'.',1)[1].decode(),g.get(m,0),S(d),e.get(m,0)))
        for t in tags:
            if imported(w,cfg.area(t))!=imp.get(t,{}): raise Violation('%d areas: area %s holds %r, expected %r'%(len(tags),t,imported(w,cfg.area(t)),imp.get(t,{})))
        if w.exists('areas/bad.jhr') and read_jam(w.p('areas/bad')).msgs: raise Violation('messages of known areas in BAD')
    return dict(evaluations=N,nontrivial=[(c,len(tags))],states=N,transitions=N)
def main():
    ck=Check('C01','exploration','every configuration of three links (flag none/read-only/write-only/feed/absent x node active/passive x third link same zone, other zone or point) times every ordered pair of message kinds (area, seen-by subset, rescanned) from every linked sender; non-trivial = distinct (configuration, sender, kind, recipient count) of accepted messages',
        ['time, directory order and sleeping are owned by a preload shim','three own addresses (same zone, other zone, point) as area address; packets are well formed'])
    world.init()
    LF=[None,'','!','@','%']; NF=[(),('PASSIVE',)]
    th=['1:1/30','2:5/20','1:1/10.7']
    cases=[]
    for third in th:
        for opts in ((),('CHECKSEENBY',)):
            for links in itertools.product(LF,repeat=3):
                if all(l is None for l in links): continue
                for nf in itertools.product(NF,repeat=3):
                    if any(l is None and f for l,f in zip(links,nf)): continue
                    if not thorough() and sum(1 for x in nf if x)>1: continue
                    for own in (AKA1,'2:5/1','1:1/1.9'):
                        if own!=AKA1 and (not thorough() and (sum(1 for x in nf if x) or third=='1:1/30')): continue
                        cases.append((third,links,nf,opts,'JAM',1,own))
    for third in ('2:1/10','1:2/10','2:1/1'):  # addresses that differ from another link (or us) in one component only
        for opts in ((),('CHECKSEENBY',)):
            for links in itertools.product(LF,repeat=3):
                if all(l is None for l in links): continue
                for own in (AKA1,'2:5/1') if thorough() else (AKA1,): cases.append((third,links,((),(),()),opts,'JAM',1,own))
    for kind,packs in (('MSG',1),('JAM',2)):
        for links in itertools.product(('','@','!') if not thorough() else LF[1:],repeat=3):
            for third in th: cases.append((third,links,((),(),()),('CHECKSEENBY',),kind,packs,AKA1))
    ck.explore('recipients',case,cases,chunk=4)
    ck.explore('long-seenby',longsb,[(n,l,t) for n in pick((3,49,50,51,100,130),tuple(range(1,20))+(48,49,50,51,52,99,100,101,149,150,151,300)) for l in ('one','eight','net') for t in ('1:1/30','1:7/20')])
    ck.explore('many-links',wide,[(n,o,c) for n in pick((1,4,7,17,40),(1,2,3,4,5,6,7,8,12,17,25,40,60,90)) for o in ('fwd','rev') for c in (0,1)])
    ck.finish()
if __name__=='__main__': main()
