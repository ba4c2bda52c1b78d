"""C02: SEEN-BY and PATH on every forwarded copy."""
import _boot,itertools
import world; from world import *
from harness import *; from emodel import *
from c01 import observe
NODES=[('1:1/10',()),('1:1/20',()),('1:1/21',('NOSEENBY',)),('1:1/22',('TINYSEENBY',)),('1:1/23',('PASSIVE',)),('1:2/5',()),('2:5/20',()),('1:1/10.7',()),('1:1/24',()),('1:1/25',('NOSEENBY','TINYSEENBY')),('2:6/1',()),('2:5/21',('NOSEENBY',))]
LINKFLAG={'1:1/24':'@','1:2/5':'!'}
OWN=['1:1/1','2:5/1','1:1/1.9','1:30000/1']
ADDREM=[((),()),(('1/77','3/3'),()),((),('1/20',)),((),('1/*',)),((),('1?/*','5/2*')),(('1/20',),('*/*',)),((),('1/1','2/5')),(('1/1',),('*/1*',)),((),('20','1/3?')),(('3/3',),('*',))]
def fmt2d(lst,style):
    """-> list of lines (bytes, without prefix)"""
    out=[];cur='';last=None
    for n,f in lst:
        t='%d/%d'%(n,f) if style=='full' or n!=last or cur=='' else '%d'%f
        if cur and (style=='one' or len(cur)+1+len(t)>68): out.append(cur); cur='%d/%d'%(n,f)
        else: cur=(cur+' '+t) if cur else t
        last=n
    if cur: out.append(cur)
    return [x.encode() for x in out]
def sblists(th):
    """seen-by lists: every length up to a bound in several digit shapes (hits every wrap column and the 50-entry blocks)"""
    L=[]
    top=112 if not th else 260
    for n in range(0,top):
        L.append([(1,100+i) for i in range(n)])                 # same net, 3 digits
        if n<=60 or 97<=n<=104 or 150<=n<=152 or 198<=n<=204 or th:
            L.append([(100+i,7) for i in range(n)])             # every entry a new net
            L.append([(1,2+i) for i in range(n)])
            L.append([(60000+i,60000+i) for i in range(n)])
            L.append([(1+(i//3),(i*7919)%65536) for i in range(n)])
            L.append([(1,(i*7919)%65536) for i in range(n)][::-1])  # unsorted
    for k in range(0,4):
        for c in itertools.product([(1,1),(1,10),(1,20),(1,23),(2,5),(5,20),(0,5),(1,0)],repeat=k): 
            if k<3 or th or len(set(c))<3: L.append(list(c))    # small lists incl. duplicates, own node, links
    return L
def paths(own,th):
    o=A(own); me=(o.n,o.f,o.p); P=[[]]
    for k in (1,2,3):
        for c in itertools.product([me,(o.n,9,0),(7,7,0),(o.n,o.f,3),(o.n,9,2)],repeat=k):
            P.append([list(c)])
    # single last line of every length, last net equal or different
    for n in range(1,14):
        for w in (1,22,333,4444,55555):
            P.append([[(1000+i,w,0) for i in range(n)]]); P.append([[(o.n,w,0) for i in range(n)]]); P.append([[(1000+i,w,0) for i in range(n-1)]+[me]])
    # many lines: blocks of 10
    for nl in list(range(2,24)):
        P.append([[(100+i,i+1,0)] for i in range(nl)]); P.append([[(100+i,i+1,0)] for i in range(nl-1)]+[[(o.n,40000+k,0) for k in range(9)]])
    # total length sweep
    for extra in range(0,12):
        P.append([[(11111,22222,0)]*5+[(10**(extra%5) if extra<5 else 1,10**(extra%5),0)]])
    return P
def pathlines(P):
    out=[]
    for line in P:
        last=None;t=[]
        for n,f,p in line:
            s='%d/%d'%(n,f) if n!=last else '%d'%f
            if p: s+='.%d'%p
            last=n; t.append(s)
        l=' '.join(t)
        if len(l)<=73: out.append(l.encode())
    return out
def case(c):
    own,sender,ar,opts,what,th=c
    add,rem=ADDREM[ar]
    akas=[Aka('1:1/1'),Aka('2:5/1'),Aka('1:1/1.9'),Aka('1:30000/1')]
    for a in akas:
        if S(a.addr,a.addr.p!=0)==own: a.add=list(add); a.rem=list(rem)
    links=[(a,LINKFLAG.get(a,'')) for a,_ in NODES]
    cfg=Cfg(akas,[Node(a,f) for a,f in NODES],[Area('BAD',own,('JAM','areas/bad')),Area('AREA.ONE',own,None,links)],opts=opts)
    area=cfg.areas[1]; o=A(sender); exp=[]; msgs=[]
    combos=[]
    if what=='sb':
        for i,l in enumerate(sblists(th)):
            st=('full','short','one')[i%3] if len(l)>5 else 'short'
            combos.append((l,[[(7,7,0)]],st))
            if len(l)<=5: combos.append((l,[],'full'))
    else: combos=[([(1,20),(1,55)],p,'short') for p in paths(own,th)]
    for i,(sb,P,st) in enumerate(combos):
        text=b'\x01MSGID: m%d\rBody %d\r--- t\r * Origin: x (1:1/10)\r'%(i,i)
        pl=pathlines(P)
        b=b'AREA:AREA.ONE\r'+text+b''.join(b'SEEN-BY: '+x+b'\r' for x in fmt2d(sb,st))+b''.join(b'\x01PATH: '+x+b'\r' for x in pl)
        path=[e for x in pl for e in parse2dpath(x)]
        v,rec,full,pth=toss_echo(cfg,o,area,sb,path)
        exp.append((text,rec,full,pth,sb)); msgs.append(Msg((o.n,o.f),(1,1),body=b))
    desc='own %s sender %s add=%r rem=%r opts=%r: '%(own,sender,add,rem,opts)
    nt=set()
    with World(cfg.text()) as w:
        w.inbound(mkpkt(o,A('1:1/1'),msgs))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(desc+'TOSS exit %r'%r.rc)
        got,prob=observe(w,cfg)
        if prob: raise Violation(desc+'; '.join(prob[:3]))
        for i,(text,rec,full,pth,sb) in enumerate(exp):
            mid=b'm%d'%i
            for d in rec:
                g=got.get(d,{}).get(mid,[])
                t=desc+'message %d seen-by %r -> %s: '%(i,sb if len(sb)<8 else '%d entries'%len(sb),S(d))
                if len(g)!=1: raise Violation(t+'%d copies'%len(g))
                e=g[0]; want=sb_for(cfg,area,d,full)
                if e.seenby!=want: 
                    raise Violation(t+'SEEN-BY %r expected %r'%((e.seenby,want) if len(want)<12 and len(e.seenby)<12 else ('missing %r extra %r unsorted %s n=%d'%(sorted(set(want)-set(e.seenby))[:5],sorted(set(e.seenby)-set(want))[:5],e.seenby!=sorted(e.seenby),len(e.seenby)),'%d entries'%len(want))))
                if e.path!=pth: raise Violation(t+'PATH %r expected %r'%(e.path,pth))
                if e.text!=text: raise Violation(t+'text altered: %r'%e.text)
                if e.msg.body!=b'AREA:AREA.ONE\r'+text+b''.join(e.sblines)+b''.join(e.pathlines): raise Violation(t+'line order')
                if any(len(l)>81 for l in e.sblines+e.pathlines): raise Violation(t+'overlong control line %r'%max(e.sblines+e.pathlines,key=len))
                nt.add((len(want),len(pth),len(e.sblines)))
    return dict(evaluations=len(exp),nontrivial=[(c[:5],)+x for x in nt],states=len(exp),transitions=len(exp),sample=dict(case=repr(c[:5]),messages=len(exp)))
def main():
    ck=Check('C02','exploration','every SEEN-BY list of the families (all lengths to the bound x digit/net shapes, all small lists over own/link/foreign addresses with duplicates) and every PATH shape (all 0..3-entry paths over own/same net/other net/point, line lengths and line counts across all block boundaries) x own address kind x sender zone x ADDNODE/REMNODE sets x PATH3D; non-trivial = distinct (configuration, result length, line count)')
    world.init(); cases=[]
    for own in OWN:
        for sender in ('1:1/10','2:5/20','1:1/10.7'):
            for ar in range(len(ADDREM)):
                for opts in ((),('PATH3D',)):
                    for what in ('sb','path'):
                        if not thorough():
                            if what=='sb' and opts: continue
                            if what=='path' and ar>0: continue
                            if what=='sb' and sender=='1:1/10.7' and ar: continue
                            if what=='sb' and own in ('1:1/1.9','1:30000/1') and ar not in (0,4): continue
                        cases.append((own,sender,ar,opts,what,thorough()))
    ck.explore('seenby-path',case,cases); ck.finish()
if __name__=='__main__': main()
