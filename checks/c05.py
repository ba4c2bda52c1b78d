"""C05: duplicate detection is exact over the configured window, over all histories."""
import _boot,itertools,zlib,os
import world; from world import *
from harness import *; from emodel import *
def rgs(n,k):
    """restricted growth strings: all set partitions of n positions into at most k blocks"""
    def rec(p,m):
        if len(p)==n: yield tuple(p); return
        for v in range(min(m+1,k-1)+1):
            yield from rec(p+[v],max(m,v))
    yield from rec([],-1)
def compositions(n):
    for bits in itertools.product((0,1),repeat=n-1):
        out=[];cur=1
        for b in bits:
            if b: out.append(cur); cur=1
            else: cur+=1
        yield tuple(out+[cur])
def _collide():
    """two MSGIDs of equal length with equal CRC-32 (found once by birthday over a fixed deterministic enumeration)"""
    return COLL
# found by a deterministic birthday search; verified at start-up
def find_coll():
    seen={};out=[]
    i=0
    while len(out)<2:
        s=b'1:1/10 %08x'%((i*2654435761)&0xffffffff); c=zlib.crc32(s)
        if c in seen and seen[c]!=s: out.append((seen[c],s))
        seen[c]=s; i+=1
    return out
COLL=None
L=b'1:1/10@'+b'gateway.'*20
FAM={
 'plain':[(b'1:1/10 0000000%d'%i,b'ECHO') for i in range(6)],
 'areas':[(b'1:1/10 deadbeef',b'ECHO'),(b'1:1/10 deadbeef',b'OTHER'),(b'1:1/10 deadbeee',b'ECHO'),(b'1:1/10 deadbeee',b'OTHER'),(b'1:1/10 deadbeef',b'ECHO2'),(b'1:1/10 deadbeee',b'ECHO2')],
 'shape':[(b'1',b'ECHO'),(b'12',b'ECHO'),(b'1'+b'E',b'CHO'),(b'1 2',b'ECHO'),(b'\xe5\xe4\xf6',b'ECHO'),(b'\xe5\xe4\xf7',b'ECHO')],
 'case':[(b'a:1/1 ABC',b'ECHO'),(b'a:1/1 abc',b'ECHO'),(b'A:1/1 abc',b'ECHO'),(b'a:1/1 abd',b'ECHO'),(b'a:1/1  abc',b'ECHO'),(b'a:1/1 abcd',b'ECHO')],
 'long':[(L[:78],b'ECHO'),(L[:79],b'ECHO'),(L[:80],b'ECHO'),(L[:120],b'ECHO'),(L[:160],b'ECHO'),(L[:159]+b'z',b'ECHO')],
}
AREAS=['ECHO','OTHER','ECHO2','CHO']
def mkcfg(N,mode,bad=True,opts={}):
    ar=[Area(t,'1:1/1',('MSG','areas/'+t.lower()),[('1:1/10',''),('1:1/20','')],opts=opts.get(t,())) for t in AREAS]
    if bad: ar.insert(0,Area('BAD','1:1/1',('MSG','areas/bad')))
    ar.insert(0,Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'))
    return Cfg([Aka('1:1/1')],[Node('1:1/10'),Node('1:1/20'),Node('1:1/30')],ar,dupes=('dupes',N,mode))
def mkm(i,key,spell=0):
    mid,area=key
    if spell and i%2: area=area.lower()
    return Msg((1,10),(1,1),body=b'AREA:'+area+b'\r'+(b'\1MSGID: '+mid+b'\r' if mid is not None else b'')+b'Body #%d#\r'%i)
def nums(bodies):
    return [int(b.split(b'Body #')[1].split(b'#')[0]) for b in bodies]
class Ring:
    def __init__(s,N): s.N=N; s.q=[]
    def see(s,key):
        k=(key[0],key[1].upper())
        if k in s.q: return True
        s.q.append(k); s.q=s.q[-s.N:]; return False
def observe(w,cfg,tag,exp_ok,exp_bad,total):
    items,prob=outbound(w,cfg.zones())
    if prob: raise Violation(tag+'; '.join(prob[:3]))
    fw=sorted(n for it in items for p in it.pkts for n in nums(m.body for m in p.msgs))
    st=sorted(n for a in AREAS for n in nums(m.text for k,m in read_msgdir(w.p('areas/'+a.lower())).items() if k>1))
    bm=[m for k,m in read_msgdir(w.p('areas/bad')).items() if k>1]
    bd=sorted(nums(m.text for m in bm))
    if st!=sorted(exp_ok): raise Violation(tag+'messages stored %r, expected %r'%(st,sorted(exp_ok)))
    if fw!=sorted(exp_ok): raise Violation(tag+'messages forwarded %r, expected %r'%(fw,sorted(exp_ok)))
    if bd!=sorted(exp_bad): raise Violation(tag+'messages in BAD %r, expected %r'%(bd,sorted(exp_bad)))
    for m in bm:
        if b'ERROR:Duplicate message\r' not in m.text: raise Violation(tag+'BAD copy without reason: %r'%m.text[:100])
    if w.ls('in'): raise Violation(tag+'inbound left %r'%w.ls('in'))
def seqcase(keys,N,mode,part,tag,spell=0):
    """keys: list of keys in arrival order; part: list of runs, each a list of packets, each a number of messages"""
    cfg=mkcfg(N,mode); ring=Ring(N); ok=[];bad=[];i=0;nt=0
    with World(cfg.text()) as w:
        for run in part:
            for np in run:
                ms=[]
                for _ in range(np):
                    k=keys[i]
                    if k[0] is None or mode=='IGNORE' or not ring.see(k): ok.append(i)
                    else:
                        nt=1
                        if mode=='BAD': bad.append(i)
                    ms.append(mkm(i,k,spell)); i+=1
                w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),ms))
            r=w.cm('TOSS')
            if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        observe(w,cfg,tag,ok,bad,len(keys))
    return len(part),nt
def case_seq(c):
    fam,N,mode,pk,prefix=c
    tr=0;nt=[];ev=0
    keys=FAM[fam] if fam!='coll' else [(a,b'ECHO') for p in find_coll_cached() for a in p]+[(COLL[0][0],b'OTHER'),(COLL[0][1],b'OTHER')]
    n=LEN
    for s in rgs(n,4):
        if s[:4]!=prefix: continue
        if fam!='plain' and max(s)==0: continue
        parts={'one':[[n]],'pkts':[[1]*n],'runs':[[1]]*n,'mix':[[2,1],[1],[n-4]]}[pk]
        for rot in ((0,) if fam=='plain' else (0,2)):
            kk=[keys[(v+rot)%6] for v in s]
            r,x=seqcase(kk,N,mode,parts,'%s N=%d %s %s sequence %r: '%(fam,N,mode,pk,kk),spell=fam=='areas')
            tr+=n; ev+=1
            if x: nt.append((fam,N,mode,pk,s,rot))
    return dict(evaluations=ev,nontrivial=nt,states=ev*(n+1),transitions=tr,sample=dict(case=repr(c)))
def find_coll_cached(): return COLL
def case_comp(c):
    """all ways to split a history into runs"""
    N,s=c; tr=0;nt=[]
    for comp in compositions(len(s)):
        keys=[FAM['plain'][v] for v in s]
        r,x=seqcase(keys,N,'BAD',[[k] for k in comp],'N=%d runs of %r messages, sequence %r: '%(N,comp,s)); tr+=len(s)
        if x: nt.append((N,s,comp))
    return dict(evaluations=len(nt),nontrivial=nt,states=tr,transitions=tr)
def case_resize(c):
    """window size changed between runs: the last N' entries remain known"""
    N1,N2,s=c; keys=[FAM['plain'][v] for v in s]; h=len(s)//2
    cfg1=mkcfg(N1,'BAD'); cfg2=mkcfg(N2,'BAD'); r1=Ring(N1); ok=[];bad=[]
    with World(cfg1.text()) as w:
        for i,k in enumerate(keys):
            if i==h:
                w.write('cm.cfg',cfg2.text()); r1.N=N2; r1.q=r1.q[-N2:]
            (bad if r1.see(k) else ok).append(i)
            w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[mkm(i,k)]))
            r=w.cm('TOSS')
            if r.rc!=0: raise Violation('resize %r: exit %r'%(c,r.rc))
        observe(w,cfg2,'size %d then %d, sequence %r: '%(N1,N2,s),ok,bad,len(s))
    return dict(evaluations=1,nontrivial=[c] if bad else [],states=len(s),transitions=len(s))
SY=('a','b','-','I','r','u','n','R','L')   # a,b keys; '-' no MSGID; I = key a in IGNOREDUPES area; r/u = key a from a read-only / unlinked node; n = netmail with MSGID a; R = key a marked as rescanned (imported, not forwarded); L = local message with key a written here and scanned out
def case_mixed(c):
    mode,s,runs=c
    cfg=mkcfg(2,mode,opts={'OTHER':('IGNOREDUPES',)})
    for a in cfg.areas:
        if a.kind=='AREA' and a.tag!='BAD': a.links.append((A('1:1/30'),'!'))
    cfg.nodes.append(Node('1:1/40'))
    ring=Ring(2); ok=[];bad=[];ref=[];net=[];loc=[]
    tag='mode %s runs %d sequence %s: '%(mode,runs,''.join(s))
    with World(cfg.text()) as w:
        for i,x in enumerate(s):
            ka=(b'1:1/10 aaaa',b'ECHO'); frm='1:1/10'; k=ka
            if x=='b': k=(b'1:1/10 bbbb',b'ECHO')
            if x=='-': k=(None,b'ECHO')
            if x=='I': k=(b'1:1/10 aaaa',b'OTHER')
            if x=='r': frm='1:1/30'
            if x=='u': frm='1:1/40'
            if x=='L':
                os.makedirs(w.p('areas/echo'),exist_ok=True); w.write('areas/echo/%d.msg'%(1000+i),mkmsg(attr=256,text=b'\1MSGID: 1:1/10 aaaa\rBody #%d#\r'%i)); ok.append(i); loc.append(i)
                if w.cm('SCAN').rc!=0: raise Violation(tag+'exit')
                continue
            if x=='n':
                m=Msg((1,10),(1,1),to=b'Sys Op',body=b'\1INTL 1:1/1 1:1/10\r\1MSGID: 1:1/10 aaaa\rBody #%d#\r'%i); net.append(i)
            else:
                m=mkm(i,k)
                if x=='R': m.body=m.body.replace(b'Body #',b'\1RESCANNED 1:1/10\rBody #')
                if x in 'ru': ref.append(i)
                elif x in '-I' or mode=='IGNORE' or not ring.see(k): ok.append(i)
                else: bad.append(i)
            w.inbound(mkpkt(A(frm),A('1:1/1'),[m]))
            if runs:
                if w.cm('TOSS').rc!=0: raise Violation(tag+'exit')
        if not runs and w.cm('TOSS').rc!=0: raise Violation(tag+'exit')
        st=sorted(n for a in AREAS for n in nums(m.text for k,m in read_msgdir(w.p('areas/'+a.lower())).items() if k>1))
        if st!=sorted(ok): raise Violation(tag+'stored %r expected %r'%(st,ok))
        g=[m for k,m in read_msgdir(w.p('areas/bad')).items() if k>1]
        gd=sorted(nums(m.text for m in g if b'ERROR:Duplicate message\r' in m.text)); gr=sorted(nums(m.text for m in g if b'ERROR:Duplicate message\r' not in m.text))
        if gd!=(sorted(bad) if mode=='BAD' else []): raise Violation(tag+'duplicates in BAD %r expected %r'%(gd,bad))
        if gr!=sorted(ref): raise Violation(tag+'refused in BAD %r expected %r'%(gr,ref))
        gn=sorted(nums(m.text for k,m in read_msgdir(w.p('areas/net')).items() if k>1))
        if gn!=net: raise Violation(tag+'netmail %r expected %r'%(gn,net))
        items,prob=outbound(w,cfg.zones())
        if prob: raise Violation(tag+'; '.join(prob[:3]))
        for d in ('1:1/10','1:1/20','1:1/30'):
            fw=sorted(n for it in items if it.dest==A(d) for p in it.pkts for n in nums(m.body for m in p.msgs))
            if fw!=sorted(loc if d=='1:1/10' else [i for i in ok if s[i]!='R']): raise Violation(tag+'forwarded to %s %r expected %r'%(d,fw,ok))
    return dict(evaluations=1,nontrivial=[c] if bad or ref else [],states=len(s),transitions=len(s))
def case_big(c):
    """windows around 16-bit and other boundaries: T distinct messages, restart, then replay of the oldest/newest window edges"""
    N,T=c
    cfg=Cfg([Aka('1:1/1')],[Node('1:1/10')],[Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),Area('BAD','1:1/1',('JAM','areas/bad')),Area('ECHO','1:1/1',None,[('1:1/10','')]),],dupes=('dupes',N,'BAD'))
    tag='window %d, %d messages: '%(N,T)
    def m(i): return Msg((1,10),(1,1),body=b'AREA:ECHO\r\1MSGID: 1:1/10 %08x\rBody #%d#\r'%(i,i))
    with World(cfg.text()) as w:
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m(i) for i in range(T)]))
        if w.cm('TOSS',timeout=200).rc!=0: raise Violation(tag+'exit')
        if w.ls('areas'): raise Violation(tag+'distinct messages were taken for duplicates')
        lo=max(0,T-N)
        probe=[T-1,T-2,lo+1,lo,T//2 if T//2>lo else lo]   # all within the window
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m(i) for i in probe]))
        if w.cm('TOSS',timeout=200).rc!=0: raise Violation(tag+'exit')
        got=sorted(nums([b'Body #'+x.text.split(b'Body #')[1] for x in read_jam(w.p('areas/bad')).msgs])) if w.exists('areas/bad.jhr') else []
        if got!=sorted(probe): raise Violation(tag+'replay of %r: only %r recognised as duplicates'%(sorted(probe),got))
        if lo>0:
            # oldest outside the window: not a dupe
            w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m(lo-1)]))
            if w.cm('TOSS',timeout=200).rc!=0: raise Violation(tag+'exit')
            got2=len(read_jam(w.p('areas/bad')).msgs)
            if got2!=len(got): raise Violation(tag+'message %d outside the window was taken for a duplicate'%(lo-1))
    return dict(evaluations=1,nontrivial=[c],states=T,transitions=T)
LEN=7
def main():
    global COLL,LEN
    COLL=find_coll(); LEN=pick(6,8)
    for a,b in COLL: assert zlib.crc32(a)==zlib.crc32(b) and a!=b
    ck=Check('C05','exploration','all arrival sequences (set partitions of positions into <=4 keys) x window sizes 1-4 x key families (distinct, same MSGID in several areas with varying letter case, prefixes/concatenations/8-bit, case variants, >79 chars, equal CRC) x split into packets/runs x DUPEMODE; all run splits of length-5 histories; size changes; mixes with MSGID-less, refused, IGNOREDUPES, netmail; large windows; non-trivial = distinct sequences containing a duplicate')
    world.init()
    pre=list(rgs(4,4))
    cs=[('plain',N,'BAD',pk,p) for N in (1,2,3,4) for pk in ('one','pkts','runs','mix') for p in pre]
    cs+=[(f,N,m,pk,p) for f in ('areas','shape','case','long','coll') for N in (1,2,3) for m,pk in (('KILL','one'),('BAD','runs')) for p in pre if thorough() or N!=1]
    cs+=[('areas',2,'IGNORE','runs',p) for p in pre]
    ck.explore('sequences',case_seq,cs)
    ck.explore('run splits',case_comp,[(N,s) for N in (1,2,3) for s in rgs(pick(5,6),3)])
    ck.explore('resize',case_resize,[(a,b,s) for a in (1,2,3,4) for b in (1,2,3,4) if a!=b for s in rgs(pick(5,7),4) if max(s)>0],chunk=8)
    ck.explore('mixed',case_mixed,[(m,s,r) for m in ('IGNORE','KILL','BAD') for L in range(1,pick(4,5)) for s in itertools.product(SY,repeat=L) for r in (0,1)],chunk=16)
    ck.explore('large',case_big,[(200,199),(200,200),(200,201),(200,401),(70000,66000),(65536,65537)]+([(65535,65536),(70000,131080),(32768,32769)] if thorough() else []))
    ck.finish()
if __name__=='__main__': main()
