"""C03: transit fidelity. Every text is sent as echomail, as transit netmail and as local netmail and must come out unaltered."""
import _boot,re,time as _t
import world; from world import *
from harness import *; from emodel import *
SND='1:1/10'
def mkcfg(opts=()):
    return Cfg([Aka('1:1/1')],[Node(SND),Node('1:1/20'),Node('1:1/21',('TINYSEENBY',))],
      [Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),
       Area('ECHO','1:1/1',('MSG','areas/echo'),[(SND,''),('1:1/20',''),('1:1/21','')])],opts=opts,routes=['"*:*/*.*" "1:1/20.0" 1:1/1'])
SPLIT=re.compile(rb'[^\r\n]*[\r\n]|[^\r\n]+')
def model(T):
    """echomail text -> (text without control lines and with final CR, seen-bys, path lines, rescanned)"""
    out=b'';sb=[];path=[];resc=False
    for l in SPLIT.findall(T):
        if l.startswith(b'SEEN-BY:'): sb+=parse2d(l[8:])
        elif l.startswith(b'\1PATH:'): path+=parse2dpath(l[6:])
        else:
            if l.startswith(b'\1RESCANNED'): resc=True
            out+=l
    if out and not out.endswith(b'\r'): out+=b'\r'
    return out,sb,path,resc
def first(T):
    """what must not be the start of a netmail text (it would be echomail)"""
    return T.startswith(b'AREA:')
def via(now): 
    return re.compile(rb'\x01Via 1:1/1(\.0)? @'+_t.strftime('%Y%m%d.%H%M%S',_t.gmtime(now)).encode()+rb' CrashMail[^\r]*\r')
MASK=PVT|CRASH|FATT|HOLD|RREQ|IRRR|AUDIT
def check(tag,msgs,opts=(),net=True):
    """msgs: list of (hdr dict, T). Sends them in one packet per class and compares everything that comes out, in order."""
    cfg=mkcfg(opts); ev=0
    with World(cfg.text()) as w:
        o=A(SND); E=[];N=[];L=[]
        for h,T in msgs:
            E.append(Msg((1,10),(1,1),body=b'AREA:ECHO\r'+T+(b'' if T.endswith((b'\r',b'\n')) or not T else b''),**h))
            if net and not first(T):
                hn=dict(h); hn['attr']=h.get('attr',0)&~FATT
                N.append((Msg((1,10),(1,30),body=T,**hn),T)); L.append((Msg((1,10),(1,1),body=T,**hn),T))
        w.inbound(mkpkt(o,A('1:1/1'),E)); now=w.now
        if N: w.inbound(mkpkt(o,A('1:1/1'),[m for m,_ in N]+[m for m,_ in L]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation('%s: TOSS exit %r'%(tag,r.rc))
        if w.ls('in'): raise Violation('%s: left in inbound: %r'%(tag,w.ls('in')))
        items,prob=outbound(w,cfg.zones())
        if prob: raise Violation('%s: %s'%(tag,'; '.join(prob[:3])))
        got={};netout=[]
        for it in items:
            for p in it.pkts:
                for m in p.msgs:
                    if m.body.startswith(b'AREA:ECHO\r'): got.setdefault(it.dest,[]).append(m)
                    else: netout.append((it.dest,m))
        exp={A('1:1/20'):[],A('1:1/21'):[]}; imp=[]
        for m in E:
            t,sb,path,resc=model(m.body[10:])
            full=sorted(set(sb)|{(1,10),(1,20),(1,21),(1,1)}); pth=path+([(1,1,0)] if not path or path[-1]!=(1,1,0) else [])
            imp.append((m,t,full,pth))
            if not resc:
                exp[A('1:1/20')].append((m,t,full,pth)); exp[A('1:1/21')].append((m,t,[(1,1),(1,21)],pth))
        for d in exp:
            g=got.get(d,[])
            if len(g)!=len(exp[d]): raise Violation('%s: %d echomail copies for %s, expected %d'%(tag,len(g),S(d),len(exp[d])))
            for i,(x,(m,t,full,pth)) in enumerate(zip(g,exp[d])):
                ev+=1
                if x.attr!=m.attr or x.cost!=m.cost or (x.date,x.to,x.frm,x.subj)!=(m.date,m.to,m.frm,m.subj):
                    raise Violation('%s: header of echomail %d to %s: %r, was %r'%(tag,i,S(d),x.key()[2:8],m.key()[2:8]))
                if x.orig!=(1,1) or x.dest!=(d.n,d.f): raise Violation('%s: echomail %d to %s addressed %r -> %r'%(tag,i,S(d),x.orig,x.dest))
                want=b'AREA:ECHO\r'+t
                if not x.body.startswith(want): raise Violation('%s: text of echomail %d to %s altered (length %d): %s'%(tag,i,S(d),len(t),diff(x.body,want)))
                rest=x.body[len(want):]; sbl=[];pl=[]
                for l in lines(rest):
                    if l.startswith(b'SEEN-BY: ') and not pl: sbl+=parse2d(l[8:])
                    elif l.startswith(b'\1PATH: '): pl+=parse2dpath(l[6:])
                    else: raise Violation('%s: echomail %d to %s: text added after the message: %r'%(tag,i,S(d),l[:80]))
                if not rest.endswith(b'\r') or sbl!=full or pl!=pth: raise Violation('%s: echomail %d to %s: control lines %r'%(tag,i,S(d),rest[:200]))
        if len(netout)!=len(N): raise Violation('%s: %d netmails forwarded, expected %d'%(tag,len(netout),len(N)))
        rx=via(now)
        for i,((d,x),(m,T)) in enumerate(zip(netout,N)):
            ev+=1
            if d!=A('1:1/20'): raise Violation('%s: netmail queued for %s'%(tag,S(d)))
            at=m.attr&MASK&~(CRASH|HOLD)
            if x.attr!=at or x.cost!=m.cost or (x.date,x.to,x.frm,x.subj)!=(m.date,m.to,m.frm,m.subj) or x.orig!=m.orig or x.dest!=m.dest:
                raise Violation('%s: header of netmail %d: %r, was %r'%(tag,i,x.key()[:8],m.key()[:8]))
            want=T if not T or T.endswith(b'\r') else T+b'\r'
            if not x.body.startswith(want) or not rx.fullmatch(x.body[len(want):]): raise Violation('%s: text of netmail %d altered: %s'%(tag,i,diff(x.body,want+b'<Via>')))
        st=read_msgdir(w.p('areas/echo')); k=sorted(k for k in st if k>1)
        if len(k)!=len(imp): raise Violation('%s: %d echomails imported, expected %d'%(tag,len(k),len(imp)))
        for q,(m,t,full,pth) in zip(k,imp):
            ev+=1; x=st[q]; hdr(tag,'imported echomail',x,m)
            body=x.text
            if not x.terminated or x.trail: raise Violation('%s: imported echomail %d not properly terminated'%(tag,q))
            if not body.startswith(t): raise Violation('%s: imported echomail %d altered: %s'%(tag,q,diff(body,t)))
            sbl=[];pl=[]
            for l in lines(body[len(t):]):
                if l.startswith(b'SEEN-BY: ') and not pl: sbl+=parse2d(l[8:])
                elif l.startswith(b'\1PATH: '): pl+=parse2dpath(l[6:])
                else: raise Violation('%s: imported echomail %d: extra %r'%(tag,q,l[:80]))
            if sbl!=(full if 'IMPORTSEENBY' in opts else []) or pl!=pth: raise Violation('%s: imported echomail %d: control lines %r'%(tag,q,body[len(t):][:200]))
        st=read_msgdir(w.p('areas/net')); k=sorted(k for k in st if k>1)
        el=[(m,T) for m,T in L if 'IMPORTEMPTYNETMAIL' in opts or any(l[:1]!=b'\1' for l in SPL13(T if not T or T.endswith(b'\r') else T+b'\r'))]
        if len(k)!=len(el): raise Violation('%s: %d netmails imported, expected %d'%(tag,len(k),len(el)))
        for q,(m,T) in zip(k,el):
            ev+=1; x=st[q]; hdr(tag,'imported netmail',x,m)
            want=T if not T or T.endswith(b'\r') else T+b'\r'
            if x.text!=want or not x.terminated or x.trail: raise Violation('%s: imported netmail %d altered: %s'%(tag,q,diff(x.text,want)))
            if (x.onet,x.onode,x.ozone,x.dnet,x.dnode,x.dzone)!=(1,10,1,1,1,1): raise Violation('%s: imported netmail addresses'%tag)
    return ev
def SPL13(T): return lines(T)
def hdr(tag,what,x,m):
    if (x.date,x.to,x.frm,x.subj)!=(m.date,m.to,m.frm,m.subj) or x.cost!=m.cost or x.attr!=(m.attr|SENT)&~LOCAL:
        raise Violation('%s: header of %s %d: %r, was %r'%(tag,what,x.num,(x.attr,x.cost,x.date,x.to,x.frm,x.subj),m.key()[2:8]))
def diff(a,b):
    n=next((i for i in range(min(len(a),len(b))) if a[i]!=b[i]),min(len(a),len(b)))
    return 'first difference at %d: got %r expected %r (lengths %d, %d)'%(n,a[max(0,n-20):n+40],b[max(0,n-20):n+40],len(a),len(b))
FILL=bytes(range(33,127))
def fill(n,s=0):
    b=(FILL[s%94:]+FILL*(n//94+1))[:n]
    return b
TOK=[b'SEEN-BY: 9/9',b'\1PATH: 9/9',b' * Origin: fake (9:9/9)',b'\1MSGID: fake 1',b'AREA:OTHER',b'\1RESCANNED 1:1/1',b'\1INTL 9:9/9 9:9/9',b'\1FMPT 9',b'\1TOPT 9',b'--- tear',b'\1Via x',b'\1FLAGS KFS']
TAIL=b'--- t\r * Origin: o (1:1/10)\rSEEN-BY: 1/10 55\r\1PATH: 1/10\r'
def part_lines(c):
    """every line length (range) at each position"""
    lo,hi=c; M=[]
    for n in range(lo,hi):
        l=fill(n,n)
        M+=[({},l+b'\rsecond\r'),({},b'first\r'+l+b'\rthird\r'),({},b'first\r'+l),({},b'\1MSGID: a b\r\r'+l+b'\r'+l+b'\r\r'+TAIL),({},l)]
    return dict(evaluations=check('line lengths %d..%d'%c,M,('IMPORTSEENBY','IMPORTEMPTYNETMAIL')),nontrivial=[('line',n) for n in range(lo,hi)],states=len(M),transitions=len(M),sample=dict(part='lines',range=c))
def part_tokens(c):
    """control tokens at every offset of a long line"""
    ti,lo,hi=c; t=TOK[ti]; M=[]
    for n in range(max(lo,1),hi):
        M+=[({},fill(n,n)+t+b'\rx\r'),({},b'x\r'+fill(n,n)+t+b'\r'+TAIL),({},b'x\r'+fill(n,n)+t+fill(250,3)+b'\r')]
    if lo==0:
        if not t.startswith((b'\1INTL',b'\1FMPT',b'\1TOPT',b'AREA',b'\1Via')): M.append(({},b'x\r'+t+b'\ry\r'))
    return dict(evaluations=check('token %r at offsets %d..%d'%(t,lo,hi),M,('IMPORTSEENBY','IMPORTEMPTYNETMAIL')),nontrivial=[('tok',ti,n) for n in range(lo,hi)],states=len(M),transitions=len(M),sample=dict(part='tokens',case=repr(c)))
def shape(k,n):
    if k==0: return fill(n)
    if k in (1,2,3,4,5):
        w={1:70,2:1,3:198,4:199,5:255}[k]; b=bytearray(fill(n))
        for i in range(w,n,w+1): b[i]=13
        return bytes(b)
    if k==6: return b'\r'*n
    if k==7: b=bytearray(fill(n)); b[n//2:n//2+1]=b'\r'; return bytes(b)
    if k==8:
        b=bytearray(fill(n))
        for i in range(60,n,61): b[i]=10
        return bytes(b)
    if k==9:
        b=bytearray(fill(n))
        for i in (9000,9999,10000,10001,19000): 
            if i<n: b[i]=13
        return bytes(b)
NSHAPE=10
def part_total(c):
    k,lo,hi,step=c; M=[]
    for n in range(lo,hi,step): M+=[({},shape(k,n)),({},b'\1MSGID: a b\r'+shape(k,n)+b'\r'+TAIL)]
    return dict(evaluations=check('total lengths %d..%d shape %d'%(lo,hi,k),M,('IMPORTEMPTYNETMAIL',)),nontrivial=[('total',k,n) for n in range(lo,hi,step)],states=len(M),transitions=len(M),sample=dict(part='total',case=repr(c)))
def part_bytes(c):
    lo,hi=c; M=[]
    for v in range(lo,hi):
        b=bytes([v])
        for T in (b+b'x\r',b'x\r'+b+b'y\rz\r',b'x'+b+b'y\r',b'xy'+b+b'\rz\r',b'xyz'+b,b'x\r'+b,b*197+b'\r',b*198+b'\r',b*199+b'\r',b,b+b,b+b'\r'+b+b'\r'): M.append(({},T))
        s=b'a'+b+b'b'
        if v: M.append((dict(to=s,frm=b+s,subj=s+b,date=s),b'x\r'))
    return dict(evaluations=check('byte values %d..%d'%(lo,hi),M,('IMPORTSEENBY','IMPORTEMPTYNETMAIL')),nontrivial=[('byte',v) for v in range(lo,hi)],states=len(M),transitions=len(M),sample=dict(part='bytes',range=c))
def part_header(c):
    what=c; M=[]
    if what=='len':
        for n in range(0,72): M.append((dict(subj=fill(n,n),to=fill(min(n,35),n),frm=fill(min(n,35),n+1),date=fill(min(n,19),n)),b'x\r'))
    elif what=='attr':
        for i in range(16):
            for j in range(i,16):
                a=1<<i|1<<j; M.append((dict(attr=a),b'x\r'))
        M+= [(dict(attr=0xffff),b'x\r'),(dict(attr=0),b'x\r')]
    elif what=='cost':
        for i in list(range(0,65536,257))+[1<<k for k in range(16)]+[65535]: M.append((dict(cost=i),b'x\r'))
    return dict(evaluations=check('header '+what,M),nontrivial=[('hdr',what,i) for i in range(len(M))],states=len(M),transitions=len(M))
def part_many(c):
    """number of messages in a packet; neighbours of very different size"""
    n=c; M=[(dict(subj=b'm%d'%i),(b'x\r' if i%3 else fill(i*37%12000))+b'%d\r'%i+(TAIL if i%2 else b'')) for i in range(n)]
    return dict(evaluations=check('%d messages'%n,M,('IMPORTSEENBY','IMPORTEMPTYNETMAIL')),nontrivial=[('many',n)],states=n,transitions=n)
def part_pairs(c):
    """leftovers of a previous line or message in a read buffer must never leak into the next"""
    tok=c; M=[]
    long=[b'SEEN-BY: 7/1 2 3 4 5 6 7 8 9 10 11 12',b'\1PATH: 7/1 2 3 4 5 6 7 8',b'\1MSGID: 7:7/7 deadbeef',b' * Origin: some long text (7:7/7.7)',fill(150)]
    for p in long:
        for cut in range(0,len(tok)+1):
            if tok[:cut].endswith(b'/') or (tok[:1]!=b' ' and cut>9 and cut<len(tok) and b'/' in tok): continue
            M.append(({},b'x\r'+p+b'\r'+tok[:cut])); M.append(({},b'x\r'+p+b'\r'+tok[:cut]+b'\r'))
    return dict(evaluations=check('truncated %r'%tok,M,('IMPORTSEENBY','IMPORTEMPTYNETMAIL'),net=not tok.startswith((b'\1FMPT',b'\1TOPT',b'\1INTL'))),nontrivial=[('cut',tok[:8],i) for i in range(len(M))],states=len(M),transitions=len(M))
def main():
    ck=Check('C03','exploration','every line length, every control token at every offset, every total length around the internal chunk boundaries x 10 line shapes, every byte value at every position class, every header string length / attribute pair, message counts; each sent as echomail (forwarded to two links and imported), transit and local netmail; non-trivial = distinct (family, parameter)')
    world.init(); th=thorough()
    top=1300 if th else 460
    ck.explore('lines',part_lines,[(i,min(i+20,top)) for i in range(0,top,20)])
    top=820 if th else 430
    ck.explore('tokens',part_tokens,[(t,i,i+43) for t in range(len(TOK)) for i in range(0,top,43)])
    cs=[]
    for k in range(NSHAPE):
        for b in ((10000,20000,30000) if not th else (10000,20000,30000,40000,50000)):
            w=240 if th else 24
            for lo in range(b-w,b+w,12): cs.append((k,lo,lo+12,1))
        cs.append((k,300,9000,997)); cs.append((k,60000,140000,19997))
    ck.explore('total',part_total,cs)
    ck.explore('bytes',part_bytes,[(i,min(i+8,256)) for i in range(1,256,8)])
    ck.explore('header',part_header,['len','attr','cost'])
    ck.explore('many',part_many,[1,2,3,10,50,100,255,256,257,300]+([600,1000,3000] if th else []))
    ck.explore('pairs',part_pairs,[b'SEEN-BY: 1/10',b'\1PATH: 1/10',b' * Origin: o (1:1/10)',b'\1MSGID: a b',b'\1FMPT 3',b'\1TOPT 3',b'\1INTL 1:1/1 1:1/10'])
    ck.finish()
if __name__=='__main__': main()
