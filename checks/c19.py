"""C19: messages stored in *.MSG and JAM areas are what a reader sees and what export and rescan return."""
import _boot,itertools,re,calendar,time
import world; from world import *
from emodel import *
from harness import *
J=dict(LOCAL=1,INTRANSIT=2,PVT=4,READ=8,SENT=0x10,KS=0x20,AS=0x40,HOLD=0x80,CRASH=0x100,IMM=0x200,DIR=0x400,GATE=0x800,FREQ=0x1000,FATT=0x2000,TFS=0x4000,KFS=0x8000,RREQ=0x10000,CFM=0x20000,ORPHAN=0x40000,FPU=0x400000,TYPELOCAL=0x800000,ECHO=0x1000000,NET=0x2000000,LOCKED=0x40000000)
FLAGNAME={'PVT':4,'HLD':0x80,'CRA':0x100,'K/S':0x20,'SNT':0x10,'RCV':8,'A/S':0x40,'DIR':0x400,'FIL':0x2000,'FRQ':0x1000,'IMM':0x200,'KFS':0x8000,'TFS':0x4000,'LOK':0x40000000,'RRQ':0x10000,'CFM':0x20000,'FPU':0x400000}
FT={1:4,2:0x100,4:8,8:0x10,0x10:0x2000,0x20:2,0x40:0x40000,0x80:0x20,0x100:1,0x200:0x80,0x800:0x1000,0x1000:0x10000}
FTEXP={4:1,0x100:2,0x2000:0x10,0x1000:0x800,0x10000:0x1000,0x80:0x200}      # attributes that travel
NOFTS=['A/S','DIR','IMM','KFS','TFS','LOK','CFM','FPU']
def config(kind='both',opts=(),tail='',n=1,netkind='JAM',local=None,links=(('1:1/10',''),('1:1/20',''))):
    a=[Area('BAD','1:1/1',('MSG','areas/bad'))]
    if kind=='both': a+=[Area('EJ','1:1/1',('JAM','areas/ej'),list(links)),Area('EM','1:1/1',('MSG','areas/em'),list(links))]
    else: a+=[Area('J%d'%i,'1:1/1',('JAM','areas/j%d'%i),list(links) if i!=local else [],kind='AREA' if i!=local else 'LOCALAREA') for i in range(n)]
    a+=[Area('NET','1:1/1',(netkind,'areas/net'),kind='NETMAIL')]
    return Cfg([Aka('1:1/1')],[Node('1:1/10'),Node('1:1/20')],a,opts=('IMPORTEMPTYNETMAIL',)+tuple(opts),routes=['"*:*/*.*" "1:1/20" 1:1/1'],tail=tail).text()
def strip(b): return b.strip(b' ')
def flagwords(b): return b.decode('latin-1').split()
class JM: pass
def jammodel(t):
    """text without SEEN-BY/PATH -> what the JAM message holds"""
    m=JM(); m.kl=[]; m.text=b''; m.attr=0; m.flags=[]
    for l in re.findall(rb'[^\r]*\r|[^\r]+$',t):
        l=l.replace(b'\n',b''); b=l.rstrip(b'\r')
        if not b.startswith(b'\1'): m.text+=l; continue
        for pre,fld in ((b'\1PID:',7),(b'\1MSGID:',4),(b'\1REPLY:',5)):
            if b.startswith(pre): m.kl.append((fld,strip(b[len(pre):]))); break
        else:
            if b.startswith(b'\1FLAGS:'):
                rest=[]
                for f in flagwords(b[7:]):
                    if f.upper() in FLAGNAME: m.attr|=FLAGNAME[f.upper()]
                    else: rest.append(f)
                if rest: m.flags=rest
            elif b[:5] in (b'\1INTL',b'\1FMPT',b'\1TOPT'): pass
            else: m.kl.append((2000,strip(b[1:])))
    return m
PRE={7:b'\1PID: ',4:b'\1MSGID: ',5:b'\1REPLY: ',2000:b'\1'}
def expmodel(m,attr=0):
    """kludge lines and text of the exported message"""
    k=[PRE[f]+d for f,d in m.kl]
    fl=list(m.flags)+[n for n in NOFTS if (m.attr|attr)&FLAGNAME[n]]
    return k,fl,m.text
def split(body,area):
    """exported echomail -> kludges, flags, text, seen-by, path"""
    if area and not body.startswith(b'AREA:'+area+b'\r'): raise Violation('body begins %r'%body[:40])
    L=re.findall(rb'[^\r]*\r|[^\r]+$',body); L=L[1:] if area else L
    sb=[];pt=[]
    while L and L[-1].startswith(b'\1PATH: '): pt.insert(0,L.pop())
    while L and L[-1].startswith(b'SEEN-BY: '): sb.insert(0,L.pop())
    return L,b''.join(sb),b''.join(pt)
def msgs_from(w,tag,node='1:1/20',zones={'out':1}):
    items,prob=outbound(w,zones)
    if prob: raise Violation(tag+prob[0])
    out=[]
    for it in items:
        if it.dest!=A(node): continue
        for p in it.pkts: out+=p.msgs
    return out
def clearout(w):
    for f in list(w.tree()):
        if f.startswith('out/') or f.startswith('pkt/'): os.unlink(w.p(f))
def checkexp(tag,x,m,want,area,base,rescan=True,attr=0):
    """an exported message x against the stored one m (base: JAM or MSG)"""
    L,sb,pt=split(x.body.replace(b'\n',b'') if base=='MSG' else x.body,area); want=want.replace(b'\n',b'')
    rs=[l for l in L if l==b'\1RESCANNED 1:1/1.0\r']
    if len(rs)!=(1 if rescan else 0): raise Violation(tag+'marked as rescanned %d times: %r'%(len(rs),x.body[:300]))
    if rescan: L.remove(rs[0])
    if (x.frm,x.to,x.subj,x.date)!=(m.frm,m.to,m.subj,m.date): raise Violation(tag+'header %r expected %r'%((x.frm,x.to,x.subj,x.date),(m.frm,m.to,m.subj,m.date)))
    if base=='MSG':
        w=want if not want or want.endswith(b'\r') else want+b'\r'
        if b''.join(L)!=w: raise Violation(tag+'exported text %r expected %r'%(b''.join(L)[:400],w[:400]))
    else:
        k,fl,tx=expmodel(jammodel(want),attr)
        gotfl=[]; gk=[]; i=0
        while i<len(L) and L[i].startswith(b'\1'):
            l=L[i].rstrip(b'\r'); i+=1
            if l.startswith(b'\1FLAGS: '): gotfl.append(l[8:])
            else: gk.append(l)
        if gk!=k: raise Violation(tag+'exported control lines %r expected %r'%(gk,k))
        if len(gotfl)>1 or sorted(flagwords(b' '.join(gotfl)))!=sorted(fl): raise Violation(tag+'exported FLAGS %r expected %r'%(gotfl,fl))
        tx=tx if not tx or tx.endswith(b'\r') else tx+b'\r'
        if b''.join(L[i:])!=tx: raise Violation(tag+'exported text %r expected %r'%(b''.join(L[i:])[:400],tx[:400]))
    return sb,pt
def jam(w,b,tag):
    try: return read_jam(w.p('areas/'+b))
    except (PktError,FileNotFoundError) as e: raise Violation(tag+'JAM base %s: %s'%(b,e))
def fidodate(d):
    """canonical date string -> seconds of the local clock"""
    return calendar.timegm(time.strptime(d.decode(),'%d %b %y  %H:%M:%S'))
def store(tag,M,opts=(),flavour='plain'):
    """toss every message into a JAM and a *.MSG area, read both, rescan both"""
    ev=0
    with World(config(opts=opts),flavour=flavour) as w:
        for i in range(0,len(M),8):
            P=[]
            for j,m in enumerate(M[i:i+8]):
                for a in (b'EJ',b'EM'): P.append(Msg((1,10),(1,1),date=m.date,frm=m.frm,to=m.to,subj=m.subj,attr=m.attr,cost=m.cost,body=b'AREA:%s\r'%a+m.body+m.ctl))
            w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),P),name='%08x.pkt'%i,mtime=1700000000+i)
        before=None
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-700:]))
        j=jam(w,'ej',tag); ms=read_msgdir(w.p('areas/em')); ms=[ms[k] for k in sorted(ms) if k>1]
        if len(j.msgs)!=len(M) or len(ms)!=len(M): raise Violation(tag+'%d messages in the JAM area and %d in the *.MSG area, expected %d'%(len(j.msgs),len(ms),len(M)))
        for i,(m,x,y) in enumerate(zip(M,j.msgs,ms)):
            t2='%smessage %d (%r): '%(tag,i,m.body[:200]); ev+=1
            if (y.frm,y.to,y.subj,y.date)!=(m.frm,m.to,m.subj,m.date): raise Violation(t2+'*.MSG header %r'%((y.frm,y.to,y.subj,y.date),))
            g=lambda n: jamfield(x,n) or b''
            if (g(2),g(3),g(6))!=(m.frm,m.to,m.subj): raise Violation(t2+'JAM header %r expected %r'%((g(2),g(3),g(6)),(m.frm,m.to,m.subj)))
            if x.datewritten!=fidodate(m.date): raise Violation(t2+'JAM date %d expected %d'%(x.datewritten,fidodate(m.date)))
            if x.cost!=m.cost or y.cost!=m.cost: raise Violation(t2+'cost %d, %d expected %d'%(x.cost,y.cost,m.cost))
            e=jammodel(m.body if not m.body or m.body.endswith(b'\r') else m.body+b'\r')
            at=e.attr|J['ECHO']
            for f,jf in FT.items():
                if y.attr&f: at|=jf
            if x.attr!=at: raise Violation(t2+'JAM attributes %x expected %x (*.MSG %x)'%(x.attr,at,y.attr))
            kl=[(f,d) for f,d in x.sub if f in (4,5,7,2000)]
            if kl!=e.kl: raise Violation(t2+'JAM control lines %r expected %r'%(kl,e.kl))
            fl=[d for f,d in x.sub if f==2003]
            if flagwords(b' '.join(fl))!=e.flags: raise Violation(t2+'JAM FLAGS %r expected %r'%(fl,e.flags))
            if x.text!=e.text and x.text.rstrip(b'\0')!=e.text: raise Violation(t2+'JAM text %r expected %r'%(x.text[:400],e.text[:400]))
            ml=lines(y.text)
            sb=[l[9:].rstrip(b'\r') for l in ml if l.startswith(b'SEEN-BY: ')]; pt=[l[7:].rstrip(b'\r') for l in ml if l.startswith(b'\1PATH: ')]
            if [d for f,d in x.sub if f==2001]!=sb: raise Violation(t2+'JAM SEEN-BY %r, *.MSG %r'%([d for f,d in x.sub if f==2001],sb))
            if [d for f,d in x.sub if f==2002]!=pt: raise Violation(t2+'JAM PATH %r, *.MSG %r'%([d for f,d in x.sub if f==2002],pt))
            o=re.findall(rb'(?:^|\r)\n? \* Origin: [^\r]*\((\d+:\d+/\d+(?:\.\d+)?)\)',m.body)
            if o and A(o[-1].decode())!=A(jamfield(x,0).decode()): raise Violation(t2+'JAM origin %r expected %r'%(jamfield(x,0),o[-1]))
            bad=[f for f,d in x.sub if f not in (0,2,3,4,5,6,7,9,11,2000,2001,2002,2003)]
            if bad: raise Violation(t2+'JAM subfields %r'%bad)
        keep={f:d for f,d in w.tree().items() if f.startswith('areas/')}
        for area,base in ((b'EJ','JAM'),(b'EM','MSG')):
            clearout(w)
            r=w.cm('RESCAN',area.decode(),'RESCANNODE','1:1/20')
            if r.rc!=0: raise Violation(tag+'rescan: exit %r %r'%(r.rc,r.out[-700:]))
            X=msgs_from(w,tag+'rescan: ')
            if len(X)!=len(M): raise Violation(tag+'rescan of the %s area: %d messages, expected %d'%(base,len(X),len(M)))
            for i,(x,m) in enumerate(zip(X,M)): ev+=1; checkexp('%smessage %d (%r) rescanned from the %s area: '%(tag,i,m.body[:200],base),x,m,m.body,area,base)
        now={f:d for f,d in w.tree().items() if f.startswith('areas/')}
        if now!=keep: raise Violation(tag+'rescanning changed %r'%sorted(f for f in set(now)|set(keep) if now.get(f)!=keep.get(f)))
    return ev
class M19:
    def __init__(s,body,ctl=b'SEEN-BY: 1/5 10\r\1PATH: 1/5 10\r',frm=b'Foo Bar',to=b'All',subj=b'Subject',date=b'01 Jan 24  12:00:00',attr=0,cost=0): s.__dict__.update(locals()); del s.__dict__['s']
TOK=[b'\1MSGID: 1:1/5 0001',b'\1REPLY: 1:1/5 0002',b'\1PID: Foo 1.0',b'\1TID: Bar 2',b'\1FLAGS: DIR IMM XX',b'\1FLAGS: LOK K/S',b'\1FLAGS DIR',b'\1CHRS: LATIN-1 2',b'\1',b'\1 spaced  out ',b'text',b' lead and trail ',b'',b' * Origin: foo (1:2/3.4)',b'--- tear',b'\nlf\nlf',b'not \1MSGID: 9']
NT=len(TOK)
# lines that resemble control lines
for _n in (b'PID',b'MSGID',b'REPLY',b'FLAGS',b'PATH',b'INTL',b'FMPT',b'TOPT',b'RESCANNED',b'DOMAIN',b'Via'):
    TOK+=[b'\1'+x+v for x in (_n[:-1],_n[:-2],_n+b'X',_n.lower(),_n.swapcase(),b' '+_n,_n) for v in (b': 1:1/5 0001',b':',b' :x',b' 1',b'') if x not in (b' FLAGS',b' PATH') and not (x.strip()[:4] in (b'INTL',b'FMPT',b'TOPT')) and not (x==_n and v[:1]==b':')]
    TOK+=[b'x\1'+_n+b': 1',b' \1'+_n+b': 1',_n+b': 1']
def shapecase(c):
    seqs,end=c
    M=[M19(b'\r'.join(TOK[i] for i in s)+end,ctl=(b'' if end else b'\r')+b'SEEN-BY: 1/5 10\r\1PATH: 1/5 10\r' if s else b'SEEN-BY: 1/5 10\r') for s in seqs]
    for m in M:
        if not end and m.body and not m.body.endswith(b'\r'): m.body+=b'\r'; m.ctl=m.ctl[1:] if m.ctl.startswith(b'\r') else m.ctl
    return dict(evaluations=store('',M,opts=('IMPORTSEENBY',) if len(seqs)%2 else ()),nontrivial=[(s,end) for s in seqs],states=len(M),transitions=4*len(M),sample=dict(last=repr(M[-1].body)))
def cutcase(c):
    """messages whose last line has no CR (no SEEN-BY/PATH follow)"""
    M=[M19(b'\r'.join(TOK[i] for i in s),ctl=b'') for s in c]
    return dict(evaluations=store('no final CR: ',M,flavour='asan'),nontrivial=[('cut',s) for s in c],states=len(M),transitions=4*len(M),sample=dict(last=repr(M[-1].body)))
def lencase(c):
    kind,lo,hi=c
    M=[]
    for n in range(lo,hi):
        v=(b'ab cd'*(n//5+1))[:n]; v=v[:-1]+b'z' if v.endswith(b' ') else v
        b={'text':v+b'\r','msgid':b'\1MSGID: '+v+b'\rx\r','reply':b'\1REPLY: '+v+b'\rx\r','pid':b'\1PID: '+v+b'\rx\r','klu':b'\1K'+v+b'\rx\r','klucut':b'x\r\1K'+v,'flags':b'\1FLAGS: '+(b'A'*9+b' ')*(n//10)+b'B'*(n%10)+b'\rx\r'}.get(kind)
        if kind in ('frm','to','subj'): M.append(M19(b'x\r',**{kind:v}))
        else: M.append(M19(b,ctl=b'' if kind=='klucut' else b'SEEN-BY: 1/5\r'))
    return dict(evaluations=store('%s of length %d..%d: '%(kind,lo,hi-1),M,flavour='asan'),nontrivial=[(kind,n) for n in range(lo,hi)],states=hi-lo,transitions=hi-lo,sample=dict(kind=kind,lo=lo,hi=hi))
def attrcase(c):
    M=[M19(b'\1FLAGS: %s\rx\r'%f.encode() if f else b'x\r',attr=a,cost=(a*7)&0xffff) for a,f in c]
    return dict(evaluations=store('attributes/flags: ',M),nontrivial=list(c),states=len(c),transitions=len(c),sample=dict(last=repr(c[-1])))
def sbcase(c):
    M=[]
    for ns,npth in c:
        s=sorted((1+i//9,1+i%9) for i in range(ns))
        ctl=b''.join(b'SEEN-BY: '+b' '.join(b'%d/%d'%x for x in s[i:i+5])+b'\r' for i in range(0,ns,5))
        p=[(5,k+1) for k in range(npth)]
        ctl+=b''.join(b'\1PATH: '+b' '.join(b'%d/%d'%x for x in p[i:i+5])+b'\r' for i in range(0,npth,5))
        M.append(M19(b'x\r',ctl=ctl))
    return dict(evaluations=store('seen-by/path lengths %r: '%(c,),M,opts=('IMPORTSEENBY',)),nontrivial=list(c),states=len(c),transitions=len(c),sample=dict(last=repr(c[-1])))
# ---------------------------------------------------------------- netmail
def netcase(c):
    """the same netmails imported into a JAM and a *.MSG netmail area"""
    ev=0; R={}
    for kind in ('JAM','MSG'):
        with World(config(netkind=kind)) as w:
            P=[]
            for fa,ta,at,su,tx in c:
                b=b''
                if A(fa).z!=1: b+=b'\1INTL 1:1/1 %s\r'%S(A(fa),False).encode()
                if A(fa).p: b+=b'\1FMPT %d\r'%A(fa).p
                P.append(Msg((A(fa).n,A(fa).f),(1,1),attr=at,subj=su,frm=b'F',to=b'T',body=b+tx))
            w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),P))
            r=w.cm('TOSS')
            if r.rc!=0: raise Violation('exit %r %r'%(r.rc,r.out[-500:]))
            if kind=='JAM': R[kind]=jam(w,'net','').msgs
            else: ms=read_msgdir(w.p('areas/net')); R[kind]=[ms[k] for k in sorted(ms) if k>1]
    if len(R['JAM'])!=len(c) or len(R['MSG'])!=len(c): raise Violation('%d/%d netmails stored, expected %d'%(len(R['JAM']),len(R['MSG']),len(c)))
    for (fa,ta,at,su,tx),x,y in zip(c,R['JAM'],R['MSG']):
        ev+=1; tag='netmail from %s attributes %x subject %r text %r: '%(fa,at,su,tx)
        e=jammodel(tx); want=J['NET']|e.attr
        for f,jf in FT.items():
            if y.attr&f: want|=jf
        if x.attr!=want: raise Violation(tag+'JAM attributes %x expected %x (*.MSG %x)'%(x.attr,want,y.attr))
        if A(jamfield(x,0).decode())!=A(fa) or A(jamfield(x,1).decode())!=A('1:1/1'): raise Violation(tag+'JAM addresses %r %r'%(jamfield(x,0),jamfield(x,1)))
        if (jamfield(x,6) or b'')!=su or y.subj!=su: raise Violation(tag+'subject %r / %r'%(jamfield(x,6),y.subj))
        names=[n for n in re.split(rb'[ ,]+',su) if n]
        for bit,fld in ((0x10,9),(0x800,11)):
            g=[d for f,d in x.sub if f==fld]
            if g!=(names if y.attr&bit else []): raise Violation(tag+'JAM file subfields %r expected %r'%(g,names))
        if [(f,d) for f,d in x.sub if f in (4,5,7,2000)]!=e.kl or x.text.rstrip(b'\0')!=e.text: raise Violation(tag+'JAM %r %r'%(x.sub,x.text))
        if at&(PVT|0x10)&~y.attr: raise Violation(tag+'*.MSG attributes %x'%y.attr)
    return dict(evaluations=ev,nontrivial=list(c),states=len(c),transitions=2*len(c),sample=dict(last=repr(c[-1])))
# ---------------------------------------------------------------- messages written by other software
BASESUB=[(0,b'1:1/1'),(4,b'1:1/1 0000abcd')]
def foreign(tag,L,net=False,flavour='plain'):
    """L: list of (sub,attr,text,expect dict); scan, compare the packet"""
    ev=0
    with World(config(),flavour=flavour) as w:
        W=JamWriter()
        for sub,attr,text,ex in L:
            W.add(text=text,attr=attr|J['LOCAL']|J['TYPELOCAL']|(J['NET'] if net else J['ECHO']),sub=sub,date=1704110400,**{k:v for k,v in ex.items() if k in ('frm','to','subj','cost')})
        W.write(w.p('areas/net' if net else 'areas/ej'))
        r=w.cm('SCAN')
        if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-900:]))
        X=msgs_from(w,tag)
        if len(X)!=len(L): raise Violation(tag+'%d messages exported, expected %d'%(len(X),len(L)))
        for i,(x,(sub,attr,text,ex)) in enumerate(zip(X,L)):
            t2='%smessage with %r attributes %x text %r: '%(tag,[(f,d[:40],len(d)) for f,d in sub],attr,text[:40]); ev+=1
            m=JM(); m.frm=ex.get('frm',b'Local User')[:35]; m.to=ex.get('to',b'All')[:35]; m.subj=ex.get('xsubj',ex.get('subj',b'Subj'))[:71]; m.date=b'01 Jan 24  12:00:00'
            at=0
            for jf,f in FTEXP.items():
                if attr&jf: at|=f
            if any(f==9 and d for f,d in sub): at|=0x10
            if net: at&=~(2|0x200|0x800)
            if x.attr!=at: raise Violation(t2+'exported attributes %x expected %x'%(x.attr,at))
            if x.cost!=ex.get('cost',0): raise Violation(t2+'cost %d'%x.cost)
            body=x.body
            if net: body=re.sub(rb'\x01Via [^\r]*\r$',b'',body)
            L2,sb,pt=split(body,b'' if net else b'EJ')
            k=[PRE[f]+d for f,d in sub if f in PRE]; fl=[]
            for f,d in sub:
                if f==2003: fl=flagwords(d)
            fl=fl+[n for n in NOFTS if attr&FLAGNAME[n]]
            gk=[l.rstrip(b'\r') for l in L2 if l.startswith(b'\1') and not l.startswith((b'\1FLAGS:',b'\1INTL',b'\1FMPT',b'\1TOPT'))]; gf=[l for l in L2 if l.startswith(b'\1FLAGS: ')]
            if (x.frm,x.to,x.subj,x.date)!=(m.frm,m.to,m.subj,m.date): raise Violation(t2+'header %r expected %r'%((x.frm,x.to,x.subj,x.date),(m.frm,m.to,m.subj,m.date)))
            if gk!=k: raise Violation(t2+'control lines %r expected %r'%([g[:60] for g in gk],[g[:60] for g in k]))
            if len(gf)>1 or (ex.get('flags',True) and flagwords(b''.join(l[8:] for l in gf))!=fl): raise Violation(t2+'FLAGS %r expected %r'%(gf,fl))
            tx=b''.join(l for l in L2 if not l.startswith(b'\1'))
            if tx!=(text if not text or text.endswith(b'\r') else text+b'\r'): raise Violation(t2+'text %r'%tx[:200])
            if net:
                k2={l[1:5]:l for l in L2 if l[:5] in (b'\1INTL',b'\1FMPT',b'\1TOPT')}
                d=dict((f,v) for f,v in reversed(sub)); o,de=A(d[0].decode()),A(d[1].decode())
                if x.orig!=(o.n,o.f) or x.dest!=(de.n,de.f): raise Violation(t2+'addresses %r %r'%(x.orig,x.dest))
                want={}
                if o.z!=de.z: want[b'INTL']=b'\1INTL %s %s\r'%(S(de,False).encode(),S(o,False).encode())
                if o.p: want[b'FMPT']=b'\1FMPT %d\r'%o.p
                if de.p: want[b'TOPT']=b'\1TOPT %d\r'%de.p
                if k2!=want: raise Violation(t2+'address lines %r expected %r'%(k2,want))
        st=jam(w,'net' if net else 'ej',tag)
        for x,(sub,attr,text,ex) in zip(st.msgs,L):
            if x.attr!=(attr|J['LOCAL']|J['TYPELOCAL']|(J['NET'] if net else J['ECHO'])|J['SENT']) or x.text!=text or x.sub[3:]!=list(sub): raise Violation(tag+'scanning altered the stored message: attributes %x text %r'%(x.attr,x.text[:100]))
    return ev
def fieldcase(c):
    kind,lo,hi=c; L=[]
    fld={'msgid':4,'reply':5,'pid':7,'klu':2000,'flags':2003,'file':9,'freq':11,'daddr':1,'oaddr':0,'seen':2001,'path':2002,'trash':99}.get(kind)
    for n in range(lo,hi):
        v=(b'abcdefghi '*(n//10+1))[:n]; v=v[:-1]+b'z' if v.endswith(b' ') else v
        ex={}; sub=[(0,b'1:1/1')]; 
        if kind in ('frm','to','subj'): ex={kind:v}
        elif kind=='text': L.append((sub,0,v,{})); L.append((sub,0,v+b'\r',{})); continue
        elif kind in ('daddr','oaddr'): sub=sub+[(fld,v)]
        elif kind in ('seen','path'): sub=sub+[(fld,(b'1/%d '%(n%7+2)*(n//4+1)).strip()[:n].strip(b' /'))] if n else sub+[(fld,b'')]
        else: sub=sub+[(fld,v)]
        if kind=='file': ex={'xsubj':v if v else b'Subj'}
        if kind=='flags' and n>180: ex['flags']=False
        if kind=='path' or kind=='seen': pass
        L.append((sub,0,b'x\r',ex))
    return dict(evaluations=foreign('%s: '%kind,L,flavour='asan'),nontrivial=[(kind,n) for n in range(lo,hi)],states=len(L),transitions=len(L),sample=dict(kind=kind,lo=lo,hi=hi))
def fattr(c):
    net,part=c
    L=[]
    for a,fl,files in part:
        sub=([(0,b'1:1/1.3'),(1,b'2:5/6.7')] if net else [(0,b'1:1/1')])+([(2003,fl)] if fl else [])+[(9,f) for f in files]
        L.append((sub,a,b'x\r',{'xsubj':b' '.join(files)} if files else {}))
    return dict(evaluations=foreign('',L,net=net),nontrivial=[(net,)+p for p in part],states=len(L),transitions=len(L),sample=dict(last=repr(part[-1])))
def ordercase(c):
    net,orders=c
    F=[(4,b'1:1/1 00c0ffee'),(5,b'2:2/2 01'),(7,b'Pid 1'),(2000,b'CHRS: X 2'),(2003,b'AAA')]
    L=[]
    for o in orders: L.append(([(0,b'1:1/1'),(1,b'1:1/20')] if net else [(0,b'1:1/1')])+0*[1] and None)
    L=[]
    for o in orders:
        L.append((([(0,b'1:1/1'),(1,b'1:9/9.1')] if net else [(0,b'1:1/1')])+[F[i] for i in o],0,b'first\r\rlast',{}))
    return dict(evaluations=foreign('subfield order: ',L,net=net),nontrivial=[(net,o) for o in orders],states=len(L),transitions=len(L),sample=dict(last=repr(orders[-1])))
# ---------------------------------------------------------------- several bases
def multicase(c):
    """messages for several areas in any order, any number of open bases, any split into runs"""
    seqs,maxopen,n,tailkind=c; ev=0
    for seq,cut in seqs:
        tag='areas %r, split after %d, at most %s open bases, %s: '%(seq,cut,maxopen,tailkind)
        tail=('JAM_MAXOPEN %d\n'%maxopen if maxopen else '')+{'plain':'','link':'JAM_LINK\n','qlink':'JAM_QUICKLINK\nJAM_LINK\n','copy':'FILTER SUBJECT="S*"\nCOPY J%d\n'%(n-1)}[tailkind]
        w=World(config('j',n=n,tail=tail,local=n-1 if tailkind=='copy' else None),flavour='asan')
        try:
            want={i:[] for i in range(n)}; k=0; prev={}
            for part in (seq[:cut],seq[cut:]):
                if not part: continue
                P=[]
                for a in part:
                    if tailkind=='copy': a=a%(n-1)
                    x=b'S%d'%k; P.append(Msg((1,10),(1,1),subj=x,body=b'AREA:J%d\r\1MSGID: 1:1/10 %08x\r'%(a,k)+(b'\1REPLY: 1:1/10 %08x\r'%(k-1) if k else b'')+b'text '+x*(1+k*5)+b'\r'))
                    if tailkind=='copy': want[n-1].append(x)
                    want[a].append(x); k+=1
                w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),P))
                r=w.cm('TOSS')
                if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-900:]))
                for a in range(n):
                    if not want[a]:
                        if w.exists('areas/j%d.jhr'%a): raise Violation(tag+'base J%d created without messages'%a)
                        continue
                    j=jam(w,'j%d'%a,tag); ev+=1
                    got=[jamfield(m,6) for m in j.msgs]
                    if got!=want[a]: raise Violation(tag+'area J%d holds %r expected %r'%(a,got,want[a]))
                    for m in j.msgs:
                        s=jamfield(m,6)
                        if re.sub(rb'^AREA:J\d\r',b'',m.text)!=b'text '+s*(1+int(s[1:])*5)+b'\r': raise Violation(tag+'area J%d message %r text %r'%(a,s,m.text))
                    cur=[(m.num,m.sub,m.text,m.attr,m.datewritten,m.dateproc,m.msgidcrc,m.replycrc) for m in j.msgs]
                    if cur[:len(prev.get(a,[]))]!=prev.get(a,[]): raise Violation(tag+'adding messages altered earlier ones in J%d'%a)
                    prev[a]=cur
        finally: w.close()
    return dict(evaluations=ev,nontrivial=[(s,maxopen,n,tailkind) for s in seqs],states=len(seqs),transitions=ev,sample=dict(last=repr(seqs[-1]),maxopen=maxopen))
def scancase(c):
    """scanning local messages of several bases while filters copy into another one"""
    seqs,maxopen,n=c; ev=0
    for counts,copyto in seqs:
        tag='local messages per area %r, copies to J%d, at most %s open bases: '%(counts,copyto,maxopen)
        w=World(config('j',n=n,local=copyto,tail='JAM_MAXOPEN %d\nFILTER SUBJECT="S*"\nCOPY J%d\n'%(maxopen,copyto)),flavour='asan')
        try:
            ids=[]; have=b'';
            for a,cnt in enumerate(counts):
                if not cnt: continue
                W=JamWriter()
                for i in range(cnt): x=b'S%d%d'%(a,i); W.add(subj=x,text=b'text '+x*20+b'\r',sub=[(0,b'1:1/1'),(4,b'1:1/1 '+x)]); ids.append((a,x))
                W.write(w.p('areas/j%d'%a))
            if counts[copyto]: own=[x for a,x in ids if a==copyto]
            else: own=[]
            r=w.cm('SCAN')
            if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-900:]))
            got=[(m.subj,m.body.split(b'\r')[0]) for m in msgs_from(w,tag)]
            want=[(x,b'AREA:J%d'%a) for a,x in ids if a!=copyto]
            if got!=want: raise Violation(tag+'exported %r expected %r'%(got,want))
            for a,cnt in enumerate(counts):
                exp=[x for b,x in ids if b==a]
                if a==copyto: exp=own+[x for b,x in ids if b!=copyto]
                if not exp: continue
                j=jam(w,'j%d'%a,tag); ev+=1
                g=[jamfield(m,6) for m in j.msgs]
                if g!=exp: raise Violation(tag+'J%d holds %r expected %r'%(a,g,exp))
                for m in j.msgs:
                    if re.sub(rb'^AREA:J\d\r',b'',m.text)!=b'text '+jamfield(m,6)*20+b'\r': raise Violation(tag+'text of %r altered'%jamfield(m,6))
                for m in j.msgs[:cnt]:
                    if a!=copyto and not m.attr&J['SENT']: raise Violation(tag+'%r is not marked as sent'%jamfield(m,6))
        finally: w.close()
    return dict(evaluations=ev,nontrivial=list(seqs),states=len(seqs),transitions=ev,sample=dict(last=repr(seqs[-1]),maxopen=maxopen))
# ---------------------------------------------------------------- dates
TZS=['UTC','CET-1CEST,M3.5.0,M10.5.0/3','EST5EDT,M3.2.0,M11.1.0','NZST-12NZDT,M9.5.0,M4.1.0/3','IST-5:30']
NOWS=[1705320000,1720000000]
def datecase(c):
    tz,n1,n2=c; env={'TZ':tz}; ev=0
    D=[]
    for y in (83,99,0,24,37):
        for mo in ('Jan','Mar','Jul','Oct','Dec'): D.append(b'%02d %s %02d  %02d:%02d:%02d'%(15,mo.encode(),y,12,34,56))
    for d,mo in ((30,'Mar'),(31,'Mar'),(1,'Apr'),(26,'Oct'),(27,'Oct'),(28,'Oct'),(9,'Mar'),(10,'Mar'),(11,'Mar'),(2,'Nov'),(3,'Nov'),(4,'Nov'),(28,'Sep'),(29,'Sep'),(30,'Sep'),(6,'Apr'),(7,'Apr'),(8,'Apr'),(29,'Feb'),(31,'Dec')):
        for h in (0,4,5,12,21,23): D.append(b'%02d %s 24  %02d:00:01'%(d,mo.encode(),h))
    sea=[(b'Wed 13 Jan 24 02:34',b'13 Jan 24  02:34:00'),(b'Wed  3 Jul 24 12:34',b'03 Jul 24  12:34:00'),(b'Mon  1 Jan 90 00:00',b'01 Jan 90  00:00:00')]
    tag='TZ=%s, imported at %d, rescanned at %d: '%c
    with World(config()) as w:
        w.now=n1
        P=[Msg((1,10),(1,1),date=d,body=b'AREA:EJ\rx\r') for d in D+[s for s,_ in sea]]
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),P))
        w.cm('TOSS',env=env); exp=D+[x for _,x in sea]
        j=jam(w,'ej',tag)
        if len(j.msgs)!=len(exp): raise Violation(tag+'%d messages'%len(j.msgs))
        for m,d in zip(j.msgs,exp):
            ev+=1
            if m.datewritten!=fidodate(d): raise Violation(tag+'date %r stored as %s'%(d,time.strftime('%d %b %y %H:%M:%S',time.gmtime(m.datewritten))))
        os.environ['TZ']=tz; time.tzset(); lo=calendar.timegm(time.localtime(n1)); os.environ.pop('TZ'); time.tzset()
        if not lo-2<=j.msgs[0].dateproc<=lo+5: raise Violation(tag+'processing date off by %d s'%(j.msgs[0].dateproc-lo))
        clearout(w); w.now=n2; w.cm('RESCAN','EJ','RESCANNODE','1:1/20',env=env)
        X=msgs_from(w,tag)
        if len(X)!=len(exp): raise Violation(tag+'%d rescanned'%len(X))
        for x,d in zip(X,exp):
            ev+=1
            if x.date!=d: raise Violation(tag+'date %r exported as %r'%(d,x.date))
    return dict(evaluations=ev,nontrivial=[c],states=len(exp),transitions=ev,sample=dict(case=repr(c)))
# ---------------------------------------------------------------- *.MSG files written by other software
def msgfiles(c):
    """local echomail and netmail of any shape exported by SCAN and returned by RESCAN"""
    texts,tid=c; ev=0
    with World(config(opts=('ADDTID',) if tid else (),netkind='MSG'),flavour='asan') as w:
        os.mkdir(w.p('areas/em')); os.mkdir(w.p('areas/net'))
        for i,(t,term) in enumerate(texts):
            w.write('areas/em/%d.msg'%(i+2),mkmsg(text=t,attr=LOCAL,subj=b'S%d'%i)[:None if term else -1])
            w.write('areas/net/%d.msg'%(i+2),mkmsg(text=t,attr=LOCAL|PVT,subj=b'S%d'%i,orig=(0,1,1,0),dest=(0,1,20,0))[:None if term else -1])
        for what in ('scan','rescan'):
            clearout(w)
            r=w.cm('SCAN') if what=='scan' else w.cm('RESCAN','EM','RESCANNODE','1:1/20')
            if r.rc!=0: raise Violation('exit %r %r'%(r.rc,r.out[-900:]))
            X=msgs_from(w,'')
            for net in ((False,True) if what=='scan' else (False,)):
                Y=[x for x in X if x.body.startswith(b'AREA:')!=net]
                tag='*.MSG %s, %s%s: '%('netmail' if net else 'echomail',what,', ADDTID' if tid else '')
                if [y.subj for y in Y]!=[b'S%d'%i for i in range(len(texts))]: raise Violation(tag+'exported %r'%[y.subj for y in Y])
                for y,(t,term) in zip(Y,texts):
                    ev+=1; want=t.replace(b'\n',b''); want=want if not want or want.endswith(b'\r') else want+b'\r'
                    if not net: want=re.sub(rb'(?m)(?:(?<=\r)|^)(?:SEEN-BY:|\x01PATH:)[^\r]*\r',b'',want.replace(b'\n',b''))
                    L,sb,pt=split(y.body.replace(b'\n',b''),b'' if net else b'EM')
                    if net: L=[l for l in L if not l.startswith(b'\1Via ')]
                    add=[l for l in L if l.startswith((b'\1RESCANNED ',b'\1TID: CrashMail'))]
                    exp=(1 if what=='rescan' else 0)+(1 if tid and what=='scan' else 0)
                    if len(add)!=exp: raise Violation(tag+'%r: %d lines added, expected %d: %r'%(t[:300],len(add),exp,y.body[:400]))
                    g=b''.join(l for l in L if l not in add)
                    if g!=want and not (b'\n' in t and g==want+b'\r'): raise Violation(tag+'text %r (%d) exported as %r (%d)'%(t[:300],len(want),g[:400],len(g)))
                    n=len([1 for l in itertools.takewhile(lambda l: l.startswith(b'\1'),[l for l in L if l not in add])])
                    if add and max(L.index(a) for a in add)>n+len(add)-1: raise Violation(tag+'%r: control line added at a wrong place: %r'%(t[:200],y.body[:400]))
    return dict(evaluations=ev,nontrivial=[(t,tid) for t in texts],states=len(texts),transitions=ev,sample=dict(last=repr(texts[-1])[:200]))
MTOK=[b'\1MSGID: 1:1/1 0001',b'\1CHRS: X 2',b'text',b'',b'SEEN-BY: 1/5',b'\1PATH: 1/5',b' * Origin: x (1:1/1)']
MLONG=[b'\1MSGID: ',b'\1K',b'text ',b'SEEN-BY: 1/5']
def msgtexts(L):
    out=[]
    for k in range(0,4 if L else 3):
        for q in itertools.product(MTOK,repeat=k):
            for eol in (b'\r',b'\r\n'):
                for fin in (eol,b''):
                    t=eol.join(q)+(fin if q else b'')
                    out.append((t,True)); 
                    if fin==b'': out.append((t,False))
    for pre in (b'\1MSGID: ',b'\1K',b'x'):
        for n in list(range(185,205))+list(range(385,400)):
            for tok in (b'SEEN-BY: 9/9',b'\1PATH: 9/9',b'\1KLUDGE',b'plain',b' * Origin: x (9:9/9)'):
                out.append((pre+b'a'*(n-len(pre))+tok+b'\rtext\r',True))
    return list(dict.fromkeys(out))
def chunks(l,n): return [tuple(l[i:i+n]) for i in range(0,len(l),n)]
def main():
    ck=Check('C19','exploration','all sequences of up to 2 (3) lines over the line alphabet, all lengths of every field and control line over the buffer borders, all attributes and FLAGS words and pairs, stored in both formats, read back and rescanned; all subfield shapes of other software exported; all area sequences x open-base limits x run splits; all time zones x dates x seasons; non-trivial = distinct message shape or sequence')
    world.init(('plain','asan')); L=thorough()
    R=range(NT)
    seqs=[s for k in range(0,4 if L else 3) for s in itertools.product(R,repeat=k) if sum(1 for i in s if i in (0,))<2 and sum(1 for i in s if i==1)<2 and sum(1 for i in s if i in (4,5))<2]
    ck.explore('shapes',shapecase,[(q,b'\r') for q in chunks(seqs,31)])
    look=[(i,) for i in range(NT,len(TOK))]+[(10,i) for i in range(NT,len(TOK))]+[(0,i,10) for i in range(NT,len(TOK))]
    ck.explore('lookalikes',shapecase,[(q,b'\r') for q in chunks(look,31)])
    ck.explore('cut',cutcase,chunks([s for s in seqs if s and len(s)<(4 if L else 3) and s[-1]!=12],31))
    lens=[(k,a,b) for k,top in (('text',(1,260)),('text',(9985,10015)),('text',(19990,20010)),('msgid',(0,253)),('reply',(0,253)),('pid',(0,253)),('klu',(0,253)),('klucut',(0,253)),('flags',(1,171)),('frm',(0,36)),('to',(0,36)),('subj',(0,72))) for a in range(top[0],top[1],20) for b in (min(a+20,top[1]),)]
    ck.explore('lengths',lencase,lens)
    words=sorted(FLAGNAME)+['dir','XYZ','']; ats=[1<<i for i in range(16)]
    attrs=[(a,'') for a in ats]+[(a|b,'') for a,b in itertools.combinations(ats,2)]+[(0,x) for x in words]+[(0,x+' '+y) for x in words for y in words]
    ck.explore('attributes',attrcase,chunks(attrs,31))
    ck.explore('controls',sbcase,chunks([(n,p) for n in list(range(0,14))+list(range(45,60)) for p in (0,1,5,11)],31))
    nm=[(f,'1:1/1',a,s,t) for f in ('1:1/10','1:1/10.4','2:3/4','2:3/4.5') for a in [0]+ats+[0x10|1,0x810] for s in (b'',b'one.zip',b'a.zip b.zip',b'a.zip,b.zip c') for t in (b'x\r',b'\1FLAGS: DIR KFS\r\1MSGID: 1 2\rx\r')]
    ck.explore('netmail',netcase,chunks(nm,40))
    top=[('msgid',0,330),('reply',0,330),('pid',0,330),('klu',0,330),('flags',0,330),('file',0,330),('freq',0,330),('seen',0,330),('path',0,330),('trash',0,330),('frm',0,330),('to',0,330),('subj',0,330),('text',0,60),('text',9990,10010),('daddr',0,250),('oaddr',0,250)]
    ck.explore('subfields',fieldcase,[(k,a,min(a+20,hi)) for k,lo,hi in top for a in range(lo,hi,20)])
    bits=[v for v in J.values() if v not in (J['LOCAL'],J['SENT'],J['TYPELOCAL'],J['ECHO'],J['NET'])]+[0]
    fa=[(a,f,()) for a in bits for f in (b'',b'ABC',b'ABC DEF')]+[(a|b,b'',()) for a,b in itertools.combinations(bits[:-1],2)]+[(0,b'',x) for k in (1,2,3) for x in itertools.product((b'a.zip',b'b'),repeat=k)]
    ck.explore('foreign',fattr,[(n,p) for n in (False,True) for p in chunks([f for f in fa if not (n and (f[0]&(J['FATT']|J['HOLD']|J['CRASH']) or f[2]))],31)])
    ck.explore('msgfiles',msgfiles,[(q,t) for t in (False,True) for q in chunks(msgtexts(L),25)])
    ck.explore('order',ordercase,[(n,p) for n in (False,True) for p in chunks([o for k in range(6) for o in itertools.permutations(range(5),k)],40)])
    depth=5 if L else 4
    S2=[(s,cut) for k in range(1,depth+1) for s in itertools.product(range(3),repeat=k) for cut in {k,k//2}]
    ck.explore('bases',multicase,[(q,m,3,t) for t in ('plain','link','qlink','copy') for m in (1,2,3,0) for q in chunks(S2,20)])
    ck.explore('scan bases',scancase,[(q,m,3) for m in (1,2,5) for q in chunks([(c,k) for c in itertools.product(range(3),repeat=3) if any(c) for k in range(3)],20)])
    ck.explore('dates',datecase,[(tz,a,b) for tz in TZS for a in NOWS for b in NOWS])
    ck.finish()
if __name__=='__main__': main()
