"""C17: filter expressions and actions, against an evaluator written from doc/filter.txt."""
import _boot,itertools,subprocess,re
import world; from world import *
from harness import *; from emodel import *; import nmodel
NL='Zone,1,A,x,y,z,300\r\nRegion,10,B,x,y,z,300\r\nHost,1,C,x,y,z,300\r\n,1,Me,x,y,z,300\r\nHub,10,H,x,y,z,300\r\n,20,N,x,y,z,300\r\nZone,2,A,x,y,z,300\r\nHost,5,N,x,y,z,300\r\n,1,N,x,y,z,300\r\n,9,N,x,y,z,300\r\n'
ZONES={'out':1,'out.002':2}
AKAS=['1:1/1','2:5/1','1:1/7.7']; NODES=['1:1/20','1:1/1.6','2:5/9']
NLDIR=None
def mkcfg(filters,fmt='JAM',opts=()):
    return ('NODELIST "%s" CMNL\n'%NLDIR if 'nonl' not in opts else '')+Cfg([Aka(a) for a in AKAS],[Node(a) for a in NODES],
        [Area('BAD','1:1/1',(fmt,'areas/bad')),Area('N1','1:1/1',(fmt,'areas/net1'),kind='NETMAIL'),Area('L','1:1/1',(fmt,'areas/lx'),kind='LOCALAREA'),Area('L11','1:1/1',(fmt,'areas/ly'),kind='LOCALAREA'),Area('L1','1:1/1',(fmt,'areas/l1'),kind='LOCALAREA'),Area('L2','1:1/1',(fmt,'areas/l2'),kind='LOCALAREA'),
         Area('ECHO','1:1/1',(fmt,'areas/echo'),[(a,'') for a in NODES]),Area('ECHO.TWO','2:5/1',None,[(a,'') for a in NODES])],
        opts=[o for o in opts if o!='nonl'],routes=['"2:*/*.*" "2:5/9" 2:5/1','"1:1/1.*" "*:*/*.*" 1:1/1','"*:*/*.*" "1:1/20" 1:1/1'],dupes=('dupes',200,'IGNORE'),tail='AREAFIXNAME "AreaFix"\n'+filters).text()
class G:
    """a message as the documentation sees it"""
    def __init__(s,id,kind='net',src='TOSSED',frm=None,to=b'Dest User',subj=b'Subj',o='1:1/20',d='1:1/20',area='ECHO',attr=PVT,text=(b'Hello there\r',),origin=True,hdest='1:1/1',late=False):
        s.late=late
        s.id=id; s.kind=kind; s.src=src; s.frm=frm if frm is not None else id.encode(); s.to=to; s.subj=subj; s.o=A(o); s.d=A(d) if kind=='net' else None
        s.area=area if kind=='echo' else ''; s.attr=attr; s.text=list(text); s.origin=origin; s.hdest=A(hdest)
    def body(s):
        if s.kind=='net':
            b=b'\1INTL %s %s\r'%(S(s.d,False).encode(),S(s.o,False).encode())
            if s.d.p: b+=b'\1TOPT %d\r'%s.d.p
            if s.o.p: b+=b'\1FMPT %d\r'%s.o.p
            return b''.join(s.text)+b if s.late else b+b''.join(s.text)
        return b'AREA:%s\r'%s.area.encode()+b''.join(s.text)+(b' * Origin: Some (nice) place (%s)\r'%S(s.o,s.o.p!=0).encode() if s.origin else b'')+b'SEEN-BY: 1/99\r\1PATH: 1/99\r'
    def msg(s):
        dd=s.d if s.kind=='net' else s.hdest
        return Msg((s.o.n,s.o.f),(dd.n,dd.f),attr=s.attr,to=s.to,frm=s.frm,subj=s.subj,body=s.body())
    def alltext(s):
        """(line, is kludge) pairs, line without CR"""
        b=s.body()
        ls=[l.rstrip(b'\r') for l in lines(b)]
        if s.kind=='echo': ls=[l for l in ls[1:] if not l.startswith(b'SEEN-BY') and not l.startswith(b'\1PATH')]
        return ls
def smatch(p,v):
    p,v=p.lower(),v.lower()
    for i in range(len(p)):
        if p[i:i+1]==b'*': return True
        if i>=len(v): return False
        if p[i:i+1]!=b'?' and p[i]!=v[i]: return False
    return len(p)==len(v)
def atom(g,nl,t):
    """value of '<var><op><pattern>' for message g; all bytes"""
    m=re.match(rb'([A-Za-z_]+)(?:([=|])(.*))?$',t,re.S); var=m.group(1).upper(); op=m.group(2); p=m.group(3)
    if p is not None: p=p.strip(b'"')
    strs={b'FROMNAME':g.frm,b'TONAME':g.to,b'SUBJECT':g.subj,b'AREA':g.area.encode(),b'TYPE':b'NETMAIL' if g.kind=='net' else b'ECHOMAIL',b'SOURCE':g.src.encode()}
    if var in strs:
        v=strs[var]
        return smatch(p,v) if op==b'=' else p.lower() in v.lower()
    none=Addr(0,0,0,0)
    fr=g.o if g.kind=='net' or g.origin else none; to=g.d if g.kind=='net' else none
    if var in (b'FROMADDR',b'TOADDR'): return nmodel.match(p.decode(),fr if var==b'FROMADDR' else to,nl)
    if var==b'TEXT': return any(p.lower() in l.lower() for l in g.alltext() if l[:1]!=b'\1')
    if var==b'KLUDGES': return any(p.lower() in l[1:].lower() for l in g.alltext() if l[:1]==b'\1')
    a=fr if b'FROM' in var else to; akas=[A(x) for x in AKAS]
    if var==b'FILEATTACH': r=bool(g.attr&FATT)
    elif var.endswith(b'LOCALAKA'): r=a in akas
    elif var.endswith(b'LOCALPOINT'): r=a.p!=0 and a._replace(p=0) in akas
    elif var.startswith(b'EXISTSCFG'): r=(a._replace(p=0) if var.endswith(b'BOSS') else a) in [A(x) for x in NODES]
    elif var.startswith(b'EXISTSNL'): r=nl.has(a) and (a.p==0 or var.endswith(b'BOSS'))
    else: raise ValueError(t)
    return r if op is None or p.upper()==b'TRUE' else not r
# ------------------------------------------------------------ expressions
def send(w,gs):
    by={}
    for g in gs: by.setdefault(2 if g.kind=='net' and g.o.z==2 else 1,[]).append(g)
    for z,l in sorted(by.items()):
        for i in range(0,len(l),500): w.inbound(mkpkt(A('2:5/9') if z==2 else A('1:1/20'),A('2:5/1') if z==2 else A('1:1/1'),[g.msg() for g in l[i:i+500]]))
def fired(w,filters,gs,nl,tag,pre=None,cmds=('TOSS',),opts=(),extra=''):
    """filters: list of (text bytes, python predicate on g). every filter logs. Compares what fired."""
    cfg=''.join('FILTER %s\nWRITELOG "F%d=%%f>%%t;"\n'%(f.decode('latin1'),i) for i,(f,_) in enumerate(filters))
    with World(mkcfg('',opts=opts)) as w:
        w.write('cm.cfg',(mkcfg(extra+cfg,opts=opts)).encode('latin1'))
        if pre: pre(w)
        send(w,[g for g in gs if g.src=='TOSSED'])
        for c in cmds:
            r=w.cm(c,timeout=300)
            if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-300:]))
        log=w.read('cm.log') if w.exists('cm.log') else b''
    got={}
    for m in re.finditer(rb'F(\d+)=([^>\n]*)>([^;\n]*);',log):
        k=(int(m.group(1)),m.group(2),m.group(3)); got[k]=got.get(k,0)+1
    n=0;t=0
    for i,(f,pred) in enumerate(filters):
        for g in gs:
            want=1 if pred(g) else 0; n+=1; t+=want
            if got.pop((i,g.frm,g.to),0)!=want: raise Violation(tag+'filter %s %s for %s %s from %r (%s) to %r (%s) subject %r source %s attr %x text %r'%(f.decode('latin1'),'did not fire' if want else 'fired',g.src,g.kind,g.frm,S(g.o),g.to,S(g.d) if g.d else '-',g.subj,g.src,g.attr,b''.join(g.text)[:300]))
    got={k:v for k,v in got.items() if k[1]!=b'Sys Op'}       # bounces of file attaches and the like
    if got: raise Violation(tag+'fired for unknown messages: %r'%list(got)[:3])
    return n,t
# -- boolean structure: leaves in order, values by bits of the message
LEAF=[b'TONAME="x (y z"',b'SUBJECT|"s)b"',b'FILEATTACH',b'TEXT|"q and r"',b'KLUDGES|kk']
def exprs(lo,hi):
    """all expressions over leaves lo..hi-1 in order: (text, function(vals))"""
    n=hi-lo
    def terms(a,b):
        if b-a==1: base=[(LEAFNO[a],lambda v,a=a:v[VALNO[a]])]
        else: base=[(b'('+t+b')',f) for t,f in allx(a,b)]
        return base+[(b'NOT '+t,lambda v,f=f:not f(v)) for t,f in base]
    memo={}
    def allx(a,b):
        """expressions with at least two terms when b-a>1"""
        if (a,b) in memo: return memo[(a,b)]
        out=[]
        if b-a==1: out=terms(a,b)
        else:
            # last operator splits: left is an expression without outer parentheses (or a term), right a term
            for c in range(a+1,b):
                lefts=terms(a,c) if c-a==1 else terms(a,c)+allx(a,c)
                for lt,lf in lefts:
                    for rt,rf in terms(c,b):
                        out.append((lt+b' and '+rt,lambda v,lf=lf,rf=rf:lf(v) and rf(v)))
                        out.append((lt+b' OR '+rt,lambda v,lf=lf,rf=rf:lf(v) or rf(v)))
        memo[(a,b)]=out
        return out
    return allx(lo,hi)
LEAFNO=VALNO=None
def boolcase(c):
    global LEAFNO,VALNO
    ids,part,parts=c
    LEAFNO=[LEAF[i] for i in ids]; VALNO=list(ids)
    k=max(ids)+1
    gs=[]
    for bits in itertools.product((0,1),repeat=k):
        b=list(bits)+[0]*(5-k)
        gs.append(G('m'+''.join(map(str,b)),d='2:5/9',to=b'x (y z' if b[0] else b'x (y',subj=b'a S)B c' if b[1] else b'sb)',attr=FATT if b[2] else 0,text=((b'\1KK: 1\r',) if b[4] else ())+((b'say q and r\r',) if b[3] else (b'say q or r\r',))))
    fs=exprs(0,len(ids))[part::parts]
    for f,_ in fs: assert len(f)<390
    n,t=fired(None,[(f,lambda g,fn=fn:fn([int(x) for x in g.frm.decode()[1:]])) for f,fn in fs],gs,None,'')
    return dict(evaluations=n,nontrivial=[('b',f) for f,_ in fs],states=len(fs)*len(gs),transitions=n,sample=dict(expression=fs[0][0].decode(),messages=len(gs)))
# -- string operators
def words(al,n): return [bytes(x) for k in range(1,n+1) for x in itertools.product(al,repeat=k)]
def strcase(c):
    op,al,pl,tl,var=c
    texts=[b'']+words(al,tl) if var!='AREA' else []
    pats=[p for p in words(al+(b'?*' if op=='=' else b''),pl)]
    gs=[]
    for i,t in enumerate(texts):
        if var=='SUBJECT': gs.append(G('s%d'%i,subj=t,d='2:5/9'))
        elif var=='TONAME': gs.append(G('s%d'%i,to=t+b'#%d'%i,d='2:5/9'))
        elif var=='TEXT': gs.append(G('s%d'%i,text=(t+b'\r',),d='2:5/9'))
        elif var=='KLUDGES': gs.append(G('s%d'%i,text=(b'\1'+t+b'\r',b'z\r'),d='2:5/9'))
    nl=nmodel.Nodelist(NL)
    fs=[(var.encode()+op.encode()+(b'"%s"'%p if i%2 else p),) for i,p in enumerate(pats)]
    n,t=fired(None,[(f,lambda g,f=f:atom(g,nl,f)) for f, in fs],gs,nl,'')
    return dict(evaluations=n,nontrivial=[(op,var,f) for f, in fs],states=n,transitions=n,sample=dict(op=op,variable=var,patterns=len(fs),texts=len(gs),true=t))
# -- every arrangement of the needle in kludges and text lines
def occcase(c):
    n,kind=c; L=(b'\1KX: has needle in\r',b'\1KY: nothing\r',b'text has needle\r',b'plain text\r',b'needle\r'); nl=nmodel.Nodelist(NL)
    gs=[G('o%d'%i,kind,text=(b'\1MSGID: 1:1/20 %08x\r'%i,)+x,d='2:5/9') for i,x in enumerate(itertools.product(L,repeat=n))]
    fs=[b'TEXT|needle',b'KLUDGES|needle',b'TEXT|NEEDLE',b'KLUDGES|"nothing"',b'TEXT|nothing',b'TEXT|"KX"',b'KLUDGES|"has needle in"',b'TEXT|"has needle"',b'TEXT|"needle in"',b'KLUDGES|"plain"']
    k,t=fired(None,[(f,lambda g,f=f:atom(g,nl,f)) for f in fs],gs,nl,'lines %d, '%n)
    return dict(evaluations=k,nontrivial=[(kind,n)],states=k,transitions=k,sample=dict(lines=n,kind=kind,true=t))
# -- position of the needle in long texts
def poscase(c):
    where,cr,offs=c
    gs=[]
    for off in offs:
        pad=b''
        filler=(b'.'*70+b'\r') if cr else b'.'*190
        while len(pad)+len(filler)<=off: pad+=filler
        pad+=b'.'*(off-len(pad))
        t=pad+(b'\r\1KX: ' if where=='KLUDGES' else b'\r' if where=='TEXTNL' else b'')+b'needle here\rmore text\r'+b'.'*60+b'\r'
        gs.append(G('p%d'%off,text=(t,),d='2:5/9'))
    var='KLUDGES' if where=='KLUDGES' else 'TEXT'; nl=nmodel.Nodelist(NL)
    fs=[b'TEXT|needle',b'KLUDGES|needle',b'TEXT|"more text"',b'KLUDGES|"more text"',b'TEXT|"needle here"',b'KLUDGES|.n',b'TEXT|"text."']
    def real(g,f):
        # lines longer than the reader's buffer are split: a needle at such a place is not judged
        return atom(g,nl,f)
    n,t=fired(None,[(f,lambda g,f=f:real(g,f)) for f in fs],gs,nl,'needle at %s, '%where)
    return dict(evaluations=n,nontrivial=[(where,cr,o) for o in offs],states=n,transitions=n,sample=dict(where=where,offsets=[offs[0],offs[-1]]))
# -- variables
ADDRS=['1:1/1','1:1/20','1:1/20.4','1:1/1.5','1:1/1.6','1:1/7.7','2:5/1','2:5/9','2:5/9.3','1:1/55','1:1/55.1','2:5/1.8','2:1/1','2:1/20','1:5/9','1:5/1.4','2:1/20.2','2:1/1.6']
NPATS=['1:1/1','1:1/1.0','1:1/1.*','1:1/2?.*','1:*/*.*','*:*/*.5','2:5/9.3','*','ZONE 2','NET 1:1','NODE 1:1/20','REGION 1:10','HUB 1:1/10','2:5/*','?:1/*.*','1:1/1*.*']
def empty(p):
    # an address without zone matches any zone: only the rest of the pattern is judged
    if p=='*' or ' ' in p: return True
    return all(pat1(x,0) for x in nmodel.split4d(p)[1:])
def varcase(c):
    what,opts=c
    nl=nmodel.Nodelist(NL); gs=[];i=0
    for o in ADDRS:
        for d in ADDRS:
            i+=1; gs.append(G('n%d'%i,o=o,d=d,attr=PVT|(FATT if i%3==0 else 0),subj=b'nofile%d'%i,text=(b'Hello %d\r'%i,)))
        for ar,orig,hd in (('ECHO',1,'1:1/1'),('ECHO.TWO',1,'2:5/9'),('ECHO',0,'1:1/20')):
            i+=1; gs.append(G('n%d'%i,'echo',o=o,area=ar,origin=bool(orig),hdest=hd,attr=0 if i%2 else FATT,text=(b'\1MSGID: %s %08x\r'%(o.encode(),i),b'Echo %d\r'%i)))
    names={b'FROMNAME':[b'n1',b'N1*',b'n??'],b'TONAME':[b'dest*',b'"Dest User"',b'Dest'],b'SUBJECT':[b'nofile*',b'Subj'],b'AREA':[b'ECHO',b'echo*',b'ECHO.TWO',b'*',b'""'],b'TYPE':[b'NETMAIL',b'echomail',b'NET'],b'SOURCE':[b'TOSSED',b'exported',b'CRASHMAIL',b'*']}
    fs=[]
    if what=='str':
        for v,ps in names.items():
            for p in ps:
                fs.append(v+b'='+p)
                if p!=b'""': fs.append(v.lower()+b'|'+p)
    elif what=='node':
        for v0 in (b'FROMADDR',b'TOADDR'):
            for p in NPATS: v=v0 if len(p)%3 else v0.title(); fs.append(v+b'="'+p.encode()+b'"' if ' ' in p or len(p)%2 else v+b'='+p.encode())
    else:
        for v in (b'FILEATTACH',b'TOLOCALAKA',b'FROMLOCALAKA',b'TOLOCALPOINT',b'FROMLOCALPOINT',b'EXISTSCFG_FROMADDR',b'EXISTSCFG_FROMBOSS',b'EXISTSCFG_TOADDR',b'EXISTSCFG_TOBOSS')+((b'EXISTSNL_FROMADDR',b'EXISTSNL_FROMBOSS',b'EXISTSNL_TOADDR',b'EXISTSNL_TOBOSS') if 'nonl' not in opts else ()):
            for sx in (b'',b'=TRUE',b'=FALSE',b'=true',b'=False'): fs.append(v+sx)
            fs.append(b'NOT '+v); fs.append(v.lower())
    if 'nonl' in opts: fs=[f for f in fs if b'REGION' not in f and b'HUB' not in f]
    def ev(g,f):
        if f.startswith(b'NOT '): return not atom(g,nl,f[4:])
        return atom(g,nl,f)
    if what=='node':
        # the empty TOADDR of echomail and a missing Origin are not judged against patterns that match anything
        skip=lambda g,f: g.kind=='echo' and (f.upper().startswith(b'TO') or not g.origin) and empty(f.split(b'=')[1].strip(b'"').decode())
        fs=[f for f in fs if not any(skip(g,f) for g in gs)]+[b'TYPE=NETMAIL and '+f for f in fs if any(skip(g,f) for g in gs)]
        ev2=ev; ev=lambda g,f: (g.kind=='net' and ev2(g,f[17:])) if f.startswith(b'TYPE=') else ev2(g,f)
    n,t=fired(None,[(f,lambda g,f=f:ev(g,f)) for f in fs],gs,nl,'variables: ',opts=opts,cmds=('TOSS',))
    return dict(evaluations=n,nontrivial=[(what,f) for f in fs],states=n,transitions=n,sample=dict(filters=len(fs),messages=len(gs),true=t))
def srccase(c):
    """SOURCE: tossed, exported and generated messages"""
    fmt,=c
    nl=nmodel.Nodelist(NL)
    gs=[G('t1'),G('t2','echo',text=(b'\1MSGID: 1:1/20 1\r',b'x\r')),G('e1',src='EXPORTED',o='1:1/1',d='1:1/20'),G('e2','echo',src='EXPORTED',o='1:1/1')]
    gen=[G('g1',src='CRASHMAIL',frm=b'Sys Op',to=b'af1',subj=b'AreaFix response',o='1:1/1',d='1:1/20')]
    af=G('af1',to=b'AreaFix',subj=b'none',d='1:1/1')
    def pre(w):
        if fmt=='MSG':
            for d in ('net1','echo'): os.makedirs(w.p('areas/'+d),exist_ok=True)
            w.write('areas/net1/2.msg',mkmsg(frm=b'e1',to=b'Dest User',subj=b'Subj',attr=LOCAL|PVT,text=b'Hello there\r',orig=(1,1,1,0),dest=(1,1,20,0)))
            w.write('areas/echo/2.msg',mkmsg(frm=b'e2',to=b'Dest User',subj=b'Subj',attr=LOCAL,text=b'Hello there\r * Origin: x (1:1/1)\r'))
        else:
            os.makedirs(w.p('areas'),exist_ok=True)
            j=JamWriter(); j.add(frm=b'e1',to=b'Dest User',subj=b'Subj',text=b'Hello there\r',attr=JTYPENET|JTYPELOCAL|JL,sub=((0,b'1:1/1'),(1,b'1:1/20'))); j.write(w.p('areas/net1'))
            j=JamWriter(); j.add(frm=b'e2',to=b'Dest User',subj=b'Subj',text=b'Hello there\r * Origin: x (1:1/1)\r'); j.write(w.p('areas/echo'))
    fs=[b'SOURCE='+x for x in (b'TOSSED',b'EXPORTED',b'CRASHMAIL',b'*',b'"T*"')]+[b'NOT SOURCE|E',b'TYPE=NETMAIL',b'TYPE=ECHOMAIL',b'FROMLOCALAKA',b'FROMADDR=1:1/1',b'TOADDR=1:1/20 and TYPE=NETMAIL',b'SUBJECT=areafix*',b'TEXT|hello',b'AREA=ECHO']
    def ev(g,f):
        if f.startswith(b'NOT '): return not atom(g,nl,f[4:])
        if b' and ' in f: return all(atom(g,nl,x) for x in f.split(b' and '))
        return atom(g,nl,f)
    gen[0].text=[b'nothing\r']
    allg=gs+gen+[af]
    cfgfmt=fmt
    global mkcfg
    old=mkcfg
    def mk(f,fmt=cfgfmt,opts=()): return old(f,fmt=cfgfmt,opts=opts)
    mkcfg=mk
    try: n,t=fired(None,[(f,lambda g,f=f:ev(g,f)) for f in fs],allg,nl,'sources (%s): '%fmt,pre=pre,cmds=('TOSS','SCAN'))
    finally: mkcfg=old
    return dict(evaluations=n,nontrivial=[(fmt,f) for f in fs],states=n,transitions=n,sample=dict(fmt=fmt))
def badcase(c):
    """every malformed expression is refused, whatever its length; nothing is tossed"""
    f,padn=c
    t=(b'TONAME=abcdefghi or '*padn)+f
    with World(mkcfg('')) as w:
        w.write('cm.cfg',mkcfg('FILTER %s\nKILL\n'%t.decode('latin1')).encode('latin1'))
        w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[G('x').msg()],),name='000000aa.pkt')
        r=w.cm('TOSS')
        if r.rc!=10 or '000000aa.pkt' not in w.ls('in'): raise Violation('malformed filter %r accepted (exit %r, inbound %r)'%(t,r.rc,w.ls('in')))
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(filter=t.decode('latin1')))
BADX=[b'TONAME',b'(TONAME=a',b'TONAME=a and',b'TONAME=a or',b'TONAME=a xor TYPE=b',b'NOT',b'NOPE=1',b'FILEATTACH=5',b'FILEATTACH|x',b'TEXT=x',b'FROMADDR=hello',b'FROMADDR|1',b'TONAME=a TYPE=b',b'()',b'TONAME=a and (TYPE=b or)',b'TONAME=a or NOT',b'and TONAME=a']
# ------------------------------------------------------------ actions
CMDS=['KILL','TWIT','COPY L1','COPY L2','WRITEBAD "Not wanted"','WRITELOG "LOG %f %t %o %d %a %s 100%%"','BOUNCEMSG "Dear %f, %t at %d %s"','BOUNCEHEADER "Short %o in %a!"','REMAPMSG "New Name" 2:5/*.*','REMAPMSG "*" 1:1/1.0','MASQUERADE "New From" 1:1/*.9','MASQUERADE "*" 2:5/7.0','EXECUTE "./ex 0 %m"','EXECUTE "./ex 10 %r %m"','EXECUTE "./ex 5 %R"']
class St: pass
def actmsgs():
    k=(b'\1MSGID: 1:1/20.4@fido.net 0123abcd\r',b'\1REPLY: 1:1/30 11112222\r',b'\1PID: X\r')
    v=(b'\1Via 1:1/20 @2024 Foo\r',)
    t=(b'Text one\r',b'\r',b'INTL in text\r',b'Second (line)\r')
    longt=tuple(b'Line %04d %s\r'%(i,b'x'*60) for i in range(300))
    return [G('un1',o='1:1/20.4',d='2:5/9',to=b'Some Body',subj=b'S one',text=k+t+v),
            G('un2',o='1:1/20',d='1:1/1',to=b'Local Body',subj=b'S two',text=k[:1]+t),
            G('un3',o='2:5/9',d='1:1/20.7',to=b'Third',subj=b'S three',text=(b'\1MSGID: nospace\r',)+t+(b'--- tear\r',)),
            G('un4',o='1:1/20',d='1:1/55.5',to=b'Fourth',subj=b'S four',text=k[1:]+longt+v),
            G('un5',o='1:1/20.4',d='2:5/9.3',to=b'Fifth',subj=b'S five',text=longt+k+v,late=True),
            G('ue1','echo',o='1:1/20.4',to=b'All',subj=b'E one',text=k+t+(b'--- tear (x)\r',)),
            G('ue2','echo',o='1:1/88',area='ECHO.TWO',subj=b'E two',text=(b'\1MSGID: '+b'1:1/88@'+b'd'*40+b' 12345678\r',)+t),
            G('ue3','echo',o='1:1/20',subj=b'E three',text=k[:1]+longt)]
def expandcodes(t,s):
    o=s.o; out=''
    i=0
    d=s.d if s.kind=='net' else None
    m={'f':s.frm.decode(),'t':s.to.decode(),'o':S(o,o.p!=0),'d':S(d,d.p!=0) if d else None,'a':s.area,'s':s.subj.decode()}
    while i<len(t):
        if t[i]=='%' and i+1<len(t): out+=(m[t[i+1]] if m.get(t[i+1]) is not None else '\x00' if t[i+1] in m else t[i+1]); i+=2
        else: out+=t[i]; i+=1
    return out          # \0 where the value is not specified (destination of echomail)
def snap(s): 
    x=St(); x.__dict__.update(s.__dict__); x.kl=list(s.kl); x.tx=list(s.tx); return x
def lin(s): return None
def newaddr(pat,a):
    z,n,f,p=nmodel.split4d(pat); return Addr(*[v if x=='*' else int(x) for x,v in zip((z,n,f,p),a)])
def route(d): return '2:5/1' if d.z==2 else '1:1/1'
def model(g,seq):
    """seq: list of (commands) filters that all fire. -> final state with outputs"""
    s=St(); s.g=g; s.id,s.kind,s.frm,s.to,s.subj,s.o,s.d,s.area=g.id,g.kind,g.frm,g.to,g.subj,g.o,g.d,g.area
    ls=[l for l in g.text]
    if g.kind=='echo': ls.append(b' * Origin: Some (nice) place (%s)\r'%S(g.o,g.o.p!=0).encode())
    s.kl=[l for l in ls if l[:1]==b'\1']; s.tx=[l for l in ls if l[:1]!=b'\1']; s.masq=False; s.end=[]
    s.copies=[];s.bad=[];s.log=[];s.bounce=[];s.ex=[];s.kill=s.twit=False
    for cmd in seq:
        w=cmd.split(' ',1)
        arg=w[1] if len(w)>1 else ''
        q=re.findall(r'"([^"]*)"',arg)
        if w[0]=='KILL': s.kill=True
        elif w[0]=='TWIT': s.twit=True
        elif w[0]=='COPY': s.copies.append((arg,snap(s)))
        elif w[0]=='WRITEBAD': s.bad.append((q[0],snap(s)))
        elif w[0]=='WRITELOG': s.log.append(expandcodes(q[0],s))
        elif w[0] in ('BOUNCEMSG','BOUNCEHEADER'): s.bounce.append((w[0]=='BOUNCEHEADER',expandcodes(q[0],s),snap(s)))
        elif w[0]=='REMAPMSG' and s.kind=='net':
            nd=newaddr(arg.split('"')[2].strip(),s.d); nn=s.to if q[0]=='*' else q[0].encode()
            s.kl=s.kl+[b'\1Remapped to %s at %s by %s\r'%(nn,S(nd).encode(),S(A(route(nd))).encode()),b'\1Message originally to %s at %s\r'%(s.to,S(s.d).encode())]
            s.d=nd; s.to=nn
        elif w[0]=='MASQUERADE':
            base=s.o if s.kind=='net' else None
            pat=arg.split('"')[2].strip()
            z,n,f,p=nmodel.split4d(pat)
            if base is None and '*' in (n,f): base=s.hdr if hasattr(s,'hdr') else A('%d:%d/%d.0'%(1,g.o.n,g.o.f))
            no=newaddr(pat,base or s.o)
            if q[0]!='*': s.frm=q[0].encode()
            def fixid(l,key):
                v=l[len(key):-1].split(b' ',1)
                return key+S(no).encode()+b' '+v[1]+b'\r' if len(v)>1 else l
            kl=[]
            for l in s.kl:
                if l.startswith(b'\1MSGID: '): l=fixid(l,b'\1MSGID: ')
                elif l.startswith(b'\1REPLY: ') and s.kind=='net': l=fixid(l,b'\1REPLY: ')
                elif l.startswith(b'\1Via'): continue
                kl.append(l)
            s.kl=kl; s.o=no; s.masq=True; s.hdr=no
            if s.kind=='echo': s.tx=[re.sub(rb'\([^()]*\)\r$',b'('+S(no).encode()+b')\r',l) if l.startswith(b' * Origin: ') else l for l in s.tx]
        elif w[0]=='EXECUTE':
            p=q[0].split(); s.ex.append((p[1],p[2:],snap(s)))
            if p[1]=='0': s.kill=True
        if s.kill: break
    return s
EX='#!/bin/sh\nrc=$1; shift\nn=0; while [ -e ex.$n.rc ]; do n=$((n+1)); done\ni=0; for f; do cp "$f" ex.$n.$i; i=$((i+1)); done\necho $rc > ex.$n.rc\nexit $rc\n'
def sbody(s): return s.kl,s.tx
def cmpbody(body,s,what,via=0,mustkl=True):
    ls=[l if l.endswith(b'\r') else l+b'\r' for l in lines(body)]
    skip=(b'\1INTL',b'\1FMPT',b'\1TOPT')
    kl=[l for l in ls if l[:1]==b'\1' and not l.startswith(skip)]; tx=[l for l in ls if l[:1]!=b'\1']
    if via:
        own=[l for l in kl if l.startswith(b'\1Via') and b'CrashMail' in l]
        if len(own)!=1: raise Violation(what+': Via lines %r'%own)
        kl.remove(own[0])
    if sorted(kl)!=sorted(s.kl): raise Violation(what+': kludges %r expected %r'%(kl,s.kl))
    if tx!=s.tx: raise Violation(what+': text %r expected %r'%(b''.join(tx)[:600],b''.join(s.tx)[:600]))
def neteff(p,m):
    for k in (b'\1INTL',b'\1TOPT',b'\1FMPT'):
        if len([l for l in lines(m.body) if l.startswith(k)])>1: raise Violation('message %r has more than one %s line'%(m.subj,k[1:].decode()))
    kl={}
    for l in lines(m.body):
        if l[:1]==b'\1': kl.setdefault(l[1:5],l)
    o=Addr(p.orig.z,m.orig[0],m.orig[1],0); d=Addr(p.dest.z,m.dest[0],m.dest[1],0)
    if b'INTL' in kl:
        x=kl[b'INTL'][:-1].replace(b'INTL:',b'INTL').split(); d=A(x[1].decode()); o=A(x[2].decode())
        if (o.n,o.f,d.n,d.f)!=m.orig+m.dest: return ('header and INTL disagree',m)
    if b'TOPT' in kl: d=d._replace(p=int(kl[b'TOPT'][5:]))
    if b'FMPT' in kl: o=o._replace(p=int(kl[b'FMPT'][5:]))
    return o,d
def jamtext(m):
    """stored JAM message -> kludge list and text lines as in the original, plus addresses"""
    kl=[]
    for k,v in m.sub:
        if k==4: kl.append(b'\1MSGID: '+v+b'\r')
        elif k==5: kl.append(b'\1REPLY: '+v+b'\r')
        elif k==7: kl.append(b'\1PID: '+v+b'\r')
        elif k==8: kl.append(b'\1Via '+v+b'\r')
        elif k==2000: kl.append(b'\1'+v+b'\r')
    return kl,lines(m.text)
def cmpjam(m,s,what,pre=()):
    f=lambda n:jamfield(m,n)
    if (f(2),f(3),f(6))!=(s.frm,s.to,s.subj): raise Violation(what+': header %r expected %r'%((f(2),f(3),f(6)),(s.frm,s.to,s.subj)))
    kl,tx=jamtext(m)
    if f(0) is None or A(f(0).decode())!=s.o: raise Violation(what+': origin %r expected %s'%(f(0),S(s.o)))
    if s.kind=='net' and A(f(1).decode())!=s.d: raise Violation(what+': destination %r expected %s'%(f(1),S(s.d)))
    kl=[k for k in kl if not k.startswith((b'\1INTL',b'\1FMPT',b'\1TOPT'))]
    if sorted(kl)!=sorted(s.kl): raise Violation(what+': kludges %r expected %r'%(kl,s.kl))
    if tx!=list(pre)+s.tx: raise Violation(what+': text %r expected %r'%(b''.join(tx)[:500],b''.join(list(pre)+s.tx)[:500]))
def actcase(c):
    seq,split,opts=c
    cond='FROMNAME=u* or FROMNAME="New From"'
    fl='FILTER FROMNAME=nobody\nKILL\n'
    if split and len(seq)>1: fl+='FILTER %s\n%s\nFILTER FROMNAME=nobody\nTWIT\nFILTER SOURCE=TOSSED\n%s\n'%(cond,seq[0],'\n'.join(seq[1:]))
    else: fl+='FILTER %s\n%s\n'%(cond,'\n'.join(seq))
    fl+='FILTER TYPE=NETMAIL and TOADDR=2:5/*.* and SOURCE=TOSSED\nWRITELOG "LAST %s"\nFILTER FROMADDR=1:1/*.9 or FROMNAME="New From"\nWRITELOG "MASQ %s"\n'
    tag='[%s]%s: '%(' / '.join(seq),' split over filters' if split else '')
    gs=actmsgs()
    with World(mkcfg(fl,opts=opts)) as w:
        w.write('ex',EX); os.chmod(w.p('ex'),0o755)
        send(w,gs)
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-300:]))
        if w.ls('in'): raise Violation(tag+'inbound not empty: %r'%w.ls('in'))
        ms=[model(g,seq) for g in gs]
        # log
        log=w.read('cm.log').decode('latin1') if w.exists('cm.log') else ''
        got=sorted(re.findall(r'LOG [^\n]*',log)); want=sorted(x for s in ms for x in s.log)
        if len(got)!=len(want) or not all(re.fullmatch(re.escape(x).replace('\x00','.*'),y) for x,y in zip(sorted(want),got)): raise Violation(tag+'log %r expected %r'%(got,want))
        for key,cnd in (('LAST',lambda s:s.kind=='net' and s.d.z==2 and s.d.n==5),('MASQ',lambda s:(s.o.z,s.o.n,s.o.p)==(1,1,9) or s.frm==b'New From')):
            got=sorted(re.findall(key+r' ([^\n]*)',log)); want=sorted(s.subj.decode() for s in ms if not s.kill and cnd(s))
            if got!=want: raise Violation(tag+'following filter (%s) fired for %r expected %r'%(key,got,want))
        # message bases
        def jam(b): return [m for m in read_jam(w.p('areas/'+b)).msgs if m] if w.exists('areas/'+b+'.jhr') else []
        for area,b in (('L1','l1'),('L2','l2'),('L','lx'),('L11','ly')):
            got=jam(b); want=[x for s in ms for a,x in s.copies if a==area]
            if len(got)!=len(want): raise Violation(tag+'%d copies in %s, expected %d'%(len(got),area,len(want)))
            key=lambda x:x
            for m in got:
                subj=jamfield(m,6); cand=[x for x in want if x.subj==subj]
                if not cand: raise Violation(tag+'copy of unknown message %r in %s'%(subj,area))
                err=None
                for x in cand:
                    try: cmpjam(m,x,tag+'copy in '+area,pre=(b'AREA:%s\r'%x.area.encode(),) if x.kind=='echo' else ()); want.remove(x); err=None; break
                    except Violation as e: err=e
                if err: raise err
        got=jam('bad'); want=[x for s in ms for x in s.bad]
        if len(got)!=len(want): raise Violation(tag+'%d messages in BAD, expected %d'%(len(got),len(want)))
        for m in got:
            x=[y for y in want if y[1].subj==jamfield(m,6)]
            if not x: raise Violation(tag+'unexpected message in BAD')
            err=None
            for q,st in x:
                t=m.text
                ok=(b'ERROR:%s\r'%q.encode() in t) and (b'AREA:%s\r'%st.area.encode() in t if st.kind=='echo' else b'DEST:%s\rORIG:%s\r'%(S(st.d).encode(),S(st.o).encode()) in t) and t.endswith(b''.join(st.tx)) and (jamfield(m,2),jamfield(m,3))==(st.frm,st.to)
                if ok: want.remove((q,st)); break
            else: raise Violation(tag+'BAD copy %r %r'%(m.sub,t[:400]))
        # executed commands
        ex=sorted((f for f in w.ls('.') if re.fullmatch(r'ex\.\d+\.rc',f)),key=lambda f:int(f.split('.')[1])); want=[x for s in ms for x in s.ex]
        if len(ex)!=len(want): raise Violation(tag+'%d commands executed, expected %d'%(len(ex),len(want)))
        for f in ex:
            rc=w.read(f).decode().strip(); n=f.split('.')[1]; files=[w.read('ex.%s.%d'%(n,i)) for i in range(9) if w.exists('ex.%s.%d'%(n,i))]
            x=[y for y in want if y[0]==rc and files and all((y[2].subj in z) for z in files)]
            if not x: raise Violation(tag+'executed command %s got files %r'%(rc,[z[:300] for z in files]))
            rcx,codes,st=x[0]; want.remove(x[0])
            if len(codes)!=len(files): raise Violation(tag+'command got %d files'%len(files))
            for cde,data in zip(codes,files):
                if cde=='%m':
                    q=parse_msg(data)
                    if (q.frm,q.to,q.subj)!=(st.frm,st.to,st.subj): raise Violation(tag+'%%m file: %r'%((q.frm,q.to,q.subj),))
                    if st.kind=='net' and ((q.ozone,q.onet,q.onode,q.opoint),(q.dzone,q.dnet,q.dnode,q.dpoint))!=(tuple(st.o),tuple(st.d)): raise Violation(tag+'%%m file: addresses %r'%(q.__dict__,))
                    body=b''.join(l for l in lines(q.text) if not l.startswith((b'AREA:',b'SEEN-BY:',b'\1PATH:')))
                    cmpbody(body,st,tag+'%m file')
                else:
                    h,_,b=data.partition(b'\n\n')
                    if not (b'Subject: '+st.subj in h and st.frm in h and st.to in h): raise Violation(tag+'%s file: header %r'%(cde,h))
                    if cde=='%r' and S(st.o,st.o.p!=0).encode() not in h: raise Violation(tag+'%s file: sender address missing: %r'%(cde,h))
                    for l in st.tx:
                        if l[:-1] not in b: raise Violation(tag+'%s file: line %r missing in %r'%(cde,l,b[:300]))
        left=[f for f in w.ls('tmp')]
        # imported and forwarded
        items,prob=outbound(w,ZONES)
        if prob: raise Violation(tag+'; '.join(prob[:3]))
        fwd={};gen=[]
        for it in items:
            for p in it.pkts:
                for m in p.msgs: (gen if m.subj==b'Bounced message' else fwd.setdefault(m.subj,[])).append((it,p,m))
        imp={}
        for b in ('net1','echo'):
            for m in jam(b):
                if jamfield(m,6)==b'Bounced message': gen.append((None,None,m))
                else: imp.setdefault(jamfield(m,6),[]).append((b,m))
        nb=[]
        for s in ms:
            ds=tag+'message %r: '%s.subj; f=fwd.pop(s.subj,[]); im=imp.pop(s.subj,[])
            nb+=s.bounce
            if s.kill:
                if f or im: raise Violation(ds+'killed but found in %r'%[x[0] if x[0] in('net1','echo') else x[0].name for x in f+im])
                continue
            if s.kind=='net':
                local=s.d in [A(a) for a in AKAS]
                if local:
                    if f or len(im)!=(0 if s.twit else 1): raise Violation(ds+'local netmail: %d forwarded, %d imported'%(len(f),len(im)))
                    if im: cmpjam(im[0][1],s,ds+'imported')
                else:
                    if im or len(f)!=1: raise Violation(ds+'transit netmail: %d forwarded, %d imported'%(len(f),len(im)))
                    it,p,m=f[0]
                    hop=A('2:5/9') if s.d.z==2 else s.d if s.d._replace(p=0)==A('1:1/1') else A('1:1/20')
                    if it.dest!=hop: raise Violation(ds+'sent to %s expected %s'%(S(it.dest),S(hop)))
                    e=neteff(p,m)
                    if e!=(s.o,s.d) and ((p.orig.z,p.dest.z)==(s.o.z,s.d.z) or s.o.z!=s.d.z or 'FORCEINTL' in opts): raise Violation(ds+'forwarded with addresses %r expected %r'%(e,(s.o,s.d)))
                    if (m.frm,m.to)!=(s.frm,s.to): raise Violation(ds+'forwarded names %r'%((m.frm,m.to),))
                    cmpbody(m.body,s,ds+'forwarded',via=1)
            else:
                src=A('1:1/20')
                want=sorted(A(a) for a in NODES if A(a)!=src)
                if sorted(x[0].dest for x in f)!=want: raise Violation(ds+'echomail sent to %r'%sorted(S(x[0].dest) for x in f))
                for it,p,m in f:
                    if (m.frm,m.to)!=(s.frm,s.to): raise Violation(ds+'sent names %r'%((m.frm,m.to),))
                    e=parse_echo(m.body)
                    if e.area.decode()!=s.area: raise Violation(ds+'area %r'%e.area)
                    cmpbody(e.text,s,ds+'sent')
                    if s.masq and ((1,99) in e.seenby or (1,99,0) in e.path): raise Violation(ds+'masqueraded message shows its way: %r %r'%(e.seenby,e.path))
                ni=1 if s.area=='ECHO' and not s.twit else 0
                if len(im)!=ni: raise Violation(ds+'%d imported expected %d'%(len(im),ni))
                if im: cmpjam(im[0][1],s,ds+'imported')
        if fwd or imp: raise Violation(tag+'unexpected messages %r %r'%(list(fwd),list(imp)))
        # bounces
        if len(gen)!=len(nb): raise Violation(tag+'%d bounces, expected %d'%(len(gen),len(nb)))
        for it,p,m in gen:
            if it is not None:
                e=neteff(p,m); body=m.body; to,frm=m.to,m.frm; dest=e[1]
            else: body=m.text; to,frm=jamfield(m,3),jamfield(m,2); dest=A(jamfield(m,1).decode())
            ls=lines(body)
            for x in nb:
                ho,txt,st=x
                if to==st.frm and dest==st.o and frm==b'Sys Op' and re.search(re.escape(txt).replace('\x00','.*').encode()+rb'\r',body) and b'Subj: '+st.subj+b'\r' in body:
                    shown=[l for l in st.tx if l!=b'\r' and l in ls]; kls=[l for l in st.kl if b'@'+l[1:] in ls]
                    if ho and (shown or kls): continue
                    if not ho and (len(shown)!=len([l for l in st.tx if l!=b'\r']) or len(kls)!=len(st.kl)): continue
                    nb.remove(x); break
            else: raise Violation(tag+'bounce to %r at %s: %r'%(to,S(dest),body[:500]))
    return dict(evaluations=len(gs),nontrivial=[(seq,split)],states=len(gs)*(len(seq)+1),transitions=len(gs)*len(seq),sample=dict(sequence=tag))
def abortcase(c):
    """EXECUTE with exit code 20: nothing is lost"""
    rc,=c
    gs=actmsgs()
    with World(mkcfg('FILTER SUBJECT="S three"\nEXECUTE "./ex %d %%m"\n'%rc)) as w:
        w.write('ex',EX); os.chmod(w.p('ex'),0o755)
        w.inbound(mkpkt(A('2:5/9'),A('2:5/1'),[g.msg() for g in gs if g.kind=='net']),name='000000aa.pkt')
        w.cm('TOSS')
        if '000000aa.pkt' not in w.ls('in'): raise Violation('EXECUTE returned %d (abort) but the packet is gone: inbound %r'%(rc,w.ls('in')))
        if w.exists('ex.1.rc'): raise Violation('tossing went on after exit code %d'%rc)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(rc=rc))
LG='#!/bin/sh\nrc=$1; shift\nn=0; while [ -e lg.$n ]; do n=$((n+1)); done\nfor f; do if [ -f "$f" ]; then echo "[FILE $(grep -c -a -e "$SUBJ" "$f")]"; else echo "[$f]"; fi; done > lg.$n\n[ "$rc" = sig ] && kill -9 $$\nexit $rc\n'
EXCODES='afotdsx%mrR'
def argscase(c):
    """what the executed command is given: every %-code alone, in every ordered pair and all together"""
    codes,kind=c
    g=G('From Name',kind,o='1:1/20.4',d='2:5/9.7',to=b'To Name',subj=b'Subj one 100',area='ECHO.TWO',text=(b'\1MSGID: 1:1/20.4 0123abcd\r',b'Some text\r'))
    msg=g.msg()
    with World(mkcfg('FILTER SOURCE=TOSSED\nEXECUTE "./lg 10 %s"\n'%' '.join("'%%%s'"%x for x in codes))) as w:
        w.write('lg',LG.replace('$SUBJ','Subj one 100')); os.chmod(w.p('lg'),0o755)
        w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[msg])); w.cm('TOSS')
        if not w.exists('lg.0') or w.exists('lg.1'): raise Violation('EXECUTE %r: command not executed exactly once for %s'%(codes,kind))
        got=w.read('lg.0').decode('latin1').split('\n')[:-1]; want=[]
        for x in codes:
            want.append('[%s]'%(expandcodes('%'+x,g) if x in 'afotds' else msg.date.decode() if x=='x' else '%' if x=='%' else 'FILE 1'))
        for x,a,b in zip(codes,got,want):
            if '\0' in b: continue
            if a!=b: raise Violation('EXECUTE with %r for a %s message: %%%s gave %r, expected %r'%(codes,kind,x,a,b))
        if len(got)!=len(want): raise Violation('EXECUTE %r: arguments %r expected %r'%(codes,got,want))
    return dict(evaluations=1,nontrivial=[c],states=len(codes),transitions=1,sample=dict(codes=codes,kind=kind))
CPX='#!/bin/sh\nn=0; while [ -e f.$n.0 ]; do n=$((n+1)); done\ni=0; for f; do cp "$f" f.$n.$i; i=$((i+1)); done\nexit 10\n'
def rfctexts():
    words=lambda n: (b'words of seven letters '*20)[:n].rstrip()
    T=[[b'x'*n] for n in (1,2,77,78,79,80,155,156,157,158,400)]+[[words(n)] for n in (10,70,76,77,78,79,80,81,90,156,157,158,159,160,300)]
    T+=[[b'a'*p+b' '+b'b'*q] for p in (1,60,75,76,77,78) for q in (1,2,17,77,78)]
    T+=[[b'one',b'',b'two'],[b''],[b'',b'',b'x'],[b' indented',b'  more',b'x'],[b'x'*78,b'y'*78],[words(78),b''],[words(90),b'',b'z']]
    K=[b'\1K'+b'k'*n for n in (0,1,2,10,74,75,76,77,78,79,80,150,230)]+[b'\1K'+b'word '*n+b'end' for n in (1,14,15,16,31,47)]
    T+=[[k] for k in K]+[[b'before',k,b'after'] for k in K]+[[k,k2,b'text'] for k in K[::3] for k2 in K[::4]]+[[b'text',k] for k in K]
    return [(l,cr) for l in T for cr in (1,0)]+[([b'f'*60]*n+[x,b'last'],1) for n in (162,163,164) for x in (b'g'*k for k in range(0,130,3))]+[([b'f'*60]*n+[x,b'last'],1) for n in (162,163) for x in (b'\1K'+b'g'*k for k in range(0,130,7))]
RFCRAW=[b'\1',b'x\r\1',b'\1\r',b'\1\r\1',b'\n',b'a\nb\r',b'a\r\n\nb',b'\1K\n\1',b'\1KK\nrest\r',b'\n'*200,b'x'*9999,b'x'*10000,b'x'*10001,b'\1K'+b'x'*9997,b'\1K'+b'x'*9998,b'\1K'+b'x'*9999,b'y'*9998+b'\r\1',b'y'*9999+b'\r\1',b'y'*9990+b'\n'*10,b'y'*9990+b'\n'*11,b' '*300,b'\1'*300,b'(\r * Origin: x (',b' * Origin: \r',b' * Origin: (\r',b' * Origin: (abc\r',b' * Origin: ()\r']
def rfccase(c):
    """the files made for %r, %R and %m show the whole message"""
    kind,batch=c; ev=0
    dom={'1:1/1':'FidoNet','2:5/1':'FidoNet'}
    with World(mkcfg('FILTER SOURCE=TOSSED\nEXECUTE "./cpx %r %R %m"\n').replace('AKA 2:5/1\n','AKA 2:5/1\nDOMAIN OtherNet\n'),flavour='asan') as w:
        w.write('cpx',CPX); os.chmod(w.p('cpx'),0o755); gs=[]
        for i,x in enumerate(batch):
            tx=(x,) if isinstance(x,bytes) else tuple(l+b'\r' for l in x[0]) if x[1] else tuple(l+b'\r' for l in x[0][:-1])+(x[0][-1],)
            gs.append(G('From The Name',kind,o='1:1/20.4' if i%2 else '1:1/20',d=('2:5/1','1:1/1','1:1/20.7')[i%3],to=b'To Some Name',subj=b'Subj %d'%i,text=tx,area='ECHO',origin=False))
        r=w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[g.msg() if kind=='net' else Msg((1,20),(1,1),attr=0,to=g.to,frm=g.frm,subj=g.subj,body=b'AREA:ECHO\r\1MSGID: 1:1/20 %08x\r'%i+b''.join(g.text)+(b'\r' if not g.text[-1].endswith(b'\r') else b'')+b'SEEN-BY: 1/99\r'+b''.join(b'\1PATH: %d/%d\r'%(p+1,p+2) for p in range(i%30))) for i,g in enumerate(gs)])); r=w.cm('TOSS')
        if r.rc!=0: raise Violation('EXECUTE with %%r %%R %%m: the run ends with %r: %s'%(r.rc,r.out[-300:].decode('latin1')))
        for i,(x,g) in enumerate(zip(batch,gs)):
            tag='file for EXECUTE, %s message %r: '%(kind,x if isinstance(x,bytes) else x[0])[:300]; ev+=1
            if not w.exists('f.%d.2'%i): raise Violation(tag+'command not executed')
            fr,fR,fm=[w.read('f.%d.%d'%(i,k)) for k in range(3)]
            o4=S(g.o,True) if kind=='net' else None
            if kind=='net':
                dm='OtherNet' if tuple(g.d)==(2,5,1,0) else 'FidoNet'; rd={'OtherNet':'othernet','FidoNet':'fidonet.org'}[dm]
                ra=lambda nm,a: '%s@%sf%d.n%d.z%d.%s (%s)'%(nm.replace(' ','_'),'p%d.'%a.p if a.p else '',a.f,a.n,a.z,rd,nm)
                want={'From':'%s@%s (From The Name)'%(S(g.o,True),dm),'To':'%s@%s (To Some Name)'%(S(g.d,True),dm)}; wantR={'From':ra('From The Name',g.o),'To':ra('To Some Name',g.d)}
            for nm,data,wn in (('%r',fr,want if kind=='net' else {}),('%R',fR,wantR if kind=='net' else {})):
                h,sep,b=data.partition(b'\n\n'); hl=h.decode('latin1').split('\n'); H=dict(l.split(': ',1) for l in hl if ': ' in l and not l.startswith('X-Fido'))
                for k,v in dict(wn,Subject='Subj %d'%i).items():
                    if H.get(k)!=v: raise Violation(tag+'%s file has %s: %r, expected %r'%(nm,k,H.get(k),v))
                if kind=='echo' and H.get('Message-ID')!='<1:1/20 %08x>'%i: raise Violation(tag+'%s file has Message-ID %r'%(nm,H.get('Message-ID')))
                if isinstance(x,bytes): continue
                kl=[l[1:].decode() for l in x[0] if l[:2]==b'\1K']; gk=[l[7:] for l in hl if l.startswith('X-Fido-K')]
                if gk!=kl: raise Violation(tag+'%s file has the control lines %r'%(nm,gk))
                if not b.endswith(b'\n') and b: raise Violation(tag+'%s file ends within a line'%nm)
                out=b.split(b'\n')[:-1]; k=0
                if any(len(l)>78 for l in out): raise Violation(tag+'%s file has a line of %d characters'%(nm,max(map(len,out))))
                for l in x[0]:
                    if l[:1]==b'\1': continue
                    if l==b'' and l is x[0][-1] and not x[1]: continue
                    need=l.replace(b' ',b''); acc=b''; k0=k
                    while k<len(out) and (k==k0 or len(acc)<len(need)): acc+=out[k].replace(b' ',b''); k+=1
                    if acc!=need or k==k0: raise Violation(tag+'%s file shows line %r as %r'%(nm,l[:200],out[k0:k+1]))
                    if len(l)<78 and out[k0]!=l: raise Violation(tag+'%s file shows line %r as %r'%(nm,l,out[k0]))
                if any(y for y in out[k:]): raise Violation(tag+'%s file has in its text: %r'%(nm,out[k:k+3]))
            q=parse_msg(fm); tx=q.text
            body=b''.join(g.text)
            if body.rstrip(b'\r') not in tx and not isinstance(x,bytes): raise Violation(tag+'%%m file has the text %r'%tx[:300])
            if kind=='echo' and re.findall(rb'\x01PATH: (\d+)/\d+(?=\r)',tx)!=[b'%d'%(p+1) for p in range(i%30)] and re.findall(rb'\d+/\d+|(?<= )\d+',b' '.join(re.findall(rb'\x01PATH: ([^\r]*)',tx)))[:i%30]!=[b'%d/%d'%(p+1,p+2) for p in range(i%30)]: raise Violation(tag+'%%m file has the path %r'%re.findall(rb'\x01PATH: ([^\r]*)',tx))
    return dict(evaluations=ev,nontrivial=[(kind,repr(x)) for x in batch],states=ev,transitions=ev)
HOSTILE=[';touch hacked;','`touch hacked`','$(touch hacked)','|touch hacked|','&touch hacked&',"';touch hacked;'",'";touch hacked;"']
def shellcase(c):
    """text of a message is only data for the executed command (known finding: it is put into the shell command as it is)"""
    code,h,q=c; k=dict(f='Name',to=b'To Name',subj=b'Subject'); hb=h.encode()
    g=G(h if code=='f' else 'Name','net',o='1:1/20',d='2:5/9',to=hb if code=='t' else b'To Name',subj=hb if code=='s' else b'Subject',text=(b'Some text\r',))
    with World(mkcfg('FILTER SOURCE=TOSSED\nEXECUTE "./lg 10 %s%%%s%s"\n'%(q,code,q))) as w:
        w.write('lg',LG); os.chmod(w.p('lg'),0o755)
        w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[g.msg()])); r=w.cm('TOSS')
        if r.rc is None or r.rc<0: raise Violation('EXECUTE with %%%s and %r: the run ends with %r'%(code,h,r.rc))
        if w.exists('hacked'): raise Violation('EXECUTE with %%%s: a command within the message, %r, is carried out'%(code,h),sig='execute-shell')
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def rccase(c):
    """every exit code of the command; and the command dying from a signal"""
    rc,kind=c
    g=G('un1',kind,d='2:5/9',subj=b'Subj A',text=(b'\1MSGID: 1:1/20.4 0123abcd\r',b'x\r')); h=G('un2',kind,d='2:5/9',subj=b'Subj B',text=(b'\1MSGID: 1:1/20.4 0123abce\r',b'x\r'))
    with World(mkcfg('FILTER SUBJECT="Subj A"\nEXECUTE "./lg %s %%m"\n'%rc)) as w:
        w.write('lg',LG.replace('$SUBJ','Subj A')); os.chmod(w.p('lg'),0o755)
        w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[g.msg(),h.msg()]),name='000000aa.pkt'); w.cm('TOSS')
        kept='000000aa.pkt' in w.ls('in')
        sent=sorted({m.subj for it in outbound(w,ZONES)[0] for p in it.pkts for m in p.msgs})
        if rc=='sig' or rc>=20:
            if not kept: raise Violation('EXECUTE ended with %s: processing was to be aborted, but the packet is gone (sent %r)'%(rc,sent))
        else:
            want=[b'Subj A',b'Subj B'] if rc else [b'Subj B']
            if kept or sent!=want: raise Violation('EXECUTE ended with %s: packet kept=%s, messages sent %r, expected %r'%(rc,kept,sent,want))
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(rc=rc,kind=kind))
def copyfail(c):
    """COPY to an area that cannot be written: the message is not lost and never distributed with a changed text"""
    fmt,=c
    gs=[G('un1',d='2:5/9',subj=b'S one'),G('ue1','echo',subj=b'E one',text=(b'\1MSGID: 1:1/20 1\r',b'x\r'))]
    for i in (0,1):
        with World(mkcfg('FILTER TYPE=%s\nCOPY L1\n'%('NETMAIL','ECHOMAIL')[i],fmt=fmt).replace('areas/l1','areas/plain/l1')) as w:
            os.makedirs(w.p('areas'),exist_ok=True); w.write('areas/plain',b'not a directory')
            w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[gs[i].msg()]),name='000000aa.pkt')
            w.cm('TOSS')
            if '000000aa.pkt' not in w.ls('in'): raise Violation('COPY of %s failed (%s area cannot be written) but the packet is gone'%(gs[i].kind,fmt))
            for it in outbound(w,ZONES)[0]:
                for p in it.pkts:
                    for m in p.msgs:
                        if m.body.count(b'AREA:')>1: raise Violation('message sent with changed text after a failed COPY')
    return dict(evaluations=2,nontrivial=[c],states=2,transitions=2,sample=dict(format=fmt))
def longcase(c):
    """memory safety: longest arguments, names and texts, at chunk borders"""
    cmd,tail=c
    gs=[]
    for i,n in enumerate(tail):
        full=b''.join(b'l%03d%s\r'%(k,b'y'*(94)) for k in range(n//99))
        t=full+b'z'*(n-len(full))
        o=b' * Origin: '+b'(x)'*20+b' (1:1/20.4)'
        gs.append(G('u%02d'%i+'x'*32,o='1:1/20.4',d='2:5/9.4',to=b'T'*35,subj=b's'*71,text=(t,)))
        gs.append(G('v%02d'%i+'x'*32,kind='echo',o='1:1/20.4',to=b'T'*35,subj=b's'*71,text=(b'\1MSGID: '+b'm'*60+b' %08x\r'%i,t+b'\r'+o),origin=False))
    with World(mkcfg('FILTER SOURCE=TOSSED\n%s\n'%cmd),flavour='asan') as w:
        w.write('ex',EX); os.chmod(w.p('ex'),0o755)
        by=[g.msg() for g in gs]
        for m in by: m.body=m.body.replace(b'SEEN-BY: 1/99\r\1PATH: 1/99\r',b'')
        w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),by))
        r=w.cm('TOSS',timeout=120)
        if r.rc!=0 or b'Sanitizer' in r.out or b'runtime error' in r.out: raise Violation('filter command %s: exit %r %r'%(cmd,r.rc,r.out[-1500:]))
    return dict(evaluations=len(gs),nontrivial=[c],states=len(gs),transitions=len(gs),sample=dict(command=cmd))
LONGCMDS=['WRITELOG "%s"'%('%s'*k+'q'*j) for k in (0,4,5,6,50) for j in (0,44,45,46,60,99)]+['BOUNCEMSG "%s"'%('%s'*k+'q'*j) for k in (0,5,6,50) for j in (30,34,35,44,60,99)]+['WRITEBAD "%s"'%('q'*j) for j in (1,79,80,100,199)]+['REMAPMSG "%s" 2:5/65535.65535'%('n'*j) for j in (1,34,35,36,100,199)]+['MASQUERADE "%s" 65535:65535/65535.65535'%('n'*j) for j in (1,34,35,36,100,199)]+['COPY L1','REMAPMSG "*" 2:5/9','MASQUERADE "*" 2:5/7','EXECUTE "./ex 10 %m %r %R"','BOUNCEHEADER "x"']
# ---- the address of an Origin line
def origins():
    for pre in (b'',b'place ',b'a (b) ',b'(7) ',b'(9:9/9) ',b'9:9/8 ',b'x'*30+b' (',b')( '):
        for net in (b'',b'FidoNet ',b'Fidonet: '):
            for ad,want in ((b'1:1/20','1:1/20.0'),(b'1:1/20.4','1:1/20.4'),(b'2:5/9@fidonet','2:5/9.0'),(b'2:5/9.32767@fidonet.org','2:5/9.32767'),(b'5/9',None),(b'',''),(b'nowhere',''),(b'1:','')):
                for end in (b')\r',b') \r',b')',b'',b'\r'):
                    yield pre,net,ad,want,end
def origcase(c):
    """the address in the last parentheses of the Origin line, whatever else the line, the lines before it and the end of the text hold"""
    how,prev,os_=c
    with World(mkcfg('FILTER TYPE=ECHOMAIL\nWRITELOG "LOG %s o=%o"\n',fmt='MSG' if how=='MSG' else 'JAM'),flavour='asan') as w:
        os.makedirs(w.p('areas/echo' if how=='MSG' else 'areas'),exist_ok=True); ms=[]
        for i,(pre,net,ad,want,end) in enumerate(os_):
            t=prev+b' * Origin: '+pre+b'('+net+ad+end; s=b's%d-'%i
            if how=='toss': ms.append(Msg((1,20),(1,1),subj=s,to=b'All',frm=b'X',body=b'AREA:ECHO\r\1MSGID: 1:1/20 %08x\r'%i+t))
            elif how=='MSG': w.write('areas/echo/%d.msg'%(i+2),mkmsg(frm=b'X',to=b'All',subj=s,attr=LOCAL,text=t))
            else: ms.append((s,t))
        if how=='toss': w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),ms)); r=w.cm('TOSS',timeout=60)
        else:
            if how=='JAM':
                j=JamWriter()
                for s,t in ms: j.add(frm=b'X',to=b'All',subj=s,text=t)
                j.write(w.p('areas/echo'))
            r=w.cm('SCAN',timeout=60)
        if r.rc!=0: raise Violation('Origin lines (%s): exit status %r: %r'%(how,r.rc,r.out[-400:]))
        got=dict(re.findall(r'LOG (s\d+-) o=(\S*)',w.read('cm.log').decode('latin1')))
        for i,(pre,net,ad,want,end) in enumerate(os_):
            g=got.get('s%d-'%i); tag='Origin line %r, %s: '%(pre+b'('+net+ad+end,how)
            if g and '.' not in g: g+='.0'
            if g is None: raise Violation(tag+'the filter was not used')
            if how=='JAM' and end==b'': continue      # a line without its end: not judged
            if want is None: ok=('0:5/9.0','1:5/9.0','0:0/0.0')[:2 if end[:1]==b')' else 3]
            elif want=='': ok=('0:0/0.0','1:0/0.0')
            elif end in (b'',b'\r'): ok=('0:0/0.0',want)
            else: ok=(want,)
            if g not in ok: raise Violation(tag+'address %s, expected %s (line before: %r)'%(g,ok[-1],prev))
    return dict(evaluations=len(os_),nontrivial=[(how,prev)+o for o in os_],states=len(os_),transitions=len(os_))
def main():
    global NLDIR
    ck=Check('C17','exploration','all expressions with up to 4 (5) leaves x all assignments; all patterns x all strings over small alphabets; every variable x operator x value x all messages of the address alphabet; every needle position around chunk borders; all sequences of up to 2 (3) filter commands x messages; non-trivial = distinct expression / pattern / sequence')
    world.init(('plain','asan'))
    NLDIR=tempfile.mkdtemp(prefix='cmnl.',dir=scratchroot())
    try:
        open(NLDIR+'/nodelist.100','w',newline='').write(NL); open(NLDIR+'/cmnodelist.prefs','w').write('nodelist\n')
        subprocess.run([os.path.join(BIN['plain'],'crashlist'),NLDIR],check=True,stdout=subprocess.DEVNULL,timeout=60)
        cs=[(ids,0,1) for k in (1,2,3) for ids in itertools.product((0,1,2),repeat=k)]
        cs+=[((0,1,2,3),p,8) for p in range(8)]+[((4,3,2,1),p,8) for p in range(8)]
        if thorough(): cs+=[((0,1,2,3,4),p,64) for p in range(64)]
        ck.explore('boolean',boolcase,cs)
        L=thorough()
        ck.explore('strings',strcase,[('|',b'aB',4,7 if L else 6,v) for v in ('SUBJECT','TEXT','KLUDGES')]+[('|',b'a\xe5\xc5',3,4,v) for v in ('SUBJECT','TEXT')]+[('|',b'abc',4 if L else 3,6 if L else 5,'SUBJECT'),('=',b'aB',4,5 if L else 4,'SUBJECT'),('=',b'a\xe5',3,4,'SUBJECT')])
        offs=sorted(set(list(range(0,30))+list(range(9985,10015))+list(range(19960,20040))+([] if not L else list(range(9900,10100))+list(range(30,400)))))
        ck.explore('positions',poscase,[(wh,cr,tuple(offs[i::8])) for wh in ('TEXT','TEXTNL','KLUDGES') for cr in (True,) for i in range(8)])
        ck.explore('occurrences',occcase,[(n,k) for n in range(1,5 if L else 4) for k in ('net','echo')],chunk=1)
        ck.explore('variables',varcase,[(x,o) for x in ('str','node','bool') for o in ((),('nonl',))])
        ck.explore('sources',srccase,[('MSG',),('JAM',)])
        ck.explore('malformed',badcase,[(f,n) for f in BADX for n in (0,1,5,9,10,11,15,17)])
        seqs=[(x,) for x in CMDS]+list(itertools.product(CMDS,repeat=2))
        acts=[(q,sp,o) for q in seqs for sp in (0,1) for o in ((),('FORCEINTL',)) if sp==0 or len(q)>1]
        if L: acts+=[(q,0,('FORCEINTL',)) for q in itertools.product(CMDS,repeat=3)]
        ck.explore('actions',actcase,acts,chunk=4)
        ck.explore('copyfail',copyfail,[('JAM',),('MSG',)])
        tails=(0,1,198,9900,9990,9999,10000,10001,19990,20000)
        ck.explore('longest',longcase,[(x,tails[i::2]) for x in LONGCMDS for i in (0,1)])
        cc=[x for k in (1,2) for x in itertools.product(EXCODES,repeat=k)]+[tuple(EXCODES),tuple(reversed(EXCODES))]
        if L: cc+=list(itertools.permutations('afotdsxm',3))
        ck.explore('execargs',argscase,[(''.join(x),k) for x in cc for k in ('net','echo')])
        ck.explore('exitcodes',rccase,[(rc,k) for rc in (['sig']+(list(range(256)) if L else list(range(0,24))+[64,126,127,128,137,254,255])) for k in ('net','echo')])
        rt=rfctexts(); ck.explore('files',rfccase,[(k,rt[i::12]) for k in ('net','echo') for i in range(12)]+[(k,[x]) for k in ('net','echo') for x in RFCRAW])
        og=list(origins()); ck.explore('origins',origcase,[(h,p,og[i::16]) for h in ('toss','JAM','MSG') for p in (b'Hello\r',b'y'*30+b'5:5/6)'*20+b'\r') for i in range(16)])
        ck.explore('shell',shellcase,[(x,h,q) for x in 'fts' for h in HOSTILE for q in ('',"'")])
        ck.explore('abort',abortcase,[(20,),(21,),(30,)])
    finally: shutil.rmtree(NLDIR,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
