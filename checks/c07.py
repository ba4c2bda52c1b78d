"""C07: every received netmail ends in exactly one place; loops, bounces, receipts."""
import _boot,itertools,subprocess,re
import world; from world import *
from harness import *; from emodel import *; import nmodel
NL='Zone,1,A,x,y,z,300\r\nRegion,10,B,x,y,z,300\r\nHost,1,C,x,y,z,300\r\n,1,Me,x,y,z,300\r\n,20,N,x,y,z,300\r\n,60,N,x,y,z,300\r\nZone,2,A,x,y,z,300\r\nHost,5,N,x,y,z,300\r\n,1,N,x,y,z,300\r\n,9,N,x,y,z,300\r\nZone,3,A,x,y,z,300\r\nHost,9,N,x,y,z,300\r\n,9,Me,x,y,z,300\r\n'
AKAS=['1:1/1','2:5/1','3:9/9','1:1/7.7']
ZONES={'out':1,'out.002':2,'out.003':3}
DESTS=['1:1/1','1:1/1.5','1:1/1.6','2:5/1','2:5/1.5','3:9/9','1:1/7.7','1:1/50','1:1/51.3','1:1/51','1:1/60','1:1/60.2','1:1/61','2:5/9','2:88/1','4:4/4']
ORIGS=['1:1/20','1:1/20.4','2:5/9','1:1/77','1:1/1.9','5:3/2']     # 1:1/77 not in the nodelist
NODES=[Node('1:1/20'),Node('1:1/1.6'),Node('2:5/9')]
ROUTES=[('1:1/1.*','*:*/*.*','1:1/1'),('1:*/*.*','1:1/20','1:1/1'),('2:*/*.*','2:5/9','2:5/1'),('3:*/*.*','2:5/9','3:9/9'),('5:*/*.*','1:1/20','1:1/1')]
KL=['intl', 'intl:', 'none', 'last']   # form of the address kludges; last: the point numbers come before INTL
BIGK=b''.join(b'\1KX%04d: %s\r'%(i,b'k'*80) for i in range(120)); BIGT=b''.join(b'Line %04d %s\r'%(i,b't'*(60+i%9)) for i in range(180))
TEXT={'text':b'Hello\rsecond line\r','empty':b'','blank':b'\r'}
LONG={'late':BIGK+b'Hello\r','none':BIGK,'long':BIGT,'both':BIGK+BIGT}
ALLT=dict(TEXT,**LONG)
VIA={'no':b'','foreign':b'\1Via 1:1/20 @20240101.000000 CrashMail II/Linux 1.5\r','own':b'\1Via 1:1/1 @20240101.000000 CrashMail II/Linux 1.5\r','own2':b'\1Via 1:1/20 @20240101.000000 CrashMail II\r\1Via CrashMail II 2:5/1.0, Mon Jan 01 2024\r','ownother':b'\1Via 1:1/1 @20240101.000000 OtherTosser 1.5\r','prefix':b'\1Via 1:1/11 @20240101.000000 CrashMail II\r\1Via 11:1/1 @2024 CrashMail\r\1Via 1:1/1.9 @2024 CrashMail\r\1Via 2:1/1 @2024 CrashMail\r\1Via 1:1/7 @2024 CrashMail\r','intext':b'Via 1:1/1 @2024 CrashMail\r','pt':b'\1Via 1:1/7.7 @20240101.000000 CrashMail II/Linux 1.5\r','end':b'\1Via CrashMail II/Linux 1:1/1\r','far':b'\1Via 1:1/20 @20240101.000000 OtherTosser 1.5\r'*5+b'\1Via 3:9/9.0 CrashMail\r','endnocr':b'\1Via CrashMail 1:1/1'}
ATTR=[PVT,RREQ,AUDIT,FATT,RREQ|AUDIT|PVT]
IMP={'1:1/1':'net1','2:5/1':'net2','1:1/50':'net1','1:1/51.3':'net2'}
class Exp: pass
def tagof(b):
    m=re.search(rb'#([0-9.]+)#',b); return m.group(1).decode() if m else None
def case(c):
    loop,bounce,bpoints,hdronly,noroute,empty,receipt,audit,fatt,dests,vias,texts=c[:12]; more=list(c[12:])
    opts=[o for o,v in (('BOUNCEPOINTS',bpoints),('BOUNCEHEADERONLY',hdronly),('NOROUTE',noroute),('IMPORTEMPTYNETMAIL',empty),('ANSWERRECEIPT',receipt),('ANSWERAUDIT',audit)) if v]+more
    cfg=Cfg([Aka(a) for a in AKAS],NODES,[Area('BAD','1:1/1',('JAM','areas/bad')),Area('N1','1:1/1',('JAM','areas/net1'),kind='NETMAIL',imports=['1:1/50']),Area('N2','2:5/1',('JAM','areas/net2'),kind='NETMAIL',imports=['1:1/51.3'])],
        opts=opts,routes=['"%s" "%s" %s'%r for r in ROUTES],loop=loop,
        tail=('BOUNCE "1:*/*.*" "2:*/*.*"\n' if bounce else '')+('FILEATTACH "%s"\n'%fatt if fatt else ''))
    nl=nmodel.Nodelist(NL)
    tag='config %s: '%' '.join([loop]+(['BOUNCE'] if bounce else [])+opts+(['FILEATTACH '+fatt] if fatt else []))
    exp={} # id -> dict
    n=0
    with World('NODELIST "%s" CMNL\n'%NLDIR+cfg.text()) as w:
        for k in KL:
            for os_ in ORIGS:
                ms=[];o=A(os_)
                if k=='none' and o.p: continue
                for ds in dests:
                    d=A(ds)
                    if k=='none' and d.z!=o.z: continue
                    if k=='last' and not d.p and not o.p: continue
                    for t in texts:
                        for v in vias:
                            for at in ATTR:
                                if at!=PVT and (t!='text' or v not in ('no','own')): continue
                                n+=1; mid='%d.%d'%(KL.index(k)*10+ORIGS.index(os_),n)
                                b=b''
                                if k!='none': b=(b'\1INTL: ' if k=='intl:' else b'\1INTL ')+S(d,False).encode()+b' '+S(o,False).encode()+b'\r'
                                if d.p: b+=b'\1TOPT %d\r'%d.p
                                if o.p: b+=b'\1FMPT %d\r'%o.p
                                if k=='last': x=b.split(b'\r'); b=b'\r'.join(x[1:-1]+x[:1])+b'\r'
                                b+=b'\1MSGID: #%s#\r'%mid.encode()+ALLT[t]+VIA[v]
                                subj=b'f%d.zip'%n if at&FATT else b'Subject #%s#'%mid.encode()
                                frm=b'User %d'%n
                                if at&FATT: w.write('in/'+subj.decode(),mid)
                                ms.append(Msg((o.n,o.f),(d.n,d.f),attr=at,to=b'Dest User',frm=frm,subj=subj,body=b))
                                e=Exp(); e.d,e.o,e.body,e.subj,e.at,e.frm,e.t,e.v,e.mid=d,o,b+(b'\r' if v=='endnocr' else b''),subj,at,frm,t,v,mid; exp[mid]=e
                                model(e,nl,loop,bounce,bpoints,noroute,empty,receipt,audit,fatt)
                w.inbound(mkpkt(A('2:5/9') if o.z==2 else A('1:1/20'),A('2:5/1') if o.z==2 else A('1:1/1'),ms))
        r=w.cm('TOSS',timeout=120)
        if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-200:]))
        compare(w,tag,exp,hdronly)
    nt={(e.where,bool(e.loopbad),tuple(e.gen)) for e in exp.values()}
    return dict(evaluations=n,nontrivial=[(c,x) for x in nt],states=n,transitions=n,sample=dict(config=tag,outcomes=sorted(map(repr,nt))[:5]))
def area_of(d,noroute):
    s=S(d,d.p!=0)
    if s in IMP: return IMP[s]
    if s in AKAS or noroute: return 'net1'
def model(e,nl,loop,bounce,bpoints,noroute,*a):
    model1(e,nl,loop,bounce,bpoints,noroute,*a)
    # our own generated mail is never bounced: to an undeliverable sender it is dropped
    if not area_of(e.o,noroute) and ((bounce and e.o.z in (1,2) and not nl.has(e.o)) or (bpoints and S(e.o,False)=='1:1/1' and S(e.o)!='1:1/1.6')): e.gen=[]
def model1(e,nl,loop,bounce,bpoints,noroute,empty,receipt,audit,fatt):
    """where: ('import',area) ('kill',) ('bad',) ('fwd',hop,flavour) ('bounce',reason)   gen: list of generated mails ('Bounced message'|'Receipt'|'Audit')"""
    e.gen=[];e.loopbad=False;d=e.d
    a=area_of(d,noroute)
    if a:
        istext=bool(empty) or e.t not in ('empty','none') or e.v=='intext'
        e.where=('import',a) if istext else ('kill',)
        if e.at&RREQ and receipt: e.gen.append(b"Receipt")
        return
    typ='direct' if e.at&FATT else 'normal'
    h=nmodel.netmail_hop(ROUTES,(),{},d,typ,nl)
    if h is None: e.where=('bad',); return
    if loop=='LOG+BAD' and e.v in ('own','own2','pt','end','far','endnocr'): e.loopbad=True
    if bounce and d.z in (1,2) and not nl.has(d): e.where=('bounce',"nodelist"); e.gen.append(b"Bounced message"); return
    if bpoints and S(d,False) in ('1:1/1','2:5/1','3:9/9') and S(d) not in ('1:1/1.6',): e.where=('bounce','point'); e.gen.append(b"Bounced message"); return
    if e.at&FATT and not(fatt and nmodel.match(fatt,d,nl)): e.where=('bounce','file'); e.gen.append(b"Bounced message"); return
    e.where=('fwd',h[0],h[1],h[2])
    if e.at&AUDIT and audit: e.gen.append(b"Audit")
def compare(w,tag,exp,hdronly):
    got={}   # id -> list of places
    gen=[]
    def rec(m,place):
        t=tagof(m[0])
        if m[1] in (b'Bounced message',b'Receipt',b'Audit'): gen.append((m,place))
        elif t is None or t not in exp: raise Violation(tag+'unknown message %r in %r'%(m[0][:80],place))
        else: got.setdefault(t,[]).append((place,m))
    for a in ('net1','net2'):
        if w.exists('areas/%s.jhr'%a):
            for m in read_jam(w.p('areas/'+a)).msgs: rec((b''.join(b'\1'+k+b'\r' for l,k in m.sub if l==2000)+b'#'.join([b'']+[x for x in [(jamfield(m,4) or b'').strip(b'#')] if x]+[b''])+m.text,jamfield(m,6) or b'',m),('import',a))
    loopb={};bad={}
    if w.exists('areas/bad.jhr'):
        for m in read_jam(w.p('areas/bad'),crc=False).msgs:
            t=tagof((jamfield(m,4) or b'')+m.text)
            (loopb if b'ERROR:Possible loopmail\r' in m.text else bad).setdefault(t,[]).append(m)
    items,prob=outbound(w,ZONES)
    if prob: raise Violation(tag+'; '.join(prob[:3]))
    files={}
    for it in items:
        if it.kind=='file': files.setdefault(os.path.basename(it.name),[]).append((it.dest,it.flavour)); continue
        for p in it.pkts:
            for m in p.msgs: rec((m.body,m.subj,m,p),('fwd',it.dest,it.flavour))
    for mid,e in exp.items():
        g=got.get(mid,[]); ds='netmail %s -> %s (%s, via %s, attr %x)'%(S(e.o),S(e.d),e.t,e.v,e.at)
        places=[x[0] for x in g]+[('bad',)]*len(bad.get(mid,[]))
        want=[] if e.where[0] in ('kill','bounce') else [e.where[:3]]
        if places!=want: raise Violation(tag+'%s ended in %r, expected %r'%(ds,places,e.where))
        if len(loopb.get(mid,[]))!=e.loopbad: raise Violation(tag+'%s: %d loop reports in BAD, expected %d'%(ds,len(loopb.get(mid,[])),e.loopbad))
        if e.loopbad:
            t=loopb[mid][0].text
            for l in lines(e.body):
                k=(b'@'+l[1:]) in t if l[0]==1 else l not in t or l==b'\r' 
                if not k: raise Violation(tag+'%s: loop report %r'%(ds,t))
        if e.where==('bad',):
            t=bad[mid][0].text
            if not t.startswith(b'DEST:%s\rORIG:%s\r'%(S(e.d).encode(),S(e.o).encode())) or b'ERROR:No routing' not in t or b''.join(l for l in lines(ALLT[e.t]) if l[:1]!=b'\1') not in t: raise Violation(tag+'%s: BAD copy %r'%(ds,t))
        if e.where[0]=='import':
            m=g[0][1][2]
            if jamfield(m,2)!=e.frm or jamfield(m,3)!=b'Dest User' or jamfield(m,6)!=e.subj: raise Violation(tag+'%s: imported header %r'%(ds,m.sub))
            if A(jamfield(m,0).decode())!=e.o or A(jamfield(m,1).decode())!=e.d: raise Violation(tag+'%s: imported addresses %r %r'%(ds,jamfield(m,0),jamfield(m,1)))
            txt=b''.join(l for l in lines(e.body) if l[0]!=1)
            if m.text.strip(b'\0')!=txt: raise Violation(tag+'%s: imported text %r expected %r'%(ds,m.text,txt))
            if not m.attr&JSENT or m.attr&JL: raise Violation(tag+'%s: imported attributes %x'%(ds,m.attr))
        if e.where[0]=='fwd':
            body,subj,m,p=g[0][1]
            if (m.orig,m.dest)!=((e.o.n,e.o.f),(e.d.n,e.d.f)) or (m.frm,m.to,m.subj)!=(e.frm,b'Dest User',e.subj): raise Violation(tag+'%s: forwarded header %r'%(ds,m))
            if not body.startswith(e.body): raise Violation(tag+'%s: forwarded body %r'%(ds,body))
            rest=body[len(e.body):]
            if rest.count(b'\r')!=1 or not rest.startswith(b'\1Via '+e.where[3].encode()) or b'CrashMail' not in rest: raise Violation(tag+'%s: Via %r'%(ds,rest))
            if e.at&FATT and len(files.get(e.subj.decode(),[]))!=1: raise Violation(tag+'%s: file queued %r'%(ds,files.get(e.subj.decode())))
    # generated mail
    want={}
    byfrm={e.frm:e for e in exp.values()}
    for e in exp.values():
        for s in e.gen: want[(e.frm,s)]=e
    seen={}
    for m,place in gen:
        if place[0]=='fwd':
            body,subj,q,p=m; to,frm=q.to,q.frm
            kl={l[1:].split(b' ')[0]:l for l in lines(body) if l[0]==1}
            dst=Addr(p.dest.z,q.dest[0],q.dest[1],0); og=Addr(p.orig.z,q.orig[0],q.orig[1],0)
            if b'INTL' in kl: x=kl[b'INTL'][:-1].split(b' '); dst=A(x[1].decode()); og=A(x[2].decode())
            if b'TOPT' in kl: dst=dst._replace(p=int(kl[b'TOPT'][5:]))
            if body.count(b'\1Via ')!=1: raise Violation(tag+'generated mail without Via: %r'%body)
        else:
            jm=m[2]; body=jm.text; subj=m[1]; to,frm=jamfield(jm,3),jamfield(jm,2); dst=A(jamfield(jm,1).decode()); og=A(jamfield(jm,0).decode())
        e=want.get((to,subj))
        if e is None: raise Violation(tag+'unexpected %r to %r at %s in %r'%(subj,to,S(dst),place))
        ds='netmail %s -> %s'%(S(e.o),S(e.d))
        if (to,subj) in seen: raise Violation(tag+'%r for %s sent twice'%(subj,ds))
        seen[(to,subj)]=1
        if frm!=b'Sys Op': raise Violation(tag+'%r from %r'%(subj,frm))
        if dst!=e.o: raise Violation(tag+'%r for %s addressed to %s'%(subj,ds,S(dst)))
        r=nmodel.first_route(ROUTES,e.o,None)
        if og!=A(r[2]): raise Violation(tag+'%r for %s comes from %s'%(subj,ds,S(og)))
        a=area_of(e.o,NOROUTE in tag)
        pl=('import',a) if a else ('fwd',)+nmodel.netmail_hop(ROUTES,(),{},e.o,'normal',None)[:2]
        if place!=pl: raise Violation(tag+'%r for %s in %r expected %r'%(subj,ds,place,pl))
        flat=body.replace(b'\r',b' ')
        if subj==b'Bounced message':
            if e.subj not in body: raise Violation(tag+'bounce does not show the original header: %r'%body)
            for l in lines(e.body):
                x=(b'@'+l[1:]) if l[0]==1 else l
                if l==b'\r': continue
                if (x in body)==bool(hdronly): raise Violation(tag+'bounce of %s: line %r %s: %r'%(ds,l,'shown' if hdronly else 'missing',body))
        else:
            if e.subj not in body or b'Dest User' not in body: raise Violation(tag+'%r does not identify the message: %r'%(subj,body))
            if subj==b'Audit' and re.search(rb'(?<![0-9:/.])%s(?![0-9:/.]*[0-9])'%re.escape(S(e.where[1])).encode(),flat) is None: raise Violation(tag+'audit of %s does not name %s: %r'%(ds,S(e.where[1]),body))
    for k in want:
        if k not in seen: raise Violation(tag+'%r for netmail %s -> %s (attr %x) missing'%(k[1],S(want[k].o),S(want[k].d),want[k].at))
    left={e.subj.decode() for e in exp.values() if e.at&FATT and e.where[0]!='fwd'}
    if set(w.ls('in'))!=left: raise Violation(tag+'inbound %r'%w.ls('in'))
BNC=('1:1/61','1:1/1.5','1:5/1','1:1/7')
def selfmail(c):
    """mail that claims to come from the robot of this system: what is generated for it is delivered as mail and not answered again"""
    o,dest,to,attr,forward=c
    cfg=Cfg([Aka(a) for a in AKAS],NODES,[Area('BAD','1:1/1',('JAM','areas/bad')),Area('N1','1:1/1',('JAM','areas/net1'),kind='NETMAIL'),Area('N2','2:5/1',('JAM','areas/net2'),kind='NETMAIL')],
        opts=['ANSWERRECEIPT','ANSWERAUDIT','BOUNCEPOINTS'],routes=['"%s" "%s" %s'%r for r in ROUTES],tail='BOUNCE "1:*/*.*"\nAREAFIXNAME "AreaFix"\n')
    tag='mail from AreaFix at %s to %s at %s, attributes %x: '%(o,to,dest,attr); d,a=A(dest),A(o)
    with World('NODELIST "%s" CMNL\n'%NLDIR+cfg.text()) as w:
        b=b'\1INTL %s %s\r'%(S(d,False).encode(),S(a,False).encode())+(b'\1TOPT %d\r'%d.p if d.p else b'')+(b'\1FMPT %d\r'%a.p if a.p else b'')+b'+ALPHA\r%HELP\r'
        w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[Msg((a.n,a.f),(d.n,d.f),attr=attr,to=to.encode(),frm=b'AreaFix',subj=b'xx',body=b)])); r=w.cm('TOSS',timeout=60)
        if r.rc!=0 or w.ls('in'): raise Violation(tag+'exit %r, inbound %r'%(r.rc,w.ls('in')))
        st=[m for x in ('net1','net2') if w.exists('areas/%s.jhr'%x) for m in read_jam(w.p('areas/'+x)).msgs]; items,prob=outbound(w,ZONES); out=[m for it in items for p in it.pkts for m in p.msgs]
        own=dest in AKAS; fix=own and to=='AreaFix'
        gen=1 if fix or (own and attr&RREQ) or (not own and (attr&AUDIT or dest in BNC)) else 0
        ns=gen+(1 if own and not fix else 0); no=1 if not own and dest not in BNC else 0
        if len(st)!=ns or len(out)!=no: raise Violation(tag+'%d messages stored and %d sent, expected %d and %d'%(len(st),len(out),ns,no))
        g=[m for m in st if jamfield(m,2)==b'Sys Op']
        if len(g)!=gen or any(jamfield(m,3)!=b'AreaFix' or A(jamfield(m,1).decode())!=a for m in g): raise Violation(tag+'generated mail %r'%[m.sub for m in st])
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def exported(c):
    """netmail written here: never a loop, no audit or receipt is answered for mail of our own users, one copy is sent"""
    fmt,loop,v,attr=c
    cfg=Cfg([Aka(a) for a in AKAS],NODES,[Area('BAD','1:1/1',('JAM','areas/bad')),Area('N1','1:1/1',(fmt,'areas/net1'),kind='NETMAIL')],opts=['ANSWERRECEIPT','ANSWERAUDIT','BOUNCEPOINTS'],routes=['"%s" "%s" %s'%r for r in ROUTES],loop=loop,tail='BOUNCE "1:*/*.*"\n')
    tag='%s, LOOPMODE %s, local netmail with Via lines %r, attributes %x: '%(fmt,loop,v,attr)
    with World('NODELIST "%s" CMNL\n'%NLDIR+cfg.text()) as w:
        via=VIA[v]+(b'' if VIA[v].endswith(b'\r') or not VIA[v] else b'\r'); t=b'Hello #1#\r'
        if fmt=='MSG': os.mkdir(w.p('areas/net1')); w.write('areas/net1/2.msg',mkmsg(frm=b'Me',to=b'Dest User',subj=b'Subj',text=t+via,attr=LOCAL|attr,orig=(1,1,1,0),dest=(1,1,60,0)))
        else:
            W=JamWriter(); W.add(frm=b'Me',to=b'Dest User',subj=b'Subj',text=t+b''.join(l for l in lines(via) if l[:1]!=b'\1'),attr=JL|JTYPENET|JTYPELOCAL|(0x00010000 if attr&RREQ else 0),sub=[(0,b'1:1/1'),(1,b'1:1/60')]+[(8,l[5:-1]) for l in lines(via) if l[:1]==b'\1']); W.write(w.p('areas/net1'))
        r=w.cm('SCAN')
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        items,prob=outbound(w,ZONES); out=[m for it in items for p in it.pkts for m in p.msgs]
        if len(out)!=1 or t not in out[0].body or out[0].subj!=b'Subj': raise Violation(tag+'sent %r'%[(m.subj,m.body[:200]) for m in out])
        n=len(read_jam(w.p('areas/net1')).msgs) if fmt=='JAM' else len([f for f in w.ls('areas/net1') if f!='1.msg'])
        if n!=1: raise Violation(tag+'%d messages in the netmail area'%n)
        if w.exists('areas/bad.jhr') and read_jam(w.p('areas/bad'),crc=False).msgs: raise Violation(tag+'reported in BAD')
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
NOROUTE='NOROUTE'
NLDIR=None
def main():
    global NLDIR
    # 'want' keys are bytes in messages
    ck=Check('C07','exploration','all options (loop mode, bounce, bouncepoints, header-only, noroute, empty import, receipts, audits, file attach) x all messages: destination class x INTL/FMPT/TOPT form x sender x text x Via lines x attributes; non-trivial = distinct (options, outcome)')
    world.init()
    NLDIR=tempfile.mkdtemp(prefix='cmnl.',dir=scratchroot())
    try:
        open(NLDIR+'/nodelist.100','w',newline='').write(NL); open(NLDIR+'/cmnodelist.prefs','w').write('nodelist\n')
        subprocess.run([os.path.join(BIN['plain'],'crashlist'),NLDIR],check=True,stdout=subprocess.DEVNULL,timeout=60)
        cs=[]
        for l in ('IGNORE','LOG','LOG+BAD'):
            for bits in itertools.product((0,1),repeat=7):
                for fatt in ('','1:1/6*.*'):
                    if not thorough() and (sum(bits)>2 and sum(bits)<6 and l!='LOG+BAD'): continue
                    cs.append((l,)+bits+(fatt,tuple(DESTS),tuple(VIA),tuple(TEXT)))
        ck.explore('netmail',case,cs)
        ck.explore('alike',case,[('LOG+BAD',)+b+('',('2:1/1','2:1/50','1:5/1','1:1/7','1:2/1','2:1/51.3','1:9/9','2:1/1.6'),('no','own','prefix'),('text',)) for b in itertools.product((0,1),repeat=7)])
        ck.explore('own robot',selfmail,[(o,d,to,at,0) for o in ('1:1/1','2:5/1') for d in ('1:1/1','2:5/1','1:1/61','1:1/1.5','1:1/60','2:5/9','2:1/1','1:5/1','1:1/7','1:1/1.6') for to in ('AreaFix','Some One') for at in (PVT,RREQ,AUDIT,RREQ|AUDIT)])
        ck.explore('file attach',case,[('IGNORE',)+b+(0,0,0,1,1,f,tuple(DESTS),('no',),('text',)) for b in itertools.product((0,1),repeat=2) for f in ('1:1/60','1:1/60.0','1:1/60.2','1:1/60.*','*:*/*.0','*:*/*.2','2:5/9','1:1/1.*','*:*/*.*')])
        ck.explore('exported',exported,[(fm,l,v,at) for fm in ('MSG','JAM') for l in ('IGNORE','LOG','LOG+BAD') for v in VIA for at in (PVT,RREQ,AUDIT,RREQ|AUDIT)])
        ck.explore('long texts',case,[('LOG+BAD',)+b+(0,0,'',('1:1/1','1:1/1.5','1:1/61','2:5/9','1:1/50','4:4/4'),('no','own'),tuple(LONG))+x for b in itertools.product((0,1),repeat=5) for x in ((),('ADDTID',))],chunk=1)
        ck.explore('options',case,[('LOG+BAD',)+b+(1,1,'1:1/6*.*',tuple(DESTS),('no','own'),tuple(TEXT))+x for b in itertools.product((0,1),repeat=5) for x in (('ADDTID',),('FORCEINTL',),('FORCEINTL','ADDTID'))],chunk=1)
    finally: shutil.rmtree(NLDIR,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
