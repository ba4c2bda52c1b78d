"""C08: damaged packets: every truncation, every byte corruption, every boundary length; sanitizer build of the real program."""
import _boot,struct,re
import world; from world import *
from harness import *; from emodel import *
SND='1:1/10'
SPLIT=re.compile(rb'[^\r\n]*[\r\n]|[^\r\n]+')
def conf(opts=('NOROUTE','IMPORTEMPTYNETMAIL'),fmt='MSG',links=True,tail='',flags=(),af=None):
    return Cfg([Aka('1:1/1')],[Node(SND,flags,afinfo=af),Node('1:1/20')],
      [Area('BAD','1:1/1',(fmt,'areas/bad')),Area('NET','1:1/1',(fmt,'areas/net'),kind='NETMAIL'),
       Area('ECHO','1:1/1',(fmt,'areas/echo'),[(SND,'')]+([('1:1/20','')] if links else []))],opts=opts,routes=['"*:*/*.*" "1:1/20.0" 1:1/1'],
       packers=['"VPK" "%s a %%a %%f" "%s x %%a" "VPK1"'%(VP,VP)],tail=tail)
class M: pass
def reader(b):
    """lenient reference reader -> (list of complete messages, intact?)"""
    out=[]
    if len(b)<58 or struct.unpack('<H',b[18:20])[0]!=2: return out,False
    pos=58
    while True:
        rest=len(b)-pos
        if rest==0: return out,False
        if rest==1: return out,(b[pos]==0 and bool(out))   # one zero instead of two is accepted after a message
        t=struct.unpack('<H',b[pos:pos+2])[0]
        if t==0: return out,True
        if t!=2 or rest<14: return out,False
        pos+=14; f=[]
        for mx in (20,36,36,72):
            e=b.find(b'\0',pos,pos+mx)
            if e<0: return out,False
            f.append(b[pos:e]); pos=e+1
        e=b.find(b'\0',pos)
        if e<0: return out,False
        m=M(); m.date,m.to,m.frm,m.subj=f; T=b[pos:e]; pos=e+1
        m.area=None
        l=SPLIT.findall(T)
        if l and l[0].startswith(b'AREA:'):
            m.area=l[0][5:].lstrip(b' ').rstrip(bytes(range(33))).decode('latin1'); T=b''.join(l[1:])
        m.text=T; out.append(m)
def etext(T):
    """echomail text without SEEN-BY and PATH lines"""
    t=b''.join(l for l in SPLIT.findall(T) if not l.startswith((b'SEEN-BY:',b'\1PATH:')))
    return t if not t or t.endswith(b'\r') else t+b'\r'
def sane(r,tag):
    if r.rc!=0 or b'Sanitizer' in r.out or b'runtime error' in r.out:
        m=re.search(rb'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*)',r.out)
        raise Violation('%s: exit %r %s'%(tag,r.rc,m.group(1).decode('latin1') if m else r.out[-300:]))
def stored(w,what):
    st=read_msgdir(w.p('areas/'+what)); return [st[k] for k in sorted(st) if not (k==1 and st[k].frm==b'CrashMail II' and st[k].text.startswith(b'Nothing'))] if st else []
def expect(w,tag,blobs,names,bundled=False,pre=(),forward=True):
    """after the toss: each complete message stored (and forwarded) exactly once in order; damaged packets kept byte for byte; nothing else"""
    E=[];N=[];B=[];bad=[];F=[]
    for b,n in zip(blobs,names):
        ms,ok=reader(b)
        if not ok: bad.append((n,b))
        for m in ms:
            if m.area is None or m.area=='': N.append(m)
            elif m.area.upper()=='ECHO': E.append(m)
            else: B.append(m)
    left=w.ls('in'); want=sorted(list(pre)+[n+'.bad' for n,_ in bad])
    kept=[x for x in left]
    exp_bad=sorted([b for _,b in bad]+[d for _,d in PREDATA(pre)])
    if sorted(w.read('in/'+f) for f in kept)!=exp_bad or any('.bad' not in f for f in kept) or (not pre and left!=want):
        raise Violation('%s: inbound holds %r, expected exactly %r with unchanged contents'%(tag,left,want))
    for n,d in PREDATA(pre):
        if w.read('in/'+n)!=d: raise Violation('%s: earlier quarantine file %s overwritten'%(tag,n))
    if w.ls('tmp'): raise Violation('%s: left in the temporary directory: %r'%(tag,w.ls('tmp')))
    n=0
    for what,ms in (('echo',E),('net',N),('bad',B)):
        st=stored(w,what)
        if len(st)!=len(ms): raise Violation('%s: %d messages in %s, expected %d (%r)'%(tag,len(st),what,len(ms),[x.subj for x in st][:6]))
        for x,m in zip(st,ms):
            n+=1
            if (x.date,x.to,x.frm,x.subj)!=(m.date,m.to,m.frm,m.subj): raise Violation('%s: header in %s: %r, expected %r'%(tag,what,(x.date,x.to,x.frm,x.subj),(m.date,m.to,m.frm,m.subj)))
            t=etext(m.text) if what!='net' else (m.text if not m.text or m.text.endswith(b'\r') else m.text+b'\r')
            if what=='bad': t=etext(m.text) if m.text.endswith(b'\r') else etext(m.text)[:-1]
            if t not in x.text or (what=='net' and t!=x.text) or (what=='echo' and not x.text.startswith(t)): raise Violation('%s: text in %s: %r, expected %r'%(tag,what,x.text[:300],t[:300]))
    if forward:
        items,prob=outbound(w,{'out':1})
        if prob: raise Violation('%s: %s'%(tag,prob[:2]))
        got=[m for it in items for p in it.pkts for m in p.msgs]
        if len(got)!=len(E) or any(x.subj!=m.subj or not x.body.startswith(b'AREA:ECHO\r'+etext(m.text)) for x,m in zip(got,E)):
            raise Violation('%s: %d messages forwarded, expected %d: %r'%(tag,len(got),len(E),[x.subj for x in got][:6]))
        n+=len(got)
    return n
def PREDATA(pre): return [(p,b'old '+p.encode()) for p in pre]
VP=None
def body(i):
    return [b'AREA:ECHO\r\1MSGID: 1:1/10 %08x\rHello %d\r--- t\r * Origin: o (1:1/10)\rSEEN-BY: 1/10\r\1PATH: 1/10\r'%(i,i),
            b'\1INTL 1:1/1 1:1/10\r\1FMPT 3\r\1TOPT 2\r\1MSGID: x 1\rNet %d\r\1Via 1:1/10\r'%i,
            b'AREA:NOSUCH\rbad %d\r'%i,b'AREA:ECHO\r',b'plain %d'%i]
def base(k):
    """packets to be damaged"""
    o,d=A(SND),A('1:1/1'); B=body(k)
    def m(j,s=b'',**kw): return Msg((1,10),(1,1),subj=b's%d.%d'%(k,j)+s,to=b'To',frm=b'Fr',date=b'01 Jan 24  12:00:00',body=B[j],**kw)
    if k==0: return mkpkt(o,d,[m(0),m(1),m(2)])
    if k==1: return mkpkt(o,d,[m(1),m(0),m(3)],kind='2.2')
    if k==2: return mkpkt(o,d,[m(3),m(4),m(0)])
    if k==3: return mkpkt(o,d,[Msg((1,10),(1,1),subj=b'S'*71,to=b'T'*35,frm=b'F'*35,date=b'D'*19,body=b'AREA:ECHO\r'+b'x'*410+b'\ry\r'),m(0)])
    if k==4: return mkpkt(o,d,[])
    if k==5: return mkpkt(o,d,[m(0),Msg((1,10),(1,1),subj=b'big',body=b'AREA:ECHO\r'+(b'z'*78+b'\r')*140),m(1)])
    if k==6: return mkpkt(o,d,[m(0)])+b'\x1a'*40    # padded by a mailer
def toss(cfg,blobs,tag,mode='loose',flavour='asan',pre=(),forward=True,args=('TOSS','NOSECURITY')):
    with World(None,flavour) as w:
        w.write('cm.cfg',cfg.text().replace('INBOUND "in"','INBOUND "%s"'%w.p('in')))
        for n,d in PREDATA(pre): w.write('in/'+n,d)
        names=[]
        if mode=='loose':
            for b in blobs: names.append(w.inbound(b))
        elif mode=='bundle':
            names=['%08x.pkt'%(i+0x100) for i in range(len(blobs))]; w.inbound(mkbundle(list(zip(names,blobs))),'00010001.sa0')
        elif mode=='file':
            for i,b in enumerate(blobs): n='f%07x.pkt'%i; w.write('in/'+n,b); names.append(n)
            for n in names: sane(w.cm('TOSSFILE','in/'+n,'NOSECURITY'),tag)
        if mode!='file': sane(w.cm(*args),tag)
        return expect(w,tag,blobs,names,pre=pre,forward=forward)
def part_trunc(c):
    k,lo,hi,mode,pre,one=c; b=base(k); cfg=conf(links=True); ev=0
    def note(x): return Msg((1,10),(1,1),subj=x,body=b'AREA:ECHO\rintact\r')
    blobs=[]
    for n in range(lo,min(hi,len(b)+1)):
        if one==0: blobs+= [b[:n],mkpkt(A(SND),A('1:1/1'),[note(b'between %d'%n)])]
        elif one==1: blobs+=[b[:n]]
        else: blobs+=[mkpkt(A(SND),A('1:1/1'),[note(b'between %d'%n)]),b[:n]]
    pn=tuple('%08x.pkt.bad'%i+x for i in (1,2,3) for x in ('',',1')) if pre else ()
    ev=toss(cfg,blobs,'packet %d truncated to %d..%d bytes (%s)'%(k,lo,min(hi,len(b)+1)-1,mode),mode,pre=pn)
    return dict(evaluations=ev,nontrivial=[('trunc',k,n,mode,one) for n in range(lo,min(hi,len(b)+1))],states=len(blobs),transitions=ev,sample=dict(packet=k,truncated_to=[lo,hi],mode=mode))
def part_kept(c):
    lo,hi=c; cfg=conf(links=False); ev=0
    for n in range(lo,hi):
        pre=tuple('%08x.pkt.bad'%1+(',%d'%i if i else '') for i in range(n))
        ev+=toss(cfg,[b'damaged packet'],'damaged packet with %d packets of its name kept already'%n,pre=pre,forward=False)
    return dict(evaluations=ev,nontrivial=[('kept',n) for n in range(lo,hi)],states=hi-lo,transitions=ev,sample=dict(kept=[lo,hi]))
def corrupt(b,off,v): return b[:off]+bytes([v])+b[off+1:]
def values(orig):
    if thorough(): return [v for v in range(256) if v!=orig]
    return [v for v in sorted({0,1,2,3,10,13,32,0x7f,0x80,0xff}|{orig^(1<<i) for i in (0,1,3,5,7)}) if v!=orig]
def part_corrupt(c):
    k,lo,hi=c; b=base(k); cfg=conf(links=False); ev=0;n=0
    for off in range(lo,min(hi,len(b))):
        vs=values(b[off]); blobs=[corrupt(b,off,v) for v in vs]; n+=len(vs)
        ev+=toss(cfg,blobs,'packet %d byte %d set to each of %d values'%(k,off,len(vs)),forward=False)
    return dict(evaluations=ev,nontrivial=[('corrupt',k,o) for o in range(lo,min(hi,len(b)))],states=n,transitions=ev,sample=dict(packet=k,offsets=[lo,hi]))
def part_insert(c):
    """a byte dropped or inserted at every offset"""
    k,lo,hi=c; b=base(k); cfg=conf(links=False); ev=0;n=0
    for off in range(lo,min(hi,len(b))):
        blobs=[b[:off]+b[off+1:],b[:off]+b[off+2:]]+[b[:off]+bytes([v])+b[off:] for v in (0,2,13,65,255)]+[b[:off]+b[off:off+1]*40+b[off:],b[:off]+b'\0\0'+b[off:]]; n+=len(blobs)
        ev+=toss(cfg,blobs,'packet %d with bytes dropped/inserted at %d'%(k,off),forward=False)
    return dict(evaluations=ev,nontrivial=[('insert',k,o) for o in range(lo,min(hi,len(b)))],states=n,transitions=ev)
def part_hdrlen(c):
    """every header string length from 0 to beyond the limit, every position"""
    fi,lo,hi=c; f=('date','to','frm','subj')[fi]; blobs=[]
    for n in range(lo,hi):
        for others in (0,1):
            kw=dict(date=b'D'*19,to=b'T'*35,frm=b'F'*35,subj=b'S'*71) if others else dict(date=b'd',to=b't',frm=b'f',subj=b's')
            kw[f]=b'x'*n
            blobs.append(mkpkt(A(SND),A('1:1/1'),[Msg((1,10),(1,1),subj=b'before',body=b'AREA:ECHO\rx\r'),Msg((1,10),(1,1),body=b'AREA:ECHO\rtext %d\r'%n,**kw),Msg((1,10),(1,1),subj=b'after',body=b'AREA:ECHO\rx\r')]))
            kw2=dict(kw); blobs.append(mkpkt(A(SND),A('1:1/1'),[Msg((1,10),(1,1),body=b'net %d\r'%n,**kw2)]))
    ev=toss(conf(),blobs,'%s of %d..%d characters'%(f,lo,hi))
    return dict(evaluations=ev,nontrivial=[('hdrlen',f,n) for n in range(lo,hi)],states=len(blobs),transitions=ev)
KEYS=[b'\1INTL ',b'\1INTL: ',b'\1FMPT ',b'\1TOPT ',b'\1MSGID: ',b'\1REPLY: ',b'\1PATH: ',b'SEEN-BY: ',b' * Origin: ',b'\1Via ',b'\1FLAGS ',b'\1PID: ',b'\1CHRS: ',b'\1RESCANNED',b'\1',b'AREA:',b'--- ',b'\1TZUTC: ',b'\1TID: ',b'\1FLAGS: ',b'\1PATH',b'SEEN-BY:',b'AREA: ',b'\1Via CrashMail ']
GARB=[b'',b' ',b'x',b':',b'/',b'.',b'@',b'-',b'0',b'1:',b'1:1',b'1:1/',b'1:1/1.',b'1:1/1@',b'1/1 2 3/4 . 5',b'99999999999999999999:99999999999/99999.99999999',b'1:1/1 1:1/1 1:1/1',b'-1:-1/-1.-1',b'%s%n%d%s%s%s',b'(',b')',b'(1:1/1',b'1:1/1)',b'((((((((',b'(%s)',b'\xff\xfe\x80',b'\x7f\x01\x02',b'*:*/*.*',b'65535:65535/65535.65535',b'1:1/1 2:2/2',b'  1:1/1  2:2/2  ',b'"q" \'q\' `q` $(q) \\',b'1'*30]
LENS=[20,35,36,37,70,78,79,80,81,98,99,100,101,120,149,150,151,190,191,192,193,194,195,196,197,198,199,200,201,202,203,250,255,256,257,300,400,1000]
def rich(fmt,auto=True):
    c=conf(opts=('IMPORTEMPTYNETMAIL','IMPORTSEENBY','ANSWERRECEIPT','ANSWERAUDIT','CHECKSEENBY','STRIPRE','BOUNCEPOINTS','PATH3D','FORCEINTL'),fmt=fmt,tail='AREAFIXNAME "AreaFix"\nFILEATTACH "*:*/*.*"\n',flags=('AUTOADD',) if auto else (),af=('PW','A'))
    c.loop='LOG+BAD'; c.dupes=('dupes',200,'BAD')
    return c.text(loglevel=6)
def soup(cfgtext,msgs,tag,expected=None):
    with World(cfgtext,'asan') as w:
        for i in range(0,len(msgs),200): w.inbound(mkpkt(A(SND),A('1:1/1'),msgs[i:i+200]))
        sane(w.cm('TOSS',timeout=120),tag)
        if w.ls('in'): raise Violation('%s: left in inbound %r'%(tag,w.ls('in')))
        sane(w.cm('SCAN',timeout=120),tag+' (scan)')
        items,prob=outbound(w,{'out':1,**{'out.%03x'%z:z for z in range(0,0x10000)}},allow_extra=())
        prob=[p for p in prob if 'pkt/' in p]
        if prob: raise Violation('%s: %s'%(tag,prob[:2]))
    return len(msgs)
def part_soup(c):
    ki,fmt,pos,auto=c; key=KEYS[ki]; M=[]
    for g in GARB+[b'x'*n for n in LENS]+[b'1'*n for n in LENS]+[b'1/1 '*(n//4) for n in LENS]+[b' '*n for n in LENS]:
        l=key+g
        for kind in (0,1,2):
            pre=(b'AREA:ECHO\r',b'',b'AREA:UNKNOWN\r')[kind]
            if pos==0: T=pre+l+b'\rtext\r'
            elif pos==1: T=pre+b'\1MSGID: 1:1/10 1\rtext\r'+l
            else: T=pre+l+b'\r'+l+b'\r'+l+b'\r'
            M.append(Msg((1,10),(1,(1,50)[pos&1]),attr=(0,RREQ|AUDIT,FATT)[pos],subj=(b'x',b'../../f',b'%s%n')[pos],body=T))
    n=soup(rich(fmt,auto),M,'line %r... followed by garbage (%s, position %d)'%(key,fmt,pos))
    return dict(evaluations=n,nontrivial=[('soup',ki,fmt,pos,auto,i) for i in range(n)],states=n,transitions=n,sample=dict(key=repr(key),base=fmt))
def part_tags(c):
    """area tags of every length, netmail to areafix with long lines, names and subjects with format characters"""
    fmt,what,auto=c; M=[]
    if what=='tag':
        for n in range(0,260): M.append(Msg((1,10),(1,1),body=b'AREA:'+b'T'*n+b'\rtext\r')); M.append(Msg((1,10),(1,1),body=b'AREA:'+b'T'*n)); M.append(Msg((1,10),(1,1),body=b'AREA: '+b'%n'*(n//2)+b' \rtext\r'))
        M=[m for m in M]
    elif what=='names':
        for n in range(0,36):
            for ch in (b'%s',b'%',b'\xff',b'/',b'"',b'(',b'R'):
                s=(ch*36)[:n]; M.append(Msg((1,10),(1,1),to=s,frm=s,subj=(b'Re: '*18)[:n*2],date=s[:19],body=b'AREA:ECHO\rx\r')); M.append(Msg((1,10),(1,1),to=s,frm=s,subj=(ch*72)[:n*2],date=s[:19],attr=RREQ|AUDIT|FATT,body=b'x\r'))
    elif what=='areafix':
        for n in list(range(0,5))+LENS:
            for ch in (b'%',b'+',b'-',b'A',b'*',b' ',b'%HELP',b'+* R=',b'%RESCAN ',b'%PWD ',b'%PACKER ',b'%COMPRESS ',b'ECHO R=',b'ECHO, r=',b'---',b'%LIST ',b'\x01',b'=',b'?',b'\xff',b'"'):
                t=(ch*(n//len(ch)+1))[:n]
                M.append(Msg((1,10),(1,1),to=b'AreaFix',subj=(b'pw'+b'x'*70)[:n%72],body=b'A'*(n%7)+b'\r'+t+b'\r'+ch*3+b'\r%PWD PW\r'))
                M.append(Msg((1,10),(1,1),to=b'AreaFix',subj=b'PW',body=ch+t[:n]+b'\r+ECHO\r-ECHO\rECHO\r%PWD PW\r'))
                M.append(Msg((1,10),(1,1),to=b'AreaFix',subj=b'PW -q -l '+ch,body=ch+b'x'*n+b' y\r%PWD PW'))
                M.append(Msg((1,10),(1,1),to=b'AreaFix',subj=b'PW',body=ch+b' '*n+b' \r%RESUME\r%PWD PW\r'))
    elif what=='counts':
        for n in (0,1,49,50,51,99,100,101,255,256,257,1000,3000): M.append(Msg((1,10),(1,1),body=b'AREA:ECHO\rx\rSEEN-BY: '+b' '.join(b'%d/%d'%(i%7+1,i) for i in range(n))+b'\r\1PATH: '+b' '.join(b'%d/%d'%(i%7+1,i) for i in range(n//3))+b'\r')); M.append(Msg((1,10),(1,1),body=b'AREA:ECHO\rx\r'+b''.join(b'SEEN-BY: %d/%d\r\1PATH: %d/%d\r'%(i%9,i,i%9,i) for i in range(n)))); M.append(Msg((1,10),(1,60),body=b'\1Via x\r'*n)); M.append(Msg((1,10),(1,1),body=b'\1INTL 1:1/1 1:1/10\r'*n+b'x'))
    elif what=='lines':
        # unbroken lines around the size of the internal text blocks; with and without IMPORTEMPTYNETMAIL
        for n in list(range(9995,10006))+[19998,19999,20000,20001,30000]:
            for pre in (b'',b'\1',b'\1Via 1:1/1 CrashMail ',b'\1MSGID: '):
                for d in (1,50):
                    for end in (b'',b'\r',b'\r\1Via 1:1/1 CrashMail\r'):
                        M.append(Msg((1,10),(1,d),attr=RREQ if d==1 else AUDIT,body=pre+b'x'*(n-len(pre))+end))
        if auto: n=soup(rich(fmt).replace('IMPORTEMPTYNETMAIL\n',''),M,'%s (%s)'%(what,fmt)); return dict(evaluations=n,nontrivial=[(fmt,what,auto,i) for i in range(n)],states=n,transitions=n)
    n=soup(rich(fmt,auto),M,'%s (%s)'%(what,fmt))
    return dict(evaluations=n,nontrivial=[(fmt,what,auto,i) for i in range(n)],states=n,transitions=n)
def main():
    global VP
    ck=Check('C08','fault_enumeration','every truncation length of every base packet (loose, in a bundle, by TOSSFILE; with intact packets before/after; with older .bad files), every byte offset x corruption values, every one-byte deletion/insertion, every header string length, control lines followed by garbage of every listed length, run on an address/undefined-sanitizer build; non-trivial = distinct (family, offset or parameter)')
    world.init(('asan',)); th=thorough()
    VP=build.tool('vpack','vpack.c',[])
    cs=[]
    for k in (0,1,2,3,4,6):
        L=len(base(k))
        for mode in ('loose','bundle','file'):
            for one in (0,1,2):
                if mode!='loose' and one: continue
                step=1 if mode=='file' else 16
                if mode=='file' and not th: rng=range(0,L+1,7)
                else: rng=range(0,L+1,step)
                for lo in rng: cs.append((k,lo,lo+step,mode,False,one))
        for lo in range(0,L+1,16): cs.append((k,lo,lo+16,'loose',True,1))
    L=len(base(5))
    for a,b in ([(0,L+1)] if th else [(0,700),(9900,10400),(L-500,L+1)]):
        for lo in range(a,b,16): cs.append((5,lo,min(lo+16,b),'loose',False,1))
    ck.explore('truncations',part_trunc,cs,chunk=4)
    ck.explore('kept packets',part_kept,[(n,n+4) for n in range(0,132,4)]+([(n,n+1) for n in (255,256,257,300,999,1000,1001,1100)] if th else [(256,257)]))
    ck.explore('corruptions',part_corrupt,[(k,o,o+8) for k in ((0,1,2,3) if th else (0,1)) for o in range(0,len(base(k)),8)])
    ck.explore('insertions',part_insert,[(k,o,o+8) for k in ((0,1,2,3) if th else (0,)) for o in range(0,len(base(k)),8)])
    ck.explore('header lengths',part_hdrlen,[(fi,lo,min(lo+8,m+5)) for fi,m in enumerate((20,36,36,72)) for lo in range(0,m+5,8)]+[(fi,lo,lo+2) for fi in range(4) for lo in (126,198,254,510,998)])
    ck.explore('control garbage',part_soup,[(i,f,p,a) for i in range(len(KEYS)) for f in ('MSG','JAM') for p in range(3) for a in (True,False)])
    ck.explore('boundary counts',part_tags,[(f,x,a) for f in ('MSG','JAM') for x in ('tag','names','areafix','counts','lines') for a in (True,False)])
    ck.finish()
if __name__=='__main__': main()
