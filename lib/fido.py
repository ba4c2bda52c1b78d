"""Independent readers/writers for FidoNet file formats (FTS-0001 packets, *.MSG, JAM)."""
import struct,os,collections,zlib
Addr=collections.namedtuple('Addr','z n f p')
def A(s):
    z,r=s.split(':'); n,r=r.split('/'); f,p=(r.split('.')+['0'])[:2]
    return Addr(int(z),int(n),int(f),int(p))
def S(a,point=True): return '%d:%d/%d'%(a[0],a[1],a[2])+('.%d'%a[3] if point else '')
PVT,CRASH,RECD,SENT,FATT,TRANSIT,ORPHAN,KS,LOCAL,HOLD,FREQ,RREQ,IRRR,AUDIT=1,2,4,8,16,32,64,128,256,512,2048,4096,8192,16384
class PktError(Exception): pass
class Msg:
    __slots__=('orig','dest','attr','cost','date','to','frm','subj','body')
    def __init__(s,orig=(0,0),dest=(0,0),attr=0,cost=0,date=b'01 Jan 24  12:00:00',to=b'All',frm=b'Foo Bar',subj=b'Subject',body=b''):
        s.orig,s.dest,s.attr,s.cost,s.date,s.to,s.frm,s.subj,s.body=orig,dest,attr,cost,date,to,frm,subj,body
    def pack(s):
        return struct.pack('<7H',2,s.orig[1],s.dest[1],s.orig[0],s.dest[0],s.attr,s.cost)+s.date+b'\0'+s.to+b'\0'+s.frm+b'\0'+s.subj+b'\0'+s.body+b'\0'
    def key(s): return (s.orig,s.dest,s.attr,s.cost,s.date,s.to,s.frm,s.subj,s.body)
    def __repr__(s): return 'Msg(%r)'%(s.key(),)
def pkthdr(orig,dest,pw=b'',kind='2+',when=(2024,0,1,12,0,0)):
    h=bytearray(58)
    o,d=orig,dest
    struct.pack_into('<10H',h,0,o.f,d.f,when[0],when[1],when[2],when[3],when[4],when[5],0,2)
    struct.pack_into('<2H',h,20,o.n,d.n)
    h[24]=0xfe;h[25]=1
    h[26:26+len(pw[:8])]=pw[:8]
    if kind=='2+':
        struct.pack_into('<2H',h,34,o.z,d.z); struct.pack_into('<H',h,38,0)
        struct.pack_into('>H',h,40,1); struct.pack_into('<H',h,44,1)
        struct.pack_into('<4H',h,46,o.z,d.z,o.p,d.p)
    elif kind=='2+point':   # FSC-0048: orig net -1, auxnet
        struct.pack_into('<H',h,20,0xffff); struct.pack_into('<2H',h,34,o.z,d.z); struct.pack_into('<H',h,38,o.n)
        struct.pack_into('>H',h,40,1); struct.pack_into('<H',h,44,1)
        struct.pack_into('<4H',h,46,o.z,d.z,o.p,d.p)
    elif kind=='2q':  # zones in the qmail fields only
        struct.pack_into('<2H',h,34,o.z,d.z)
        struct.pack_into('>H',h,40,2); struct.pack_into('<H',h,44,1)
    elif kind=='2':   # stone age: no zone
        struct.pack_into('>H',h,40,2); struct.pack_into('<H',h,44,1)
    elif kind=='2.2': # 45-style
        h=bytearray(58)
        struct.pack_into('<4H',h,0,o.f,d.f,o.p,d.p); struct.pack_into('<H',h,16,2); struct.pack_into('<H',h,18,2)
        struct.pack_into('<2H',h,20,o.n,d.n); h[26:26+len(pw[:8])]=pw[:8]; struct.pack_into('<2H',h,34,o.z,d.z)
    else: raise ValueError(kind)
    return bytes(h)
def mkpkt(orig,dest,msgs,pw=b'',kind='2+'): return pkthdr(orig,dest,pw,kind)+b''.join(m.pack() for m in msgs)+b'\0\0'
class Pkt: pass
def parse_pkt(b,strict=True):
    """strict parser: raises PktError unless b is one complete, well-formed type 2+ packet"""
    if len(b)<60: raise PktError('short packet (%d bytes)'%len(b))
    p=Pkt(); u=struct.unpack
    of,df,y,mo,d,h,mi,s,baud,typ,on,dn=u('<12H',b[:24])
    if typ!=2: raise PktError('type %d'%typ)
    qoz,qdz,aux=u('<3H',b[34:40]); cwc=u('>H',b[40:42])[0]; cw=u('<H',b[44:46])[0]
    oz,dz,op,dp=u('<4H',b[46:54])
    if cwc!=cw or not (cw&1): raise PktError('capability word %x/%x'%(cw,cwc))
    if (qoz,qdz)!=(oz,dz): raise PktError('zone fields disagree')
    if not(y>=1990 and mo<=11 and 1<=d<=31 and h<24 and mi<60 and s<62): raise PktError('bad date %r'%((y,mo,d,h,mi,s),))
    p.orig=Addr(oz,on,of,op); p.dest=Addr(dz,dn,df,dp); p.pw=b[26:34].split(b'\0')[0]; p.date=(y,mo,d,h,mi,s)
    if b[26+len(p.pw):34].strip(b'\0'): raise PktError('junk after password')
    p.msgs=[]; pos=58
    while True:
        if pos+2>len(b): raise PktError('no terminator')
        t=u('<H',b[pos:pos+2])[0]
        if t==0:
            if pos+2!=len(b): raise PktError('%d bytes after terminator'%(len(b)-pos-2))
            return p
        if t!=2: raise PktError('message type %d at %d'%(t,pos))
        if pos+14>len(b): raise PktError('short message header')
        _,of,df,on,dn,at,co=u('<7H',b[pos:pos+14]); pos+=14
        m=Msg((on,of),(dn,df),at,co); f=[]
        for mx in (20,36,36,72):
            e=b.find(b'\0',pos,pos+mx)
            if e<0: raise PktError('unterminated/long header string at %d'%pos)
            f.append(b[pos:e]); pos=e+1
        m.date,m.to,m.frm,m.subj=f
        e=b.find(b'\0',pos)
        if e<0: raise PktError('unterminated body')
        m.body=b[pos:e]; pos=e+1
        p.msgs.append(m)
def lines(body):
    """split at CR keeping it"""
    out=[];i=0
    while i<len(body):
        j=body.find(b'\r',i)
        if j<0: out.append(body[i:]); break
        out.append(body[i:j+1]); i=j+1
    return out
class Echo: pass
def parse_echo(body):
    """splits an echomail body into area / text / seen-by list / path list (raw line lists too)"""
    e=Echo(); ls=lines(body)
    if not ls or not ls[0].startswith(b'AREA:'): return None
    e.area=ls[0][5:].strip(); e.text=b'';e.seenby=[];e.path=[];e.sblines=[];e.pathlines=[];e.rest=[]
    for l in ls[1:]:
        if l.startswith(b'SEEN-BY:'): e.sblines.append(l); e.seenby+=parse2d(l[8:])
        elif l.startswith(b'\1PATH:'): e.pathlines.append(l); e.path+=parse2dpath(l[6:])
        else: e.rest.append(l)
    e.text=b''.join(e.rest)
    return e
def parse2d(s):
    out=[];net=0
    for w in s.split():
        if b'/' in w: a,b=w.split(b'/'); net=int(a); out.append((net,int(b)))
        else: out.append((net,int(w)))
    return out
def parse2dpath(s):
    out=[];net=0
    for w in s.split():
        pt=0
        if b'.' in w: w,p=w.split(b'.'); pt=int(p)
        if b'/' in w: a,b=w.split(b'/'); net=int(a); out.append((net,int(b),pt))
        else: out.append((net,int(w),pt))
    return out
# ---------- *.MSG -------------
class StoredMsg: pass
def parse_msg(b):
    if len(b)<190: raise PktError('short .msg')
    m=StoredMsg()
    m.frm=b[0:36].split(b'\0')[0]; m.to=b[36:72].split(b'\0')[0]; m.subj=b[72:144].split(b'\0')[0]; m.date=b[144:164].split(b'\0')[0]
    (m.read,m.dnode,m.onode,m.cost,m.onet,m.dnet,m.dzone,m.ozone,m.dpoint,m.opoint,m.replyto,m.attr,m.nextreply)=struct.unpack('<13H',b[164:190])
    t=b[190:]; e=t.find(b'\0'); m.terminated=e>=0; m.text=t if e<0 else t[:e]; m.trail=b'' if e<0 else t[e+1:]
    return m
def mkmsg(frm=b'Local User',to=b'All',subj=b'Subj',date=b'01 Jan 24  12:00:00',attr=0,text=b'',orig=(0,0,0,0),dest=(0,0,0,0),replyto=0,nextreply=0,cost=0,read=0):
    def pad(s,n): return s[:n-1]+b'\0'*(n-len(s[:n-1]))
    return pad(frm,36)+pad(to,36)+pad(subj,72)+pad(date,20)+struct.pack('<13H',read,dest[2],orig[2],cost,orig[1],dest[1],dest[0],orig[0],dest[3],orig[3],replyto,attr,nextreply)+text+b'\0'
def read_msgdir(path):
    """{num: StoredMsg} for n.msg files"""
    out={}
    try: names=os.listdir(path)
    except FileNotFoundError: return out
    for n in names:
        s=n.lower()
        if s.endswith('.msg') and s[:-4].isdigit():
            m=parse_msg(open(os.path.join(path,n),'rb').read()); m.num=int(s[:-4]); out[m.num]=m
    return out
# ---------- JAM ---------------
JSF={0:'oaddr',1:'daddr',2:'from',3:'to',4:'msgid',5:'reply',6:'subj',7:'pid',8:'trace',9:'encfile',10:'encfwd',2000:'ftskludge',2001:'seenby2d',2002:'path2d',2003:'flags',2004:'tzutc'}
def jamcrc(s):
    s=bytes(c+32 if 65<=c<=90 else c for c in s)
    return zlib.crc32(s)^0xffffffff
class JamMsg: pass
class Jam: pass
JL,JTRANSIT,JPRIV,JREAD,JSENT,JKS,JAS,JHOLD,JCRASH,JIMM,JDIRECT,JGATE,JFREQ,JFATT=1,2,4,8,0x10,0x20,0x40,0x80,0x100,0x200,0x400,0x800,0x1000,0x2000
JTYPELOCAL,JTYPEECHO,JTYPENET=0x00800000,0x01000000,0x02000000
JDELETED=0x80000000
def read_jam(base,crc=True):
    """strict JAM reader; raises PktError on structural inconsistency"""
    rd=lambda e: open(base+e,'rb').read()
    hdr,jdt,jdx,jlr=rd('.jhr'),rd('.jdt'),rd('.jdx'),rd('.jlr')
    if len(hdr)<1024 or hdr[:4]!=b'JAM\0': raise PktError('bad JAM header')
    j=Jam(); j.created,j.modc,j.active,j.pwcrc,j.basenum=struct.unpack('<5I',hdr[4:24])
    if len(jdx)%8: raise PktError('index size %d'%len(jdx))
    if len(jlr)%16: raise PktError('lastread size')
    j.lastread=[struct.unpack('<4I',jlr[i:i+16]) for i in range(0,len(jlr),16)]
    j.msgs=[]; j.slots=len(jdx)//8; j.hdrlen=len(hdr); j.txtlen=len(jdt); act=0; ext=[];text=[]
    for i in range(j.slots):
        ucrc,off=struct.unpack('<2I',jdx[i*8:i*8+8])
        if off==0xffffffff: continue
        if off<1024 or off+76>len(hdr): raise PktError('index %d points outside header file'%i)
        h=hdr[off:off+76]
        if h[:4]!=b'JAM\0': raise PktError('no signature at %d'%off)
        m=JamMsg(); 
        (rev,_,sublen,m.timesread,m.msgidcrc,m.replycrc,m.replyto,m.reply1st,m.replynext,m.datewritten,m.datereceived,m.dateproc,m.num,m.attr,m.attr2,m.txtoff,m.txtlen,m.pwcrc,m.cost)=struct.unpack('<HHIIIIIIIIIIIIIIIII',h[4:76])
        if m.num!=j.basenum+i: raise PktError('message number %d in slot %d (base %d)'%(m.num,i,j.basenum))
        if off+76+sublen>len(hdr): raise PktError('subfields outside file')
        m.off=off; m.sub=[]; p=off+76; e=p+sublen
        while p<e:
            if p+8>e: raise PktError('torn subfield')
            lo,hi,n=struct.unpack('<HHI',hdr[p:p+8]); p+=8
            if p+n>e: raise PktError('subfield overruns')
            m.sub.append((lo,hdr[p:p+n])); p+=n
        ext.append((off,off+76+sublen))
        m.deleted=bool(m.attr&JDELETED)
        if not m.deleted:
            act+=1
            if m.txtoff+m.txtlen>len(jdt): raise PktError('text outside file')
            text.append((m.txtoff,m.txtoff+m.txtlen))
        m.text=jdt[m.txtoff:m.txtoff+m.txtlen]
        m.ucrc=ucrc; j.msgs.append(m)
        for crcf,fld,nm in ((m.msgidcrc,4,'msgid'),(m.replycrc,5,'reply')):
            v=[d for l,d in m.sub if l==fld]
            want=jamcrc(v[0]) if v else 0xffffffff
            if crc and crcf!=want: raise PktError('%s crc %08x wants %08x (msg %d)'%(nm,crcf,want,m.num))
        v=[d for l,d in m.sub if l==3]
        if not m.deleted and ucrc!=(jamcrc(v[0]) if v else 0xffffffff): raise PktError('index user crc wrong (msg %d)'%m.num)
    if act!=j.active: raise PktError('active count %d, really %d'%(j.active,act))
    for L in (ext,text):
        L=sorted(x for x in L if x[1]>x[0])
        for a,b in zip(L,L[1:]):
            if a[1]>b[0]: raise PktError('overlapping records')
    return j
def jamfield(m,n): 
    v=[d for l,d in m.sub if l==n]
    return v[0] if v else None
class JamWriter:
    """builds a JAM base from scratch"""
    def __init__(s,basenum=1,created=900000000): s.basenum=basenum; s.created=created; s.hdr=b'';s.jdt=b'';s.jdx=b'';s.act=0; s.n=0
    def add(s,frm=b'Local User',to=b'All',subj=b'Subj',text=b'',attr=JTYPEECHO|JTYPELOCAL|JL,sub=(),date=1704110400,replyto=0,reply1st=0,replynext=0,cost=0,timesread=0,dateproc=None,received=0,hole=False):
        if hole: s.jdx+=struct.pack('<2I',0xffffffff,0xffffffff); s.n+=1; return s.basenum+s.n-1
        subs=[(2,frm),(3,to),(6,subj)]+list(sub)
        sb=b''.join(struct.pack('<HHI',l,0,len(d))+d for l,d in subs)
        g=lambda n: ([d for l,d in subs if l==n]+[None])[0]
        mc=jamcrc(g(4)) if g(4) is not None else 0xffffffff
        rc=jamcrc(g(5)) if g(5) is not None else 0xffffffff
        num=s.basenum+s.n
        h=b'JAM\0'+struct.pack('<HHIIIIIIIIIIIIIIIII',1,0,len(sb),timesread,mc,rc,replyto,reply1st,replynext,date,received,dateproc if dateproc is not None else date,num,attr,0,len(s.jdt),len(text),0xffffffff,cost)
        s.jdx+=struct.pack('<2I',jamcrc(to),1024+len(s.hdr)); s.hdr+=h+sb; s.jdt+=text; s.n+=1
        if not attr&JDELETED: s.act+=1
        return num
    def write(s,base,lastread=()):
        w=lambda e,d: open(base+e,'wb').write(d)
        w('.jhr',b'JAM\0'+struct.pack('<5I',s.created,0,s.act,0xffffffff,s.basenum)+b'\0'*1000+s.hdr); w('.jdt',s.jdt); w('.jdx',s.jdx)
        w('.jlr',b''.join(struct.pack('<4I',*l) for l in lastread))
def jam_append(base,**k):
    """another program adds a message to a base (which it creates if necessary); returns the message number"""
    if not os.path.exists(base+'.jhr'):
        w=JamWriter(); n=w.add(**k); w.write(base); return n
    hdr=open(base+'.jhr','rb').read(); jdt=open(base+'.jdt','rb').read(); jdx=open(base+'.jdx','rb').read()
    cr,mod,act,pw,bn=struct.unpack('<5I',hdr[4:24])
    w=JamWriter(bn); w.n=len(jdx)//8; w.hdr=hdr[1024:]; w.jdt=jdt; w.jdx=jdx; w.act=act
    n=w.add(**k)
    open(base+'.jhr','wb').write(b'JAM\0'+struct.pack('<5I',cr,mod+1,w.act,pw,bn)+hdr[24:1024]+w.hdr); open(base+'.jdt','wb').write(w.jdt); open(base+'.jdx','wb').write(w.jdx)
    return n
def jam_patch(base,num,fn):
    """change the attribute of a message: fn(attr)->attr"""
    hdr=bytearray(open(base+'.jhr','rb').read()); jdx=open(base+'.jdx','rb').read(); cr,mod,act,pw,bn=struct.unpack('<5I',hdr[4:24])
    off=struct.unpack('<2I',jdx[(num-bn)*8:(num-bn)*8+8])[1]; a=struct.unpack('<I',hdr[off+52:off+56])[0]; b=fn(a)
    if b&JDELETED and not a&JDELETED: act-=1
    hdr[off+52:off+56]=struct.pack('<I',b); hdr[4:24]=struct.pack('<5I',cr,mod+1,act,pw,bn); open(base+'.jhr','wb').write(hdr)
