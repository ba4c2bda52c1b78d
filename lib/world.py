"""A scratch CrashMail installation in a temporary directory, and runs of the real programs in it."""
import os,shutil,subprocess,tempfile,re,struct
import build,fido
from fido import *
SHIM=None; BIN={}
def init(flavours=('plain',)):
    global SHIM
    SHIM=build.shim()
    for f in flavours: BIN[f]=build.build(f)
def scratchroot():
    for d in ('/dev/shm','/tmp'):
        if os.path.isdir(d) and os.access(d,os.W_OK): return d
T0=1718452800   # Sat 2024-06-15 12:00:00 UTC
DIRS=['in','out','tmp','pkt','cr','areas']
class Run: pass
class World:
    def __init__(s,config=None,flavour='plain',root=None):
        s.flavour=flavour
        s.root=tempfile.mkdtemp(prefix='cmw.',dir=root or scratchroot()); s.now=T0; s.npkt=0
        for d in DIRS: os.mkdir(s.p(d))
        if config is not None: s.write('cm.cfg',config)
    def p(s,*a): return os.path.join(s.root,*a)
    def close(s): shutil.rmtree(s.root,ignore_errors=True)
    def __enter__(s): return s
    def __exit__(s,*a): s.close()
    def write(s,name,data,mtime=None):
        if isinstance(data,str): data=data.encode('latin1')
        with open(s.p(name),'wb') as f: f.write(data)
        if mtime is not None: os.utime(s.p(name),(mtime,mtime))
    def read(s,name):
        with open(s.p(name),'rb') as f: return f.read()
    def exists(s,name): return os.path.exists(s.p(name))
    def ls(s,d='.'):
        try: return sorted(os.listdir(s.p(d)))
        except FileNotFoundError: return []
    def inbound(s,data,name=None,mtime=None):
        if name is None: s.npkt+=1; name='%08x.pkt'%s.npkt
        s.write('in/'+name,data,mtime if mtime is not None else s.now-1000+s.npkt); return name
    def env(s,extra=None):
        e={'PATH':'/usr/bin:/bin','TZ':'UTC','LANG':'C','LC_ALL':'C','HOME':s.root,'LD_PRELOAD':SHIM,'CM_TIME':str(s.now),
           'ASAN_OPTIONS':'detect_leaks=0:detect_odr_violation=0:exitcode=99:abort_on_error=0:verify_asan_link_order=0:detect_stack_use_after_return=0','UBSAN_OPTIONS':'print_stacktrace=1:exitcode=99'}
        if extra: e.update(extra)
        return e
    def run(s,args,prog='crashmail',timeout=30,advance=60,env=None):
        """one run of a real program; returns rc, out. Virtual time then advances."""
        r=Run()
        cmd=[os.path.join(BIN[s.flavour],prog)]+list(args)
        try:
            c=subprocess.run(cmd,cwd=s.root,env=s.env(env),stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,close_fds=False)
            r.rc=c.returncode; r.out=c.stdout
        except subprocess.TimeoutExpired as e:
            r.rc='timeout'; r.out=e.stdout or b''
        s.now+=advance
        return r
    def cm(s,*args,**kw): return s.run(['SETTINGS','cm.cfg']+list(args),**kw)
    # ---------- observation -------------
    def tree(s,skip=()):
        out={}
        for d,ds,fs in os.walk(s.root):
            for f in fs:
                q=os.path.relpath(os.path.join(d,f),s.root)
                if q not in skip: out[q]=open(os.path.join(d,f),'rb').read()
        return out
FLAV={'f':'normal','h':'hold','d':'direct','c':'crash'}
UTFL={'o':'normal','h':'hold','d':'direct','c':'crash'}
class OutItem: pass
def bso_addr(w,relpath,zones):
    """outbound-relative path -> (Addr, ext). zones: {dirname: zone}"""
    parts=relpath.split('/')
    z=zones.get(parts[0])
    if z is None: return None
    base,ext=os.path.splitext(parts[-1])
    if len(parts)==2: h=base; pt=0
    elif len(parts)==3 and parts[1].endswith('.pnt'):
        h=parts[1][:-4]; pt=int(base,16)
    else: return None
    if not re.fullmatch('[0-9a-f]{8}',h): return None
    return Addr(z,int(h[:4],16),int(h[4:],16),pt),ext[1:]
def unpack_bundle(data):
    """our trivial archive format written by lib/vpack: 'VPK1' then (u16 namelen,name,u32 len,data)*"""
    if data[:4]!=b'VPK1': raise PktError('not a bundle')
    pos=4; out=[]
    while pos<len(data):
        n=struct.unpack('<H',data[pos:pos+2])[0]; name=data[pos+2:pos+2+n].decode(); pos+=2+n
        l=struct.unpack('<I',data[pos:pos+4])[0]; pos+=4
        if pos+l>len(data): raise PktError('torn bundle')
        out.append((name,data[pos:pos+l])); pos+=l
    return out
def mkbundle(files):
    return b'VPK1'+b''.join(struct.pack('<H',len(n))+n.encode()+struct.pack('<I',len(d))+d for n,d in files)
def outbound(w,zones,pktdir='pkt',allow_extra=()):
    """Collects the whole outbound queue.
       returns items: list of OutItem(dest, flavour, kind ('netmail'|'pkt'|'bundle'|'file'), pkts=[Pkt], name)
       problems: list of strings (unreferenced, dangling, duplicated, malformed)"""
    items=[];prob=[];ref={}
    base=w.p('.')
    for top in sorted(os.listdir(w.root)):
        if top not in zones: continue
        for d,ds,fs in os.walk(w.p(top)):
            for f in sorted(fs):
                rel=os.path.relpath(os.path.join(d,f),w.root)
                a=bso_addr(w,rel,zones)
                if a is None: prob.append('stray outbound file '+rel); continue
                addr,ext=a; data=w.read(rel)
                if len(ext)==3 and ext[1:]=='ut' and ext[0] in UTFL:
                    it=OutItem(); it.dest=addr; it.flavour=UTFL[ext[0]]; it.kind='netmail'; it.name=rel
                    try: it.pkts=[parse_pkt(data)]
                    except PktError as e: prob.append('%s: %s'%(rel,e)); it.pkts=[]
                    items.append(it)
                elif len(ext)==3 and ext[1:]=='lo' and ext[0] in FLAV:
                    if data and not data.endswith(b'\n'): prob.append(rel+': no final newline')
                    for l in data.decode('latin1').split('\n'):
                        l=l.rstrip('\r')
                        if not l or l[0]=='~': continue     # ~: already sent
                        pre=''
                        if l[0] in '#^-': pre,l=l[0],l[1:]
                        it=OutItem(); it.dest=addr; it.flavour=FLAV[ext[0]]; it.name=l; it.pre=pre; it.pkts=[]; it.kind='file'
                        ref.setdefault(l,[]).append(rel)
                        if not os.path.isfile(w.p(l)): prob.append('%s: dangling reference %s'%(rel,l)); items.append(it); continue
                        fd=w.read(l); nm=os.path.basename(l)
                        try:
                            if nm.endswith('.pkt'): it.kind='pkt'; it.pkts=[parse_pkt(fd)]
                            elif re.fullmatch(r'[0-9a-f]{8}\.(su|mo|tu|we|th|fr|sa)[0-9a-z]',nm):
                                it.kind='bundle'; ms=unpack_bundle(fd)
                                if len(set(n for n,_ in ms))!=len(ms): prob.append('%s: duplicate member names'%l)
                                it.members=[n for n,_ in ms]; it.pkts=[parse_pkt(x) for _,x in ms]
                        except PktError as e: prob.append('%s: %s'%(l,e))
                        items.append(it)
                elif ext=='bsy': prob.append('busy file left: '+rel)
                else: prob.append('stray outbound file '+rel)
    for l,rs in ref.items():
        if len(rs)>1: prob.append('%s referenced %d times'%(l,len(rs)))
    for f in w.ls(pktdir):
        q=pktdir+'/'+f
        if f=='cmindex' or q in ref or q in allow_extra: continue
        prob.append('unreferenced file '+q)
    return items,prob
