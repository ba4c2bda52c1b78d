"""Histories for the crash, fault and schedule explorations (C09, C10, C11): a template installation, a run under the supervisor,
   and the observation 'which complete messages are at which places'."""
import os,re,shutil,subprocess,tempfile
import build,world,cfgparse
from world import *
from emodel import *
SUP=VP=None
def init():
    global SUP,VP
    world.init(); SUP=build.tool('sup','sup.c',[]); VP=build.tool('vpack','vpack.c',[])
ZONES={'out':1,'out.002':2}
def config(opts=(),jam=(),msg=(),dupe='BAD',extra=''):
    L={'1:1/10':Node('1:1/10',('AUTOADD',),pw='SECRET',packer='VPK',afinfo=('AFPW','ABC','')),'1:1/20':Node('1:1/20',('HOLD',),packer='VPK'),'1:1/30':Node('1:1/30'),'2:5/9':Node('2:5/9',('CRASH',),packer='VPK')}
    ex=[('1:1/10',''),('1:1/20',''),('1:1/30',''),('2:5/9','')]
    areas=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('PASS','1:1/1',None,ex,group='A'),Area('JAMA','1:1/1',('JAM','areas/jama'),ex,group='A'),Area('MSGA','1:1/1',('MSG','areas/msga'),ex,group='A'),Area('WANTED','1:1/1',None,[('1:1/20','')],group='A'),
           Area('NETJ','1:1/1',('JAM','areas/netj'),kind='NETMAIL'),Area('NETM','2:5/1',('MSG','areas/netm'),kind='NETMAIL')]
    c=Cfg([Aka('1:1/1'),Aka('2:5/1')],list(L.values()),areas,opts=opts,routes=['"2:*/*.*" "2:5/9" 2:5/1','"1:*/*.*" "1:1/20" 1:1/1'],dupes=('dupes',50,dupe),loop='LOG+BAD',packers=['"VPK" "./vp a %a %f" "../vp x %a" "VPK1"'],
        tail='AREAFIXNAME "AreaFix"\nFILEATTACH "*:*/*.*"\n'+''.join('MSG_%s\n'%m for m in msg)+''.join('JAM_%s\n'%j for j in jam)+extra)
    return c.text(loglevel=6)
def mark(x,long=0): return b'BEGIN-%s %s END-%s\r'%(x,b'lorem '*long,x)
def echo(area,x,frm='1:1/10',long=0,msgid=True):
    o=A(frm); return Msg((o.n,o.f),(1,1),subj=b'S '+x,body=b'AREA:'+area+b'\r'+(b'\1MSGID: %s %s\r'%(frm.encode(),x) if msgid else b'')+mark(x,long)+b'--- t\r * Origin: o (%s)\r'%frm.encode()+b'SEEN-BY: %d/%d\r\1PATH: %d/%d\r'%(o.n,o.f,o.n,o.f))
def net(dest,x,frm='1:1/10',attr=PVT,subj=None,to=b'Dest User',text=None):
    o,d=A(frm),A(dest); b=b'\1INTL %s %s\r'%(S(d,False).encode(),S(o,False).encode())
    if d.p: b+=b'\1TOPT %d\r'%d.p
    return Msg((o.n,o.f),(d.n,d.f),attr=attr,to=to,frm=b'Foo Bar',subj=subj or b'S '+x,body=b+(text if text is not None else mark(x)))
def pk(msgs,frm='1:1/10',pw=b'SECRET'): return mkpkt(A(frm),A('1:1/1'),msgs,pw=pw if frm=='1:1/10' else b'')
def localmsg(w,d,n,x,attr=LOCAL,net=None):
    orig=(1,1,1,0); dest=(0,0,0,0); t=mark(x)
    if net: dd=A(net); dest=(dd.z,dd.n,dd.f,dd.p); t=b'\1INTL %s 1:1/1\r'%S(dd,False).encode()+t
    w.write('%s/%d.msg'%(d,n),mkmsg(text=t,attr=attr,orig=orig,dest=dest))
def base(w,**k):
    w.write('cm.cfg',config(**k)); os.symlink(VP,w.p('vp')); os.symlink('../in',w.p('tmp/in'))
    for d in ('areas/bad','areas/msga','areas/netm'): os.mkdir(w.p(d))
    # an earlier complete run: history entry D0 and one stored message
    w.inbound(pk([echo(b'JAMA',b'D0')])); w.cm('TOSS')
    if w.ls('in'): raise Exception('setup run failed')
# ---- the histories: name -> (setup, argv)
def s_echo(w):
    base(w); w.inbound(pk([echo(b'PASS',b'P1'),echo(b'JAMA',b'J1'),echo(b'MSGA',b'M1'),echo(b'JAMA',b'D0')])); w.inbound(pk([echo(b'JAMA',b'J2',long=900),echo(b'MSGA',b'M2'),echo(b'PASS',b'P2')]))
def s_net(w):
    base(w)
    w.inbound(pk([net('1:1/77',b'N0'),net('2:7/7',b'N00')])); w.cm('TOSS')     # queue already holds netmail for both hops
    w.write('in/file.zip',b'BEGIN-FA END-FA\r')
    w.inbound(pk([net('1:1/78',b'N1'),net('1:1/1',b'N2'),net('2:5/1',b'N3'),net('2:8/8',b'N4',attr=PVT|CRASH),net('1:1/20',b'N5',attr=FATT|PVT,subj=b'file.zip'),net('1:1/79',b'N6'),echo(b'NOTHERE',b'B1',frm='1:1/30')]))
def s_fix(w):
    base(w); w.inbound(pk([net('1:1/1',b'AF',to=b'AreaFix',subj=b'AFPW',text=b'+WANTED\r-PASS\r'),echo(b'BRANDNEW',b'A1'),echo(b'MSGA',b'M3')])); w.inbound(pk([echo(b'OTHERNEW',b'B2',frm='1:1/30')],frm='1:1/30'))
def s_bundle(w):
    base(w); w.write('in/0000abcd.su0',mkbundle([('11111111.pkt',pk([echo(b'JAMA',b'J3'),net('1:1/80',b'N7')])),('22222222.pkt',pk([echo(b'MSGA',b'M4'),echo(b'PASS',b'P3')])),('33333333.pkt',pk([echo(b'MSGA',b'M5')])[:-20])]),mtime=w.now-500)
    w.inbound(pk([echo(b'MSGA',b'M6')])[:-3]); w.inbound(pk([echo(b'PASS',b'P4')],pw=b'WRONG'))
def s_retry(w):
    base(w)
    w.write('out/0001001e.bsy',''); os.makedirs(w.p('out.002'),exist_ok=True); w.write('out.002/00050009.bsy',''); w.write('out/00010014.bsy','')
    w.inbound(pk([echo(b'PASS',b'P5'),net('1:1/81',b'N8'),net('1:1/30',b'N9'),echo(b'JAMA',b'J4')])); w.cm('TOSS')   # all destinations busy: pkttmp files
    os.unlink(w.p('out/0001001e.bsy')); os.unlink(w.p('out.002/00050009.bsy')); os.unlink(w.p('out/00010014.bsy'))
    w.write('pkt/queued.dat',b'BEGIN-OR END-OR\r'); w.write('pkt/queued.dat.orphan',b'Crash 1:1/30.0 Delete\n')
    w.inbound(pk([echo(b'PASS',b'P6'),net('1:1/82',b'N10')]))
def scanworld(w,**k):
    base(w,**k); w.cm('SCAN')
    for i,x in ((5,b'X1'),(6,b'X2'),(9,b'X3')): localmsg(w,'areas/msga',i,x)
    localmsg(w,'areas/netm',2,b'X4',net='2:7/7'); localmsg(w,'areas/netm',3,b'X5',attr=LOCAL|KS,net='1:1/77'); localmsg(w,'areas/netm',4,b'X6',net='1:1/1')
    for a,n in (('jama',None),('netj','x')):
        b=w.p('areas/'+a); j=read_jam(b) if os.path.exists(b+'.jhr') else None
        W=JamWriter()
        for m in (j.msgs if j else ()): W.add(frm=jamfield(m,2),to=jamfield(m,3),subj=jamfield(m,6),text=m.text,attr=m.attr,sub=[(l,d) for l,d in m.sub if l not in (2,3,6)],date=m.datewritten)
        for x,ks in ((b'Y1'+a[:1].encode(),0),(b'Y2'+a[:1].encode(),JKS)):
            W.add(text=mark(x),attr=JL|(JTYPENET|JTYPELOCAL if n else JTYPEECHO|JTYPELOCAL)|(ks if n else 0),sub=([(0,b'1:1/1'),(1,b'1:1/77' if ks else b'2:7/7')] if n else [(0,b'1:1/1')]))
        W.write(b)
HX='#!/bin/sh\ntr "\\n" "\\r" < "$1" >> ext.out\nexit 0\n'
def s_ext(w):
    base(w,extra='FILTER SUBJECT="S EM*"\nEXECUTE "./hx %m"\nFILTER SUBJECT="S ER*"\nEXECUTE "./hx %r"\n')
    w.write('hx',HX); os.chmod(w.p('hx'),0o755)
    w.inbound(pk([net('1:1/1',b'EM1'),net('1:1/78',b'N1'),echo(b'JAMA',b'ER1'),echo(b'MSGA',b'EM2',long=900)])); w.inbound(pk([net('2:7/7',b'ER2'),echo(b'PASS',b'P1')]))
def s_scan(w): scanworld(w,opts=('ALLOWKILLSENT',))
def s_scanhw(w): scanworld(w,opts=('ALLOWKILLSENT','FORCEINTL'),jam=('HIGHWATER','LINK'),msg=('HIGHWATER','WRITEBACK'))
def s_both(w):
    scanworld(w,opts=('ALLOWKILLSENT',)); w.inbound(pk([echo(b'PASS',b'P1'),echo(b'JAMA',b'J1'),net('1:1/78',b'N1'),net('1:1/1',b'AF',to=b'AreaFix',subj=b'AFPW',text=b'+WANTED\r')]))
def s_file(w):
    base(w); w.write('in/0000f11e.pkt',pk([echo(b'PASS',b'P1'),echo(b'JAMA',b'J1'),net('1:1/78',b'N1'),echo(b'MSGA',b'M1')]))
def s_filebundle(w):
    base(w); w.write('in/0000f11e.su0',mkbundle([('11111111.pkt',pk([echo(b'JAMA',b'J3'),net('1:1/80',b'N7')])),('33333333.pkt',pk([echo(b'MSGA',b'M5')])[:-20])]),mtime=w.now-500)
def s_dir(w):
    base(w); os.mkdir(w.p('spool')); os.symlink('../spool',w.p('tmp/spool'))
    w.write('spool/00000d11.pkt',pk([echo(b'PASS',b'P1'),net('1:1/1',b'N2')])); w.write('spool/00000d12.pkt',pk([echo(b'JAMA',b'J1')])[:-9]); w.write('spool/00000d13.mo0',mkbundle([('11111111.pkt',pk([echo(b'MSGA',b'M4'),echo(b'PASS',b'P3')]))]),mtime=w.now-500)
def s_list(w): scanworld(w,opts=('ALLOWKILLSENT',)); w.write('list',b'MSGA\nnetm\nNETJ\n')
HIST={'ext':(s_ext,('TOSS',)),'echo':(s_echo,('TOSS',)),'net':(s_net,('TOSS',)),'fix':(s_fix,('TOSS',)),'bundle':(s_bundle,('TOSS',)),'retry':(s_retry,('TOSS',)),'scan':(s_scan,('SCAN',)),'scanhw':(s_scanhw,('SCAN',)),'file':(s_file,('TOSSFILE','in/0000f11e.pkt')),'filebundle':(s_filebundle,('TOSSFILE','in/0000f11e.su0')),'dir':(s_dir,('TOSSDIR','spool')),'list':(s_list,('SCANLIST','list'))}
XHIST={'both':(s_both,('TOSS',))}
# ---- instances
_tpl={}
def template(name):
    if name not in _tpl:
        w=World(root=tplroot()); (HIST.get(name) or XHIST[name])[0](w)
        for f in w.ls('.'):
            if f.startswith('cm.log'): os.unlink(w.p(f))
        _tpl[name]=w
    return _tpl[name]
_tr=None
def tplroot(): return _tr
def setroot(d):
    global _tr; _tr=d
def instance(name):
    t=template(name); w=World.__new__(World); w.flavour='plain'; w.npkt=t.npkt; w.now=t.now
    w.root=tempfile.mkdtemp(prefix='i.',dir=t.root+'/..'); os.rmdir(w.root); shutil.copytree(t.root,w.root,symlinks=True)
    return w
class Ev: pass
def sup(w,classes,mode,argv,cmds=None,timeout=60):
    """run crashmail argv under the supervisor. -> (rc, out, events, exits)"""
    log=w.root+'.sup'
    cmds=cmds or [[os.path.join(BIN['plain'],'crashmail'),'SETTINGS','cm.cfg']+list(argv)]
    a=[SUP,w.root,log,classes]+[str(m) for m in mode]
    for c in cmds: a+=['--']+c
    try:
        c=subprocess.run(a,cwd=w.root,env=w.env(),stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout); rc,out=c.returncode,c.stdout
    except subprocess.TimeoutExpired as e: rc,out='timeout',e.stdout or b''
    evs=[];ex={}
    for l in open(log):
        f=l.rstrip('\n').split(' ')
        if f[0]=='exit': ex[int(f[1])]=int(f[2]); continue
        if f[0]=='switch': ex['switch',int(f[1])]=int(f[2]); continue
        if f[0]=='waiting': ex['waiting']=True; continue
        e=Ev(); e.n=int(f[0]); e.proc=int(f[1]); e.name=f[2]; e.p1=f[3].lstrip('/'); e.p2=f[4].lstrip('/') if len(f)>4 else ''; e.res=f[5] if len(f)>5 else ''; e.inj=f[-1]=='INJECTED'; evs.append(e)
    os.unlink(log); w.now+=60
    if os.path.exists(log+'.out'): os.unlink(log+'.out')
    return rc,out,evs,ex
MRE=re.compile(rb'BEGIN-([A-Z0-9a-z]+) (?:lorem )*(?: ?)END-\1\r')
def marks(b): return [m.group(1).decode() for m in MRE.finditer(b)]
def places(w,strict=False):
    """-> ({(place, marker): count}, problems)  only complete messages count, and queue files only if a mailer would find them"""
    out={}
    def add(p,b):
        for x in marks(b): out[(p,x)]=out.get((p,x),0)+1
    items,prob=outbound(w,ZONES)
    for it in items:
        if it.kind=='file' and os.path.isfile(w.p(it.name)): add('queue '+S(it.dest),w.read(it.name))
        for p in it.pkts:
            if p.dest!=it.dest: prob.append('packet for %s queued for %s'%(S(p.dest),S(it.dest)))
            for m in p.msgs: add('queue '+S(it.dest),m.body)
    if w.exists('ext.out'): add('external command',w.read('ext.out'))
    for a in ('msga','netm','bad'):
        for f in w.ls('areas/'+a):
            d=w.read('areas/%s/%s'%(a,f))
            if len(d)>190: add('area '+a,d[190:])
    for a in ('jama','netj'):
        if w.exists('areas/%s.jhr'%a):
            for m in lenient_jam(w,'areas/'+a): add('area '+a,m)
    return out,prob
def lenient_jam(w,b):
    h,t,x=w.read(b+'.jhr'),w.read(b+'.jdt'),w.read(b+'.jdx'); o=[]
    for i in range(0,len(x)//8*8,8):
        off=struct.unpack('<I',x[i+4:i+8])[0]
        if off==0xffffffff: continue
        if off+76>len(h) or h[off:off+4]!=b'JAM\0': raise PktError('JAM base %s: index %d points nowhere'%(b,i//8))
        a,=struct.unpack('<I',h[off+52:off+56]); to,tl=struct.unpack('<2I',h[off+60:off+68])
        if a&JDELETED: continue
        if to+tl>len(t): raise PktError('JAM base %s: text of message %d outside the file'%(b,i//8))
        o.append(t[to:to+tl])
    return o
def finish_runs(w,what,runs=(('TOSS',),('SCAN',))):
    """what an administrator does after a crash: remove lock and busy files, run again"""
    for d,ds,fs in os.walk(w.root):
        for f in fs:
            if f=='cm.cfg.busy' or f.endswith('.bsy'): os.unlink(os.path.join(d,f))
    for r in ((('TOSSDIR','spool'),) if w.exists('spool') else ())+runs:
        x=w.cm(*r)
        if x.rc!=0: return '%s after it exits with %r: %r'%(r[0],x.rc,x.out[-200:])
        if b'xiting' in x.out: return '%s after it gives up: %r'%(r[0],x.out[-200:])
        if w.exists('cm.cfg.busy'): return 'lock left by '+r[0]
    return None
_ref={}
def reference(name):
    if name not in _ref:
        w=instance(name)
        try:
            rc,out,evs,ex=sup(w,'m','count'.split(),HIST[name][1])
            if rc!=0: raise Exception('reference run fails: %r'%out[-300:])
            e=finish_runs(w,'ref')
            if e: raise Exception('reference: '+e)
            pl,prob=places(w)
            _ref[name]=(set(pl),prob,cfgparse.parse(w.read('cm.cfg').decode('latin1')),evs)
        finally: w.close()
    return _ref[name]
def samecfg(a,b):
    return a.nodes==b.nodes and a.areas=={k:v for k,v in b.areas.items()} and a.other==b.other
