"""C24: all small sets of loose packets, bundles (with every outcome of the unpacker) and other files in the inbound directory."""
import _boot,itertools,re,time
import scen; from scen import *
from harness import *
import c22
TMP='tmp'
def config(inb='in',tmp='tmp',packers=None,links=True):
    """own configuration: one JAM area that shows the order of processing, one netmail area, one bad area"""
    c=Cfg([Aka('1:1/1')],[Node('1:1/10',(),pw='SECRET'),Node('1:1/20')],[Area('BAD','1:1/1',('MSG','areas/bad')),Area('JAMA','1:1/1',('JAM','areas/jama'),[('1:1/10',''),('1:1/20','')] if links else []),Area('NETJ','1:1/1',('JAM','areas/netj'),kind='NETMAIL')],
        routes=['"1:*/*.*" "1:1/20" 1:1/1'],dupes=('dupes',500,'IGNORE'),packers=packers or ['"VPK" "%s a %%a %%f" "exec %s d %%a" "VPK1"'%('../vp','../vp')])
    t=c.text(); 
    t=re.sub(r'(?m)^INBOUND .*$',lambda m:'INBOUND "%s"'%inb,t); t=re.sub(r'(?m)^TEMPDIR .*$',lambda m:'TEMPDIR "%s"'%tmp,t)
    return t
def setup(w,**k):
    w.write('cm.cfg',config(inb=k.pop('inb',None) or w.p('in'),**k)); os.symlink(scen.VP,w.p('vp')); os.mkdir(w.p('areas/bad'))
def packet(x): return pk([echo(b'JAMA',b'E'+x),net('1:1/1',b'N'+x)])
def order(w,base='jama'):
    if not w.exists('areas/%s.jhr'%base): return []
    o=[]
    for m in read_jam(w.p('areas/'+base)).msgs: o+=marks(m.text if m.text.endswith(b'\r') else m.text+b'\r') or ['?']
    return o
class Item: pass
KINDS=['P','B1','B2','BN','Z','U','F0','F1','K0','K1','E','D','O','T']
def item(kind,i,date,name8):
    """-> Item: file name, data, expected marks in order, optional marks, .bad files, kept"""
    it=Item(); x=b'%d'%i; it.sure=[]; it.opt=[]; it.bad=[]; it.kept=False; it.date=date; it.loose=False
    it.name=name8+'.su%d'%(i%10)
    if kind=='P': it.name=name8+'.pkt'; it.data=packet(x+b'a'); it.sure=[x+b'a']; it.loose=True
    elif kind=='B1': it.data=mkbundle([('00000aa1.pkt',packet(x+b'a'))]); it.sure=[x+b'a']
    elif kind=='B2': it.data=mkbundle([('00000aa3.pkt',packet(x+b'c')),('00000aa1.pkt',packet(x+b'a')),('0f000aa2.PKT',packet(x+b'b'))]); it.sure=[x+b'a',x+b'b',x+b'c']
    elif kind=='BN': it.data=mkbundle([('readme.txt',b'hello'),('00000aa2.Pkt',packet(x+b'a')),('toolongname.pkt',packet(x+b'z'))]); it.sure=[x+b'a']
    elif kind=='Z': it.data=b''
    elif kind=='U': it.data=b'PK\3\4'+packet(x+b'z'); it.bad=[it.name]
    elif kind in('F0','K0'): it.data=mkbundle([('!exit 3' if kind=='F0' else '!kill 9',b''),('00000aa1.pkt',packet(x+b'z'))]); it.bad=[it.name]
    elif kind in('F1','K1'): it.data=mkbundle([('00000aa1.pkt',packet(x+b'o')),('!exit 1' if kind=='F1' else '!kill 15',b''),('00000aa2.pkt',packet(x+b'z'))]); it.bad=[it.name]; it.opt=[x+b'o']
    elif kind=='T': it.data=mkbundle([('00000aa1.pkt',packet(x+b'o')),('00000aa2.pkt',packet(x+b'z'))])[:-7]; it.bad=[it.name]; it.opt=[x+b'o']
    elif kind=='E': it.data=b'VPK1'
    elif kind=='D': it.data=mkbundle([('00000aa1.pkt',b'\0'*18+b'\3\0'+b'x'*60),('00000aa2.pkt',packet(x+b'a'))]); it.sure=[x+b'a']; it.inner=b'\0'*18+b'\3\0'+b'x'*60
    elif kind=='O': it.name=('x%d.su0'%i,name8+'.txt','%s1.pkt'%name8,name8+'.bad',name8+'.pk')[i%5]; it.data=packet(x+b'z'); it.kept=True
    it.kind=kind; return it
def sets(case):
    kinds,rev,cmd=case
    with World() as w:
        setup(w); d='in2' if cmd=='TOSSDIR' else 'in'
        if d=='in2': os.mkdir(w.p('in2'))
        items=[]
        for i,k in enumerate(kinds):
            it=item(k,i,w.now-500+10*i,'%08x'%(0x1000+(7-i if rev else i))); items.append(it); w.write(d+'/'+it.name,it.data,it.date)
        if cmd=='TOSSFILE':
            for it in items: w.cm('TOSSFILE',w.p('in',it.name))
        elif cmd=='TOSSDIR': w.cm('TOSSDIR',w.p('in2'))
        else: w.cm('TOSS')
        tag='%s of %s (names %s)'%(cmd,'+'.join(kinds),'descending' if rev else 'ascending')
        def judge(tag):
            run=items if cmd=='TOSSFILE' else [x for x in items if x.loose]+[x for x in items if not x.loose]
            exp=[m.decode() for x in run for m in x.sure]; opt=[m.decode() for x in items for m in x.opt]
            for base,pre in (('jama','E'),('netj','N')):
                got=order(w,base)
                if [g for g in got if g[1:] not in opt]!=[pre+e for e in exp]: raise Violation('%s: area %s holds %s, expected %s'%(tag,base,got,exp))
                for o in opt:
                    if got.count(pre+o)>1: raise Violation('%s: the packet %s was tossed %d times'%(tag,o,got.count(pre+o)))
            for n in w.ls('tmp'):
                if len(n)==12 and n.lower().endswith('.pkt'): raise Violation('%s: %s left in the temporary directory'%(tag,n))
            left={}
            for x in ('in','in2'):
                for n in w.ls(x): left[x+'/'+n]=w.read(x+'/'+n)
            want={}; inner=[]
            for it in items:
                if it.kept: want[d+'/'+it.name]=it.data
                for b in it.bad: want['in/'+b+'.bad']=it.data
                if it.kind=='D': inner.append(it.inner); want['in/00000aa1.pkt.bad'+(',%d'%(len(inner)-1) if len(inner)>1 else '')]=it.inner
            if left!=want: raise Violation('%s: inbound holds %s, expected %s%s'%(tag,sorted(left),sorted(want),'' if sorted(left)!=sorted(want) else ' with other contents'))
        if cmd=='TOSSFILE': 
            for it in items:
                if it.kind=='O': it.kept=False; it.bad=[it.name]
        judge(tag)
        if cmd!='TOSSFILE': w.cm(cmd,*([w.p('in2')] if cmd=='TOSSDIR' else [])); judge(tag+', then again')
        return dict(evaluations=len(kinds)+1,nontrivial=[(kinds,rev,cmd)],states=2,transitions=2,sample=dict(kinds=kinds,cmd=cmd))
# ---------------- file names
def valid(n):
    if len(n)!=12 or n[8:9]!=b'.': return None
    e=n[9:].lower()
    if e==b'pkt': return 'pkt'
    if e[:2] in (b'mo',b'tu',b'we',b'th',b'fr',b'sa',b'su') and re.fullmatch(rb'[0-9A-Za-z]{8}',n[:8]): return 'arc'
def names(case):
    ns,arc=case
    with World() as w:
        setup(w); data={}
        for i,n in enumerate(ns):
            x=b'%d'%i; b=packet(x); data[n]=mkbundle([('%08x.pkt'%i,b)]) if arc else b
            p=os.path.join(os.fsencode(w.p('in')),n)
            with open(p,'wb') as f: f.write(data[n])
            os.utime(p,(w.now-2000+i,)*2)
        w.cm('TOSS')
        left={os.fsencode(n) for n in os.listdir(w.p('in'))}; got=set(order(w)); kinds=[valid(n) for n in ns]
        for i,n in enumerate(ns):
            k=kinds[i]; read='E%d'%i in got; same=n in left and open(os.path.join(os.fsencode(w.p('in')),n),'rb').read()==data[n]; bad=n+b'.bad' in left
            exp='kept' if k is None else 'tossed' if (k=='arc')==arc else 'bad'
            act='tossed' if read and not same and not bad else 'kept' if same and not read and not bad else 'bad' if bad and not same and not read else 'other'
            if k=='arc' and not n[-1:].isalnum() and act in ('kept','bad',exp): continue     # not a usual name: only never lost
            if act!=exp: raise Violation('file name %r with the contents of a %s: %s, expected %s'%(n,'bundle' if arc else 'packet',act,exp))
        return dict(evaluations=len(ns),nontrivial=[(n,arc) for n in ns],states=len(ns),transitions=1,sample=dict(names=[repr(n) for n in ns[:3]]))
def namelist(L):
    out=[]
    for e in ('mo0','Tu9','WEz','thA','fr-','sa.','su\xe5','mO0','pkt','PKT','Pkt','pk','pktt','mo','mon0','xx0','om0','m0o','.su','s.u','ut0','tus','arc','bad','out','su ','p0t','   ','we\x01'):
        for b in ('0000abcd','ABCDEFGH','zzzzzzzz','00000000','0000abc','0000abcde','a b c d ','-abcdefg','abcdefg_','\xe5\xe5\xe5\xe5\xe5\xe5\xe5\xe5','abcd.efg','','.','........','0000:000','0000@000','0000[000','0000`000','0000{000','99999999','aaaaAAAA'): out.append((b+'.'+e).encode('latin1'))
    if L:
        for p in range(8):
            for c in range(1,256):
                if c==47: continue
                for e in (b'.mo0',b'.pkt'):
                    b=bytearray(b'0000abcd'); b[p]=c; out.append(bytes(b)+e)
        for p in range(9,12):
            for c in range(1,256):
                if c==47: continue
                for e in (b'.mo0',b'.pkt',b'.suX'):
                    b=bytearray(b'0000abcd'+e); b[p]=c; out.append(bytes(b))
    else:
        for p in (0,7):
            for c in range(1,256):
                if c==47: continue
                b=bytearray(b'0000abcd'); b[p]=c; out.append(bytes(b)+b'.mo0')
    seen=set(); r=[]
    for n in out:
        if n in (b'.',b'..') or n in seen: continue
        seen.add(n); r.append(n)
    return r
# ---------------- same outcome as loose packets
def tree(w,skip):
    o={}
    for d in ('areas','out','pkt','in','.'):
        for b,ds,fs in os.walk(w.p(d)) if d!='.' else [(w.root,[],[f for f in os.listdir(w.root) if os.path.isfile(w.p(f))])]:
            for f in fs:
                p=os.path.relpath(os.path.join(b,f),w.root)
                if p in skip: continue
                o[p]=open(os.path.join(b,f),'rb').read()
                if p=='cm.stats': o[p]=c22.parse(o[p])
                if p.endswith('.msg'): m=o[p]; o[p]=[x.split(b'\0')[0] for x in (m[:36],m[36:72],m[72:144],m[144:164])]+[m[164:]]
    return o
def like(case):
    what,pks=case; res=[]
    for bundled in (False,True):
        with World() as w:
            setup(w,links=True)
            w.inbound(pk([echo(b'JAMA',b'D0')]),name='00000001.pkt',mtime=w.now-5000); w.cm('TOSS')
            fs=[('%08x.pkt'%(0xaa0+i),b) for i,b in enumerate(pks)]
            if bundled: w.write('in/0000abcd.mo0',mkbundle(fs),w.now-500)
            else:
                for i,(n,b) in enumerate(fs): w.write('in/'+n,b,w.now-500+i)
            w.cm('TOSS'); res.append(tree(w,('cm.cfg','cm.cfg.bak','cm.log','vp','log')))
            if bundled and [n for n in w.ls('tmp') if n.endswith('.pkt')]: raise Violation('%s: packets left in the temporary directory'%what)
    a,b=res
    if a!=b:
        df=sorted(k for k in set(a)|set(b) if a.get(k)!=b.get(k)); raise Violation('%s: tossing from a bundle differs from tossing loose packets in %s'%(what,df))
    return dict(evaluations=2,nontrivial=[what],states=2,transitions=4,sample=dict(packets=what))
def likecases(L):
    g=dict(echo=pk([echo(b'JAMA',b'A1')]),two=pk([echo(b'JAMA',b'A2'),net('1:1/1',b'A3')]),transit=pk([net('1:1/77',b'A4')]),dupe=pk([echo(b'JAMA',b'D0')]),noarea=pk([echo(b'NOAREA',b'A5')]),badpw=pk([echo(b'JAMA',b'A6')],pw=b'WRONG'),empty=pk([]),foreign=pk([echo(b'JAMA',b'A7',frm='1:1/99')],frm='1:1/99'),long=pk([echo(b'JAMA',b'A8',long=4000)]))
    out=[((a,),(g[a],)) for a in g]+[((a,b),(g[a],g[b])) for a in g for b in g if a!=b]
    if L: out+=[((a,b,c),(g[a],g[b],g[c])) for a in g for b in g for c in g if len({a,b,c})==3]
    t=g['two']
    for n in range(0,len(t),1 if L else 5): out.append(('two cut at %d'%n,(t[:n],g['transit'])))
    for n in range(0,min(len(t),120),1 if L else 4):
        for v in (0,255): out.append(('byte %d=%d'%(n,v),(t[:n]+bytes([v])+t[n+1:],g['transit'])))
    return out
# ---------------- recognition of the packer
def match(rec,data):
    pos=0; i=0
    while i<len(rec):
        if pos>=len(data): return None if set(rec[i:])<={'?'} else False
        if rec[i]=='$': 
            if data[pos]!=int(rec[i+1:i+3],16): return False
            i+=3
        else:
            if rec[i]!='?' and data[pos]!=ord(rec[i]): return False
            i+=1
        pos+=1
    return True
def recog(case):
    recs,files=case
    with World() as w:
        setup(w,packers=['"%s" "../vp x" "../vp l ../plog %d %%a" "%s"'%('PK%d'%i,i,r) for i,r in enumerate(recs)])
        for i,f in enumerate(files): w.write('in/0000%04x.tu1'%i,f,w.now-500+i)
        w.cm('TOSS')
        log=[tuple(x.split('\n')[:2]) for x in (w.read('plog').decode() if w.exists('plog') else '').split('\f')[:-1]]; used={os.path.basename(b):int(a) for a,b in log}
        for i,f in enumerate(files):
            n='0000%04x.tu1'%i; ms=[match(r,f) for r in recs]; exp=None
            for j,m in enumerate(ms):
                if m is None: exp='any'; break
                if m: exp=j; break
            if exp=='any': continue
            if used.get(n)!=exp: raise Violation('bundle starting with %r (number %d of %d) and packers %s: unpacked with %s, expected %s'%(f[:12],i+1,len(files),list(recs),used.get(n),exp))
            if w.exists('in/'+n) or w.exists('in/'+n+'.bad')!=(exp is None) or (exp is None and w.read('in/'+n+'.bad')!=f): raise Violation('bundle starting with %r and packers %s: inbound holds %s'%(f[:12],list(recs),w.ls('in')))
        return dict(evaluations=len(files),nontrivial=[(recs,f) for f in files],states=len(files),transitions=1,sample=dict(recs=recs,files=[f[:10].hex() for f in files]))
# ---------------- command lines and long directory names
def command(case):
    """length of the inbound path and the template of the unpack command -> command seen by the unpacker, files handled"""
    n,tmpl,flav=case
    with World(flavour=flav) as w:
        tn=w.p('t'); os.mkdir(tn); inb=w.p('i')
        while len(inb)<n:
            k=n-len(inb)-1
            if k<=0: inb+='y'*(n-len(inb)); break
            if k>40: k=40
            inb+='/'+'i'*k if k>1 or n-len(inb)-1==1 else 'z'
        os.makedirs(inb); v=inb
        tm=tmpl.replace('@','../vp l ../plog')
        setup(w,inb=inb,tmp=tn,packers=['"VPK" "../vp a" "%s" "VPK1"'%tm]); 
        def put(nm,d,t):
            with open(os.path.join(v,nm),'wb') as f: f.write(d)
            os.utime(os.path.join(v,nm),(w.now-t,)*2)
        put('0000abcd.mo0',mkbundle([]),500); put('0000abcf.mo0',b'JUNK',400); put('0000ab00.pkt',packet(b'1'),600)
        r=w.cm('TOSS')
        if b'Sanitizer' in r.out or r.rc!=0: raise Violation('inbound path of %d characters, unpack command %r: exit %s %s'%(n,tmpl,r.rc,r.out[-300:]))
        arc=os.path.join(inb,'0000abcd.mo0')
        e=''; i=0
        while i<len(tm):
            if tm[i]=='%' and i+1<len(tm): e+={'a':arc,'A':arc,'f':'','F':''}.get(tm[i+1],tm[i+1]); i+=2
            else: e+=tm[i]; i+=1
        exp=e.split()[3:]; got=(w.read('plog').decode() if w.exists('plog') else '').split('\f')[0].split('\n')[:-1]
        if got!=exp: raise Violation('inbound path of %d characters, unpack command %r: ran with %s, expected %s'%(n,tmpl,got,exp))
        left=sorted(os.listdir(v))
        if left!=['0000abcf.mo0.bad']: raise Violation('inbound path of %d characters: after the toss it holds %s, expected 0000abcf.mo0.bad'%(n,left))
        if order(w)!=['E1']: raise Violation('inbound path of %d characters: area holds %s'%(n,order(w)))
        return dict(evaluations=3,nontrivial=[(n,tmpl)],states=1,transitions=1,sample=dict(n=n,tmpl=tmpl))
def hookcmd(case):
    n,tmpl,flav=case
    with World(flavour=flav) as w:
        inb=w.p('i')
        while len(inb)<n:
            k=min(40,n-len(inb)-1)
            inb+='/'+'i'*k if k>0 else 'y'
        os.makedirs(inb); tm=tmpl.replace('@','./vp l plog'); setup(w,inb=inb)
        w.write('cm.cfg',w.read('cm.cfg').decode()+'\nBEFORETOSS "%s"\n'%tm)
        f=os.path.join(inb,'0000ab00.pkt')
        with open(f,'wb') as h: h.write(packet(b'1'))
        r=w.cm('TOSS'); tag='inbound path of %d characters, BEFORETOSS %r'%(n,tmpl)
        if b'Sanitizer' in r.out or r.rc!=0: raise Violation('%s: exit %s %s'%(tag,r.rc,r.out[-300:]))
        e=''; i=0
        while i<len(tm):
            if tm[i]=='%' and i+1<len(tm): e+={'a':'','A':'','f':f,'F':f}.get(tm[i+1],tm[i+1]); i+=2
            else: e+=tm[i]; i+=1
        exp=e.split()[3:]; got=(w.read('plog').decode() if w.exists('plog') else '').split('\f')[0].split('\n')[:-1]
        if got!=exp: raise Violation('%s: ran with %s, expected %s'%(tag,got,exp))
        if order(w)!=['E1']: raise Violation('%s: area holds %s'%(tag,order(w)))
        return dict(evaluations=1,nontrivial=[case],states=1,transitions=1)
# ---------------- leftovers of an interrupted run
def leftover(case):
    left,cut,older,extra,same=case
    with World() as w:
        setup(w); m=[('00000aa1.pkt',packet(b'1')),('00000aa2.pkt',packet(b'2')),('00000aa3.pkt',packet(b'3'))]
        for i in left: w.write('tmp/'+m[i][0],m[i][1] if i!=cut else m[i][1][:-40])
        w.write('in/0000abcd.su0',mkbundle(m),w.now-500)
        exp=['1','2','3']; b=[] if not extra else [('00000aa1.pkt' if same else '00000ab1.pkt',packet(b'9'))]
        if extra: w.write('in/0000abce.su0',mkbundle(b),w.now-(600 if older else 400)); exp=['9']+exp if older else exp+['9']
        w.cm('TOSS')
        tag='packets %s of a bundle left in the temporary directory%s%s'%([i+1 for i in left],', one incomplete' if cut in left else '',', an %s bundle arrived'%('older' if older else 'newer') if extra else '')
        for base,pre in (('jama','E'),('netj','N')):
            if order(w,base)!=[pre+x for x in exp]: raise Violation('%s: area %s holds %s'%(tag,base,order(w,base)))
        if w.ls('in') or [n for n in w.ls('tmp') if n.endswith('.pkt')]: raise Violation('%s: inbound holds %s, temp %s'%(tag,w.ls('in'),w.ls('tmp')))
        return dict(evaluations=1,nontrivial=[case],states=1,transitions=1,sample=dict(case=repr(case)))
def samedir(case):
    """temporary directory = inbound"""
    items,=case
    with World() as w:
        setup(w,tmp=w.p('in')); exp=[]; loose=[]
        for i,k in enumerate(items):
            if k=='P': w.write('in/%08x.pkt'%i,packet(b'%d'%i),w.now-500+i); loose.append('%d'%i)
            else: w.write('in/%08x.mo0'%i,mkbundle([('%08x.pkt'%(0xb00+i),packet(b'%d'%i))]),w.now-500+i); exp.append('%d'%i)
        w.cm('TOSS'); exp=loose+exp
        for base,pre in (('jama','E'),('netj','N')):
            if order(w,base)!=[pre+x for x in exp]: raise Violation('temporary directory = inbound, %s: area %s holds %s'%(items,base,order(w,base)))
        if w.ls('in'): raise Violation('temporary directory = inbound, %s: inbound holds %s'%(items,w.ls('in')))
        return dict(evaluations=1,nontrivial=[case],states=1,transitions=1,sample=dict(items=items))
def notemp(case):
    kinds,=case
    with World() as w:
        setup(w); items=[item(k,i,w.now-500+10*i,'%08x'%(0x1000+i)) for i,k in enumerate(kinds)]
        for it in items: w.write('in/'+it.name,it.data,it.date)
        os.rmdir(w.p('tmp')); w.cm('TOSS')
        for it in items:
            if it.data and not w.exists('in/'+it.name) and it.kind[0]=='B': raise Violation('no temporary directory: bundle %s is gone'%it.kind)
        os.mkdir(w.p('tmp')); w.cm('TOSS')
        exp=[m.decode() for x in [x for x in items if x.loose]+[x for x in items if not x.loose] for m in x.sure]
        got=order(w)
        if [x for i,x in enumerate(got) if x not in got[:i]]!=['E'+e for e in exp]: raise Violation('temporary directory missing in one run (%s): area holds %s, expected %s'%(kinds,got,exp))
        return dict(evaluations=1,nontrivial=[case],states=2,transitions=2,sample=dict(items=kinds))
def hook(case):
    """BEFORETOSS runs before each packet, loose or from a bundle; when it fails tossing stops there and nothing is lost"""
    kinds,j,mode=case
    with World() as w:
        setup(w); h=w.p('hook'); items=[item(k,i,w.now-500+10*i,'%08x'%(0x1000+i)) for i,k in enumerate(kinds)]
        for it in items: w.write('in/'+it.name,it.data,it.date)
        w.write('cm.cfg',w.read('cm.cfg').decode()+'\nBEFORETOSS "%s %%f"\n'%h)
        def script(j):
            w.write('hook','#!/bin/sh\nif [ -f "$1" ]; then cat "$1" >>%s; fi\necho "$1" >>%s\n%s\nexit 0\n'%(w.p('hdata'),w.p('hlog'),'if [ `wc -l <%s` = %d ]; then %s; fi'%(w.p('hlog'),j+1,mode) if j>=0 and mode!='missing' else ''))
            os.chmod(h,0o755)
        script(j)
        if mode=='missing' and j>=0: os.unlink(h)
        r=w.cm('TOSS')
        run=[x for x in items if x.loose]+[x for x in items if not x.loose]; seq=[m for x in run for m in x.sure]
        fail=0 if mode=='missing' and j>=0 else j
        done=seq if fail<0 else seq[:fail]; exp=[m.decode() for m in done]
        tag='BEFORETOSS with %s%s'%('+'.join(kinds),', %s for packet %d'%(mode,j+1) if j>=0 else '')
        got=order(w)
        if got!=['E'+e for e in exp]: raise Violation('%s: area holds %s, expected %s'%(tag,got,exp))
        calls=done if fail<0 else seq[:fail+1]
        if mode!='missing':
            d=w.read('hdata') if w.exists('hdata') else b''; n=(w.read('hlog') if w.exists('hlog') else b'').count(b'\n')
            if d!=b''.join(packet(m) for m in calls) or n!=len(calls): raise Violation('%s: the command was run %d times, expected once for each of %d packets, unprocessed'%(tag,n,len(calls)))
        if fail>=0:
            script(-1); w.cm('TOSS'); w.cm('TOSS'); got=order(w)
        uniq=[x for i,x in enumerate(got) if x not in got[:i]]
        if sorted(uniq)!=sorted('E'+m.decode() for m in seq) or (fail<0 and len(got)!=len(seq)): raise Violation('%s: in the end the area holds %s, expected %s'%(tag,got,seq))
        if w.ls('in') or [n for n in w.ls('tmp') if n.endswith('.pkt')]: raise Violation('%s: in the end inbound holds %s, temp %s'%(tag,w.ls('in'),w.ls('tmp')))
        return dict(evaluations=len(calls),nontrivial=[case],states=len(calls),transitions=len(calls),sample=dict(case=tag))
def hooks(L):
    for n in (1,2,3):
        for k in itertools.product(['P','B1','B2','Z'],repeat=n):
            npk=sum({'P':1,'B1':1,'B2':3,'Z':0}[x] for x in k)
            if not npk: continue
            yield k,-1,''
            for j in range(npk):
                for mode in ('exit 1','kill -9 $$','missing','exit 255') if L else ('exit 1','kill -9 $$'): 
                    if n<3 or L or mode=='exit 1': yield k,j,mode
            if n<3: yield k,0,'missing'
def chunks(l,n): return [l[i:i+n] for i in range(0,len(l),n)]
def main():
    ck=Check('C24','exploration','all sets of up to 3 (4) inbound files over the kinds of packets, bundles, unpacker outcomes and other files in all date orders; all file names of the stated families; all packets of the stated families loose and in bundles; all pairs of recognition strings and heads; all path lengths; all subsets of leftovers; non-trivial = distinct case')
    scen.init(); world.init(('plain','asan')); L=thorough()
    cs=[(k,r,'TOSS') for n in ((1,2,3) if not L else (1,2,3)) for k in itertools.product(KINDS,repeat=n) for r in (0,1) if n>1 or not r]
    if L: cs+=[(k,0,'TOSS') for k in itertools.product(['P','B2','F1','K0','U','D','Z'],repeat=4)]
    cs+=[(k,r,c) for c in ('TOSSDIR','TOSSFILE') for n in (1,2) for k in itertools.product(KINDS,repeat=n) for r in (0,)]
    ck.explore('sets',sets,cs,chunk=4)
    nl=namelist(L)
    ck.explore('names',names,[(tuple(c),arc) for c in chunks(nl,40) for arc in (False,True)])
    ck.explore('like',like,likecases(L),chunk=2)
    recs=['VPK1','$56$50K1','?PK1','VP','PK$03$04','$9D?x','$9d','?????6','$00','LongRecognitionString']
    files=[b'V',b'VP',b'VPK',b'VPK1',b'VPK10000000',b'PK\3',b'PK\3\4',b'PK\3\4zzzzz',b'xPK1',b'\x9d\0x',b'\x9d',b'\0\0\0\0',b'abcde6',b'LongRecognitionStrin',b'LongRecognitionString',b'V'*39,b'VPK2'+b'x'*60]
    rc=[((a,b),(f,g)) for a in recs for b in recs if a!=b for f in files for g in (files if L else (b'V',b'VPK1zz',b'P',b'abcde6'))]
    byrec={}
    for r,f in rc: byrec.setdefault(r,[]).append(f)
    ck.explore('recog',recog,[(r,f) for r in byrec for f in byrec[r]],chunk=8)
    tm=['@ %a','@ q %a r','@ %A'+' '+'t'*40,'@ '+'p'*40+' %a','@ %a %f z','@ 100%% %a','@ %a %a','@ a%%a %a x%%','@ %a '+'u'*(79-len('../vp l ../plog %a '))]
    lens=[k for k in range(30,100)] if L else [30,40,55,60,64,65,66,67,68]+list(range(70,100))
    ck.explore('command',command,[(n,t,f) for n in lens for t in tm for f in (('plain','asan') if L or n%3==0 else ('plain',))],chunk=2)
    ht=['@ %f','@ %F x','@ %f %f','@ %a%f','@ 100%% %f','@ %f '+'u'*(78-len('./vp l plog %f '))]
    ck.explore('hookcmd',hookcmd,[(n,t,f) for n in lens for t in ht for f in (('plain','asan') if L or n%3==0 else ('plain',))],chunk=2)
    subs=[s for k in (0,1,2,3) for s in itertools.combinations(range(3),k)]
    ck.explore('leftover',leftover,[(s,c,o,e,m) for s in subs for c in (-1,0,1,2) if c in s or c==-1 for e in (0,1) for o in ((0,1) if e else (0,)) for m in ((0,1) if e else (0,))])
    ck.explore('samedir',samedir,[(k,) for n in (1,2,3,4) for k in itertools.product('PB',repeat=n)])
    ck.explore('hook',hook,list(dict.fromkeys(hooks(L))),chunk=4)
    ck.explore('notemp',notemp,[(k,) for n in (1,2,3) for k in itertools.product(['P','B1','B2','E','Z','D'],repeat=n)])
    ck.finish()
if __name__=='__main__': main()
