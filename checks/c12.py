"""C12: outbound queue: exact layout for all destination kinds, all histories of runs/mailer actions/busy nodes/packer failures, all bundle-name states."""
import _boot,itertools,re
import world; from world import *
from emodel import *
from harness import *
VP=None; NP=0
DAYS=['su','mo','tu','we','th','fr','sa']
AKAS=[Aka('1:1/1',domain='fidonet'),Aka('9:9/1',domain='othernet')]
ZONES={'out':1,'othernet':9}; ZONES.update({'out.%03x'%z:z for z in (2,255,4095)})
def mark(x,n=0): return b'BEGIN-%s %sEND-%s\r'%(x,b'lorem ipsum '*n,x)
RX=re.compile(rb'BEGIN-(\w+) (?:lorem ipsum )*END-(\w+)\r')
def ids(p):
    out=[]
    for m in p.msgs:
        r=RX.findall(m.body)
        if len(r)!=1 or r[0][0]!=r[0][1]: raise Violation('damaged message in a queued packet: %r'%m.body[:200])
        out.append(r[0][0].decode())
    return out
def echo(x,n=0,area=b'PASS'): return Msg((1,99),(1,1),body=b'AREA:'+area+b'\r\1MSGID: 1:1/99 %s\r'%x+mark(x,n)+b'SEEN-BY: 1/99\r\1PATH: 1/99\r')
def net(d,x,n=0,attr=PVT):
    b=b'\1INTL %s 1:1/99\r'%S(d,False).encode()
    if d.p: b+=b'\1TOPT %d\r'%d.p
    return Msg((1,99),(d.n,d.f),attr=attr,to=b'Dest',body=b+mark(x,n))
def pk(ms): return mkpkt(A('1:1/99'),A('1:1/1'),ms)
def basename(d):
    t='othernet/' if d.z==9 else 'out/' if d.z==1 else 'out.%03x/'%d.z
    t+='%04x%04x'%(d.n,d.f)
    return t+'.pnt/%08x'%d.p if d.p else t
def config(nodes,opts=(),tail=''):
    areas=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('PASS','1:1/1',None,[(S(n.addr),'') for n in nodes]+[('1:1/99','')])]
    return Cfg(AKAS,nodes+[Node('1:1/99')],areas,opts=opts,routes=['"9:*/*.*" "*:*/*.*" 9:9/1','"*:*/*.*" "*:*/*.*" 1:1/1'],packers=['"VPK" "./vp a %a %f" "./vp x %a" "VPK1"','"BAD" "./failpack %a %f" "./vp x %a" "XXXX"'],tail=tail).text(loglevel=6)
def fresh(cfg):
    w=World(cfg); os.symlink(VP,w.p('vp')); os.mkdir(w.p('areas/bad')); return w
# ---- layout
DEST=[A(x) for x in ('1:1/10','1:1/10.5','1:65535/32767.65535','2:5/9','255:1/0.1','4095:17/4660','9:9/7','9:9/7.3')]
FLAG={'normal':(),'hold':('HOLD',),'direct':('DIRECT',),'crash':('CRASH',)}
LET={'normal':'f','hold':'h','direct':'d','crash':'c'}
PRE={'none':None,'other':b'^/some/file.zip\n','noeol':b'/some/file.zip','crlf':b'~/a.zip\r\n#/b.zip\r\n','long':b'^/'+b'd'*150+b'/x\n'}
def layout(c):
    d,kind,fl,pw,pf,pre,crlf=c; d=Addr(*d); k=0
    tag='%s for %s, %s, password %r%s, flow file before: %s: '%(kind,S(d),fl,pw,', PKTFROM' if pf else '',pre)
    flags=list(FLAG[fl] if kind!='netmail' else ())
    if kind=='packnet': flags.append('PACKNETMAIL')
    if pw.endswith('!'): flags.append('NONETMAILPASSWORD')
    n=Node(d,flags,pw=pw.rstrip('!'),packer='VPK' if kind in ('packed','packnet') else '',pktfrom='77:7/7.7' if pf else None)
    with fresh(config([n],opts=('FLOWCRLF',) if crlf else (),tail='CHANGE * "*:*/*.*" %s\n'%fl.capitalize() if kind=='netmail' and fl!='normal' else '')) as w:
        lo='%s.%slo'%(basename(d),LET[fl]); ut='%s.%sut'%(basename(d),LET[fl].replace('f','o')); old=b''
        isnet=kind=='netmail'
        if PRE[pre] is not None:
            os.makedirs(os.path.dirname(w.p(lo)),exist_ok=True); old=PRE[pre]
            if isnet and pre in ('other','noeol'): w.write(ut,mkpkt(A('1:1/1'),d,[net(d,b'OLD')],pw=b'OLDPW'))
            elif isnet: w.write(ut,b''); 
            else: w.write(lo,old)
        if kind in ('netmail','packnet'): w.inbound(pk([net(d,b'N1'),net(d,b'N2')]))
        else: w.inbound(pk([echo(b'N1'),echo(b'N2')]))
        before=set(w.tree())
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        t=w.tree(); new={f for f in t if f.split('/')[0] in ('out','pkt','cr','tmp','in','othernet') or f.startswith('out.')}
        orig=A('77:7/7.7') if pf else A('9:9/1') if d.z==9 else A('1:1/1')
        if not isnet: orig=A('77:7/7.7') if pf else (A('1:1/1') if kind!='packnet' or d.z!=9 else A('9:9/1'))
        xpw=(pw.rstrip('!').encode() if not(isnet and pw.endswith('!')) else b'')[:8].upper()
        exp=['N1','N2']
        if isnet:
            q=[ut]
            if PRE[pre] is not None and pre in ('other','noeol'): exp=['OLD']+exp; orig=A('1:1/1'); xpw=b'OLDPW'
            if new!={ut}: raise Violation(tag+'files %s instead of %s'%(sorted(new),ut))
            p=parse_pkt(t[ut])
        else:
            if lo not in t: raise Violation(tag+'no flow file %s: %s'%(lo,sorted(new)))
            eol=b'\r\n' if crlf else b'\n'
            body=t[lo]; pfx=old+(b'\n' if old and not old.endswith(b'\n') else b'')
            if not body.startswith(pfx): raise Violation(tag+'earlier lines of the flow file changed: %r -> %r'%(old,body))
            m=re.fullmatch(rb'\^(pkt/[^\r\n]*)'+eol,body[len(pfx):])
            if not m: raise Violation(tag+'flow file lines added: %r'%body[len(pfx):])
            f=m.group(1).decode(); xf={lo,f}|({'pkt/cmindex'} if kind!='unpacked' else set())
            if new!=xf: raise Violation(tag+'files %s, expected %s'%(sorted(new),sorted(xf)))
            if kind=='unpacked':
                if not re.fullmatch(r'pkt/[0-9a-f]{8}\.pkt',f): raise Violation(tag+'packet name '+f)
                p=parse_pkt(t[f])
            else:
                if not re.fullmatch(r'pkt/[0-9a-f]{8}\.(su|mo|tu|we|th|fr|sa)[0-9]',f): raise Violation(tag+'bundle name '+f)
                ms=unpack_bundle(t[f])
                if len(ms)!=1 or not re.fullmatch(r'[0-9a-f]{8}\.pkt',ms[0][0]): raise Violation(tag+'bundle contains %r'%[x for x,_ in ms])
                p=parse_pkt(ms[0][1])
        if ids(p)!=exp: raise Violation(tag+'packet contains %s instead of %s'%(ids(p),exp))
        if (p.orig,p.dest)!=(orig,d): raise Violation(tag+'packet from %s to %s instead of from %s to %s'%(S(p.orig),S(p.dest),S(orig),S(d)))
        if p.pw.rstrip(b'\0').upper()!=xpw: raise Violation(tag+'packet password %r instead of %r'%(p.pw,xpw))
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(dest=S(d),kind=kind,flavour=fl,before=pre) if d.p and crlf else None)
def layouts():
    for d in DEST:
        for kind in ('netmail','packed','unpacked','packnet'):
            for fl in FLAG:
                if kind=='netmail' and fl in ('crash','direct') and d.p: continue     # crash netmail goes to the boss: C06
                for pw in ('','SECRET','TooLong8x'[:8],'PW!'):
                    for pf in (0,1):
                        for pre in PRE if (pw,pf)==('SECRET',0) or thorough() else ('none','noeol'):
                            for crlf in (0,1):
                                if crlf and kind=='netmail': continue
                                yield (tuple(d),kind,fl,pw,pf,pre,crlf)
# ---- histories
H={'a':A('1:1/10'),'b':A('2:5/9.4'),'c':A('9:9/7')}      # a packed, b unpacked hold, c packed crash (second packer may fail)
def hconfig(opts,bad): return config([Node(H['a'],(),pw='SECRET',packer='VPK'),Node(H['b'],('HOLD',)),Node(H['c'],('CRASH',),pw='X',packer='BAD')],opts=('MAXPKTSIZE 1','MAXBUNDLESIZE 4')+tuple(opts))
class Model:
    def __init__(s): s.pend={n:{'e':[],'n':[]} for n in H}; s.busy=set(); s.bad=False; s.k=0; s.lastbundle={}; s.sentnames=set()
def snapshot(w,n):
    b=basename(H[n]); d,f=os.path.split(b); return {x:w.read(d+'/'+x) for x in w.ls(d) if x.startswith(f+'.') and os.path.isfile(w.p(d,x))}
def observe(w,m,tag,wk):
    items,prob=outbound(w,ZONES,allow_extra=['pkt/'+f for f in w.ls('pkt') if f.endswith('.pkttmp')])
    prob=[p for p in prob if not (p.startswith('busy file left') and any(p.endswith(basename(H[n])+'.bsy') for n in m.busy))]
    if prob: raise Violation(tag+prob[0])
    late={n:{'e':[],'n':[]} for n in H}
    for f in w.ls('pkt'):
        if not f.endswith('.pkttmp'): continue
        x=re.fullmatch(r'[0-9a-f]{8}_(\w+?)_(\d+)_(\d+)_(\d+)_(\d+)\.pkttmp',f)
        if not x: raise Violation(tag+'strange name '+f)
        a=Addr(*[int(v) for v in x.groups()[1:]]); n=[k for k in H if H[k]==a][0]
        p=parse_pkt(w.read('pkt/'+f)); late[n]['e' if x.group(1)=='Echomail' else 'n']+=[(f,i) for i in ids(p)]
    for n in H:
        got={'e':[],'n':[]}
        for it in items:
            if it.dest!=H[n]: continue
            if it.kind=='netmail': 
                if it.flavour!='normal': raise Violation(tag+'netmail for %s is %s'%(S(H[n]),it.flavour))
                for p in it.pkts: got['n']+=ids(p)
            else:
                if it.flavour!={'a':'normal','b':'hold','c':'crash'}[n] or it.pre!='^' or it.kind!={'a':'bundle','b':'pkt','c':'bundle'}[n]: raise Violation(tag+'%s %s %s%s queued for %s'%(it.flavour,it.kind,it.pre,it.name,S(H[n])))
                for p in it.pkts:
                    i=ids(p); got['e']+=i
                    if p.dest!=H[n] or p.pw.rstrip(b'\0')!={'a':b'SECRET','b':b'','c':b'X'}[n]: raise Violation(tag+'packet for %s has destination %s, password %r'%(S(H[n]),S(p.dest),p.pw))
                    if i and 58+2+sum(len(z.pack()) for z in p.msgs[:-1])>1024+2: raise Violation(tag+'packet grew beyond MAXPKTSIZE')
                if it.kind=='bundle':
                    sz=os.path.getsize(w.p(it.name)); last=len(it.members[-1])+6+len(w_pkt(w,it.name,-1))
                    if len(it.members)>1 and sz-last>4096: raise Violation(tag+'packet added to bundle %s of %d bytes, MAXBUNDLESIZE is 4096'%(it.name,sz-last))
        for t in 'en':
            g=got[t]+[i for _,i in sorted(late[n][t])]
            if sorted(g)!=sorted(m.pend[n][t]):
                miss=[x for x in m.pend[n][t] if x not in g]; dup=[x for x in g if g.count(x)>1]
                raise Violation(tag+'%s for %s: queued %s, expected %s'%({'e':'echomail','n':'netmail'}[t],S(H[n]),g,m.pend[n][t])+(' (lost %s)'%miss if miss else '')+(' (twice: %s)'%dup if dup else ''))
            if g!=m.pend[n][t]: raise Violation(tag+'order of the mail for %s: %s instead of %s'%(S(H[n]),g,m.pend[n][t]))
            held=n in m.busy or (t=='e' and n=='c' and m.bad)
            if not held and late[n][t]: raise Violation(tag+'mail for %s not put into the outbound though it is not busy: %s'%(S(H[n]),sorted(late[n][t])))
    for n in 'ac':
        for it in items:
            if it.dest==H[n] and it.kind=='bundle':
                nm=os.path.basename(it.name)
                if wk and nm not in m.sentnames and nm not in m.lastbundle.get('seen',set()) and nm[9:11]!=DAYS[wk_day(w)]: raise Violation(tag+'new bundle %s on a %s'%(nm,DAYS[wk_day(w)]))
                m.lastbundle.setdefault('seen',set()).add(nm)
                if nm in m.sentnames: raise Violation(tag+'bundle name %s used again though there are unused ones'%nm)
def wk_day(w): return (((w.now-60)//86400)+4)%7
def w_pkt(w,f,i): return unpack_bundle(w.read(f))[i][1]
def mail(w,m,big,tag):
    m.k+=1; k=m.k; ms=[]
    for j in range(3 if big else 1):
        x='E%d%s'%(k,'xyz'[j]); ms.append(echo(x.encode(),180 if big else 3))
        for n in H: m.pend[n]['e'].append(x)
    for n in H:
        x='N%d%s'%(k,n); ms.append(net(H[n],x.encode(),60 if big else 0)); m.pend[n]['n'].append(x)
    w.inbound(pk(ms)); before={n:snapshot(w,n) for n in m.busy}
    r=w.cm('TOSS')
    if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
    for n in m.busy:
        if snapshot(w,n)!=before[n]: raise Violation(tag+'files of the busy node %s changed'%S(H[n]))
    if [f for f in w.ls('in')+w.ls('cr')]: raise Violation(tag+'inbound or new packet left: %s'%(w.ls('in')+w.ls('cr')))
def send(w,m,n,how,tag):
    """a mailer session with node n: everything queued is sent"""
    b=basename(H[n]); 
    for e in ('out','hut','cut','dut'):
        f='%s.%s'%(b,e)
        if w.exists(f):
            s=[i for i in ids(parse_pkt(w.read(f)))]; m.pend[n]['n']=[x for x in m.pend[n]['n'] if x not in s]
            if how=='trunc': w.write(f,b'')
            else: os.unlink(w.p(f))
    for e in ('flo','hlo','clo','dlo'):
        f='%s.%s'%(b,e)
        if not w.exists(f): continue
        out=b''
        for l in w.read(f).decode().split('\n'):
            l=l.rstrip('\r')
            if not l: continue
            if l[0]=='~': out+=l.encode()+b'\n'; continue
            p=l[1:] if l[0] in '#^' else l; d=w.read(p)
            s=[i for q in ([parse_pkt(x) for _,x in unpack_bundle(d)] if d[:4]==b'VPK1' else [parse_pkt(d)]) for i in ids(q)]
            m.pend[n]['e']=[x for x in m.pend[n]['e'] if x not in s]; m.sentnames.add(os.path.basename(p))
            if how=='trunc': w.write(p,b'')
            else: os.unlink(w.p(p))
            out+=b'~'+p.encode()+b'\n'
        if how=='tilde': w.write(f,out)
        else: os.unlink(w.p(f))
OPS=['r','R','sa','sb','sc','ta','tb','za','ba','bb','bc','f','d']
def history(c):
    opts,ops=c; k=0
    with fresh(hconfig(opts,False)) as w:
        m=Model(); tag=''
        os.symlink('vp2',w.p('failpack')); setpack(w,False)
        for i,o in enumerate(('r',)+tuple(ops)):
            tag='%s: history %s: after %s: '%(' '.join(opts) or 'no options',' '.join(('r',)+tuple(ops)[:i]),DESC[o])
            if o in 'rR': mail(w,m,o=='R',tag); k+=1
            elif o[0] in 'stz': 
                if o[1] in m.busy: continue
                send(w,m,o[1],{'s':'delete','t':'tilde','z':'trunc'}[o[0]],tag); continue
            elif o[0]=='b':
                n=o[1]; f=basename(H[n])+'.bsy'
                if n in m.busy: m.busy.discard(n); os.unlink(w.p(f))
                else: m.busy.add(n); w.write(f,b'')
                continue
            elif o=='f': m.bad=not m.bad; setpack(w,m.bad); continue
            elif o=='d': w.now+=86400; continue
            observe(w,m,tag,'WEEKDAYNAMING' in opts)
    return dict(evaluations=k,nontrivial=[c],states=k,transitions=len(ops)+1,sample=dict(options=opts,history=ops) if 'f' in ops and 'sc' in ops else None)
DESC={'r':'a run with small mail','R':'a run with big mail','sa':'','sb':'','sc':'','ta':'','tb':'','tc':'','za':'','ba':'','bb':'','bc':'','f':'','d':''}
def setpack(w,bad):
    if os.path.lexists(w.p('vp2')): os.unlink(w.p('vp2'))
    os.symlink('/bin/false' if bad else VP,w.p('vp2'))
    if not bad:
        os.unlink(w.p('vp2')); w.write('vp2','#!/bin/sh\nexec ./vp a "$@"\n'); os.chmod(w.p('vp2'),0o755)
def canon(ops):
    """histories that end with a run and do not have two commuting steps in the other order (each set of steps between two runs once, except where repetition matters)"""
    if ops[-1] not in 'rR': return False
    for a,b in zip(ops,ops[1:]):
        if a not in 'rR' and b not in 'rR' and a>=b: return False
    return True
def histories():
    n=pick(4,5)
    for opts in ((),('WEEKDAYNAMING',)):
        for k in range(1,n+1):
            for ops in itertools.product(OPS,repeat=k):
                if canon(ops): yield (opts,ops)
# ---- bundle names
def naming(c):
    """cmindex names a last bundle: all 70 suffixes x its state x whether the next name is in use x weekday"""
    suffix,state,nxt,wk,day=c
    n=Node(H['a'],(),packer='VPK'); b='6666abcd'
    name=lambda s: '%s.%s%d'%(b,DAYS[s//10],s%10)
    with fresh(config([n],opts=('MAXBUNDLESIZE 1',)+(('WEEKDAYNAMING',) if wk else ()))) as w:
        w.now=T0+(day+1)*86400   # T0 is a Saturday
        tag='last bundle %s (%s), next name %s, %s%s: '%(name(suffix),state,'in use' if nxt else 'free',DAYS[day],', WEEKDAYNAMING' if wk else '')
        w.write('pkt/cmindex','1:1/10.0 %s\n'%name(suffix)); flo=b''; old={}
        nx=(suffix+1)%70
        if wk and nx//10!=day: nx=day*10
        def put(s,kb):
            nonlocal flo
            d=mkbundle([('0000000%d.pkt'%len(old),pk_to([net(H['a'],b'O%d'%len(old),kb*85)]))]); w.write('pkt/'+name(s),d); old[name(s)]='O%d'%len(old); flo+=b'^pkt/%s\n'%name(s).encode()
        if state=='small': put(suffix,0)
        elif state=='big': put(suffix,3)
        elif state=='marked': flo+=b'~pkt/%s\n'%name(suffix).encode()
        elif state=='zero': w.write('pkt/'+name(suffix),b'')
        if nxt and name(nx) not in old: put(nx,0)
        w.write('out/0001000a.flo',flo)
        w.inbound(pk([echo(b'NEW')])); r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        items,prob=outbound(w,ZONES)
        if prob: raise Violation(tag+prob[0])
        got={os.path.basename(it.name):[i for p in it.pkts for i in ids(p)] for it in items}
        for f,x in old.items():
            if got.get(f,[None])[0]!=x: raise Violation(tag+'bundle %s damaged: %r'%(f,got.get(f)))
        where=[f for f in got if 'NEW' in got[f]]
        if len(where)!=1: raise Violation(tag+'new mail in %s'%where)
        f=where[0]; keep=state=='small' and (not wk or suffix//10==day)
        if keep: ok={name(suffix)}
        elif nxt: ok={name(suffix)}|{name(s) for s in range(70) if (not wk or s//10==day) and s!=nx}|({name(nx)} if nx==suffix else set())
        else: ok={name(s) for s in range(70) if s!=suffix and (not wk or s//10==day)}
        if f not in ok: raise Violation(tag+'mail put into %s'%f)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(last=name(suffix),state=state,next_used=nxt,weekday=DAYS[day]) if suffix==69 and nxt else None)
def pk_to(ms): return mkpkt(A('1:1/1'),H['a'],ms)
def namings():
    for s in range(70):
        for st in ('missing','marked','zero','small','big'):
            for nx in (0,1):
                yield (s,st,nx,0,0)
                for day in range(7):
                    if thorough() or s%10 in (0,9) or s//10==day: yield (s,st,nx,1,day)
# ---- damaged or clashing name index
def index(c):
    text,foreign=c
    na,nc=Node(H['a'],(),packer='VPK'),Node(H['c'],('CRASH',),packer='VPK')
    with fresh(config([na,nc])) as w:
        tag='cmindex %r%s: '%(text,', bundles of the coming names exist' if foreign else ''); w.write('pkt/cmindex',text)
        if foreign:
            flo=b''
            for k in range(-1,3):
                for s in ('sa0','su0'):
                    f='%08x.%s'%(w.now+k,s); w.write('pkt/'+f,mkbundle([('11111111.pkt',mkpkt(A('1:1/1'),A('1:1/30'),[net(A('1:1/30'),b'F')]))])); flo+=b'^pkt/%s\n'%f.encode()
            w.write('out/0001001e.flo',flo)
        w.inbound(pk([echo(b'NEW')])); r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r: %r'%(r.rc,r.out[-300:]))
        items,prob=outbound(w,ZONES)
        if prob: raise Violation(tag+prob[0])
        for it in items:
            xs=[i for p in it.pkts for i in ids(p)]
            if it.dest==A('1:1/30'): 
                if xs!=['F']: raise Violation(tag+'bundle of another node changed: %s'%xs)
            elif it.kind!='bundle' or xs!=['NEW']: raise Violation(tag+'%s for %s: %s contains %s'%(it.kind,S(it.dest),it.name,xs))
        if len([it for it in items if it.dest!=A('1:1/30')])!=2: raise Violation(tag+'mail not queued for both nodes')
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def indexes():
    full='1:1/10.0 6666abcd.mo3\n9:9/7.0 6666abce.tu0\n'
    v=[full[:i] for i in range(len(full)+1)]+['9:9/7.0 6666abcd.mo3\n1:1/10.0 6666abcd.mo3\n','1:1/10.0 6666abcd.mo3\n9:9/7.0 6666abcd.we3\n','9:9/7.0 \n1:1/10.0 6666ABCD.MO3\n','garbage\n\n1:1/99.0 12345678.sa9\n','1:1/10.0 6666abcd.xx3\n','1:1/10.0 6666abcd.mo\n',
       '1:1/10.0 6666abcd.mo9 extra words\n','1:1/10.0 '+'6'*150+'.mo1\n','1:1/10.0 x\n9:9/7.0 y\n']
    for t in v:
        for f in (0,1): yield (t,f)
# ---- many packets in one second: all names distinct
def burst(c):
    n,=c
    nodes=[Node('1:1/%d'%(100+i),packer='VPK') for i in range(n)]
    with fresh(config(nodes)) as w:
        w.inbound(pk([echo(b'NEW')])); r=w.cm('TOSS',advance=(n+255)//256)   # the next run comes as soon as this one can have ended
        if r.rc!=0: raise Violation('%d nodes: exit status %r'%(n,r.rc))
        items,prob=outbound(w,ZONES)
        if prob: raise Violation('%d nodes: %s'%(n,prob[0]))
        if sorted(S(it.dest) for it in items if [i for p in it.pkts for i in ids(p)]==['NEW'] and all(p.dest==it.dest for p in it.pkts))!=sorted('1:1/%d.0'%(100+i) for i in range(n)): raise Violation('%d nodes: not all got exactly their packet'%n)
        w.inbound(pk([echo(b'TWO')])); r=w.cm('TOSS')
        if r.rc!=0: raise Violation('%d nodes, second run: exit status %r'%(n,r.rc))
        items,prob=outbound(w,ZONES)
        if prob: raise Violation('%d nodes, second run: %s'%(n,prob[0]))
        got={}
        for it in items:
            for p in it.pkts: got.setdefault(it.dest.f,[]).extend(ids(p))
        bad=[f for f in range(100,100+n) if got.get(f)!=['NEW','TWO']]
        if bad: raise Violation('%d nodes, second run: 1:1/%d gets %s'%(n,bad[0],got.get(bad[0])))
    return dict(evaluations=2,nontrivial=[c],states=2,transitions=2*n)
# ---- packets: one origin address, password and size limit each; several of our addresses, both areas and netmail, all orders
SAK=['1:1/1','1:1/2','1:1/1.5']
def split(c):
    seq,mx,pf,packed,pn,npw=c
    tag='messages %s, MAXPKTSIZE %d, %s%s%s%s: '%(seq,mx,'PKTFROM, ' if pf else '','packed' if packed else 'unpacked',', PACKNETMAIL' if pn else '',', NONETMAILPASSWORD' if npw else '')
    d=A('1:1/10')
    node=Node(d,(['PACKNETMAIL'] if pn else [])+(['NONETMAILPASSWORD'] if npw else []),pw='SECRET',packer='VPK' if packed else '',pktfrom='1:1/7' if pf else None)
    areas=[Area('BAD','1:1/1',('MSG','areas/bad'))]+[Area('A%d'%i,a,None,[('1:1/10',''),('1:1/99','')]) for i,a in enumerate(SAK)]
    cf=Cfg([Aka(a) for a in SAK],[node,Node('1:1/99')],areas,opts=('MAXPKTSIZE %d'%mx,) if mx else (),routes=['"*:*/*.*" "*:*/*.*" 1:1/2'],packers=['"VPK" "./vp a %a %f" "./vp x %a" "VPK1"']).text()
    with fresh(cf) as w:
        ms=[];exp={}
        for i,x in enumerate(seq):
            n=90 if x.isupper() else 1; k=x.lower(); t=b'%s%d'%(x.encode(),i)
            if k=='n': ms.append(net(d,t,n)); exp[t.decode()]=('n',A('1:1/2'))
            else: j='abc'.index(k); ms.append(echo(t,n,b'A%d'%j)); exp[t.decode()]=('e',A(SAK[j]))
        w.inbound(pk(ms)); r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        items,prob=outbound(w,{'out':1})
        if prob: raise Violation(tag+prob[0])
        got=[]; names=set()
        for it in items:
            for p in it.pkts:
                o=ids(p); got+=o
                if p.dest!=d or it.dest!=d: raise Violation(tag+'packet for %s'%S(p.dest))
                direct=it.kind=='netmail'
                for t in o:
                    k,orig=exp[t]
                    if (k=='n' and not pn)!=direct: raise Violation(tag+'%s is in a %s'%(t,it.kind))
                    if not direct and p.orig!=(A('1:1/7') if pf else orig): raise Violation(tag+'%s is in a packet from %s'%(t,S(p.orig)))
                if p.pw.rstrip(b'\0')!=(b'' if npw and direct else b'SECRET'): raise Violation(tag+'packet with %s has password %r'%(o,p.pw))
                if not direct and mx:
                    sz=58
                    for m in p.msgs[:-1]:
                        sz+=14+len(m.date)+len(m.to)+len(m.frm)+len(m.subj)+4+len(m.body)+1
                    if sz>mx*1024: raise Violation(tag+'packet of %s grew to %d before the last message'%(o,sz))
        if sorted(got)!=sorted(exp): raise Violation(tag+'queued %s'%got)
        for k in 'en':
            for a in SAK:
                l=[t for t in got if exp[t]==(k,A(a))]; q=[t for t in exp if exp[t]==(k,A(a))]
                if l!=q and not mx: raise Violation(tag+'order of %s'%l)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=len(seq))
def splits():
    for L in range(1,pick(4,5)):
        for s in itertools.product('aAbcnN',repeat=L):
            for mx in (0,1,2):
                for pf in (0,1):
                    for packed,pn in ((0,0),(1,0),(1,1)):
                        for npw in (0,1):
                            if not thorough() and (npw and (mx or L>2) or L==3 and pf and mx!=1): continue
                            yield ''.join(s),mx,pf,packed,pn,npw
# ---- which directory: zones and domains of our addresses, how OUTBOUND is written, which route applies
def direc(c):
    d1,d2,z1,z2,route,ob,dest=c; d=A(dest)
    tag='addresses %s %r and %s %r, OUTBOUND %r, routes %s, mail for %s: '%(z1,d1,z2,d2,ob,route,dest)
    akas=[Aka(z1,domain=d1),Aka(z2,domain=d2)]
    routes={'both':['"%d:*/*.*" "*:*/*.*" %s'%(A(z2).z,z2),'"*:*/*.*" "*:*/*.*" %s'%z1],'first':['"*:*/*.*" "*:*/*.*" %s'%z1],'second':['"*:*/*.*" "*:*/*.*" %s'%z2],'none':[]}[route]
    used={'both':1 if d.z==A(z2).z else 0,'first':0,'second':1,'none':None}[route]
    node=Node(dest,(),packer='')
    cf=Cfg(akas,[node,Node('1:1/99')],[Area('BAD',z1,('MSG','areas/bad')),Area('PASS',z1,None,[(dest,''),('1:1/99','')])],routes=routes).text().replace('OUTBOUND "out"','OUTBOUND "%s"'%ob)
    with fresh(cf) as w:
        os.makedirs(w.p('deep/out'))
        base=ob.rstrip('/'); dom=[d1,d2][used] if used is not None else ''
        if used is not None and dom and d1 and dom.lower()!=d1.lower(): dr=(base.rsplit('/',1)[0]+'/' if '/' in base else '')+dom
        elif d.z!=A(z1).z: dr='%s.%03x'%(base,d.z)
        else: dr=base
        w.inbound(pk([echo(b'E1')]+([net(d,b'N1')] if routes else []))); r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        t=w.tree(); nm='%s/%04x%04x'%(os.path.normpath(dr),d.n,d.f)+('.pnt/%08x'%d.p if d.p else '')
        got=sorted(f for f in t if f.endswith(('.flo','.out','lo','ut')))
        exp=sorted([nm+'.flo']+([nm+'.out'] if routes else []))
        if got!=exp: raise Violation(tag+'files %s, expected %s'%(got,exp))
        l=t[nm+'.flo'].decode().strip()
        if l[0]!='^' or ids(parse_pkt(t[l[1:]]))!=['E1'] or routes and ids(parse_pkt(t[nm+'.out']))!=['N1']: raise Violation(tag+'contents')
        left=[f for f in t if f.startswith(('in/','cr/','tmp/')) or f.startswith('pkt/') and f!=l[1:]]
        if left: raise Violation(tag+'left %s'%left)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def direcs():
    for d1 in ('','fidonet','othernet'):
        for d2 in ('','fidonet','FidoNet','othernet','fido'):
            for z1,z2 in (('1:1/1','2:5/1'),('2:5/1','1:1/1'),('1:1/1','1:9/1'),('9:1/1','1:1/1.5')):
                for route in ('both','first','second','none'):
                    for ob in ('out','./out/','deep/out') if thorough() or d1!='othernet' else ('out',):
                        for dest in ('1:1/10','2:5/9','3:7/8.2','2:5/9.1') if thorough() or ob=='out' else ('2:5/9.1','1:1/10'): yield d1,d2,z1,z2,route,ob,dest
# ---- mail for zones of another domain, equal file names of attached files
def clash(c):
    what,=c
    if what=='domainzones':
        a,b=Node('9:9/7'),Node('8:9/7')
        cf=config([a,b]).replace('ROUTE "9:','ROUTE "8:*/*.*" "*:*/*.*" 9:9/1\nROUTE "9:')
        with fresh(cf) as w:
            w.inbound(pk([net(a.addr,b'N9'),net(b.addr,b'N8')])); w.cm('TOSS')
            fs=[f for f in w.tree() if f.endswith('.out')]
            if len(fs)!=2: raise Violation('mail for 9:9/7 and 8:9/7, both of domain othernet, is put into %s'%fs,sig='domain-zones')
    else:
        with fresh(config([Node(H['a']),Node(H['b'])],tail='AREA_PLACEHOLDER\n'.replace('AREA_PLACEHOLDER\n','')+'FILEATTACH "*:*/*.*"\n')) as w:
            w.write('in/file.zip',b'CONTENT ONE')
            m=net(H['a'],b'F1',attr=PVT|FATT); m.subj=b'file.zip'; w.inbound(pk([m])); w.cm('TOSS')
            w.write('in/file.zip',b'CONTENT TWO')
            m=net(H['b'] if what=='othernode' else H['a'],b'F2',attr=PVT|FATT); m.subj=b'file.zip'; w.inbound(pk([m])); w.cm('TOSS')
            cont=[d for f,d in w.tree().items() if f.startswith(('pkt/','in/'))]
            if b'CONTENT ONE' not in cont or b'CONTENT TWO' not in cont: raise Violation('a queued attached file is overwritten by a later one of the same name',sig='attach-same-name')
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=2)
# ---- packer and BEFOREPACK commands that fail, are killed, or are missing, at every call
def packing(c):
    who,j,mode,nmsg,nn=c
    tag='%s %s at call %d, %d messages for %d nodes: '%(who,mode,j+1,nmsg,nn)
    nodes=[Node('1:1/%d'%(10+i),packer='VPK') for i in range(nn)]
    cf=config(nodes,opts=('MAXPKTSIZE 1',)).replace('"./vp a %a %f"','"./pk %a %f"')
    with fresh(cf+('BEFOREPACK "./hk %f"\n' if who!='packer' else '')) as w:
        def scripts(j):
            for s,f in (('pk','./vp a "$@"'),('hk','cat "$1" >>hdata')):
                bad=j>=0 and (who=='hook')==(s=='hk') 
                w.write(s,'#!/bin/sh\necho x >>%s.log\n'%s+('if [ `wc -l <%s.log` = %d ]; then %s; fi\n'%(s,j+1,mode.replace('half','./vp a "$@"; exit 3').replace('missing','exit 127')) if bad else '')+f+' || exit 1\nexit 0\n'); os.chmod(w.p(s),0o755)
                if bad and mode=='missing': os.unlink(w.p(s))
        scripts(j)
        ms=[echo(b'M%d'%i,100) for i in range(nmsg)]; w.inbound(pk(ms)); r=w.cm('TOSS'); tot=nmsg*nn
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        def look(final):
            items,prob=outbound(w,ZONES,allow_extra=['pkt/'+f for f in w.ls('pkt') if f.endswith('.pkttmp') and not final or mode=='half'])
            if prob: raise Violation(tag+prob[0])
            got={n.addr:[] for n in nodes}
            for it in items:
                if it.kind!='bundle': raise Violation(tag+'%s queued'%it.kind)
                for p in it.pkts: got[it.dest]+=ids(p)
            late={n.addr:[] for n in nodes}
            for f in w.ls('pkt'):
                if f.endswith('.pkttmp'): p=parse_pkt(w.read('pkt/'+f)); late[p.dest]+=ids(p)
            for a in got:
                if any(i not in got[a]+late[a] for i in ['M%d'%i for i in range(nmsg)]): raise Violation(tag+'mail for %s: queued %s, kept %s'%(S(a),got[a],late[a]))
                if len(got[a])+len(late[a])!=nmsg and mode!='half': raise Violation(tag+'mail for %s twice: queued %s, kept %s'%(S(a),got[a],late[a]))
            return got,late
        got,late=look(False); nl=sum(len(x) for x in late.values())
        exp=0 if j<0 else tot if mode=='missing' else 1
        if nl!=exp and not(mode!='missing' and j>=tot): raise Violation(tag+'%d packets wait for the next run, expected %d'%(nl,exp))
        scripts(-1); w.cm('TOSS'); got,late=look(True)
        for a in got:
            if sorted(got[a])!=sorted('M%d'%i for i in range(nmsg)): raise Violation(tag+'in the end %s gets %s'%(S(a),got[a]))
        if who!='packer' and mode!='missing' and any(w.read('hdata').count(b'BEGIN-M%d '%i)<nn for i in range(nmsg)): raise Violation(tag+'BEFOREPACK did not get every packet')
        if who!='packer' and w.exists('hk.log') and w.read('hk.log').count(b'x')<tot: raise Violation(tag+'BEFOREPACK was not run for every packet')
    return dict(evaluations=1,nontrivial=[c],states=2,transitions=tot)
def packings():
    for nn in (1,2):
        for nmsg in (1,2,3):
            for who in ('packer','hook','packer+hook'):
                yield who,-1,'works',nmsg,nn
                for j in range(nmsg*nn):
                    for mode in ('exit 1','exit 255','kill -9 $$','kill -2 $$','half','missing'):
                        if who=='hook' and mode=='half' or mode=='missing' and j: continue
                        yield who,j,mode,nmsg,nn
# ---- directory names of all lengths up to the limit
def paths(c):
    what,n,flav=c; tag='%s of %d characters: '%(what,n)
    d=''
    while len(d)<n: d+='d'*min(50,n-len(d)); d+='/' if n-len(d)>1 else ''
    d=d[:n]
    if d[-1]=='/': d=d[:-1]+'e'
    cf=config([Node('1:1/10',packer='VPK'),Node('1:1/11'),Node('2:5/9.4',packer='VPK')])
    key={'PACKETDIR':'pkt','OUTBOUND':'out','CREATEPKTDIR':'cr'}[what]
    cf=cf.replace('%s "%s"'%(what,key),'%s "%s"'%(what,d))
    w=World(cf,flavour=flav)
    with w:
        os.symlink(VP,w.p('vp')); os.mkdir(w.p('areas/bad')); os.makedirs(w.p(d))
        for k in (1,2):
            w.inbound(pk([echo(b'E%d'%k),net(A('1:1/10'),b'N%d'%k),net(A('2:5/9.4'),b'P%d'%k)])); r=w.cm('TOSS')
            if r.rc!=0 or b'Sanitizer' in r.out: raise Violation(tag+'exit status %r %s'%(r.rc,r.out[-300:]))
        t=w.tree(); ob=d if what=='OUTBOUND' else 'out'; pd=d if what=='PACKETDIR' else 'pkt'
        exp={ob+'/0001000a.out':('N1','N2'),ob+'.002/00050009.pnt/00000004.out':('P1','P2')}
        for f,x in exp.items():
            if f not in t: raise Violation(tag+'no %s: %s'%(f,sorted(t)))
            if tuple(ids(parse_pkt(t[f])))!=x: raise Violation(tag+'%s contains %s'%(f,ids(parse_pkt(t[f]))))
        for lo,kind in ((ob+'/0001000a.flo','b'),(ob+'/0001000b.flo','p'),(ob+'.002/00050009.pnt/00000004.flo','b')):
            if lo not in t: raise Violation(tag+'no %s: %s'%(lo,sorted(t)))
            got=[]
            for l in t[lo].decode().split('\n')[:-1]:
                f=l[1:]
                if l[0]!='^' or not f.startswith(pd+'/') or f not in t: raise Violation(tag+'%s lists %s'%(lo,l))
                for q in ([x for _,x in unpack_bundle(t[f])] if kind=='b' else [t[f]]): got+=ids(parse_pkt(q))
            if got!=['E1','E2']: raise Violation(tag+'%s leads to %s'%(lo,got))
    return dict(evaluations=2,nontrivial=[c],states=2,transitions=2)
# ---- attached files: content, location, flavour, delete-after-send, busy nodes and unwritable flow files retried
ATT={'direct':'d','hold':'h','crash':'c','normal':'f'}
def attach(c):
    src,d,fl,files,sep,obst,crlf=c; d=Addr(*d)
    tag='%s attach of %s (%r) to %s, %s, %s: '%(src,'+'.join(files),sep,S(d),fl,obst)
    opts=(('FLOWCRLF',) if crlf else ())+(('NODIRECTATTACH',) if fl=='normal' else ())
    cf=config([Node('1:1/10')],opts=opts,tail='FILEATTACH "*:*/*.*"\n'+('CHANGE * "*:*/*.*" %s\n'%fl.capitalize() if src=='transit' and fl in ('hold','crash') else ''))
    cf=cf.replace('AREA "PASS"','NETMAIL "NETM" 1:1/1 MSG "areas/net"\nAREA "PASS"',1)
    if 'NETM' not in cf: raise Exception('no area: '+cf)
    with fresh(cf) as w:
        cont={f:b'CONTENT OF '+f.encode()*(1+i*900) for i,f in enumerate(files)}; have=[f for f in files if f!='gone.zip']
        dirs={'transit':'in','local':'files'}[src]; os.makedirs(w.p(dirs),exist_ok=True); os.makedirs(w.p('areas/net'),exist_ok=True)
        for f in have: w.write(dirs+'/'+f,cont[f])
        pfx={' ':'',',':'','path':'files/','back':'files\\'}[sep] if src=='local' else {' ':'',',':'','path':'C:/OUT/','back':'C:\\OUT\\'}[sep]
        if src=='local' and sep in ' ,': pfx='files/'
        subj=({' ':' ',',':','}.get(sep,' ')).join(pfx+f for f in files).encode()
        b=basename(d); lo='%s.%slo'%(b,ATT[fl]); ut='%s.%sut'%(b,ATT[fl].replace('f','o')); allb=b+'.bsy'
        if src=='transit':
            m=net(d,b'A1',attr=PVT|FATT); m.subj=subj; m.frm=b'Attacher'; w.inbound(pk([m])); cmd='TOSS'
        else:
            at=PVT|LOCAL|FATT|{'hold':HOLD,'crash':CRASH}.get(fl,0)
            w.write('areas/net/2.msg',mkmsg(frm=b'Attacher',to=b'Dest',subj=subj,attr=at,text=(b'\1INTL %s 1:1/1\r'%S(d,False).encode())+(b'\1TOPT %d\r'%d.p if d.p else b'')+mark(b'A1'),orig=A('1:1/1'),dest=d)); cmd='SCAN'
        old=b''
        if obst in ('busy','busy2'): os.makedirs(os.path.dirname(w.p(b)),exist_ok=True); w.write(allb,b'')
        if obst=='flowdir': os.makedirs(w.p(lo))
        if obst=='listed': os.makedirs(os.path.dirname(w.p(b)),exist_ok=True); old=b'^/other/one.zip\n'; w.write(lo,old)
        runs=1
        r=w.cm(cmd)
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        if obst in ('busy','busy2','flowdir'):
            for k in range(2 if obst=='busy2' else 1):
                t=w.tree()
                for f in have:
                    if t.get('pkt/'+f)!=cont[f] and t.get('in/'+f)!=cont[f]: raise Violation(tag+'the file is gone while it cannot be queued')
                if obst!='flowdir' and (lo in t or ut in t): raise Violation(tag+'the outbound of a busy node was changed')
                if k or obst!='busy2': break
                w.cm('TOSS'); runs+=1
            if obst=='flowdir': os.rmdir(w.p(lo))
            else: os.unlink(w.p(allb))
            w.cm('TOSS'); runs+=1
        t=w.tree()
        if not have and obst in ('busy','busy2','flowdir'): return dict(evaluations=1,nontrivial=[c],states=runs,transitions=runs)     # nothing to send
        if lo not in t: raise Violation(tag+'no flow file %s: %s'%(lo,sorted(x for x in t if x.startswith(('out','othernet')))))
        eol=b'\r\n' if crlf else b'\n'
        if not t[lo].startswith(old) or not t[lo].endswith(eol): raise Violation(tag+'flow file %r'%t[lo])
        ls=t[lo][len(old):].split(eol)[:-1]
        exp=[]
        for f in files:
            if f!='gone.zip': exp.append(b'^pkt/'+f.encode())
            elif src=='transit': exp.append(b'^in/'+f.encode())
            else: exp.append(b'files/'+f.encode())
        if obst=='flowdir' or obst.startswith('busy'):
            ls=[l for l in ls if b'gone.zip' not in l]; exp=[l for l in exp if b'gone.zip' not in l]     # nothing to send
        if sorted(ls)!=sorted(exp): raise Violation(tag+'flow file lists %s, expected %s'%(ls,exp))
        for f in have:
            if t.get('pkt/'+f)!=cont[f]: raise Violation(tag+'queued copy of %s differs'%f)
            if src=='transit' and 'in/'+f in t: raise Violation(tag+'%s is still in the inbound'%f)
            if src=='local' and t.get('files/'+f)!=cont[f]: raise Violation(tag+'the original %s is gone'%f)
        if ut not in t: raise Violation(tag+'no packet %s'%ut)
        p=parse_pkt(t[ut])
        if ids(p)!=['A1'] or p.msgs[0].subj!=' '.join(files).encode() or not p.msgs[0].attr&FATT: raise Violation(tag+'message %s with subject %r attr %x'%(ids(p),p.msgs[0].subj,p.msgs[0].attr))
        left=[f for f in t if f.startswith(('pkt/','cr/','tmp/')) and f not in ['pkt/'+x for x in have]]
        left=[f for f in left if f!='pkt/cmindex']
        if left: raise Violation(tag+'left over: %s'%left)
        ob=[f for f in t if f.split('/')[0] in ('out','othernet') or f.startswith('out.')]
        if sorted(ob)!=sorted([lo,ut]): raise Violation(tag+'outbound files %s, expected %s'%(sorted(ob),[lo,ut]))
        before=w.tree(); w.cm('TOSS'); w.cm('SCAN'); after=w.tree()
        for x in set(before)|set(after):
            if (x.startswith(('out','othernet','pkt/','files/'))) and before.get(x)!=after.get(x): raise Violation(tag+'%s changes in a later run'%x)
    return dict(evaluations=1,nontrivial=[c],states=runs,transitions=runs,sample=dict(case=tag) if obst=='flowdir' else None)
def attaches():
    for src in ('transit','local'):
        for d in DEST:
            for fl in ATT:
                if d.p and fl in ('direct','crash'): continue
                for files in (('one.zip',),('one.zip','two.arj'),('gone.zip',),('gone.zip','two.arj'),('a.pkt2','b.mo1x')):
                    for sep in (' ',',','path','back'):
                        for obst in ('none','busy','busy2','flowdir','listed'):
                            for crlf in (0,1):
                                if not thorough() and (crlf and (obst!='flowdir' or sep!=' ') or sep!=' ' and (obst not in ('none','busy') or d!=DEST[0])): continue
                                yield src,tuple(d),fl,files,sep,obst,crlf
# ---- nodes whose numbers differ in the zone or point only: each is packed as its own line says, and no bundle name returns after being sent
TW=['1:1/10','2:1/10','1:1/10.1','2:1/10.1','1:2/10']
def alike(c):
    perm,packed,gone=c[:3]; who=c[3] if len(c)>3 else (perm,)*3; nodes=[Node(TW[k],('PACKNETMAIL',) if q else (),pw='PW%d'%k,packer='VPK' if q else '') for k,q in zip(perm,packed)]; tag='nodes %s: '%' '.join(TW[k]+(' (packed)' if q else '') for k,q in zip(perm,packed)); used={}
    cf=config(nodes)+''.join('AREA T%d 1:1/1\nEXPORT 1:1/99 %s\n'%(i,TW[k]) for i,k in enumerate(perm))
    with fresh(cf) as w:
        for run in range(len(who)):
            ms=[echo(b'R%d'%run,50) for k in who[run]]
            for k,m in zip(who[run],ms): m.body=m.body.replace(b'AREA:PASS',b'AREA:T%d'%perm.index(k)).replace(b'MSGID: ',b'MSGID: T%d'%k)
            w.inbound(pk(ms+[net(A(TW[k]),b'N%d'%run) for k in who[run]])); r=w.cm('TOSS')
            if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
            items,prob=outbound(w,ZONES)
            if prob: raise Violation(tag+prob[0])
            got={}
            for it in items:
                n=[n for n in nodes if n.addr==it.dest]
                if not n or it.kind not in (('bundle',) if n[0].packer else ('pkt','netmail')) or it.kind!='bundle' and any(x[0]!='RN'[it.kind=='netmail'] for p in it.pkts for x in ids(p)): raise Violation(tag+'%s queued for %s'%(it.kind,S(it.dest)))
                for p in it.pkts:
                    if p.pw.decode()!=n[0].pw: raise Violation(tag+'password %r in a packet for %s'%(p.pw,S(it.dest)))
                got.setdefault(it.dest,[]).extend(x for p in it.pkts for x in ids(p))
                if it.kind=='bundle' and gone:
                    k=os.path.basename(it.name)
                    if k in used.setdefault(it.dest,set()): raise Violation(tag+'run %d: the name %s of a bundle already sent to %s is used again'%(run+1,k,S(it.dest)))
                    used[it.dest].add(k)
                if gone: os.unlink(w.p(it.name) if not it.name.startswith('/') else it.name)
            
            if {k:sorted(v) for k,v in got.items()}!={a:v for a,v in {A(TW[k]):['%s%d'%(x,i) for x in 'NR' for i in range(run+1) if k in who[i] and (i==run or not gone)] for k in perm}.items() if v}: raise Violation(tag+'run %d: queued %s'%(run+1,{S(k):v for k,v in got.items()}))
            if gone:
                for d,ds,fs in os.walk(w.p('.')):
                    for f in fs:
                        if f.endswith('lo') and '/out' in d: os.unlink(os.path.join(d,f))
    return dict(evaluations=3,nontrivial=[c],states=3,transitions=3)
def main():
    global VP
    ck=Check('C12','exploration','complete outbound tree after one run for all destinations/mail kinds/flavours/passwords/flow files; all histories of small/big runs, mailer sessions (deleting, truncating, marking), busy nodes, packer failures and day changes up to the depth bound; all bundle-name states; all torn or clashing name indexes; non-trivial = distinct case',
        ['packer replaced by an archive tool with the same command interface','zones above 4095 are not explored (documentation and code disagree)'])
    world.init(('plain','asan')); VP=build.tool('vpack','vpack.c',[])
    ck.explore('layout',layout,list(layouts()),chunk=16)
    ck.explore('history',history,list(histories()),chunk=16)
    ck.explore('naming',naming,list(namings()),chunk=16)
    ck.explore('index',index,list(indexes()),chunk=4)
    ck.explore('burst',burst,[(n,) for n in (1,100,255,256,257,300)])
    ck.explore('splitting',split,list(splits()),chunk=16)
    ck.explore('directories',direc,list(direcs()),chunk=16)
    ck.explore('alike',alike,[(p,q,g) for k in (2,3) for p in itertools.permutations(range(len(TW)),k) for q in itertools.product((0,1),repeat=k) if any(q) for g in (0,1)]+[(p,(1,1),1,wh) for p in itertools.permutations(range(len(TW)),2) for wh in itertools.product((p[:1],p[1:],p),repeat=4)],chunk=16)
    ck.explore('packing',packing,list(packings()),chunk=4)
    ck.explore('paths',paths,[(k,n,f) for k in ('PACKETDIR','OUTBOUND','CREATEPKTDIR') for n in (range(1,100) if thorough() else list(range(1,100,9))+list(range(76,100))) for f in (('plain','asan') if thorough() or n%4==3 or n>96 else ('plain',))],chunk=2)
    ck.explore('attach',attach,list(attaches()),chunk=16)
    ck.explore('clash',clash,[('domainzones',),('othernode',),('samenode',)])
    ck.finish()
if __name__=='__main__': main()
