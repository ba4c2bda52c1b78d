"""C27: networks of CrashMail systems: all connected topologies x origins x transport schedules (echomail), all routing tables (netmail), forwarded area requests along chains."""
import _boot,itertools,re,shutil
import world,build; from world import *
from emodel import *
from harness import *
VP=None
ADDR={'net':('1:1/1','1:1/2','1:1/3','1:1/4','1:1/5'),'nets':('1:1/1','1:2/1','1:2/7','1:300/20','1:301/20'),'zones':('1:1/1','1:1/2','2:5/3','2:5/4','3:7/7'),'same':('1:10/100','2:20/100','3:30/100','1:11/100','2:21/100'),'twin':('1:1/1','2:1/1','3:1/1','4:1/1','5:1/1'),'point':('1:1/1','1:1/2','1:1/1.5','1:1/2.5','1:1/3')}
def mark(x): return b'BEGIN-%s lorem ipsum END-%s\r'%(x,x)
MRE=re.compile(rb'BEGIN-([A-Za-z0-9]+) lorem ipsum END-\1\r')
STYLE=[dict(),dict(packer='VPK',pw=True,flags=('PACKNETMAIL',)),dict(flags=('TINYSEENBY','CRASH')),dict(flags=('NOSEENBY','HOLD'),packer='VPK'),dict(flags=('DIRECT',),pw=True)]
class Net:
    """n systems; edges: set of (i,j). Every system has its own directory; the mailer moves what is queued."""
    def __init__(s,addrs,edges,style,areas,routes=None,tail=None,opts=(),loop='LOG+BAD',dupe='BAD',extra=None,seq=None):
        s.n=len(addrs); s.addr=[A(a) for a in addrs]; s.txt=list(addrs); s.edges={frozenset(e) for e in edges}; s.now=T0; s.count=0; s.runs=0; s.w=[]; s.moved=0
        for i in range(s.n):
            w=World(''); s.w.append(w); os.symlink(VP,w.p('vp')); os.symlink('../in',w.p('tmp/in'))
            nb=s.nb(i)
            nodes=[]
            for j in nb:
                st=STYLE[style[(min(i,j)*3+max(i,j))%len(style)]]; pw='PW%d%d'%(min(i,j),max(i,j)) if st.get('pw') else ''
                x=(extra or {}).get((i,j),{})
                nodes.append(Node(addrs[j],tuple(st.get('flags',()))+tuple(x.get('flags',())),pw=pw,packer=st.get('packer',''),afinfo=x.get('afinfo'),remoteaf=x.get('remoteaf')))
            for d in ('bad','echo','net'): os.makedirs(w.p('areas/'+d),exist_ok=True)
            ar=[Area('BAD',addrs[i],('MSG','areas/bad'))]+areas(i,nb)+[Area('NET',addrs[i],('MSG','areas/net') if i%2==0 else ('JAM','areas/netj'),kind='NETMAIL')]
            c=Cfg([Aka(addrs[i])],nodes,ar,opts=opts,routes=routes(i,nb) if routes else ['"%s" "%s" %s'%(S(s.addr[j],True),S(s.addr[j],True),addrs[i]) for j in nb],dupes=('dupes',50,dupe),loop=loop,packers=['"VPK" "./vp a %a %f" "../vp x %a" "VPK1"'],defzone=s.addr[i].z,tail=(tail(i) if tail else ''))
            w.write('cm.cfg',c.text())
    def nb(s,i): return [j for j in range(s.n) if frozenset((i,j)) in s.edges]
    def close(s):
        for w in s.w: w.close()
    def cm(s,i,*a):
        w=s.w[i]; s.now=w.now=max(s.now,w.now)+60; r=w.cm(*a); s.now=w.now; s.runs+=1
        if r.rc!=0: raise Violation('%s at %s ends with %r: %s'%(a[0],s.txt[i],r.rc,r.out[-200:].decode('latin1')))
        return r
    def zones(s,i): return {'out' if z==s.addr[i].z else 'out.%03x'%z:z for z in range(1,8)}
    def mail(s,i):
        """a mailer session with every system for which mail is queued"""
        w=s.w[i]; zs=s.zones(i); k=0
        for top in w.ls('.'):
            if not top.startswith('out'): continue
            for d,ds,fs in os.walk(w.p(top)):
                for f in sorted(fs):
                    rel=os.path.relpath(os.path.join(d,f),w.root); a=bso_addr(w,rel,zs)
                    if a is None: raise Violation('%s: stray file %s in the outbound'%(s.txt[i],rel))
                    to,ext=a
                    if to not in s.addr or frozenset((i,s.addr.index(to))) not in s.edges: raise Violation('%s queues mail for %s, which is not a neighbour'%(s.txt[i],S(to)))
                    j=s.addr.index(to)
                    if ext[1:]=='ut': s.put(j,w.read(rel),'.pkt'); os.unlink(w.p(rel)); k+=1
                    elif ext[1:]=='lo':
                        for l in w.read(rel).decode('latin1').split('\n'):
                            if not l or l[0]=='~': continue
                            kill=l[0] in '^#'; l=l.lstrip('^#-')
                            if not w.exists(l): raise Violation('%s: %s names %s, which does not exist'%(s.txt[i],rel,l))
                            s.put(j,w.read(l),os.path.splitext(l)[1]); k+=1
                            if kill: os.unlink(w.p(l))
                        os.unlink(w.p(rel))
                    else: raise Violation('%s: file %s in the outbound'%(s.txt[i],rel))
        s.moved+=k
        if set(w.ls('pkt'))-{'cmindex'} or w.ls('cr'): raise Violation('%s: after the mailer fetched everything, %r is left'%(s.txt[i],w.ls('pkt')+w.ls('cr')))
        return k
    def put(s,j,data,ext): s.count+=1; s.w[j].write('in/%08x%s'%(s.count,ext),data,mtime=s.now-2000+s.count)
    def waiting(s): return [i for i in range(s.n) if s.w[i].ls('in')]
    def settle(s,choose,limit=60):
        """tosses and mailer sessions in the order given by choose(list) until no system has anything to do"""
        for k in range(limit):
            q=s.waiting()
            if not q: return k
            i=choose(q); s.cm(i,'TOSS')
            bad=[f for f in s.w[i].ls('in')]
            if bad: raise Violation('%s leaves %r in its inbound directory'%(s.txt[i],bad))
            s.mail(i)
        raise Violation('after %d tosses the network is still busy'%limit)
    def local(s,i,area,text,**k):
        """a user at system i writes"""
        w=s.w[i]; a=s.addr[i]
        if area=='echo': jam=i%2==1; base='areas/echo'
        else: jam=i%2==1; base='areas/net'
        d=k.get('dest'); mi=k.get('msgid')
        if jam:
            sub=[(0,S(a,a.p!=0).encode())]+([(1,S(d,d.p!=0).encode())] if d else [])+([(4,mi)] if mi else [])
            jam_append(w.p(base+'j'),frm=k.get('frm',b'Local User'),to=k.get('to',b'All'),subj=k.get('subj',b'Subj'),text=text,attr=JL|((JTYPENET if d else JTYPEECHO)|JTYPELOCAL)|(0x10000 if k.get('attr',0)&0x1000 else 0),sub=sub)
        else:
            n=max([int(f[:-4]) for f in w.ls(base) if f.endswith('.msg')]+[1])+1
            t=(b'\1INTL %s %s\r'%(S(d,False).encode(),S(a,False).encode())+(b'\1TOPT %d\r'%d.p if d.p else b'')+(b'\1FMPT %d\r'%a.p if a.p else b'') if d else b'')+(b'\1MSGID: '+mi+b'\r' if mi else b'')+text
            w.write('%s/%d.msg'%(base,n),mkmsg(frm=k.get('frm',b'Local User'),to=k.get('to',b'All'),subj=k.get('subj',b'Subj'),text=t,attr=LOCAL|k.get('attr',0),orig=(a.z,a.n,a.f,a.p),dest=(d.z,d.n,d.f,d.p) if d else (0,0,0,0)))
    def stored(s,i,area):
        """-> list of (from, to, subject, text, msgid, path)"""
        w=s.w[i]; out=[]
        if area=='bad' or i%2==0:
            st=read_msgdir(w.p('areas/'+area)); 
            for k in sorted(st or {}):
                m=st[k]
                if k==1 and m.frm==b'CrashMail II': continue
                out.append((m.frm,m.to,m.subj,m.text,(re.findall(rb'\x01MSGID: ([^\r]*)\r',m.text)+[None])[0],re.findall(rb'\x01PATH: ([^\r]*)',m.text),re.findall(rb'\x01Via ([^\r]*)',m.text)))
        elif os.path.exists(w.p('areas/%sj.jhr'%area)):
            for m in read_jam(w.p('areas/%sj'%area)).msgs:
                if m is None or m.attr&JDELETED: continue
                g=lambda n: [d for l,d in m.sub if l==n]
                out.append((jamfield(m,2),jamfield(m,3),jamfield(m,6),m.text,(g(4)+[None])[0],g(2002),[x[4:] if x[:4]==b'Via ' else x for x in g(2000) if x[:4]==b'Via ']+re.findall(rb'\x01Via ([^\r]*)',m.text)))
        return out
def schedules(run,maxn=None):
    """stateless exploration of all choices: run(choose) is executed once per schedule"""
    stack=[[]]; n=0
    while stack:
        pre=stack.pop(); trace=[]
        def choose(q):
            k=len(trace); c=pre[k] if k<len(pre) else 0; trace.append(len(q)); return q[c]
        run(choose,pre); n+=1
        for k in range(len(pre),len(trace)):
            for c in range(1,trace[k]): stack.append(pre+[0]*(k-len(pre))+[c])
        if maxn and n>=maxn: break
    return n
def connected(n,es):
    seen={0}; q=[0]
    while q:
        i=q.pop()
        for e in es:
            if i in e:
                j=e[0] if e[1]==i else e[1]
                if j not in seen: seen.add(j); q.append(j)
    return len(seen)==n
def graphs(n):
    E=list(itertools.combinations(range(n),2))
    return [es for k in range(n-1,len(E)+1) for es in itertools.combinations(E,k) if connected(n,es)]
def echoareas(addrs):
    return lambda i,nb: [Area('ECHO.ONE',addrs[i],('MSG','areas/echo') if i%2==0 else ('JAM','areas/echoj'),[(addrs[j],'') for j in nb])]
def okpoint(es,kind): return kind!='point' or all(not (2 in e and e!=(0,2)) and not (3 in e and e!=(1,3)) for e in es)
# ---- echomail
def echonet(c):
    n,es,kind,style,org,csb,mid=c; addrs=ADDR[kind][:n]; st=[0,0]
    def run(choose,pre):
        N=Net(addrs,es,style,echoareas(addrs),opts=('CHECKSEENBY',) if csb else ())
        tag='%d systems %s%s%s, links %s, message of %s%s: '%(n,kind,' CHECKSEENBY' if csb else '','' if mid else ' no MSGID',' '.join('%s-%s'%(addrs[a],addrs[b]) for a,b in es),' and '.join(addrs[o] for o in org),', order %r'%pre if pre else '')
        try:
            try:
                for k,o in enumerate(org):
                    N.local(o,'echo',mark(b'M%d'%k),msgid=b'%s 0000%04x'%(addrs[o].encode(),k) if mid else None,subj=b'Subject %d'%k,frm=b'Author %d'%k); N.cm(o,'SCAN'); N.mail(o)
                N.settle(choose)
                for i in range(n): N.cm(i,'SCAN'); N.mail(i)      # what was imported is not exported once more
                if N.waiting(): raise Violation('received messages are exported again at %s'%[addrs[i] for i in N.waiting()])
                ids={}
                for i in range(n):
                    got={}
                    for m in N.stored(i,'echo'):
                        for x in MRE.findall(m[3]): got.setdefault(x,[]).append(m)
                    for k,o in enumerate(org):
                        x=b'M%d'%k; g=got.get(x,[])
                        if len(g)!=1 and not (i==o and len(g)==2 and len(es)>=n and not (csb and len({a.z for a in N.addr})==1 and set(style)<={0,1,4})): raise Violation('%s has message %d %d times'%(addrs[i],k,len(g)))
                        if g[0][0]!=b'Author %d'%k or g[0][2]!=b'Subject %d'%k: raise Violation('%s has message %d as from %r, subject %r'%(addrs[i],k,g[0][0],g[0][2]))
                        if i!=o:
                            ids.setdefault(x,set()).add(g[0][4])
                            if kind!='point':
                                p=[x2 for l in g[0][5] for x2 in parse2dpath(l)]
                                nm=[[j for j in range(n) if (N.addr[j].n,N.addr[j].f)==tuple(y)[:2]] for y in p]
                                if any(len(y)!=1 for y in nm) or not nm: raise Violation('%s has message %d with the path %r'%(addrs[i],k,g[0][5]))
                                nm=[y[0] for y in nm]
                                if nm[-1]==i: nm.pop()
                                if not nm or nm[0]!=o or len(set(nm))!=len(nm) or any(frozenset(e) not in N.edges for e in zip(nm,nm[1:]+[i])): raise Violation('%s has message %d with the path %r, which is not a way from %s'%(addrs[i],k,g[0][5],addrs[o]))
                    b=N.stored(i,'bad')
                    if b and len(es)==n-1: raise Violation('%s has put %r aside though there is only one way'%(addrs[i],b[0][2]))
                if mid and any(v!={b'%s 0000%04x'%(addrs[o].encode(),k)} for k,o in enumerate(org) for v in [ids.get(b'M%d'%k,{b'%s 0000%04x'%(addrs[o].encode(),k)})]): raise Violation('the message identifications differ: %r'%ids)
            except Violation as v: raise Violation(tag+v.what)
            st[0]+=N.runs; st[1]+=N.moved
        finally: N.close()
    k=schedules(run,None)
    return dict(evaluations=k,nontrivial=[c],states=st[0],transitions=st[1]+st[0],sample=dict(systems=addrs,links=es,schedules=k) if hash(repr(c))%97==3 else None)
# ---- netmail
def netnet(c):
    """every routing table: the mail arrives, or is put aside where a loop closes; never lost, doubled or endlessly routed"""
    n,es,kind,style,src,dst,table,user=c; addrs=ADDR[kind][:n]
    def routes(i,nb):
        return ['"%s.*" "%s" %s'%(addrs[dst].split('.')[0],S(A(addrs[table[i]])),addrs[i])] if i!=dst else []
    N=Net(addrs,es,style,lambda i,nb: [],routes=routes,opts=('FORCEINTL',) if kind in ('zones','twin') else ())
    tag='%d systems %s, netmail from %s to %s, routed %s: '%(n,kind,addrs[src],addrs[dst],', '.join('%s->%s'%(addrs[i],addrs[table[i]]) for i in range(n) if i!=dst))
    try:
        try:
            N.local(src,'net',mark(b'N1'),dest=N.addr[dst],frm=b'Net User',to=user,subj=b'Net Subj'); N.cm(src,'SCAN'); N.mail(src)
            walk=[src]
            while walk[-1]!=dst and walk.count(walk[-1])<2: walk.append(table[walk[-1]])
            if walk[-1]==dst:
                N.settle(lambda q: q[0])
                for i in range(n): N.cm(i,'SCAN'); N.mail(i)
                if N.waiting(): raise Violation('the message is exported again')
            else:
                for i in walk[1:]:
                    if N.waiting()!=[i] or len(N.w[i].ls('in'))!=1: raise Violation('in transit at %s instead of %s'%([addrs[j] for j in N.waiting()],addrs[i]))
                    N.cm(i,'TOSS'); N.mail(i)
            at={i:[m for m in N.stored(i,'net') if MRE.search(m[3])] for i in range(n)}; bad={i:[m for m in N.stored(i,'bad') if m[2]==b'Net Subj'] for i in range(n)}
            for i in range(n):
                if i not in (src,dst) and at[i]: raise Violation('%s keeps the message'%addrs[i])
            if len(at[src])!=1 and src!=dst: raise Violation('%s has the original %d times'%(addrs[src],len(at[src])))
            if walk[-1]==dst:
                if len(at[dst])!=1: raise Violation('%s has the message %d times'%(addrs[dst],len(at[dst])))
                m=at[dst][0]
                if m[:3]!=(b'Net User',user,b'Net Subj'): raise Violation('it arrives as %r'%(m[:3],))
                if any(bad.values()): raise Violation('a copy is put aside')
                via=[re.match(rb'(\d+:\d+/\d+(\.\d+)?)',v) for v in m[6]]; via=[A(v.group(1).decode()) for v in via if v]; want=[N.addr[i] for i in walk[:-1]]
                via=[v for v in via if v!=N.addr[dst]]
                if via!=want: raise Violation('it came by %s, the Via lines say %r'%([addrs[i] for i in walk],m[6]))
            else:
                if {i:len(b) for i,b in bad.items() if b}!={walk[-1]:1}: raise Violation('the loop closes at %s, copies are put aside at %r'%(addrs[walk[-1]],{addrs[i]:len(b) for i,b in bad.items() if b}))
                if at[dst] or N.waiting()!=[table[walk[-1]]]: raise Violation('the message is not in transit any more')
        except Violation as v: raise Violation(tag+v.what)
    finally: N.close()
    return dict(evaluations=1,nontrivial=[c[:7]],states=N.runs,transitions=N.runs+N.moved)
# ---- answers: bounces, receipts, audits
def answers(c):
    """netmail that causes answers: each arrives once at the writer, none causes another"""
    n,es,kind,style,src,dst,there,back,what=c; addrs=ADDR[kind][:n]; d0=addrs[dst].split('.')[0]; s0=addrs[src].split('.')[0]
    def routes(i,nb):
        r=[]
        r+=['"%s.*" "%s" %s'%(d0,S(A(addrs[there[i]])),addrs[i])] if i!=dst else ['"%s.*" "%s" %s'%(d0,d0+'.9',addrs[i])]
        if i!=src: r+=['"%s.*" "%s" %s'%(s0,S(A(addrs[back[i]])),addrs[i])]
        else: r+=['"%s.*" "%s" %s'%(s0,s0+'.9',addrs[i])]
        return r
    N=Net(addrs,es,style,lambda i,nb: [],routes=routes,opts=('BOUNCEPOINTS','ANSWERRECEIPT','ANSWERAUDIT','FORCEINTL'))
    tag='%d systems %s, netmail (%s) from %s to %s, routed %s, answers routed %s: '%(n,kind,what,addrs[src],addrs[dst],', '.join('%s->%s'%(addrs[i],addrs[there[i]]) for i in range(n) if i!=dst),', '.join('%s->%s'%(addrs[i],addrs[back[i]]) for i in range(n) if i!=src))
    walk=[src]
    while walk[-1]!=dst: walk.append(there[walk[-1]])
    try:
        try:
            to=N.addr[dst]
            if 'point' in what: to=Addr(to.z,to.n,to.f,9)
            org=N.addr[src]
            attr=(0x1000 if 'receipt' in what else 0)|(0x4000 if 'audit' in what else 0)
            N.local(src,'net',mark(b'N1'),dest=to,frm=b'Net User',to=b'Net Friend',subj=b'Net Subj',attr=attr); N.cm(src,'SCAN'); N.mail(src); N.settle(lambda q: q[0])
            for i in range(n): N.cm(i,'SCAN'); N.mail(i)
            if N.waiting(): raise Violation('something is exported again')
            want=[]
            if 'point' in what: want.append(b'Bounced message')
            elif 'receipt' in what: want.append(b'Receipt')
            if 'audit' in what: want+=[b'Audit']*(len(walk)-2)
            for i in range(n):
                st=N.stored(i,'net'); mine=[m for m in st if m[2]==b'Net Subj']; rest=sorted(m[2] for m in st if m[2]!=b'Net Subj')
                w=(1 if i==src or (i==dst and 'point' not in what) else 0)
                if len(mine)!=w: raise Violation('%s has the message %d times instead of %d'%(addrs[i],len(mine),w))
                if rest!=(sorted(want) if i==src else []): raise Violation('%s has the answers %r instead of %r'%(addrs[i],rest,sorted(want) if i==src else []))
                for m in st:
                    if m[2]!=b'Net Subj' and m[1]!=b'Net User': raise Violation('an answer is for %r'%m[1])
                if N.stored(i,'bad'): raise Violation('%s has put mail aside'%addrs[i])
        except Violation as v: raise Violation(tag+v.what)
    finally: N.close()
    return dict(evaluations=1,nontrivial=[c],states=N.runs,transitions=N.runs+N.moved)
# ---- forwarded area requests
def chain(c):
    """system 0 asks for an area that only the last system of the chain carries"""
    n,kind,pt,script=c; addrs=ADDR[kind][:n]; es=[(i,i+1) for i in range(n-1)]
    extra={}
    for i in range(n-1):
        extra[(i+1,i)]=dict(flags=('FORWARDREQ',)+(('SENDAREAFIX',) if 'REMOVEWHENFEED' in pt else ()),afinfo=('down%d'%i,'A',''),remoteaf='"AreaFix" "up"')
        extra[(i,i+1)]=dict(remoteaf='"AreaFix" "down%d"'%i,afinfo=('up','A',''))
    def areas(i,nb):
        if i==n-1: return [Area('FAR.AREA',addrs[i],('MSG','areas/echo') if i%2==0 else ('JAM','areas/echoj'),group='A')]
        if i==0: return [Area('FAR.AREA',addrs[i],('MSG','areas/echo') if i%2==0 else ('JAM','areas/echoj'),[(addrs[1],'')],group='A')]
        return []
    def tail(i): return 'AREAFIXNAME "AreaFix"\n'+('AREALIST %s "up.lst" GROUP A FORWARD\n'%addrs[i+1] if 0<i<n-1 else '')
    def routes(i,nb):
        return ['"%s" "%s" %s'%(S(A(addrs[j])),S(A(addrs[i-1 if j<i else i+1])),addrs[i]) for j in range(n) if j!=i]
    N=Net(addrs,es,(0,),areas,routes=routes,tail=tail,extra=extra,opts=pt)
    tag='chain %s %s, %s: '%(' '.join(addrs),' '.join(pt),'; '.join(script))
    linked=False; up=True
    try:
        try:
            for i in range(n): N.w[i].write('up.lst',b'FAR.AREA  An area\n'); os.makedirs(N.w[i].p('areas/auto'),exist_ok=True)
            for k,x in enumerate(script):
                if x in ('+','-'):
                    N.local(0,'net',(b'+FAR.AREA\r' if x=='+' else b'-FAR.AREA\r'),dest=N.addr[1],frm=b'Sys Op',to=b'AreaFix',subj=b'down0'); N.cm(0,'SCAN'); N.mail(0); N.settle(lambda q:q[0])
                    linked= x=='+'
                elif x=='x':
                    # the top system gives the area up: the systems below hear it from their feed, one after the other
                    N.local(n-1,'net',b'-FAR.AREA\r',dest=N.addr[n-2],frm=b'Sys Op',to=b'AreaFix',subj=b'up'); N.cm(n-1,'SCAN'); N.mail(n-1); N.settle(lambda q:q[0])
                    linked=False; up=False
                    for i in range(n-1):
                        t=N.w[i].read('cm.cfg').decode('latin1')
                        if i==0 and addrs[1] in t.split('FAR.AREA',1)[1].split('AREA',1)[0]: raise Violation('after step %d %s still has %s linked'%(k+1,addrs[0],addrs[1]))
                        if i and 'FAR.AREA' in t: raise Violation('after step %d %s still has the area'%(k+1,addrs[i]))
                else:
                    o=0 if x=='d' else n-1; m=b'C%d'%k; before=N.moved
                    N.local(o,'echo',mark(m)); N.cm(o,'SCAN'); N.mail(o); N.settle(lambda q:q[0])
                    if o!=0 and up and not linked and 'AREAFIXREMOVE' in pt and '-' in script[:k] and N.moved!=before: raise Violation('the message of step %d is sent on, though the last system below has left'%(k+1))
                    if o==0 and not up and N.moved!=before: raise Violation('the message of step %d is sent to a feed that has given the area up'%(k+1))
                    other=n-1-o if o in (0,n-1) else None; other=n-1 if o==0 else 0
                    got=[y for mm in N.stored(other,'echo') for y in MRE.findall(mm[3])]
                    if linked and got.count(m)!=1: raise Violation('the message of step %d reaches %s %d times'%(k+1,addrs[other],got.count(m)))
                    if not linked and o!=0 and got.count(m): raise Violation('the message of step %d reaches %s, which is not linked'%(k+1,addrs[other]))
        except Violation as v: raise Violation(tag+v.what)
    finally: N.close()
    return dict(evaluations=1,nontrivial=[c],states=N.runs,transitions=N.runs+N.moved)
def main():
    global VP
    ck=Check('C27','exploration','all connected link graphs of 2..4 (thorough 5) systems x address plans x link styles x origins x all orders of tosses and mailer sessions (echomail); all routing tables of all graphs of 2..4 systems x source x destination (netmail); forwarded area requests along chains of 2..4 (5) systems x all short scripts; non-trivial = distinct case',
        ['systems exchange complete files (the mailer is modelled: it moves what the flow files and packets in the outbound name)'])
    world.init(); VP=build.tool('vpack','vpack.c',[])
    th=thorough(); cs=[]
    for n in (2,3,4):
        for es in graphs(n):
            for kind in ('net','nets','zones','same','point'):
                if not okpoint(es,kind): continue
                for style in (((0,),(1,),(0,1,2,3,4),(2,),(3,)) if n<4 or th else ((0,),(1,2,3,4)) if kind in ('net','zones') else ((0,1,4),)):
                    tree=len(es)==n-1
                    for o in range(n):
                        cs.append((n,es,kind,style,(o,),o%2==0 or style==(1,),True))
                        if tree and (n<4 or th): cs.append((n,es,kind,style,(o,),o%2==1,False))
                        if th or n<4: cs.append((n,es,kind,style,(o,),o%2==1,True))
                    if n<4: cs+=[(n,es,kind,style,(a,b),(a+b)%2==0,True) for a in range(n) for b in range(n)]
    if th:
        for es in graphs(5): cs+=[(5,es,kind,(0,),(o,),True,True) for kind in ('net','zones') for o in range(2)]
    ck.explore('echomail',echonet,cs,chunk=4)
    cs=[]
    for n in (2,3,4):
        for es in graphs(n):
            nb=lambda i: [j for j in range(n) if (min(i,j),max(i,j)) in es]
            for kind in ('net','nets','zones','twin','point'):
                if not okpoint(es,kind): continue
                if n==4 and not th and kind=='nets': continue
                for dst in range(n):
                    if n==4 and not th and dst in (0,): continue
                    for t in itertools.product(*[nb(i) if i!=dst else [None] for i in range(n)]):
                        for src in range(n):
                            if src!=dst and (n<4 or th or src in (0,3)): cs.append((n,es,kind,(0,) if dst%2 else (1,2,4),src,dst,t,b'Net Friend'))
    ck.explore('netmail',netnet,cs,chunk=16)
    cs=[]
    def loopfree(t,a,b):
        k=0
        while a!=b and k<9: a=t[a]; k+=1
        return a==b
    for n in (2,3,4):
        for es in graphs(n):
            nb=lambda i: [j for j in range(n) if (min(i,j),max(i,j)) in es]
            for kind in ('net','zones','twin','nets'):
                if n==4 and not th and (kind!='zones' or len(es)>4): continue
                for src,dst in itertools.permutations(range(n),2):
                    if n==4 and not th and (src,dst) not in ((0,3),(2,1),(3,0)): continue
                    ts=[t for t in itertools.product(*[nb(i) if i!=dst else [None] for i in range(n)]) if all(loopfree(t,i,dst) for i in range(n))]
                    bs=[t for t in itertools.product(*[nb(i) if i!=src else [None] for i in range(n)]) if all(loopfree(t,i,src) for i in range(n))]
                    for what in (('receipt',),('point',),('point','receipt','audit'),('audit','receipt')):
                        if 'audit' in what and src%2: continue
                        cs+=[(n,es,kind,(0,) if dst%2 else (1,2,4),src,dst,t,b,what) for t in ts for b in bs]
    ck.explore('answers',answers,cs,chunk=16)
    def unlinked_d(s):
        l=False
        for x in s:
            if x in '+-': l= x=='+'
            elif x=='d' and not l: return True
        return False
    rq=[]
    for n in range(2,pick(4,5)+1):
        for kind in ('net','nets','zones'):
            scripts=[s for k in range(1,pick(4,6)+1) for s in itertools.product('+-du',repeat=k) if '+' in s and 'd' not in s[:s.index('+')]]
            rq+=[(n,kind,pt,s) for pt in ((),('FORWARDPASSTHRU',)) for s in scripts]
            rq+=[(n,kind,('FORWARDPASSTHRU','AREAFIXREMOVE'),s) for s in scripts if not unlinked_d(s)]
            rq+=[(n,kind,pt+('REMOVEWHENFEED',),s+('x',)+e) for pt in ((),('FORWARDPASSTHRU',),('FORWARDPASSTHRU','AREAFIXREMOVE')) for s in scripts if len(s)<pick(4,5) and not unlinked_d(s) and not '-' in s[len(s)-s[::-1].index('+'):] for k in range(3) for e in itertools.product('du',repeat=k)]
    ck.explore('requests',chain,rq,chunk=8)
    ck.finish()
if __name__=='__main__': main()
