"""C18: every lookup in every small nodelist: crashlist, then crashgetnode and crashmail's own lookups."""
import _boot,itertools,re
import world; from world import *
from harness import *; from emodel import *
LINES=['Zone,1','Zone,2','Region,10','Host,5','Hub,20',',3','Pvt,4','hold,6','POINT,7','Point,8','Down,9',';S comment,3','','Junk,3',',20']
UNI=[Addr(z,n,f,p) for z in (1,2) for n in (1,2,10,5) for f in (0,3,4,6,20,9) for p in (0,7,8)]+[Addr(0,0,0,0)]
EOL={'lf':'\n','crlf':'\r\n'}
class Ent: pass
def nltext(seq,eol='\r\n',final=True,pre=''):
    out=[]
    for i,l in enumerate(seq):
        out.append(l+',%sName%d,Place %d,Op_%d,1-2-%d,9600,CM,XA'%(pre,i,i,i,i) if l and l[0]!=';' else l)
    t=eol.join(out)
    return t+(eol if final else '')
def interpret(seq,defzone,first,amb,pre=''):
    """adds to first {addr: Ent}; amb: addresses that are not judged (Down lines and the points after them)"""
    z,n,f,r,h=defzone,0,0,0,0; down=None
    for i,l in enumerate(seq):
        kw,_,num=l.partition(','); kw=kw.lower()
        if kw not in ('zone','region','host','hub','pvt','hold','','point','down') or not l: continue
        num=int(num); e=Ent(); e.kw=l.split(',')[0] or 'Node'; e.i=i; e.pre=pre; p=0
        if kw=='zone': z=n=num; r=h=f=0
        elif kw=='region': r=n=num; h=f=0
        elif kw=='host': n=num; h=f=0
        elif kw=='hub': h=f=num
        elif kw=='down': down=Addr(z,n,num,0); amb.add(down); continue
        elif kw=='point': p=num
        else: f=num
        a=Addr(z,n,f,p)
        if kw=='point' and down is not None: amb.add(a); amb.add(down._replace(p=p)); continue
        if kw!='point': down=None
        e.r,e.h=r,h
        first.setdefault(a,e)
def getnode(w,a,tag,ent,env=None,amb=()):
    r=w.run([S(a)]+(['nl'] if env is None else []),prog='crashgetnode',env=env)
    if a in amb: return
    if ent is None:
        if r.rc==0: raise Violation(tag+'%s is not in the list but was found: %r'%(S(a),r.out))
        return
    if r.rc!=0: raise Violation(tag+'%s is in the list but was not found: %r'%(S(a),r.out))
    want='Node %s\nRegion %d, Hub %d\nNode is listed as a %s\nName: %sName%d\nLocation: Place %d\nSysop: Op_%d\nPhone: 1-2-%d\nBaud: 9600\nFlags: CM,XA\n'%(S(a),ent.r,ent.h,ent.kw,ent.pre,ent.i,ent.i,ent.i,ent.i)
    if r.out.decode()!=want: raise Violation(tag+'%s: %r expected %r'%(S(a),r.out.decode(),want))
def world_for(files,prefs):
    w=World('')
    os.makedirs(w.p('nl'))
    for n,(t,mt) in files.items(): w.write('nl/'+n,t.encode() if isinstance(t,str) else t,mtime=mt)
    w.write('nl/cmnodelist.prefs',prefs)
    r=w.run(['nl'],prog='crashlist')
    if r.rc!=0: w.close(); raise Violation('crashlist: exit %r %r'%(r.rc,r.out))
    return w
def tailcfg():
    f='FILTER EXISTSNL_TOADDR\nWRITELOG "E %d#%t"\nFILTER EXISTSNL_FROMBOSS\nWRITELOG "BOSS %f"\n'.replace('%d#','')
    for z in (1,2):
        f+='FILTER TOADDR="REGION %d:10"\nWRITELOG "R%d %%t"\nFILTER TOADDR="HUB %d:*/20"\nWRITELOG "H%d %%t"\nFILTER TOADDR="REGION %d:0"\nWRITELOG "Z%d %%t"\n'%((z,)*6)
    return 'NODELIST "nl" CMNL\n'+Cfg([Aka('1:1/1')],[Node('1:99/99')],[Area('BAD','1:1/1',('JAM','areas/bad')),Area('N1','1:1/1',('JAM','areas/net1'),kind='NETMAIL')],routes=['"*:*/*.*" "1:99/99" 1:1/1'],tail=f+'FILTER TYPE=NETMAIL\nKILL\n').text()
def allcase(c):
    """one list, all lookups through crashmail (membership, region and hub patterns)"""
    n=0; nt=set()
    for seq,eol,final in c:
        first={};amb=set(); interpret(seq,0,first,amb)
        w=world_for({'nodelist.100':(nltext(seq,EOL[eol],final),None)},'nodelist\n')
        tag='nodelist %r (%s): '%(seq,eol)
        try:
            w.write('cm.cfg',tailcfg())
            ms=[]
            for i,a in enumerate(UNI[:-1]):
                b=b'\1INTL %s 1:99/99\r'%S(a,False).encode()
                if a.p: b+=b'\1TOPT %d\r'%a.p
                ms.append(Msg((99,99),(a.n,a.f),to=b't%d'%i,frm=b'f%d'%i,body=b+b'x\r'))
            w.inbound(mkpkt(A('1:99/99'),A('1:1/1'),ms))
            r=w.cm('TOSS')
            if r.rc!=0: raise Violation(tag+'crashmail exit %r %r'%(r.rc,r.out[-200:]))
            got=set(re.findall(r' ([ERHZ]\d?) t(\d+)\n',w.read('cm.log').decode()))
            want=set()
            for i,a in enumerate(UNI[:-1]):
                e=first.get(a); b=first.get(a._replace(p=0)); n+=1
                if a in amb or a._replace(p=0) in amb: got={g for g in got if g[1]!=str(i)}; continue
                if e: want.add(('E',str(i)))
                if b and b.r==10: want.add(('R%d'%a.z,str(i)))
                if b and b.r==0: want.add(('Z%d'%a.z,str(i)))
                if b and b.h==20: want.add(('H%d'%a.z,str(i)))
                nt.add((bool(e),e.r if e else 0,e.h if e else 0))
            if got!=want:
                d=sorted(got^want)[0]
                raise Violation(tag+'%s %s %s'%(S(UNI[int(d[1])]),{'E':'in the nodelist','R':'in region 10','Z':'in region 0','H':'under hub 20'}[d[0][0]],'reported but not so' if d in got else 'not reported'))
        finally: w.close()
    return dict(evaluations=n,nontrivial=list(nt)+[s for s,_,_ in c],states=len(c),transitions=n,sample=dict(lists=len(c),last=list(c[-1][0])))
def linecase(c):
    """crashgetnode for every address of the universe: the line, region and hub printed"""
    n=0
    for seq,eol,final in c:
        first={};amb=set(); interpret(seq,0,first,amb)
        w=world_for({'nodelist.100':(nltext(seq,EOL[eol],final),None)},'nodelist\n')
        try:
            cand=set(first)|{UNI[-1]}|{a for a in UNI if a.z==1 and a.n in (1,5) and a.p==0}
            for a in sorted(cand): n+=1; getnode(w,a,'nodelist %r (%s): '%(seq,eol),first.get(a),amb=amb)
        finally: w.close()
    return dict(evaluations=n,nontrivial=[s for s,_,_ in c],states=len(c),transitions=n,sample=dict(last=list(c[-1][0])))
LISTS={'A':('Zone,1','Host,5',',3'),'B':('Host,5',',3',',4','Point,7'),'C':('Zone,1','Host,5',',3','Point,7',',4'),'D':('Region,10','Host,5','Hub,20',',3'),'E':(),'P':('Zone,1','Host,5',',6','Point,8')}
def multicase(c):
    """several lists with default zones: the first list with an address wins"""
    names,zones=c
    first={};amb=set(); files={};prefs='; comment line\n\n'
    for k,(nm,z) in enumerate(zip(names,zones)):
        files['list%d.%03d'%(k,k+1)]=(nltext(LISTS[nm],pre='L%d'%k),None); prefs+=('list%d %s\n'%(k,z) if z else 'LIST%d\n'%k)
        interpret(LISTS[nm],int(z or 0),first,amb,pre='L%d'%k)
    w=world_for(files,prefs); n=0
    try:
        for a in sorted(set(first)|{A('1:5/3'),A('2:5/3'),A('1:5/6'),A('1:5/4'),A('0:0/0')}): n+=1; getnode(w,a,'lists %r default zones %r: '%(names,zones),first.get(a))
        getnode(w,sorted(first)[0] if first else A('1:5/3'),'through CMNODELISTDIR: ',first[sorted(first)[0]] if first else None,env={'CMNODELISTDIR':'nl'})
    finally: w.close()
    return dict(evaluations=n,nontrivial=[c],states=1,transitions=n,sample=dict(lists=names,zones=zones))
NAMES=['nodelist.100','nodelist.007','NODELIST.200','node.150','nodelistx.300','nodelist.abc','nodelist','nodelist.10','xnodelist.100','nodelist.1000','.100','nodelist.b12','nodelist.1b2','nodelist.12b']
def pickcase(c):
    """which file is used for a name: the exact name, otherwise the latest by date with that base name"""
    perm,name,order=c
    files={};t=1700000000
    for k,i in enumerate(perm): files[NAMES[i]]=(nltext(('Zone,1',',3'),pre='F%dx'%i),t+k*3600)
    cand=[i for i in perm if re.fullmatch(re.escape(name)+r'\.\d\d\d',NAMES[i],re.I)]
    use=None
    if name in files: use=NAMES.index(name)
    elif cand: use=cand[-1]
    os.environ['CM_DIRORDER']=order
    try:
        w=World(''); os.makedirs(w.p('nl'))
        for n,(tx,mt) in files.items(): w.write('nl/'+n,tx.encode(),mtime=mt)
        w.write('nl/cmnodelist.prefs',name+'\n')
        r=w.run(['nl'],prog='crashlist',env={'CM_DIRORDER':order})
    finally: os.environ.pop('CM_DIRORDER',None)
    tag='files %r (oldest first), name %s: '%([NAMES[i] for i in perm],name)
    try:
        g=w.run(['1:1/3','nl'],prog='crashgetnode')
        m=re.search(rb'Name: F(\d+)xName',g.out); got=int(m.group(1)) if m else None
        if got!=use: raise Violation(tag+'used %s expected %s'%(NAMES[got] if got is not None else None,NAMES[use] if use is not None else None))
    finally: w.close()
    return dict(evaluations=1,nontrivial=[(perm,name)],states=1,transitions=1,sample=dict(tag=tag))
def longcase(c):
    """long lines, long names, large numbers, lines that look like entries only in their middle"""
    n=0
    for ln in c:
        body='Zone,1,Z,x,Op,1,300\r\n,3,'+'N'*ln+',,8,Fake,x,y,z,300\r\n,4,After,Place,Op,1-2,9600,CM\r\n'
        body2='Zone,1,Z,x,Op,1,300\r\n;'+'c'*ln+',8,Fake,x,y,z,300\r\n,4,After,Place,Op,1-2,9600,CM\r\n'
        for k,b in enumerate((body,body2)):
            w=World('',flavour='asan'); os.makedirs(w.p('nl')); w.write('nl/nodelist.100',b.encode()); w.write('nl/cmnodelist.prefs','nodelist\n')
            try:
                r=w.run(['nl'],prog='crashlist')
                if r.rc!=0: raise Violation('line of %d characters: crashlist exit %r %r'%(ln,r.rc,r.out[-600:]))
                tag='line of %d characters: '%ln
                for a,f in (('1:1/3',k==0),('1:1/4',True),('1:1/8',False)):
                    r=w.run([a,'nl'],prog='crashgetnode'); n+=1
                    if b'Sanitizer' in r.out: raise Violation(tag+repr(r.out[-800:]))
                    if (r.rc==0)!=f: raise Violation(tag+'%s %s'%(a,'not found' if f else 'found'))
                    if f and a=='1:1/4' and b'Name: After\nLocation: Place\nSysop: Op\nPhone: 1-2\nBaud: 9600\nFlags: CM\n' not in r.out: raise Violation(tag+'%r'%r.out)
                    if f and a=='1:1/3' and ln<=440 and b'Name: '+b'N'*ln+b'\n' not in r.out: raise Violation(tag+'%r'%r.out)
            finally: w.close()
    return dict(evaluations=n,nontrivial=list(c),states=len(c),transitions=n,sample=dict(lengths=list(c)[:5]))
def namecase(c):
    ln,=c
    nm='n'*(ln-4)
    w=World('',flavour='asan'); os.makedirs(w.p('nl')); w.write('nl/'+nm+'.100',nltext(('Zone,65535','Region,65534','Hub,65533',',65532','Point,65531'))); w.write('nl/cmnodelist.prefs',nm+'\n')
    try:
        r=w.run(['nl'],prog='crashlist')
        if r.rc!=0: raise Violation('name of %d characters: crashlist %r'%(ln,r.out[-600:]))
        if ln<100:
            first={}; interpret(('Zone,65535','Region,65534','Hub,65533',',65532','Point,65531'),0,first,set())
            for a,e in first.items(): getnode(w,a,'name of %d characters: '%ln,e)
    finally: w.close()
    return dict(evaluations=5,nontrivial=[c],states=1,transitions=5,sample=dict(length=ln))
# ---------------- V7+ nodelists (read by crashmail only): an independent writer of the documented format
V7TAB=" EANROSTILCHBDMUGPKYWFVJXZQ-'0123456789"
def v7pack(t):
    while len(t)%3: t+=' '
    o=b''
    for i in range(0,len(t),3):
        v=0
        for ch in t[i:i+3]: v=v*40+V7TAB.index(ch)
        o+=struct.pack('<H',v)
    return o
def v7write(w,ents,cap,fan,size,short,opt):
    """ents: sorted [(addr,region,hub)]; cap keys per leaf, fan keys per index block"""
    dat=b''; dtp=b'\0'*8; keys=[]
    for i,(a,r,h) in enumerate(ents):
        names=['AB','C','','SYSOP'][:3] if opt==0 else ['A'*((i+opt)%5),'B'*(i%3),'C-%d'%i]
        off='%08X'%len(dtp); dtp+=struct.pack('<HH',r,h)+b'junk'*(i%3)
        pk=v7pack(''.join(names)+off); ph=b'9'*((i*7+opt)%30 if opt!=3 else 200); pw=b'P'*(i%9)
        keys.append(((a.z,a.n,a.f,a.p),len(dat)))
        dat+=struct.pack('<7H8B',a.z,a.n,a.f,h,0,0,0,0,len(ph),len(pw),*[len(n) for n in names],len(pk),7)+ph+pw+pk
    blocks=[None]            # block 0 = control
    def kb(k): return struct.pack('<3H',*k[:3]) if short and not k[3] else struct.pack('<4H',*k)
    def mk(first,prev,nxt,refs,leaf):
        body=b''; tab=b''; o=size
        strs=b''
        for r in refs:
            b=kb(r[0]); o-=len(b); strs=b+strs
            tab+=struct.pack('<HHi',o,len(b),r[1]) if leaf else struct.pack('<HHii',o,len(b),r[1],r[2])
        hd=struct.pack('<3ihH',first,prev,nxt,len(refs),o)
        assert len(hd)+len(tab)<=o
        return hd+tab+b'\0'*(o-len(hd)-len(tab))+strs
    groups=[keys[i:i+cap] for i in range(0,len(keys),cap)] or [[]]
    level=[]
    n0=len(blocks)
    for i,g in enumerate(groups):
        blocks.append(mk(-1,n0+i-1 if i else 0,n0+i+1 if i+1<len(groups) else 0,g,True)); level.append((g[0] if g else ((0,0,0,0),0),n0+i))
    while len(level)>1:
        nl=[]; gs=[level[i:i+fan+1] for i in range(0,len(level),fan+1)]
        for g in gs:
            blocks.append(mk(g[0][1],0,0,[(x[0][0],x[0][1],x[1]) for x in g[1:]],False)); nl.append((g[0][0],len(blocks)-1))
        level=nl
    blocks[0]=(struct.pack('<H6i2H',size,level[0][1],level[0][1],len(blocks)-1,1,len(groups),0,1,0)).ljust(size,b'\0')
    w.write('nl/NODEX.ndx',b''.join(blocks)); w.write('nl/NODEX.dat',dat); w.write('nl/NODEX.dtp',dtp)
V7R=(10,0,200,255,256,33000); V7H=(20,0,128,3,511,65535)
V7U=[Addr(z,n,f,p) for z in (1,2) for n in (1,5,300) for f in (0,3,4,40000) for p in (0,7)]
def v7case(c):
    sel,cap,fan,size,short,opt=c
    with World('') as w:
        os.makedirs(w.p('nl'))
        ents=[(a,V7R[i%len(V7R)],V7H[(i//2)%len(V7H)]) for i,a in enumerate(V7U) if sel>>i&1]
        v7write(w,ents,cap,fan,size,short,opt)
        f='FILTER EXISTSNL_TOADDR\nWRITELOG "E %t"\n'
        for z in (1,2):
            for i,r in enumerate(V7R): f+='FILTER TOADDR="REGION %d:%d"\nWRITELOG "R%d %%t"\n'%(z,r,i)
            for i,h in enumerate(V7H): f+='FILTER TOADDR="HUB %d:*/%d"\nWRITELOG "H%d %%t"\n'%(z,h,i)
        w.write('cm.cfg','NODELIST "nl" "V7+"\n'+Cfg([Aka('1:1/1')],[Node('1:99/99')],[Area('BAD','1:1/1',('JAM','areas/bad')),Area('N1','1:1/1',('JAM','areas/net1'),kind='NETMAIL')],routes=['"*:*/*.*" "1:99/99" 1:1/1'],tail=f+'FILTER TYPE=NETMAIL\nKILL\n').text())
        ms=[]
        for i,a in enumerate(V7U):
            b=b'\1INTL %s 1:99/99\r'%S(a,False).encode()
            if a.p: b+=b'\1TOPT %d\r'%a.p
            ms.append(Msg((99,99),(a.n,a.f),to=b't%d'%i,frm=b'f%d'%i,body=b+b'x\r'))
        w.inbound(mkpkt(A('1:99/99'),A('1:1/1'),ms)); r=w.cm('TOSS')
        if r.rc!=0: raise Violation('V7+ nodelist: crashmail exit %r %r'%(r.rc,r.out[-200:]))
        got=set(re.findall(r' ([ERH]\d?) t(\d+)\n',w.read('cm.log').decode())); want=set(); d={a:(r,h) for a,r,h in ents}
        for i,a in enumerate(V7U):
            b=d.get(a._replace(p=0))
            if a in d: want.add(('E',str(i)))
            if b: want|={('R%d'%V7R.index(b[0]),str(i)),('H%d'%V7H.index(b[1]),str(i))}
        if got!=want:
            x=sorted(got^want)[0]; raise Violation('V7+ nodelist of %d nodes (%d/leaf, %d/index block, size %d): %s %s %s'%(len(ents),cap,fan,size,S(V7U[int(x[1])]),'membership' if x[0]=='E' else ('region %d'%V7R[int(x[0][1])] if x[0][0]=='R' else 'hub %d'%V7H[int(x[0][1])]),'reported but not so' if x in got else 'not reported'))
        return dict(evaluations=len(V7U)*3,nontrivial=[c],states=1,transitions=len(V7U),sample=dict(nodes=len(ents),cap=cap))
def chunks(l,n): return [tuple(l[i:i+n]) for i in range(0,len(l),n)]
def main():
    ck=Check('C18','exploration','all nodelists of up to 3 (4) lines over the keyword alphabet x line ends, every address of the universe looked up; all pairs of lists x default zones; all orders of candidate files; all line lengths over the buffer borders; non-trivial = distinct list')
    world.init(('plain','asan'))
    L=thorough()
    seqs=[('Zone,1',)+s for k in range(0,5 if L else 4) for s in itertools.product(LINES[1:],repeat=k)]+[s for k in range(0,3) for s in itertools.product(LINES,repeat=k)]
    ck.explore('lookups',allcase,chunks([(s,e,f) for i,s in enumerate(seqs) for e,f in ((('lf',True) if i%2 else ('crlf',True)),)],40))
    small=[('Zone,1',)+s for k in range(0,4 if L else 3) for s in itertools.product(LINES[1:],repeat=k)]
    ck.explore('lines',linecase,chunks([(s,e,f) for s in small for e,f in (('lf',True),('crlf',False))],20))
    ck.explore('lists',multicase,[(n,z) for k in (1,2,3) for n in itertools.product('ABCDEP',repeat=k) for z in itertools.product(('','1','2'),repeat=k) if k<3 or L or z in (('','',''),('1','2',''))])
    ck.explore('files',pickcase,[(p,n,o) for k in (1,2,3) for p in itertools.permutations(range(len(NAMES)),k) for n in ('nodelist','NODELIST','node','nodelist.100') for o in ('asc','desc') if k<3 or L or (p[0]<4 and max(p)<11)],chunk=8)
    lens=sorted(set(range(1,40,3))|set(range(100,210))|set(range(440,520))|set(range(990,1010))) if not L else list(range(1,1100))
    ck.explore('long',longcase,chunks(lens,5))
    ck.explore('names',namecase,[(n,) for n in list(range(5,20,5))+list(range(90,110))+[150,200]])
    full=(1<<len(V7U))-1; sels=[0,full]+[1<<i for i in range(len(V7U))]+[full&~(1<<i) for i in range(len(V7U))]+[(1<<i)-1 for i in range(2,len(V7U))]+[full&~((1<<i)-1) for i in range(2,len(V7U))]+[0x555555,0xaaaaaa,0x333333]
    ck.explore('v7plus',v7case,[(s,cap,fan,size,sh,opt) for s in sels for cap,fan in (((1,1),(2,1),(3,2),(1,3),(30,5)) if not L else [(a,b) for a in (1,2,3,5,8,30) for b in (1,2,3,7)]) for size,sh,opt in (((512,1,0),(512,0,1),(508,1,3)) if not L else [(a,b,c) for a in (512,508,500) for b in (0,1) for c in (0,1,2,3)])],chunk=8)
    ck.finish()
if __name__=='__main__': main()
