"""C16: rewriting the configuration file: every setting and every line survives, only the requested change is made."""
import _boot,itertools,re
import world; from world import *
from emodel import *
from harness import *
import cfgparse
HEAD='SYSOP "Sys Op"\nLOGFILE "cm.log"\nLOGLEVEL 1\nDUPEFILE "dupes" 200\nDUPEMODE IGNORE\nLOOPMODE IGNORE\nDEFAULTZONE 1\nINBOUND "in"\nOUTBOUND "out"\nTEMPDIR "tmp"\nCREATEPKTDIR "cr"\nPACKETDIR "pkt"\nSTATSFILE "cm.stats"\nPACKER "P1" "pk %a" "un %a" "P1"\nPACKER "P2" "pk %a" "un %a" "P2"\n\nAKA 1:1/1\n\n'
TAIL='\nROUTE "*:*/*.*" "*:*/*.*" 1:1/1\n\nAREAFIXNAME "AreaFix"\nAREA "BAD" 1:1/1.0 MSG "areas/bad"\n'
def esc(s): return '"%s"'%s.replace('\\','\\\\').replace('"','\\"')
def req(node,text,pw=b'PW'):
    a=A(node) if isinstance(node,str) else node
    return mkpkt(a,A('1:1/1'),[Msg((a.n,a.f),(1,1),attr=PVT,to=b'AreaFix',frm=b'Node Op',subj=pw,body=b'\1INTL 1:1/1 %d:%d/%d\r'%(a.z,a.n,a.f)+(b'\1FMPT %d\r'%a.p if a.p else b'')+text)])
def owners(text):
    """[(owner, line)] for every line; owner ('n',addr), ('a',TAG), None for lines that belong to no section; blank lines left out"""
    out=[];node=area=None
    for raw in text.split('\n'):
        l=raw.strip()
        if not l: continue
        if l[0] in ';#': out.append((None,raw)); continue
        w=cfgparse.words(l); k=w[0].upper()
        if k=='NODE': node=A(w[1]); out.append((('n',node),raw))
        elif k in ('AREA','NETMAIL','LOCALAREA'): area=w[1].upper(); out.append((('a',area),raw))
        elif k in cfgparse.NODEKW and node is not None: out.append((('n',node),raw))
        elif k in cfgparse.AREAKW and area is not None: out.append((('a',area),raw))
        else: out.append((None,raw))
    return out
def lines_kept(old,new,changed,tag,gone=(),added=()):
    """every line outside the changed sections is there, in order; the changed sections stand where they stood"""
    def seq(text):
        out=[];seen=set()
        for o,l in owners(text):
            if o in gone or o in added: continue
            if o in changed:
                if o not in seen: seen.add(o); out.append(o)
            else: out.append(l)
        return out
    a,b=seq(old),seq(new)
    if a!=b:
        i=0
        while i<len(a) and i<len(b) and a[i]==b[i]: i+=1
        raise Violation(tag+'line %r became %r'%(a[i] if i<len(a) else '(end)',b[i] if i<len(b) else '(end)'))
    def stmts(text):
        d={}
        for o,l in owners(text):
            if o in changed:
                k=(o,cfgparse.words(l.strip())[0].upper()); d[k]=d.get(k,0)+1
        return d
    a,b=stmts(old),stmts(new)
    for k,n in b.items():
        if k[1] not in ('EXPORT','BANNED','IMPORT') and n>max(1,a.get(k,0)): raise Violation(tag+'%s stands %d times in section %s'%(k[1],n,k[0]))
    o=[x for x,_ in owners(new)]
    for x in gone:
        if x in o: raise Violation(tag+'section %s is still there'%(x,))
    if added and o[-1] not in added: raise Violation(tag+'a new area is not at the end')
def norm(c):
    for n in c.nodes.values():
        n.setdefault('AREAFIXINFO',('','','',''))
        if len(n.get('REMOTEAF',()))==1: n['REMOTEAF']+=('',)
        if 'REMOTEAF' in n and n['REMOTEAF'][0]=='': del n['REMOTEAF']
        for k in ('REMOTESYSOP','DEFAULTGROUP'):
            if n.get(k)==('',): del n[k]
        n['flags']=frozenset(n['flags'])
    for a in c.areas.values():
        for k in ('KEEPNUM','KEEPDAYS'):
            if k in a: a[k]=int(a[k][0])
            if a.get(k)==0: del a[k]
        if a.get('DESCRIPTION')==('',): del a['DESCRIPTION']
        if a['base'] and a['base'][0]=='PASS' or a['base']==('',): a['base']=()
    return c
def semantics(old,new,edit,tag):
    a=norm(cfgparse.parse(old)); edit(a); b=norm(cfgparse.parse(new))
    for what,x,y in (('node',a.nodes,b.nodes),('area',a.areas,b.areas)):
        for k in x:
            if k not in y: raise Violation(tag+'%s %s has gone'%(what,k))
            if x[k]!=y[k]: raise Violation(tag+'settings of %s %s: %s'%(what,k,['%s: %r -> %r'%(f,x[k].get(f),y[k].get(f)) for f in sorted(set(x[k])|set(y[k])) if x[k].get(f)!=y[k].get(f)]))
        for k in y:
            if k not in x: raise Violation(tag+'%s %s was added'%(what,k))
    if a.other!=b.other: raise Violation(tag+'other lines changed: %s'%[q for q in a.other if q not in b.other][:3])
def go(w,tag):
    r=w.cm('TOSS')
    if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
    if w.ls('in'): raise Violation(tag+'left in the inbound: %s'%w.ls('in')[:3])
    return w.read('cm.cfg').decode('latin1')
def settle(w,new,tag):
    """the new file is accepted and a run that changes nothing leaves it alone"""
    st=os.stat(w.p('cm.cfg')); w.inbound(req('1:1/10',b'%QUERY\r')); n2=go(w,tag+'next run: ')
    s2=os.stat(w.p('cm.cfg'))
    if n2!=new: raise Violation(tag+'a run that changes nothing rewrote the configuration')
    if not any(f.startswith('0001000a') for f in w.ls('out')): raise Violation(tag+'the rewritten configuration does not work any more')
def areatext(tag,s):
    """s: dict of settings"""
    t='AREA %s 1:1/1.0%s\n'%(tag,{0:'',1:' MSG "areas/%s"'%tag.strip('"').lower(),2:' JAM "areas/%s"'%tag.strip('"').lower()}[s.get('base',0)])
    body=[]
    if s.get('links'): body.append('EXPORT '+' '.join(s['links']))
    if s.get('banned'): body.append('BANNED '+' '.join(s['banned']))
    if 'desc' in s: body.append('DESCRIPTION '+s['desc'])
    body.append('GROUP '+s.get('group','A'))
    if 'num' in s: body.append('KEEPNUM %d'%s['num'])
    if 'days' in s: body.append('KEEPDAYS %d'%s['days'])
    body+=list(s.get('flags',()))
    return t+''.join(x+'\n' for x in body)+'\n'
AF=['UNCONFIRMED','MANDATORY','DEFREADONLY','IGNOREDUPES','IGNORESEENBY']
# ---- every combination of area settings, rewritten because a node links or unlinks
def areas(c):
    base,cmd,layout=c; secs={}; i=0
    for fl in itertools.product((0,1),repeat=5):
        for more in itertools.product((0,1),repeat=3):
            i+=1; t='A%03d'%i; s=dict(base=base,flags=[f for f,x in zip(AF,fl) if x],links=['!1:1/20','%1:1/30.3','@1:2/40'][:1+i%3]+(['1:1/10'] if cmd=='-' else []),banned=['1:1/20'] if more[2] else [])
            if more[0]: s['num']=i; s['desc']='"Area %d"'%i
            if more[1]: s['days']=i+7
            if cmd=='-' and 'MANDATORY' in s['flags'] and layout: s['flags'].remove('MANDATORY')
            secs[t]=s
    text=HEAD+'NODE 1:1/10 "" ""\nAREAFIXINFO "PW" "AL" "R" ""\n\nNODE 1:1/20 "" ""\nNODE 1:1/30.3 "" ""\nNODE 1:2/40 "" ""\n'
    if layout: text+=TAIL
    text+=''.join(areatext(t if layout else '"%s"'%t,s) for t,s in secs.items())
    if not layout: text+=TAIL
    with World(text) as w:
        tag='%s of all areas (base %d, layout %d): '%({'+':'link','-':'unlink'}[cmd],base,layout)
        w.inbound(req('1:1/10',(b'+A*\r' if cmd=='+' else b'-A*\r'))); new=go(w,tag); me=A('1:1/10')
        def edit(c):
            for t,a in c.areas.items():
                if not t.startswith('A'): continue
                if cmd=='+': a['links'].append((me,'!' if 'DEFREADONLY' in a['flags'] else ''))
                elif 'MANDATORY' not in a['flags']: a['links'].remove((me,''))
        semantics(text,new,edit,tag)
        lines_kept(text,new,{('a',t) for t,s in secs.items() if cmd=='+' or 'MANDATORY' not in s['flags']},tag); settle(w,new,tag)
    return dict(evaluations=len(secs),nontrivial=[(c,k) for k in secs],states=1,transitions=1,sample=dict(areas=len(secs),base=base,command=cmd))
# ---- every combination of node settings
NF=['NOTIFY','NOSEENBY','TINYSEENBY','FORWARDREQ','PACKNETMAIL','NONETMAILPASSWORD','SENDAREAFIX','SENDTEXT','AUTOADD']
def nodes(c):
    kind,cmd,part=c; txt=[]; ids=[]; nopw=set()
    combos=list(itertools.product(itertools.product((0,1),repeat=len(NF)),('','CRASH','DIRECT','HOLD'))) if kind=='flags' else list(itertools.product((0,1),(0,1,2,3,4),(0,1,2,3),(0,1,2),(0,1)))
    for i,x in enumerate(combos):
        if i%8!=part: continue
        a='1:%d/%d'%(5+i//1000,100+i%1000)+('.%d'%(i%7) if i%3==0 and i%7 else ''); ids.append(a)
        if kind=='flags': fl=[f for f,y in zip(NF,x[0]) if y]+([x[1]] if x[1] else []); sub=(1,1,1,1,1)
        else: fl=['PACKNETMAIL'] if i%2 else []; sub=x
        if cmd=='%RESUME': fl=fl+['PASSIVE']
        t='NODE %s %s %s %s\n'%(a,('""','P1','"P2"')[i%3],esc('pw%d'%(i%100)) if i%4 else '""',' '.join(fl) if i%2 else ' '.join(fl).lower())
        s=['PKTFROM 3:3/3.1','AREAFIXINFO "PW" "ABC" "" "D"','REMOTEAF "A Fix" "rpw"','REMOTESYSOP "The \\"Op\\""','DEFAULTGROUP Q']
        out=[]
        if sub[0]: out.append(s[0])
        out.append(['AREAFIXINFO "PW" "" "" ""','AREAFIXINFO "PW" "ABC" "RX" "D"','AREAFIXINFO PW "" X ""','AREAFIXINFO "" "" "" "D"','AREAFIXINFO "" "" R ""'][sub[1]])
        if sub[1]>2: nopw.add(a)
        if sub[2]: out.append(['','REMOTEAF "A Fix" "rpw"','REMOTEAF AFix rpw NEEDSPLUS','REMOTEAF "A\\"x" ""'][sub[2]])
        if sub[3]: out.append(['','REMOTESYSOP "The \\"Op\\""','REMOTESYSOP Op'][sub[3]])
        if sub[4]: out.append('DEFAULTGROUP Q')
        txt.append(t+'\n'.join(out[::-1] if i%2 else out)+'\n\n')
    text=HEAD+'NODE 1:1/10 "" ""\nAREAFIXINFO "PW" "AL" "R" ""\n\n'+''.join(txt)+TAIL
    with World(text) as w:
        tag='%s from every node (%s): '%(cmd,kind)
        skip=set()
        for j,a in enumerate(ids):
            if j%5==4: skip.add(A(a)); continue     # stays as it is
            w.inbound(req(a,cmd.encode()+b'\r',b'' if a in nopw else b'PW'))
        # packet passwords
        pw={}
        for n,d in cfgparse.parse(text).nodes.items(): pw[n]=d['pw']
        for f in w.ls('in'):
            d=bytearray(w.read('in/'+f)); o=parse_pkt(bytes(d)); m=o.msgs[0]; p=int(re.findall(rb'\x01FMPT (\d+)',m.body)[0]) if b'FMPT' in m.body else 0
            q=pw[Addr(1,m.orig[0],m.orig[1],p)].encode()[:8]; d[26:34]=q+b'\0'*(8-len(q)); w.write('in/'+f,bytes(d),mtime=w.now-500)
        new=go(w,tag)
        def edit(c):
            for n,d in c.nodes.items():
                if n in skip or n==A('1:1/10'): continue
                if cmd=='%PAUSE': d['flags']|={'PASSIVE'}
                elif cmd=='%RESUME': d['flags']-={'PASSIVE'}
                elif cmd.startswith('%PWD'): d['AREAFIXINFO']=(cfgparse.words(cmd)[1],)+d['AREAFIXINFO'][1:]
                elif cmd.startswith('%COMP'): d['packer']=cfgparse.words(cmd)[1].replace('NONE','')
        semantics(text,new,edit,tag); lines_kept(text,new,{('n',A(a)) for a in ids if A(a) not in skip},tag); settle(w,new,tag)
    return dict(evaluations=len(ids),nontrivial=[(c,k) for k in ids],states=1,transitions=1)
# ---- nodes whose addresses differ in one number only, areas whose names begin alike
TWINS=['1:1/10','2:1/10','1:2/10','1:1/11','1:1/10.1','2:1/10.1','1:10/1','1:1/100']
def twins(c):
    perm,who,cmd=c; text=HEAD; T=['AR','ARE','AREA1','AREA','XAR']
    for i,k in enumerate(perm): text+='NODE %s "" ""\nAREAFIXINFO "PW" "A" "" ""\nREMOTESYSOP "Op%d"\n'%(TWINS[k],i)
    for i,t in enumerate(T): text+='AREA %s 1:1/1 MSG "areas/x%d"\nGROUP A\nBANNED %s\nEXPORT %s\nKEEPNUM %d\n'%(t,i,TWINS[perm[(who+1)%len(perm)]],' '.join(TWINS[k] for j,k in enumerate(perm) if j!=who or cmd[0]=='-'),i+1)
    text+=TAIL; me=A(TWINS[perm[who]])
    with World(text) as w:
        tag='nodes %s, %s from %s: '%(' '.join(TWINS[k] for k in perm),cmd,S(me)); w.inbound(req(me,cmd.encode()+b'\r')); new=go(w,tag)
        def edit(c):
            if cmd[0]=='%': c.nodes[me]['AREAFIXINFO']=('NEWPW',)+c.nodes[me]['AREAFIXINFO'][1:]
            elif cmd[0]=='+': c.areas['AREA']['links'].append((me,''))
            else: c.areas['ARE']['links'].remove((me,''))
        semantics(text,new,edit,tag); lines_kept(text,new,{('n',me)} if cmd[0]=='%' else {('a','AREA' if cmd[0]=='+' else 'ARE')},tag); settle(w,new,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- strings that need quoting
ALPH=['a',' ','"','\\',';','%','\xe5','#']
def strings(c):
    where,n,part=c; vals=[''.join(x) for k in range(1,n+1) for x in itertools.product(ALPH,repeat=k)]; vals=[v for i,v in enumerate(vals) if i%4==part]
    if where=='pwd': vals=[v for v in vals]
    text=HEAD; secs=[]
    if where in ('desc','path','tag'):
        text+='NODE 1:1/10 "" ""\nAREAFIXINFO "PW" "A" "" ""\n'
        for i,v in enumerate(vals):
            if where=='tag':
                if v.strip()!=v or v.startswith((';','#')): continue
                v='A%s.%d'%(v,i); secs.append(v.upper()); text+='AREA %s 1:1/1.0\nGROUP A\n'%esc(v)
            else: secs.append('A%d'%i); text+='AREA A%d 1:1/1.0%s\n%sGROUP A\n'%(i,' MSG '+esc('areas/'+v) if where=='path' else '','DESCRIPTION %s\n'%esc(v) if where=='desc' else '')
        text+=TAIL
        with World(text) as w:
            tag='links with quoted %s: '%where; w.inbound(req('1:1/10',b'+A*\r')); new=go(w,tag)
            def edit(c):
                for t,a in c.areas.items():
                    if t!='BAD': a['links'].append((A('1:1/10'),''))
            semantics(text,new,edit,tag); lines_kept(text,new,{('a',t) for t in secs},tag); settle(w,new,tag)
    else:
        ids=[]
        text+='NODE 1:1/10 "" ""\nAREAFIXINFO "PW" "A" "" ""\n'
        for i,v in enumerate(vals):
            a='1:7/%d'%(i+1); ids.append(a)
            text+='NODE %s "" ""\nAREAFIXINFO %s "A" "" ""\n'%(a,esc(v) if where=='afpw' else 'PW')
            if where=='remote': text+='REMOTEAF %s %s\nREMOTESYSOP %s\n'%(esc(v+'x'),esc('y'+v),esc(v+v))
        text+=TAIL
        with World(text) as w:
            tag='requests with quoted %s: '%where
            for a,v in zip(ids,vals):
                if where=='pwd': w.inbound(req(a,b'%PWD '+esc(v).encode('latin1')+b'\r'))
                else: w.inbound(req(a,b'%PAUSE\r',pw=esc(v).encode('latin1') if where=='afpw' else b'PW'))
            new=go(w,tag)
            def edit(c):
                for n,d in c.nodes.items():
                    if n==A('1:1/10'): continue
                    if where=='pwd': d['AREAFIXINFO']=(vals[ids.index(S(n,False))],)+d['AREAFIXINFO'][1:]
                    else: d['flags']|={'PASSIVE'}
            semantics(text,new,edit,tag); lines_kept(text,new,{('n',A(a)) for a in ids},tag); settle(w,new,tag)
    return dict(evaluations=len(vals),nontrivial=[(c,v) for v in vals],states=1,transitions=1)
# ---- number of links, banned nodes, and address forms in lists
def lists(c):
    nl,nb,form=c; L=[]; N=[]
    for i in range(nl): N.append(Addr(1+i%2,1+i%3,100+i,i%4 if i%5==0 else 0))
    t=[S(a) for a in N]
    if form=='short':     # abbreviated addresses
        t=[]; last=None
        for a in N:
            s=S(a,a.p!=0)
            if last and a.z==last.z:
                s=s.split(':')[1]
                if a.n==last.n: s=s.split('/')[1]
            t.append(s); last=a
    fl=['','!','@','%'] ; t=[fl[i%4]+x for i,x in enumerate(t)]
    text=HEAD+'NODE 1:1/10 "" ""\nAREAFIXINFO "PW" "A" "" ""\n'+''.join('NODE %s "" ""\n'%S(a) for a in N)+'NODE 1:9/9 "" ""\n'
    text+='AREA X 1:1/1\n'+(('EXPORT '+' '.join(t)+'\n') if form!='split' else ''.join('EXPORT %s\n'%x for x in t) if t else '')+(('BANNED '+' '.join(S(a,a.p!=0) for a in N[:nb])+'\n') if nb else '')+'GROUP A\nKEEPNUM 10\n\nAREA Y 1:1/1\nEXPORT 1:9/9\n'+TAIL
    if nl==0 : text=text.replace('EXPORT \n','')
    with World(text) as w:
        tag='%d links, %d banned, %s: '%(nl,nb,form); w.inbound(req('1:1/10',b'+X\r')); new=go(w,tag)
        semantics(text,new,lambda c: c.areas['X']['links'].append((A('1:1/10'),'')),tag); lines_kept(text,new,{('a','X')},tag); settle(w,new,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- foreign lines at every position, every section changed in turn
BASE=[('n','NODE 1:1/10 "" ""'),('n','AREAFIXINFO "PW" "AB" "" ""'),('n','REMOTESYSOP "Op"'),('m','node 1:1/20 "P1" "" notify'),('m','\tAREAFIXINFO "PW" "AB" "" ""'),('X','AREA "X" 1:1/1 MSG "areas/x"'),('X','EXPORT 1:1/20'),('X','GROUP A'),('N','NETMAIL "NET" 1:1/1 MSG "areas/net"'),('N','IMPORT 1:1/2 1:1/3.4'),('Y','Area Y 1:1/1'),('Y','export 1:1/20 %1:1/10'),('Y','  description   "The Y"'),('Y','GROUP B'),('L','LOCALAREA Loc 1:1/1 MSG "areas/loc"'),('L','DESCRIPTION "local one"'),('L','KEEPNUM 50'),('Z','AREA Z 1:1/1'),('Z','EXPORT 1:1/10'),('Z','GROUP A')]
FOREIGN=['; a comment',';another','','   ','ROUTE "2:*/*.*" "1:1/20.0" 1:1/1','CHANGE * "*:*/*.*" HOLD','\t; EXPORT 1:1/99','GROUPNAME A "Group of A"','FILTER SUBJECT="x" and not TOLOCALAKA\nKILL','AREALIST 1:1/99 "none.lst" GROUP A FORWARD DESC','BOUNCE "5:*/*.*"','MAXPKTSIZE 50','; '+'long comment '*30,'ADDTID','AREAFIXNAME "GROUP"']
OPS={'X+':('1:1/10',b'+X\r',['X']),'X-':('1:1/20',b'-X\r',['X']),'Y-':('1:1/10',b'-Y\r',['Y']),'Z-':('1:1/10',b'-Z\r',['Z']),'Z+':('1:1/20',b'+Z\r',['Z']),'all':('1:1/20',b'+*\r',['Z']),'rm':('1:1/10',b'-*\r',['Y','Z']),'n':('1:1/10',b'%PAUSE\r',['n']),'m':('1:1/20',b'%PWD zz\r',['m']),'nm':('1:1/20',b'%COMPRESS NONE\r-Y\r',['m','Y']),'new':None,'new2':None}
def foreign(c):
    op,pos,f,nonl,order=c; body=list(BASE)
    if order: body=[b for k in 'mXnZLYN' for b in body if b[0]==k]
    lines=[l for _,l in body]; 
    if f is not None: lines.insert(pos,FOREIGN[f])
    text=HEAD.replace('AKA 1:1/1\n','AKA 1:1/1\nADDNODE 1/5\n')+'NODE 1:1/99 "" ""\n'+'\n'.join(lines)+'\nROUTE "*:*/*.*" "*:*/*.*" 1:1/1\nAREAFIXNAME "AreaFix"\nAREA "BAD" 1:1/1.0 MSG "areas/bad"'+('' if nonl else '\n')
    with World(text) as w:
        tag='%s with %r before line %d%s: '%(op,FOREIGN[f] if f is not None else None,pos,' without final newline' if nonl else ''); name={'X':('a','X'),'Y':('a','Y'),'Z':('a','Z'),'n':('n',A('1:1/10')),'m':('n',A('1:1/20'))}
        if OPS[op] is None:
            k=1 if op=='new' else 2
            for i in range(k): w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[Msg((1,20),(1,1),body=b'AREA:NEW%d\rtext\rSEEN-BY: 1/20\r'%i)]))
            os.mkdir(w.p('areas/bad')); new=go(w,tag); added={('a','NEW%d'%i) for i in range(k)}
            def edit(c):
                for i in range(k): c.areas['NEW%d'%i]=dict(tag='NEW%d'%i,kind='AREA',aka=A('1:1/1'),base=(),links=[(A('1:1/20'),'%')],imports=[],banned=[],flags={'UNCONFIRMED'})
            semantics(text,new,edit,tag); lines_kept(text,new,set(),tag,added=added)
            if not new.startswith(text): raise Violation(tag+'the old part of the file changed')
        else:
            node,t,ch=OPS[op]; w.inbound(req(node,t)); new=go(w,tag); a=A(node)
            def edit(c):
                if op in ('X+','Z+','all'): c.areas[ch[0]]['links'].append((a,''))
                elif op in ('X-','Y-','Z-','rm','nm'):
                    for x in ch:
                        if x in 'XYZ': c.areas[x]['links']=[l for l in c.areas[x]['links'] if l[0]!=a]
                if op=='n': c.nodes[a]['flags']|={'PASSIVE'}
                if op=='m': c.nodes[a]['AREAFIXINFO']=('zz',)+c.nodes[a]['AREAFIXINFO'][1:]
                if op=='nm': c.nodes[a]['packer']=''
            semantics(text,new,edit,tag); lines_kept(text,new,{name[x] for x in ch},tag,added={name['X']} if order and op=='X+' else ())    # 1:1/10 is defined after X: X has to move
        if w.read('cm.cfg.bak').decode('latin1')!=text: raise Violation(tag+'the backup is not the old configuration')
        if w.exists('cm.cfg.tmp') or w.exists('cm.cfg.busy'): raise Violation(tag+'temporary files left')
        settle(w,new,tag) if op not in ('m',) else None
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(op=op,pos=pos,foreign=FOREIGN[f]) if f==4 and pos==7 else None)
def foreigncases():
    for op in OPS:
        for order in (0,1):
            for nonl in (0,1):
                yield op,0,None,nonl,order
            for f in range(len(FOREIGN)):
                for pos in range(0 if not order else 0,len(BASE)+1):
                    if order and not thorough() and f not in (0,2,4,8): continue
                    for nonl in ((0,1) if thorough() else ((f+pos)%2,)): yield op,pos,f,nonl,order
# ---- removed areas and the command line
def removal(c):
    how,which,k=c; tags=['PX','PXY','P','PXYZ','PY','PXA','X','PYP','YP'][:k]; text=HEAD+'AREAFIXREMOVE\nREMOVEWHENFEED\nNODE 1:1/10 "" ""\nAREAFIXINFO "PW" "A" "" ""\nNODE 1:1/20 "" "" SENDTEXT\nREMOTESYSOP "Op"\n'
    for i,t in enumerate(tags): text+='; before %s\nAREA %s 1:1/1\nEXPORT %s\nGROUP A\n; in %s\nKEEPDAYS 5\n\n'%(t,t,'%1:1/10 1:1/20' if i%2 else '1:1/10',t)
    text+=TAIL; gone=[t for i,t in enumerate(tags) if which>>i&1]
    with World(text) as w:
        tag='removal of %s of %d areas by %s: '%(gone,k,how)
        if how=='areafix': w.inbound(req('1:1/10',''.join('-%s\r'%t for t in gone).encode())); new=go(w,tag)
        else:
            for t in gone:
                r=w.cm('REMOVE',t if which%2 else t.lower())
                if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
            new=w.read('cm.cfg').decode('latin1')
        def edit(c):
            for t in gone: del c.areas[t]
        semantics(text,new,edit,tag); lines_kept(text,new,set(),tag,gone={('a',t) for t in gone})
        if not gone and new!=text: raise Violation(tag+'the file was rewritten')
        settle(w,new,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- runs that change nothing
def nothing(c):
    op,nonl=c; text=HEAD+'\n'.join(l for _,l in BASE)+'\n\n\n ; odd   line\t\n'+TAIL.rstrip('\n')+('' if nonl else '\n')
    with World(text) as w:
        tag='%s: '%op; st=os.stat(w.p('cm.cfg')); os.utime(w.p('cm.cfg'),(1,1)); ino=st.st_ino
        for d in ('bad','x','net','loc'): os.mkdir(w.p('areas',d))
        m={'query':b'%QUERY\r','link again':b'+Z\r','unlink nothing':b'-X\r','unknown':b'+NOSUCH\r','resume':b'%RESUME\r','pwd':b'%PWD\r','wild':b'+Q*\r-Q*\r','wrong':b'-*\r'}
        if op in m: w.inbound(req('1:1/10',m[op],pw=b'NO' if op=='wrong' else b'PW'))
        elif op=='echo': w.inbound(mkpkt(A('1:1/20'),A('1:1/1'),[Msg((1,20),(1,1),body=b'AREA:X\rtext\r')]))
        elif op=='denied': w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:X\rtext\r')]))
        elif op=='junk': w.inbound(b'junk')
        args={'scan':('SCAN',),'list':('SENDLIST','1:1/10'),'rescan':('RESCAN','X','RESCANNODE','1:1/20'),'remove':('REMOVE','NOSUCH'),'removenet':('REMOVE','NET')}.get(op,('TOSS',))
        r=w.cm(*args)
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        s2=os.stat(w.p('cm.cfg'))
        if w.read('cm.cfg').decode('latin1')!=text or s2.st_ino!=ino or s2.st_mtime!=1: raise Violation(tag+'the configuration was rewritten')
        if w.exists('cm.cfg.bak') or w.exists('cm.cfg.tmp') or w.exists('cm.cfg.busy'): raise Violation(tag+'files left: %s'%w.ls())
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- values of every length in sections that are not touched
def long(c):
    what,n=c; v='V'+'x'*(n-2)+'Y'
    sec={'tag':'AREA "%s" 1:1/1 MSG "areas/l"\nGROUP B\n'%v,'tag2':'LOCALAREA %s 1:1/1 MSG "areas/l"\n'%v,'desc':'AREA L 1:1/1\nDESCRIPTION "%s"\nGROUP B\n'%v,'comment':'; %s\n'%v,'export':'AREA L 1:1/1\n'+'EXPORT'+' 1:1/20'*0+' !1:1/20'+' '*n+'\n'}[what]
    text=HEAD+'NODE 1:1/10 "" ""\nAREAFIXINFO "PW" "A" "" ""\nNODE 1:1/20 "" ""\n'+'AREA X 1:1/1\nGROUP A\n'+sec+'AREA Y 1:1/1\nGROUP A\n'+TAIL
    with World(text) as w:
        tag='%s of %d characters: '%(what,n); w.inbound(req('1:1/10',b'+X\r%PAUSE\r')); new=go(w,tag)
        lines_kept(text,new,{('a','X'),('n',A('1:1/10'))},tag); settle(w,new,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def main():
    ck=Check('C16','exploration','all combinations of area settings, node settings, quoted strings up to the length bound, list lengths; foreign lines at every position x every change; removals of every subset; runs without change. Oracle: independent parser of the file before and after, and the sequence of untouched lines; non-trivial = distinct section or case',['blank lines are not significant','lines shorter than 4000 characters, tags up to 79'])
    world.init()
    ck.explore('areas',areas,[(b,cmd,l) for b in (0,1,2) for cmd in '+-' for l in (0,1)])
    ck.explore('nodes',nodes,[(k,cmd,p) for k in ('flags','lines') for cmd in ('%PAUSE','%RESUME','%PWD "a \\"b"','%COMPRESS P2','%COMPRESS NONE') for p in range(8)])
    ck.explore('twins',twins,[(p,x,cmd) for k in (2,pick(3,4)) for p in itertools.permutations(range(len(TWINS)),k) for x in range(k) for cmd in ('%PWD NEWPW','+AREA','-ARE') ],chunk=16)
    ck.explore('strings',strings,[(x,pick(3,4),p) for x in ('desc','path','tag','afpw','remote','pwd') for p in range(4)])
    ck.explore('lists',lists,[(n,b,f) for n in range(0,pick(24,60)) for b in range(0,n+1,pick(3,1)) for f in ('full','short','split')],chunk=4)
    ck.explore('foreign lines',foreign,list(foreigncases()),chunk=16)
    ck.explore('removal',removal,[(h,x,k) for h in ('areafix','command') for k in range(1,pick(5,7)) for x in range(1<<k)],chunk=4)
    ck.explore('long values',long,[(x,n) for x in ('tag','tag2','desc','comment','export') for n in list(range(2,pick(104,260)))+(list(range(3900,3990,10)) if x in ('comment','export') else [])],chunk=8)
    ck.explore('no change',nothing,[(o,n) for o in ('query','link again','unlink nothing','unknown','resume','pwd','wild','wrong','echo','denied','junk','scan','list','rescan','remove','removenet','empty') for n in (0,1)])
    ck.finish()
if __name__=='__main__': main()
