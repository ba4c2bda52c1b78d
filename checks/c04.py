"""C04: echomail access control: password, destination, link rights, unknown areas, auto-add."""
import _boot,itertools,re
import world; from world import *
from harness import *; from emodel import *
import cfgparse
NODES={'5:1/10.9':'','5:1/20.9':'','1:1/10':'PW','1:1/100':'','2:1/10':'','1:1/10.1':'PW2','1:1/20':'','1:10/1':'PW'}
LINKS=[('1:1/10',''),('2:1/10','!'),('1:1/10.1','@'),('1:1/20',''),('1:10/1','%')]
SENDERS=['1:1/10','1:1/100','2:1/10','1:1/10.1','1:10/1','1:1/11','2:1/10.1','1:1/20']
DESTS=['1:1/1','2:5/1','1:1/1.5','1:1/2','3:1/1']
KINDS=['2+','2+point','2q','2','2.2']
AKAS=['1:1/1','2:5/1']
def effective(cfg,o,d,kind):
    """addresses a receiver can learn from each header kind; returns orig, dest before zone completion, orig after"""
    if kind in ('2q','2'): o=o._replace(p=0); d=d._replace(p=0)
    if kind=='2': o=o._replace(z=0); d=d._replace(z=0)
    o2=o
    if o.z==0:
        m=[n.addr for n in cfg.nodes if n.addr[1:]==o[1:]]
        o2=o._replace(z=m[0].z if m else cfg.defzone)
    return o2,d
def samez(a,b): return a[1:]==b[1:] and (a.z==b.z or a.z==0 or b.z==0)
def givens(pw):
    g=[b'',b'WRONG']
    if pw: p=pw.encode(); g+=[p,p.lower(),p[:-1],p+b'X',(p+b'\0zz')]
    return g
def case_auth(c):
    pwlen,check,nosec,nonm,di=c
    pwmap={'PW':{2:'PW',8:'Secret78',1:'q'}[pwlen],'PW2':{2:'P2',8:'SECRET79',1:'r'}[pwlen],'':''}
    cfg=Cfg([Aka(a) for a in AKAS],[Node(a,('NONETMAILPASSWORD',) if nonm else (),pw=pwmap[p]) for a,p in NODES.items()],
        [Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),Area('ECHO','1:1/1',('MSG','areas/echo'),LINKS)],
        opts=('CHECKPKTDEST',) if check else ())
    area=cfg.areas[2]; n=0; ev=0; nt=set()
    fwd={};imp=[];bad={};net=[];badfiles={}
    with World(cfg.text()) as w:
        for s in SENDERS:
            for kind in KINDS:
                if kind=='2+point' and not A(s).p: continue
                cn=cfg.node(A(s)); base=givens(cn.pw if cn else '')
                if kind in ('2q','2') and A(s).p: base=base+givens(cfg.node(A(s)._replace(p=0)).pw) if cfg.node(A(s)._replace(p=0)) else base
                for given in base:
                    for order in ('ne','en') if di==0 else ('ne',):
                        o=A(s); d=A(DESTS[di]); n+=1
                        ms=[]; ids={}
                        for ch in order:
                            mid='%s%d'%(ch,n)
                            if ch=='e': ms.append(('e',mid,Msg((o.n,o.f),(1,1),body=b'AREA:ECHO\r\x01MSGID: %s\rBody %s\r'%(mid.encode(),mid.encode()))))
                            else: ms.append(('n',mid,Msg((o.n,o.f),(1,1),body=b'\x01INTL 1:1/1 1:1/10\r\x01MSGID: %s\rNet %s\r'%(mid.encode(),mid.encode()))))
                        data=bytearray(mkpkt(o,d,[m for _,_,m in ms],kind=kind)); data[26:26+len(given[:8])]=given[:8]; data=bytes(data)
                        name=w.inbound(data)
                        # model
                        eo,ed=effective(cfg,o,d,kind); ev+=1
                        if check and not nosec and not any(samez(A(a),ed) for a in AKAS): badfiles[name]=data; nt.add('dest'); continue
                        node=cfg.node(eo); g=given[:8].split(b'\0')[0].decode()
                        for t,mid,m in ms:
                            if node and node.pw and not nosec and (t=='e' or not nonm) and g.lower()!=node.pw.lower(): badfiles[name]=data; nt.add('pw'); break
                            if t=='n': net.append(mid); continue
                            v,rec,_,_=toss_echo(cfg,eo,area,[],[])
                            if nosec: v,rec='ok',[a for a,fl in area.links if a!=eo and fl!='@']
                            nt.add((s,kind,v))
                            if v=='ok':
                                imp.append(mid)
                                for r in rec: fwd.setdefault(r,[]).append(mid)
                            else: bad[mid]=(v[4:],eo)
        tag='pw length %d CHECKPKTDEST=%d NOSECURITY=%d NONETMAILPASSWORD=%d dest %s: '%(pwlen,check,nosec,nonm,DESTS[di])
        r=w.cm('TOSS',*(['NOSECURITY'] if nosec else []))
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        verify(w,cfg,tag,fwd,imp,bad,net,badfiles,'areas/echo')
    return dict(evaluations=ev,nontrivial=[(c,x) for x in nt],states=ev,transitions=ev,sample=dict(case=repr(c),packets=n))
def verify(w,cfg,tag,fwd,imp,bad,net,badfiles,echodir):
    left=set(w.ls('in')); want={b+'.bad' for b in badfiles}
    if left!=want: raise Violation(tag+'inbound contains %r, expected only the refused packets %r'%(sorted(left-want)[:3] or 'less',sorted(want-left)[:3]))
    for b,d in badfiles.items():
        if w.read('in/'+b+'.bad')!=d: raise Violation(tag+'refused packet %s was changed'%b)
    items,prob=outbound(w,cfg.zones())
    if prob: raise Violation(tag+'; '.join(prob[:3]))
    got={}
    for it in items:
        for p in it.pkts:
            for m in p.msgs: got.setdefault(it.dest,[]).append(m.body.split(b'MSGID: ')[1].split(b'\r')[0].decode())
    for d in set(got)|set(fwd):
        a,b=sorted(got.get(d,[])),sorted(fwd.get(d,[]))
        if a!=b: raise Violation(tag+'to %s: wrongly sent %r, missing %r'%(S(d),sorted(set(a)-set(b))[:4],sorted(set(b)-set(a))[:4]))
    def ids(d): return sorted(m.text.split(b'MSGID: ')[1].split(b'\r')[0].decode() for k,m in read_msgdir(w.p(d)).items() if k>1)
    if ids(echodir)!=sorted(imp): raise Violation(tag+'imported %r'%sorted(set(ids(echodir))^set(imp))[:5])
    if ids('areas/net')!=sorted(net): raise Violation(tag+'netmail imported: difference %r'%sorted(set(ids('areas/net'))^set(net))[:5])
    g={}
    for k,m in read_msgdir(w.p('areas/bad')).items():
        if k>1: g[m.text.split(b'MSGID: ')[1].split(b'\r')[0].decode()]=m.text.decode('latin1')
    if set(g)!=set(bad): raise Violation(tag+'BAD area: difference %r'%sorted(set(g)^set(bad))[:5])
    for mid,(reason,eo) in bad.items():
        t=g[mid]
        if 'ERROR:'+reason+'\r' not in t: raise Violation(tag+'BAD reason of %s: %r expected %r'%(mid,t[:120],reason))
        if 'PKTORIG:'+S(eo)+'\r' not in t or not t.startswith('AREA:'): raise Violation(tag+'BAD info of %s: %r'%(mid,t[:120]))
        if 'Body %s\r'%mid not in t: raise Violation(tag+'BAD text of %s lost'%mid)
NAMES=['ECHO','echo','Echo','ECHO2','ECH','ECHO.','ECHOX','XECHO','BAD','NET','DEFAULT',' ECHO','ECHO ','  echo  ','E'*79,'E'*80,'E'*100,'EC HO','ECHO/A','a"b','ECHO\t']
def case_names(c):
    """area names: only the area itself, in any letter case and with surrounding blanks, is hit"""
    name,sender=c
    cfg=Cfg([Aka('1:1/1')],[Node('1:1/10'),Node('1:1/20')],[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),Area('ECHO','1:1/1',('MSG','areas/echo'),[('1:1/10',''),('1:1/20','')])])
    with World(cfg.text()) as w:
        w.inbound(mkpkt(A(sender),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:'+name.encode()+b'\r\1MSGID: %s\rBody %s\r'%(m,m)) for m in (b'x1',b'x2')]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation('area %r: exit %r'%(name,r.rc))
        hit=name.strip(' \t').lower()=='echo'; ok=hit and sender!='1:1/11'
        special=name.strip().upper() in ('BAD','NET','DEFAULT')
        reason='Node does not receive this area' if hit or name.strip().upper() in ('BAD','NET') else 'Unknown area (auto-added but not confirmed)'
        verify(w,cfg,'area %r from %s: '%(name,sender),{A('1:1/20'):['x1','x2']} if ok else {},['x1','x2'] if ok else [],{} if ok else {m:(reason,A(sender)) for m in ('x1','x2')},[],{},'areas/echo')
        # next run must still know the area as unconfirmed
        w.inbound(mkpkt(A(sender),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:'+name.encode()+b'\r\1MSGID: x3\rBody x3\r')]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation('area %r: second run exit %r: %r'%(name,r.rc,r.out[-200:]))
        ms=['x1','x2','x3']
        verify(w,cfg,'second run, area %r from %s: '%(name,sender),{A('1:1/20'):ms} if ok else {},ms if ok else [],{} if ok else {m:(reason,A(sender)) for m in ms},[],{},'areas/echo')
    return dict(evaluations=2,nontrivial=[c],states=2,transitions=2)
FLG=['MANDATORY','DEFREADONLY','IGNOREDUPES','IGNORESEENBY']
def case_auto(c):
    """auto-add: who may create an area and with which settings"""
    auto,defs,dgroup,flags,addg,keep,sender=c
    nodes=[Node(x) for x in ('1:5/20','2:1/10','1:1/10.2')]+[Node('1:1/10',('AUTOADD',) if auto else (),defgroup=dgroup,afinfo=('pw','AB','','')),Node('1:1/20',afinfo=('pw','AB',*{0:('',''),1:('','A'),2:('A','A'),3:('','BC')}[addg])),Node('1:1/30'),Node('2:5/20',afinfo=('pw','','','AC'))]
    areas=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL')]
    opts=list(flags)+(['KEEPNUM 77','KEEPDAYS 9'] if keep else [])
    if 'D' in defs: areas.append(Area('DEFAULT','1:1/1',('MSG','areas/d_%a'),[('1:1/30','')],opts=opts,desc='def desc'))
    if 'A' in defs: areas.append(Area('DEFAULT_AC','1:1/1',('JAM','areas/g_%l'),[('1:1/30','!')],desc='group desc'))
    if 'P' in defs: areas.append(Area('DEFAULT','1:1/1',None,[],opts=opts))
    cfg=Cfg([Aka(x) for x in ('1:1/1.4','1:5/1','1:1/1','2:1/1','2:5/1')],nodes,areas)
    tag='auto-add %r: '%(c,)
    with World(cfg.text()) as w:
        for i in (1,2):
            w.inbound(mkpkt(A(sender),A('2:5/1' if sender.startswith('2') else '1:1/1'),[Msg((1,10),(1,1),body=b'AREA:New.Area\r\1MSGID: m%d\rBody m%d\r'%(i,i))]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        conf=cfgparse.parse(w.read('cm.cfg').decode()); a=conf.areas.get('NEW.AREA')
        if a is None: raise Violation(tag+'area not written to the configuration')
        conf0=cfgparse.parse(cfg.text())
        if {k:v for k,v in conf.areas.items() if k!='NEW.AREA'}!=conf0.areas or conf.nodes!=conf0.nodes or conf.other!=conf0.other: raise Violation(tag+'other settings changed')
        sn=cfg.node(A(sender)); live=sn is not None and 'AUTOADD' in sn.flags
        dg=sn.defgroup if sn else None
        da=None
        if dg and 'A' in defs and dg in 'AC': da='A'
        elif 'D' in defs: da='D'
        elif 'P' in defs: da='P'
        want=dict(tag='New.Area',kind='AREA',aka=A('2:5/1') if sender.startswith('2') else A('1:1/1'),imports=[],banned=[])
        want['base']=() if da in (None,'P') else (('JAM','areas/g_new_area') if da=='A' else ('MSG','areas/d_New_Area'))
        lk={}
        if da=='D': lk[A('1:1/30')]=''
        if da=='A': lk[A('1:1/30')]='!'
        fl=set(flags) if da in ('D','P') else set()
        if not live: fl={'UNCONFIRMED'}
        want['flags']=fl
        if da=='D': want['DESCRIPTION']=('def desc',)
        if da=='A': want['DESCRIPTION']=('group desc',)
        if keep and da in ('D','P'): want['KEEPNUM']=('77',); want['KEEPDAYS']=('9',)
        if sn:
            lk.setdefault(sn.addr,'%')
            if dg: want['GROUP']=(dg,)
            for n in cfg.nodes:
                if dg and n.afinfo and dg in n.afinfo[3]: lk.setdefault(n.addr,'!' if 'DEFREADONLY' in fl or dg in n.afinfo[2] else '')
        got=dict(a); gl=dict(got.pop('links'))
        if len(gl)!=len(a['links']) or gl!=lk: raise Violation(tag+'links %r expected %r'%(a['links'],lk))
        if got!=want: raise Violation(tag+'new area %r expected %r'%(got,want))
        rec=[x for x,f in lk.items() if x!=A(sender) and f!='@'] if live else []
        def state(ms,tag):
            items,prob=outbound(w,dict(cfg.zones()))
            if prob: raise Violation(tag+'; '.join(prob[:3]))
            got={}
            for it in items:
                for p in it.pkts:
                    for m in p.msgs: got.setdefault(it.dest,[]).append(m.body.split(b'MSGID: ')[1].split(b'\r')[0].decode())
            if {k:sorted(v) for k,v in got.items()}!=({x:ms for x in rec} if rec else {}): raise Violation(tag+'queued %r expected %r for %r'%(got,ms,rec))
            b=[m for k,m in read_msgdir(w.p('areas/bad')).items() if k>1]
            if len(b)!=(0 if live else len(ms)): raise Violation(tag+'%d messages in BAD'%len(b))
            if any(b'ERROR:Unknown area (auto-added but not confirmed)\r' not in m.text for m in b): raise Violation(tag+'BAD reason')
            if live and want['base']:
                if want['base'][0]=='JAM': k=len(read_jam(w.p(want['base'][1])).msgs)
                else: k=len([1 for q in read_msgdir(w.p(want['base'][1])) if q>1])
                if k!=len(ms): raise Violation(tag+'%d messages in the new area, expected %d'%(k,len(ms)))
            else:
                if any(x.startswith(('d_','g_')) for x in w.ls('areas')): raise Violation(tag+'message base created for a refused area')
        state(['m1','m2'],tag)
        w.inbound(mkpkt(A(sender),A('2:5/1' if sender.startswith('2') else '1:1/1'),[Msg((1,10),(1,1),body=b'AREA:NEW.AREA\r\1MSGID: m3\rBody m3\r')]))
        before=w.read('cm.cfg')
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'second run exit %r'%r.rc)
        if w.read('cm.cfg')!=before: raise Violation(tag+'second run changed the configuration')
        state(['m1','m2','m3'],tag+'second run: ')
    return dict(evaluations=2,nontrivial=[c],states=2,transitions=2)
LIST1=[b'OTHER other text\n',b'NEW prefix desc\r\n',b'NEW.AREA2 longer tag\n',b'XNEW.AREA suffix\n',b'new.area   The  new area\r\n',b'NEW.AREA second entry\n',b'BARE\n',b'BLANK   \r\n',b'BARE later one\n',b'\n',b'; c\n',b'LONG '+b'x'*90+b'\n',b'EIGHT \xd6ppet \xe5\xe4\xf6\n',b'TABBED\ttab desc\n',b'DOT. with dot\n',b'LAST no newline']
def lookup(lists,tag):
    for lines in lists:
        for l in lines:
            p=l.rstrip(b'\r\n').split(None,1)
            if len(p)==2 and p[0].lower()==tag.lower(): return p[1].lstrip()[:77].rstrip(b'\r\n')
    return None
def case_autodesc(c):
    """descriptions of auto-added areas come from the sender's DESC list, by exact area name, else from the default area"""
    tagn,order,flags,defs,sender,missing=c
    nodes=[Node('1:1/10',('AUTOADD',)),Node('1:1/20',('AUTOADD',)),Node('1:1/30')]
    areas=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL')]
    if defs: areas.append(Area('DEFAULT','1:1/1',('MSG','areas/d_%a'),desc='def desc'))
    L={'1':('1:1/10','l1',LIST1),'2':('1:1/10','l2',[b'NEW.AREA from list two\n',b'TWO only in two\n']),'o':('1:1/20','l3',[b'NEW.AREA of another node\n',b'NEW other\n',b'THREE x\n'])}
    tail=''.join('AREALIST %s "%s"%s\n'%(L[k][0],L[k][1],flags) for k in order)
    cfg=Cfg([Aka('1:1/1')],nodes,areas,tail=tail); tag='description %r: '%(c,)
    with World(cfg.text()) as w:
        for k in order:
            if not (missing and k==order[0]): w.write(L[k][1],b''.join(L[k][2]))
        w.inbound(mkpkt(A(sender),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:'+tagn.encode()+b'\r\1MSGID: m1\rBody m1\r')]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        conf=cfgparse.parse(w.read('cm.cfg').decode('latin1')); a=conf.areas.get(tagn.upper())
        if a is None: raise Violation(tag+'area not added')
        d=lookup([L[k][2] for k in order if L[k][0]==sender and not (missing and k==order[0])],tagn.encode()) if 'DESC' in flags else None
        want=(d.decode('latin1'),) if d else (('def desc',) if defs else None)
        if a.get('DESCRIPTION')!=want: raise Violation(tag+'description %r, expected %r'%(a.get('DESCRIPTION'),want))
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def case_autoaka(c):
    """an auto-added area gets the address the packet was sent to, else the main address; %a/%l/%8 are replaced in the default path"""
    akas,dest,tmpl,tagn=c
    nodes=[Node('1:1/10',('AUTOADD',)),Node('1:1/30')]
    areas=[Area('BAD',akas[0],('MSG','areas/bad')),Area('NET',akas[0],('MSG','areas/net'),kind='NETMAIL'),Area('DEFAULT',akas[-1],('MSG','areas/'+tmpl),[('1:1/30','')])]
    uniq=re.search('%[aAlL8]',tmpl); cfg=Cfg([Aka(x) for x in akas],nodes,areas); tag='auto-add %r: '%(c,)
    with World(cfg.text()) as w:
        w.inbound(mkpkt(A('1:1/10'),A(dest),[Msg((1,10),(1,1),body=b'AREA:'+t.encode('latin1')+b'\r\1MSGID: %s\rBody x\r'%t.encode('latin1')) for t in (tagn,'SECOND','third')]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        conf=cfgparse.parse(w.read('cm.cfg').decode('latin1')); paths=[]
        for t in (tagn,'SECOND','third'):
            a=conf.areas.get(t.upper())
            if a is None: raise Violation(tag+'area %s not added'%t)
            if a['tag']!=t: raise Violation(tag+'area written as %r'%a['tag'])
            if a['aka']!=A(dest if dest in akas else akas[0]): raise Violation(tag+'area %s got address %s'%(t,S(a['aka'])))
            san=''.join('_' if ch in '"#\'`()*,./:;<>|' or not 33<=ord(ch)<=126 else ch for ch in t)
            exp='areas/'+re.sub('%[aAlL8]',lambda q:{'%a':san,'%l':san.lower(),'%8':'\0'}[q.group(0).lower()],tmpl)
            got=a['base'][1] if a['base'] else None
            m=re.fullmatch(re.escape(exp).replace(re.escape('\0'),'([0-9a-f]{8})'),got or '')
            if not m and len(exp)<79: raise Violation(tag+'path %r expected %r'%(got,exp))
            if uniq and got in paths: raise Violation(tag+'two areas share the path %r'%got)
            paths.append(got)
            k=[m.text for q,m in read_msgdir(w.p(got)).items() if q>1]
            if uniq and (len(k)!=1 or b'\1MSGID: %s\r'%t.encode('latin1') not in k[0]): raise Violation(tag+'area %s holds %r'%(t,k))
        items,prob=outbound(w,dict(cfg.zones()))
        if prob: raise Violation(tag+'; '.join(prob[:3]))
        n=sum(len(p.msgs) for it in items for p in it.pkts if it.dest==A('1:1/30'))
        if n!=3 or len(items)!=1: raise Violation(tag+'%d messages forwarded'%n)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def main():
    ck=Check('C04','exploration','all senders (linked rw/ro/wo/feed, unlinked, unknown, similar addresses) x header kinds x given passwords (none, wrong, right, case variant, prefix, extension, junk after NUL) x order of netmail/echomail x packet destinations x CHECKPKTDEST x NOSECURITY x NONETMAILPASSWORD x password length; area-name variants; auto-add rights x default areas x groups x flags; non-trivial = distinct (configuration, sender, verdict)')
    world.init()
    ck.explore('auth',case_auth,[(p,c,n,m,d) for p in (1,2,8) for c in (0,1) for n in (0,1) for m in (0,1) for d in range(len(DESTS))])
    ck.explore('names',case_names,[(n,s) for n in NAMES for s in ('1:1/10','1:1/11')])
    cs=[]
    for auto in (0,1):
        for defs in ('','D','A','AD','DA','P','AP'):
            for dg in (None,'A','B','C'):
                for fl in itertools.chain.from_iterable(itertools.combinations(FLG,k) for k in range(5)):
                    for addg in range(4):
                        for keep in (0,1):
                            for s in ('1:1/10','1:1/11','2:5/20'):
                                if not thorough():
                                    if (fl or keep) and (addg in (0,3) or s!='1:1/10' or dg in (None,'C')): continue
                                    if len(fl) in (2,3) and defs not in ('D','AD'): continue
                                cs.append((auto,defs,dg,fl,addg,keep,s))
    ck.explore('auto-add',case_auto,cs,chunk=4)
    tags=['NEW.AREA','New.Area','NEW','NEW.AREA2','NEW.ARE','BARE','BLANK','LONG','EIGHT','TABBED','DOT.','DOT','LAST','TWO','THREE','NONE',';']
    ck.explore('descriptions',case_autodesc,[(t,o,f,d,s,m) for t in tags for o in ('1','12','21','o1','1o','o12') for f in (' DESC',' FORWARD',' GROUP A FORWARD DESC','') for d in (0,1) for s in ('1:1/10','1:1/20') for m in (0,1) if thorough() or (d and (s=='1:1/10' or 'o' in o)) and (not m or len(o)>1) and f in (' DESC',' FORWARD') ],chunk=8)
    AK=[('1:1/1',),('1:1/1','1:1/2','1:1/1.5','2:5/1'),('2:5/1','1:1/1.5','1:1/2','1:1/1'),('1:2/1','1:1/1','1:1/10.1')]
    TM=['%a','x%l','X%A_%L','%8','d%8.x','f_%8%a','p%','50%%a','%','fixed','%b%a']
    ck.explore('addresses and paths',case_autoaka,[(a,d,t,g) for a in AK for d in ('1:1/1','1:1/2','1:1/1.5','2:5/1','1:2/1','3:3/3','1:1/1.6') for t in TM for g in ('New.Area','a"b#c','`x(y)*,z','P:Q;R<S>T|U','a/b/../c',"it's",'E'*40,'\xe5\xe4x','%a%8') if thorough() or t=='%a' and g=='New.Area' or a==AK[1] and d=='1:1/2'],chunk=8)
    ck.finish()
if __name__=='__main__': main()
