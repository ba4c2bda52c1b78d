"""C15: AreaFix: every sequence of command lines up to a depth, against a model written from the documentation."""
import _boot,itertools,re,copy
import world; from world import *
from emodel import *
from harness import *
import cfgparse
OWN='1:1/1'
ME='1:1/10'; FWD='1:1/20'; PT='1:1/30.3'; UP='1:1/50'; UP2='1:1/60'
LONG='A.VERY.LONG.AREA.NAME.OF.MORE.THAN.THIRTY.CHARACTERS'
def mkcfg(opts):
    nodes=[Node(ME,afinfo=('PW','AL','R',''),packer='P1',flags=('SENDTEXT',),extra=['REMOTESYSOP "Me Op"']),Node('1:1/100',afinfo=('PW','AL','R','')),
           Node(FWD,('FORWARDREQ','SENDAREAFIX','SENDTEXT'),afinfo=('Two Words','AF','','Q'),remoteaf='"AFix" "rpw"',extra=['REMOTESYSOP "Fwd Op"']),
           Node(PT,('PASSIVE','SENDAREAFIX'),afinfo=('','','A',''),remoteaf='"PtFix" "ppw"'),
           Node(UP,('NOTIFY',),afinfo=('UPW','A','',''),defgroup='U',remoteaf='"UpFix" "uppw"'),Node(UP2,remoteaf='"Up2Fix" "u2pw" NEEDSPLUS')]
    areas=[Area('BAD',OWN,('MSG','areas/bad')),Area('NETM',OWN,('MSG','areas/net'),kind='NETMAIL',group='A'),Area('LOCL',OWN,('MSG','areas/locl'),kind='LOCALAREA',group='A'),
           Area('ALPHA',OWN,('MSG','areas/alpha'),[('1:1/100',''),(UP,'%')],group='A',desc='The first one'),
           Area('ALPHABET',OWN,('JAM','areas/alphabet'),[],group='A'),
           Area('ALRO',OWN,None,[(UP,'%'),(FWD,'')],group='R'),
           Area('BETA',OWN,None,[('1:1/100','')],group='B'),
           Area('BAN',OWN,None,[('1:1/100','')],group='A',banned=['1:1/100',ME,PT]),
           Area('MAND',OWN,('MSG','areas/mand'),[(ME,''),(PT,''),('1:1/100','')],opts=['MANDATORY'],group='A'),
           Area('MANDFEED',OWN,None,[(ME,'%'),(FWD,''),('1:1/100','')],opts=['MANDATORY'],group='A'),
           Area('DEFRO',OWN,None,[(UP,'%')],opts=['DEFREADONLY'],group='A'),
           Area('LINKED',OWN,('MSG','areas/linked'),[('1:1/100',''),(ME,''),(PT,'!'),(FWD,'@'),(UP,'')],group='L'),
           Area('FEEDME',OWN,('MSG','areas/feedme'),[(ME,'%'),(FWD,''),(PT,''),('1:1/100','')],group='B'),
           Area('NOGROUP',OWN,None,[('1:1/100','')]),
           Area('PASSMINE',OWN,None,[(UP,'%'),(ME,'')],group='A'),
           Area('PASSBOTH',OWN,None,[(UP2,'%'),(ME,'!'),(FWD,'')],group='A'),
           Area('PASSLAST',OWN,None,[(FWD,'')],group='A'),
           Area(LONG,OWN,None,[('1:1/100','')],group='A')]
    if '+RO' in opts: nodes[2].afinfo=('Two Words','AF','AFR','Q')
    opts=tuple(o for o in opts if o!='+RO')
    return Cfg([Aka(OWN)],nodes,areas,opts=opts,routes=['"*:*/*.*" "*:*/*.*" '+OWN],packers=['"P1" "pk1 %a %f" "un1 %a" "P1"','"P2" "pk2 %a %f" "un2 %a" "P2"','"NOPACK" "" "un3 %a" "P3"'],
        tail='AREAFIXNAME "AreaFix"\nAREAFIXNAME "Area Mgr"\nAREAFIXHELP "af.hlp"\nGROUPNAME A "Group A"\nGROUPNAME R "Group R"\nAREALIST %s "up.lst" GROUP F FORWARD\nAREALIST %s "nofwd.lst" GROUP F DESC\nAREALIST %s "grp.lst" GROUP G FORWARD\nAREALIST %s "up2.lst" GROUP A FORWARD DESC\n'%(UP,UP,UP,UP2))
LISTS={'up.lst':b'FWDONE A description\r\nFWD.TWO\nALPHA we have it\nALPHAX\nALPH\nFWD.TWOS begins alike\nFWD\n'+b'LONG '+b'd'*193+b'HIDDEN not an area\n\xc5REA 8-bit\n','nofwd.lst':b'NOFWD nothing\n','grp.lst':b'GRPONLY x\n','up2.lst':b'ONTWO   Area on uplink two\nFwdOne second best\n'}
HELP=b'Help line one\n\nThird help line, with 50%% and %s\nlast line\n'
def match(pat,tag):
    pat,tag=pat.lower(),tag.lower()
    for i,ch in enumerate(pat):
        if ch=='*': return True      # the rest is anything
        if i>=len(tag): return False
        if ch!='?' and ch!=tag[i]: return False
    return len(pat)==len(tag)
class M:
    """the model: what every line does"""
    def __init__(s,cfg):
        s.cfg=cfg; s.opts=cfg.opts
        s.nodes={n.addr:dict(passive='PASSIVE' in n.flags,pw=n.afinfo[0] if n.afinfo else '',packer=n.packer,groups=n.afinfo[1] if n.afinfo else '',ro=n.afinfo[2] if n.afinfo else '',fwd='FORWARDREQ' in n.flags,flags=n.flags) for n in cfg.nodes}
        s.areas=[dict(tag=a.tag,kind=a.kind,group=a.group or '',pt=a.base is None,links=list(a.links),banned=[A(x) for x in a.banned],mand='MANDATORY' in a.opts,defro='DEFREADONLY' in a.opts,desc=a.desc or '') for a in cfg.areas]
    def allowed(s,a,n): return a['group']!='' and (a['group'] in n['groups'] or a['group'] in n['ro'])
    def echo(s): return [a for a in s.areas if a['kind']=='AREA' and a['tag']!='BAD']
    def area(s,tag):
        for a in s.areas:
            if a['tag'].lower()==tag.lower(): return a
    def request(s,node,subj,text,name='AreaFix'):
        """-> list of netmails as (dest, kind, detail)"""
        s.mails=[]; s.words=[]; s.lists=[]
        me=A(node); n=s.nodes.get(me)
        if n is None: return [(me,'reply',[('not configured',)])]
        ws=cfgparse.words(subj) or ['']
        if ws[0].lower()!=n['pw'].lower(): return [(me,'reply',[('wrong password',)])]
        if len(ws)>1 and ws[1].lower() in ('-q','-l'): s.lists.append('full'); s.words.append(('list',))
        remote={}
        for line in text.split('\r'):
            stop=line.startswith('---')
            l=line.strip(' ')
            if l and not stop and l[0]!='\1': s.line(me,n,l,remote)
            if stop: break
        out=[(me,'reply',s.words)]+s.mails
        kinds=[k for k in ('full','query','unlinked','help','info') if k in s.lists]
        for k in kinds: out.append((me,k,s.listing(me,n,k)))
        for d in [x.addr for x in s.cfg.nodes]:
            if d in remote: out.append((d,'remote',remote[d]))
        return out
    def listing(s,me,n,k):
        if k in ('help','info'): return None
        out={}
        for a in s.echo():
            l=[fl for x,fl in a['links'] if x==me]
            if k=='query': ok=bool(l)
            elif k=='unlinked': ok=not l and s.allowed(a,n)
            else: ok=bool(l) or s.allowed(a,n)
            if ok: out[a['tag']]='%' if l and l[0]=='%' else '*' if l and k=='full' else ' '
        if 'INCLUDEFORWARD' in s.opts and k!='query' and n['fwd']:
            for f,g in (('up.lst','F'),('grp.lst','G'),('up2.lst','A')):
                if g in n['groups']:
                    for t in LISTS[f].decode('latin1').split('\n'):
                        t=t.strip().split(' ')[0]
                        if t and not s.area(t) and t.lower() not in [x.lower() for x in out]: out[t]=' '
        return out
    def line(s,me,n,l,remote):
        W=s.words.append
        if l[0]=='%':
            ws=cfgparse.words(l); c=ws[0].upper()
            if c=='%PAUSE': W(('already passive',) if n['passive'] else ('marked as passive',)); n['passive']=True
            elif c=='%RESUME': W(('active again',) if n['passive'] else ('not paused',)); n['passive']=False
            elif c=='%PWD':
                if len(ws)>1: n['pw']=ws[1][:39]; W(('password changed',))
                else: W(('no new password',))
            elif c=='%RESCAN': W(('rescan',))
            elif c=='%COMPRESS':
                if len(ws)<2: W(('no new method',)); return
                if ws[1].startswith('?'): W(('p1',)); W(('p2',)); W(('none',)); return
                if ws[1].upper() in ('P1','P2','NONE'): n['packer']='' if ws[1].upper()=='NONE' else ws[1].upper(); W(('changed',))
                else: W(('unknown packer',)); W(('p2',))
            elif c in ('%LIST','%QUERY','%UNLINKED','%HELP','%INFO'): s.lists.append({'%LIST':'full'}.get(c,c[1:].lower())); W(('sending',))
            else: W(('unknown command',))
            return
        name=l; opt=''
        if ',' in l: name,opt=l.rsplit(',',1)
        name=name.rstrip(); cmd='+'
        if name[0] in '+-=': cmd,name=name[0],name[1:]
        wild='*' in name or '?' in name; hit=False; exists=False
        for a in list(s.echo()):
            if not match(name,a['tag']): continue
            exists=True; ln=[x for x in a['links'] if x[0]==me]
            w=(a['tag'].lower(),) if wild else (l.lower()[:30],) if len(l)<=30 else ()
            if cmd=='+':
                if ln: hit=True; W(w+('already attached',))
                elif not s.allowed(a,n):
                    if not wild: W(w+("don't have access",))
                else:
                    hit=True
                    if me in a['banned']: W(w+('banned',))
                    else:
                        ro=a['defro'] or a['group'] in n['ro']; a['links'].append((me,'!' if ro else '')); W(w+('attached',)+(('read-only',) if ro else ()))
            elif cmd=='-':
                if not ln:
                    if not wild: hit=True; W(w+('not attached',))
                    continue
                hit=True
                if a['mand'] and ln[0][1]!='%': W(w+('not allowed',)); continue
                W(w+('detached',)); a['links'].remove(ln[0])
                if ln[0][1]=='%' and 'REMOVEWHENFEED' in s.opts:
                    for x,fl in a['links']:
                        cn=s.cfg.node(x)
                        if 'SENDAREAFIX' in cn.flags: s.mails.append((x,'remote',['-'+a['tag']]))
                        if 'SENDTEXT' in cn.flags and fl!='%': s.mails.append((x,'text',a['tag']))
                    s.areas.remove(a)
                elif 'AREAFIXREMOVE' in s.opts and a['pt']:
                    if not a['links'] or (len(a['links'])==1 and a['links'][0][1]=='%'):
                        if a['links']: remote.setdefault(a['links'][0][0],[]).append('-'+a['tag'])
                        s.areas.remove(a)
            else:
                if ln: hit=True
        if wild and not hit: W(('no matching areas',))
        if not wild and not hit and not (cmd=='+' and exists):
            if cmd=='+' and n['fwd']:
                for f,g,up in (('up.lst','F',UP),('grp.lst','G',UP),('up2.lst','A',UP2)):
                    tags=[t.strip().split(' ')[0] for t in LISTS[f].decode('latin1').split('\n')]
                    if g in n['groups'] and name.lower() in [t.lower() for t in tags if t]:
                        links=[(A(up),'%')]
                        if up==UP: pass
                        links.append((me,'!' if g in n['ro'] else ''))
                        s.areas.append(dict(tag=name,kind='AREA',group=g,pt='FORWARDPASSTHRU' in s.opts or True,links=links,banned=[],mand=False,defro=False,desc='',new=True))
                        remote.setdefault(A(up),[]).append(('+' if up==UP2 else '')+name); W(('request sent to '+S(A(up)),)); return
            W(('unknown area',) if cmd!='=' else ('not attached',))
def state(m):
    return ({a:(n['passive'],n['pw'],n['packer']) for a,n in m.nodes.items()},[(a['tag'],a['kind'],a['group'],tuple(a['links'])) for a in m.areas])
def actual(c):
    return ({a:('PASSIVE' in n['flags'],n.get('AREAFIXINFO',('',))[0],n['packer']) for a,n in c.nodes.items()},
            [(c.areas[t]['tag'],c.areas[t]['kind'],c.areas[t].get('GROUP',('',))[0],tuple((x,f) for x,f in c.areas[t]['links'])) for t in c.areaorder])
def rest(c,touched=()):
    """everything a request must not change"""
    nodes={a:{k:v for k,v in n.items() if k not in ('flags','packer','AREAFIXINFO')} for a,n in c.nodes.items()}
    fl={a:(n['flags']-{'PASSIVE'},n.get('AREAFIXINFO',('','','',''))[1:]) for a,n in c.nodes.items()}
    return nodes,fl,{t:{k:v for k,v in a.items() if k!='links'} for t,a in c.areas.items()},c.other
def rx(words,lines):
    """do the result words occur, in order, each in a line of its own?"""
    i=0
    for w in words:
        while i<len(lines) and not all(x in lines[i] for x in w): i+=1
        if i>=len(lines): return w
        i+=1
def requestmsg(node,subj,text,to=b'AreaFix',dest=(1,1)):
    a=A(node); return Msg((a.n,a.f),dest,attr=PVT,to=to,frm=b'Node Op',subj=subj,body=b'\1INTL 1:%d/%d %s\r'%(dest[0],dest[1],S(a,False).encode())+(b'\1FMPT %d\r'%a.p if a.p else b'')+text)
def prepare(w):
    for f,d in LISTS.items(): w.write(f,d)
    w.write('af.hlp',HELP)
def netmails(w,tag,zones={'out':1,'out.002':2},kinds=('netmail',)):
    items,prob=outbound(w,zones)
    if prob: raise Violation(tag+prob[0])
    out=[]
    for it in items:
        if it.kind not in kinds: raise Violation(tag+'unexpected %s for %s'%(it.kind,S(it.dest)))
        for p in it.pkts:
            for m in p.msgs:
                lines=[l for l in m.body.decode('latin1').split('\r')]
                out.append((it.dest,m,lines))
    for d in ('out',):
        for f in w.ls(d):
            if os.path.isdir(w.p(d,f)): shutil.rmtree(w.p(d,f))
            else: os.unlink(w.p(d,f))
    return out
def judge_mails(expected,got,tag,toname='Node Op'):
    got=list(got)
    for dest,kind,detail in expected:
        for i,(d,m,lines) in enumerate(got):
            if d!=dest: continue
            sub=m.subj.decode('latin1'); low=[l.lower() for l in lines]; body=[l for l in lines if not l.startswith('\1') and l]
            if kind in ('remote','text'):
                n=detail if kind=='remote' else None
                if kind=='remote':
                    if body[:len(detail)]==detail and (body[len(detail)].startswith('---')) and sub in ('uppw','u2pw','rpw','ppw'):
                        want={UP:(b'UpFix','uppw'),UP2:(b'Up2Fix','u2pw'),FWD:(b'AFix','rpw'),PT:(b'PtFix','ppw')}[S(dest,dest.p!=0)]
                        if (m.to,sub)!=want: raise Violation(tag+'request to %s goes to %r with password %r'%(S(dest),m.to,sub))
                        break
                elif sub=='Area removed' and any('"%s"'%detail in l for l in lines) and m.to in (b'Me Op',b'Fwd Op'): break
                continue
            subj={'reply':'AreaFix response','full':'AreaFix list of areas','query':'AreaFix list of areas','unlinked':'AreaFix list of areas','help':'AreaFix help','info':'AreaFix configuration info'}[kind]
            if sub!=subj: continue
            if kind=='query' and not any('connected areas' in l for l in low): continue
            if kind=='full' and not any('available areas' in l for l in low): continue
            if kind=='unlinked' and not any('unlinked areas at' in l for l in low): continue
            if m.to!=toname.encode(): raise Violation(tag+'%s addressed to %r'%(kind,m.to))
            if m.frm!=b'Sys Op': raise Violation(tag+'%s comes from %r'%(kind,m.frm))
            if not m.attr&PVT: raise Violation(tag+'%s is not private'%kind)
            if kind=='reply':
                miss=rx(detail,low)
                if miss: raise Violation(tag+'the reply does not report %s in order: %r'%(' + '.join(miss),body))
            elif kind=='help':
                want=HELP.decode().split('\n')[:-1]; j=[k for k,l in enumerate(lines) if not l.startswith('\1')][0]
                if lines[j:j+len(want)]!=want: raise Violation(tag+'help text is %r'%lines)
            elif kind=='info': 
                if not any(S(dest) in l for l in lines): raise Violation(tag+'configuration info of the wrong node: %r'%lines)
            else:
                seen={}; 
                for l in lines[1:]:
                    q=re.fullmatch(r'([ *%])([A-Za-z\xc0-\xff][A-Za-z0-9.\xc0-\xff]*) +.*',l)
                    if q and q.group(2) not in ('Tagname','Group'):
                        if q.group(2) in seen: raise Violation(tag+'%s listed twice'%q.group(2))
                        seen[q.group(2)]=q.group(1)
                if seen!=detail: raise Violation(tag+'list (%s) is wrong: %s'%(kind,sorted(set(seen.items())^set(detail.items()))))
            break
        else: raise Violation(tag+'no %s for %s%s; sent: %s'%(kind,S(dest),' '+repr(detail) if kind in('remote','text') else '',[(S(d),m.subj,l[:12]) for d,m,l in got]))
        del got[i]
    if got: raise Violation(tag+'unexpected message to %s: %r %r'%(S(got[0][0]),got[0][1].subj,got[0][2]))
def compare(w,m,before,tag):
    c=cfgparse.parse(w.read('cm.cfg').decode('latin1')); want=state(m); got=actual(c)
    if got[0]!=want[0]: raise Violation(tag+'nodes are %s, expected %s'%(sorted(set(got[0].items())-set(want[0].items())),sorted(set(want[0].items())-set(got[0].items()))))
    if got[1]!=want[1]: raise Violation(tag+'areas are %s, expected %s'%([x for x in got[1] if x not in want[1]],[x for x in want[1] if x not in got[1]]))
    b,a=rest(before),rest(c); new={x['tag'].upper() for x in m.areas if x.get('new')}; have={x['tag'].upper() for x in m.areas}
    if a[0]!=b[0] or a[1]!=b[1]: raise Violation(tag+'other settings of a node changed: %s -> %s'%(b[:2],a[:2]))
    if {t:x for t,x in a[2].items() if t not in new}!={t:x for t,x in b[2].items() if t in have}: raise Violation(tag+'other settings of an area changed: %s'%[ (b[2].get(t),a[2].get(t)) for t in a[2] if t not in new and a[2][t]!=b[2].get(t)])
    if a[3]!=b[3]: raise Violation(tag+'other lines changed')
PWS={ME:'PW',FWD:'"Two Words"',PT:'','1:1/100':'pw',UP:'UPW'}
def run(w,msgs,tag):
    for node,subj,text in msgs: w.inbound(mkpkt(A(node),A(OWN),[requestmsg(node,subj.encode('latin1'),text.encode('latin1'))]))
    r=w.cm('TOSS')
    if r.rc!=0: raise Violation(tag+'exit status %r %r'%(r.rc,r.out[-1500:] if w.flavour=='asan' else ''))
    if w.ls('in'): raise Violation(tag+'left in the inbound: %s'%w.ls('in'))
# ---- every sequence of lines
LINES={ME:['+ALPHA','alpha','-ALPHA','=ALPHA','ALPHA*','+AL*','-*','*','?ETA','-?????ALPHA','+ALRO','+ALPHA,X=1','+BETA','ban','-MAND','-MANDFEED','+DEFRO','-LINKED','-LINK??','+NOGROUP','-FEEDME','+NOGROUP*','-PASSMINE','-PASSBOTH','-PASS*','+NOSUCH','-NOSUCH','=NOSUCH','=LINKED','+FWDONE',
            '%pause','%resume','%Pwd new','%PWD','%PWD "a b\\"c"','%compress p2','%COMPRESS none','%COMPRESS ?','%COMPRESS','%COMPRESS NOPACK','%list','%Query','%unlinked','%help','%info','%WHAT','--- tear','\1KLUDGE +ALPHA','','  +ALPHABET  ','+NETM','+LOCL','+BAD','-BAD',LONG,'-A*','+\xc4'],
       FWD:['+FWDONE','fwd.two','+FWDON','+FWDONEX','+HIDDEN','+\xc5REA','+FWD.TWOS','+FWD','+NOFWD','+GRPONLY','+ONTWO','-FWDONE','-FWD*','+FWD*','-PASSLAST','-PASS*','-PASSBOTH','+ALRO','-ALRO','-*','+*','%LIST','%UNLINKED','%QUERY','-LINKED','--- x','%RESUME','+MANDFEED','-MANDFEED'],
       PT:['+ALPHA','-LINKED','-MAND','+BAN','+*','-*','%RESUME','%PAUSE','%PWD x','+FWDONE','+ALRO','%LIST','%COMPRESS P1','-FEEDME'],
       UP:['-ALPHA','-*','+*','-DEFRO','-PASSMINE','%QUERY','-ALRO','+ALPHA'],
       '1:1/100':['-*','+*','+ALRO','%PAUSE','-FEEDME','-BETA','+BETA','+ALPHABET']}
OPTS=[(),('AREAFIXREMOVE',),('REMOVEWHENFEED',),('AREAFIXREMOVE','REMOVEWHENFEED','INCLUDEFORWARD','FORWARDPASSTHRU')]
def seq(c):
    """steps: tuple of requests (one run each), a request being (node, tuple of line numbers)"""
    opts,steps=c; cfg=mkcfg(opts+('ALLOWRESCAN',)); m=M(cfg); text=cfg.text(loglevel=1); before=cfgparse.parse(text)
    with World(text) as w:
        prepare(w); tag='options %s'%(' '.join(opts) or 'none')
        for node,ls in steps:
            lines=[LINES[node][i] for i in ls]; tag+='; %s sends %r'%(node,lines)
            pw=m.nodes[A(node)]['pw']; subj='"%s"'%pw.replace('\\','\\\\').replace('"','\\"') if ' ' in pw else pw.swapcase()
            new=[x['tag'] for x in m.areas if x.get('new')]
            exp=m.request(node,subj,'\r'.join(lines)+'\r'); run(w,[(node,subj,'\r'.join(lines)+'\r')],tag+': ')
            judge_mails(exp,netmails(w,tag+': '),tag+': '); compare(w,m,before,tag+': ')
    return dict(evaluations=len(steps),nontrivial=[c],states=len(steps),transitions=sum(len(s[1]) for s in steps),sample=dict(opts=opts,steps=[(n,[LINES[n][i] for i in l]) for n,l in steps]) if len(steps)>1 else None)
def seqcases():
    for o in ((),('AREAFIXREMOVE','INCLUDEFORWARD')):
        L=LINES[FWD]
        for i,j in itertools.product(range(len(L)),repeat=2): yield ('+RO',)+o,((FWD,(i,j)),)
    for opts in OPTS:
        for node,L in LINES.items():
            n=len(L)
            for i in range(n): yield opts,((node,(i,)),)
            for i,j in itertools.product(range(n),repeat=2):
                if node==ME and not thorough() and opts not in (OPTS[0],OPTS[3]): continue
                yield opts,((node,(i,j)),)
        # histories over several runs: state-changing lines only
        H=[(ME,LINES[ME].index(x)) for x in ('+ALPHA','-*','+AL*','-PASS*','%pause','%Pwd new','%compress p2','-FEEDME','+DEFRO')]+[(FWD,LINES[FWD].index(x)) for x in ('+FWDONE','-*','+*','+ALRO')]+[(PT,LINES[PT].index(x)) for x in ('%RESUME','-*','+*')]+[(UP,LINES[UP].index(x)) for x in ('-*','+*')]+[('1:1/100',0),('1:1/100',1)]
        for h in itertools.product(H,repeat=2):
            yield opts,tuple((n,(i,)) for n,i in h)
        if opts in (OPTS[3],OPTS[0]) or thorough():
            for h in itertools.product(H,repeat=3):
                if not thorough() and (opts!=OPTS[3] or h[0][0]==h[1][0]==h[2][0]): continue
                yield opts,tuple((n,(i,)) for n,i in h)
# ---- who may
def auth(c):
    node,subj,to,dest=c[:4]; imp=len(c)>4; cfg=mkcfg(('IMPORTAREAFIX',) if imp else ()); m=M(cfg); text=cfg.text(loglevel=1); before=cfgparse.parse(text); a=A(node)
    body='+ALPHA\r-LINKED\r%PAUSE\r%PWD HACK\r'
    with World(text) as w:
        prepare(w); tag='%s with subject %r to %s at %d/%d: '%(node,subj,to,dest[0],dest[1])
        for d in ('net','bad'): os.mkdir(w.p('areas',d))
        af=to.lower() in ('areafix','area mgr') and dest==(1,1)
        exp=m.request(node,subj,body) if af else []
        w.inbound(mkpkt(A('1:1/77'),A(OWN),[requestmsg(node,subj.encode(),body.encode(),to.encode(),dest)])); r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        if af:
            judge_mails(exp,netmails(w,tag),tag); ms=[w.read('areas/net/'+f) for f in w.ls('areas/net') if f.endswith('.msg')]
            if len(ms)!=imp: raise Violation(tag+'the request is stored %d times%s'%(len(ms),' with IMPORTAREAFIX' if imp else ''))
            if imp and (ms[0][:36].split(b'\0')[0]!=b'Node Op' or ms[0][36:72].split(b'\0')[0]!=to.encode() or ms[0][72:144].split(b'\0')[0]!=subj.encode() or body.encode() not in ms[0]): raise Violation(tag+'the stored request is not the one received')
        else:
            n=len([f for f in w.ls('areas/net') if f.endswith('.msg')]); g=netmails(w,tag)
            if dest==(1,1):
                if n!=1 or g: raise Violation(tag+'mail for somebody else is not delivered (%d stored, %d sent)'%(n,len(g)))
            elif len(g)!=1 or g[0][0]!=A('1:1/90'): raise Violation(tag+'mail for another system is not passed on')
        compare(w,m,before,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def authcases():
    pws=['PW','pw','P','PWX','','HACK','Two','"Two Words"','"two words"','Two Words','"PW"','PW -q','pw -L','PW -x','-q','UPW',' PW','"" -q','x PW']
    for node in (ME,'1:1/100',FWD,PT,UP,UP2,'1:1/99','1:1/10.1','1:1/30','1:1/30.4','2:1/10','2:1/20','2:1/30.4'):
        for p in pws: yield node,p,'AreaFix',(1,1)
    for node in (ME,FWD,PT,'1:1/99'):
        for p in ('PW','','HACK','"Two Words"','PW -q'):
            for to in ('AreaFix','Area Mgr'): yield node,p,to,(1,1),'import'
    for to in ('areafix','AREA MGR','AreaFixx','Area','Area Mg','Sys Op'):
        for dest in ((1,1),(1,90)): yield ME,'PW',to,dest
    yield ME,'PW','AreaFix',(1,90)
# ---- replies split into parts
def split(c):
    mx,nl=c; cfg=mkcfg(()); cfg.tail+='AREAFIXMAXLINES %d\n'%mx if mx is not None else ''
    with World(cfg.text(loglevel=1)) as w:
        prepare(w); tag='AREAFIXMAXLINES %s, %d commands: '%(mx,nl)
        run(w,[(ME,'PW',''.join('+NONE%03d\r'%i for i in range(nl))+'%LIST\r%HELP\r')],tag); got=netmails(w,tag)
        exp=M(cfg).request(ME,'PW','%LIST\r')
        resp=[l for d,m,ls in got if m.subj.startswith(b'AreaFix response') for l in ls]; lst=[l for d,m,ls in got if m.subj.startswith(b'AreaFix list') for l in ls]; hlp=[l for d,m,ls in got if m.subj.startswith(b'AreaFix help') for l in ls]
        for d,m,ls in got:
            if d!=A(ME) or m.to!=b'Node Op': raise Violation(tag+'part sent to %s %r'%(S(d),m.to))
            n=len([l for l in ls if not l.startswith('\1')])
            if mx and mx>=6 and n>mx+4: raise Violation(tag+'a reply of %d lines'%n)
            if b'INTL' not in m.body and 0: raise Violation(tag+'part without kludges')
        want=['+none%03d'%i for i in range(nl)]; r=re.findall(r'\+none\d+','\n'.join(resp).lower())
        if r!=want: raise Violation(tag+'the reply reports %s'%r)
        seen=[q.group(2) for l in lst for q in [re.fullmatch(r'([ *%])([A-Z][A-Z0-9.]*) +.*',l)] if q]
        if sorted(seen)!=sorted(exp[1][2]): raise Violation(tag+'the list is %s instead of %s'%(seen,sorted(exp[1][2])))
        t=[l for l in hlp if not l.startswith('\1') and 'ontinued' not in l and l]; wanth=[l for l in HELP.decode().split('\n') if l]
        if t!=wanth: raise Violation(tag+'the help text is %r'%t)
        subs=[m.subj for d,m,ls in got if m.subj.startswith(b'AreaFix response')]
        if len(subs)>1 and len(set(subs))!=len(subs): raise Violation(tag+'parts are not numbered: %s'%subs)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- long requests: a command at every position around the text block boundaries, and long lines
def place(c):
    kind,off=c; cfg=mkcfg(()); m=M(cfg); text=cfg.text(loglevel=1); before=cfgparse.parse(text)
    if kind=='block':
        head=len(b'\1INTL 1:1/1 1:1/10\r'); n=10000*1+off-head; pad=''.join('\1X'+'x'*76+'\r' for i in range(n//79)); r=n-len(pad); pad+=('\1'+'y'*(r-2)+'\r') if r>=2 else '\r'*r
        body=pad+'+ALPHA\r-LINKED\r+DEFRO\r'
    elif kind=='len': body='+'+'L'*off+'\r+ALPHA\r-'+'M'*off+'*\r'+' '*off+'+DEFRO\r' if off<90 else '+'+'L'*off+'\r+ALPHA\r'
    elif kind=='crlf': body={0:'+ALPHA\r\n-LINKED\r\n',1:'+ALPHA\n-LINKED',2:'\n\n+ALPHA',3:'+ALPHA\r\r\r-LINKED\r--- \r+DEFRO\r',4:'---\r+ALPHA\r',5:' ---\r+ALPHA\r'}[off]
    with World(text) as w:
        prepare(w); tag='request with commands at %s %d: '%(kind,off)
        mm=body.replace('\r\n','\r').replace('\n','\r')
        if kind=='len' and off>=90: mm='+'+'L'*min(off,98)+'\r+ALPHA\r'
        exp=m.request(ME,'PW',mm); run(w,[(ME,'PW',body)],tag); netm=netmails(w,tag)
        if not any(d==A(ME) for d,_,_ in netm): raise Violation(tag+'no reply')
        compare(w,m,before,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- several requests in one run
def several(c):
    opts,reqs=c; cfg=mkcfg(opts); m=M(cfg); text=cfg.text(loglevel=1); before=cfgparse.parse(text)
    with World(text) as w:
        prepare(w); tag='options %s, one run with %s: '%(' '.join(opts),[(n,[LINES[n][i] for i in l]) for n,l in reqs]); exp=[]; msgs=[]
        for node,ls in reqs:
            pw=m.nodes[A(node)]['pw']; subj='"%s"'%pw if ' ' in pw else pw; t='\r'.join(LINES[node][i] for i in ls)+'\r'; exp+=m.request(node,subj,t); msgs.append((node,subj,t))
        run(w,msgs,tag); judge_mails(exp,netmails(w,tag),tag); compare(w,m,before,tag)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=len(reqs))
def severalcases():
    H=[(ME,LINES[ME].index(x)) for x in ('+ALPHA','-*','%pause','%Pwd new','-FEEDME')]+[(FWD,LINES[FWD].index(x)) for x in ('+FWDONE','-*','+*')]+[(PT,LINES[PT].index(x)) for x in ('%RESUME','-*','+*')]+[(UP,0),(UP,1)]+[('1:1/100',0),('1:1/100',1)]
    for opts in (OPTS[0],OPTS[3]):
        for k in (2,3) if thorough() else (2,):
            for h in itertools.product(H,repeat=k): yield opts,tuple((n,(i,)) for n,i in h)
# ---- edges, with the address sanitizer
def edge(c):
    kind,k=c; cfg=mkcfg(('REMOVEWHENFEED','AREAFIXREMOVE') if kind=='open' else ()); help_=HELP; extra={}
    with World(cfg.text(loglevel=1).replace('ROUTE "*:*/*.*" "*:*/*.*" 1:1/1\n','ROUTE "1:1/10.*" "*:*/*.*" 1:1/1\nROUTE "1:1/20.*" "*:*/*.*" 1:1/1\n') if kind=='noroute' else cfg.text(loglevel=1),flavour='asan') as w:
        prepare(w); tag='%s %s: '%(kind,k); m=M(cfg)
        if kind=='help':
            n,nl=k; lines=['%s%d'%('h'*(n-len(str(n))),n),'second','x'*n]; w.write('af.hlp','\n'.join(lines)+('\n' if nl else '')); run(w,[(ME,'PW','%HELP\r')],tag)
            for d,ms,ls in netmails(w,tag):
                if ms.subj==b'AreaFix help':
                    got=[l for l in ls if not l.startswith('\1') and l]
                    if ''.join(got)!=''.join(lines): raise Violation(tag+'help text of %d characters arrives as %d: %r'%(len(''.join(lines)),len(''.join(got)),got))
                    break
            else: raise Violation(tag+'no help')
        elif kind=='tag':
            t='T'+'a'*(k-2)+'Z'; w.write('up.lst',t+' long\n'); run(w,[(FWD,'"Two Words"','+'+t+'\r')],tag)
            c=cfgparse.parse(w.read('cm.cfg').decode('latin1')); g=[(d,[l for l in ls if not l.startswith('\1') and l][0]) for d,ms,ls in netmails(w,tag) if d==A(UP)]
            if k<=79:
                if t.upper() not in c.areas: raise Violation(tag+'area not created')
                if g!=[(A(UP),t)]: raise Violation(tag+'request to the uplink is %s'%g)
            elif len(c.areas)!=len(cfg.areas) or g: raise Violation(tag+'a tag too long for an area was accepted: %s'%g)
        elif kind=='noroute':
            run(w,[(FWD,'"Two Words"','+FWDONE\r-LINKED\r')],tag); c=cfgparse.parse(w.read('cm.cfg').decode('latin1'))
            if any(a==A(FWD) for a,_ in c.areas['LINKED']['links']): raise Violation(tag+'request not carried out')
        elif kind=='open':
            # echomail into the area, then its feed leaves, then more echomail, in one run
            for d in ('bad','feedme'): os.mkdir(w.p('areas',d))
            if k[0]=='JAM': w.write('cm.cfg',w.read('cm.cfg').decode().replace('MSG "areas/feedme"','JAM "areas/feedmej"'))
            for i,x in enumerate(k[1]):
                if x=='E': w.inbound(mkpkt(A(ME),A(OWN),[Msg((1,10),(1,1),body=b'AREA:FEEDME\r\1MSGID: 1:1/10 %08x\rtext %d\rSEEN-BY: 1/10\r\1PATH: 1/10\r'%(i,i))]))
                elif x=='-': w.inbound(mkpkt(A(ME),A(OWN),[requestmsg(ME,b'PW',b'-FEEDME\r')]))
                else: w.inbound(mkpkt(A('1:1/100'),A(OWN),[requestmsg('1:1/100',b'pw',b'-FEEDME\r')]))
            r=w.cm('TOSS')
            if r.rc!=0: raise Violation(tag+'exit status %r %r'%(r.rc,r.out[-1500:]))
            c=cfgparse.parse(w.read('cm.cfg').decode('latin1')); ex='-' in k[1]
            if ('FEEDME' in c.areas)==ex and k[1].find('E',k[1].find('-'))<0: raise Violation(tag+'area %s'%('kept' if ex else 'removed'))
            n=len(k[1].split('-')[0].replace('x',''))
            if k[0]=='JAM': got=len(read_jam(w.p("areas/feedmej")).msgs) if n or w.exists('areas/feedmej.jhr') else 0
            else: got=len([f for f in w.ls('areas/feedme') if f.endswith('.msg')])
            if got!=n: raise Violation(tag+'%d messages stored instead of %d'%(got,n))
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def edgecases():
    for n in [1,2]+list(range(94,pick(104,110)))+list(range(195,pick(201,210))):
        for nl in (0,1): yield 'help',(n,nl)
    for k in list(range(2,6))+list(range(66,99)): yield 'tag',k
    yield 'noroute',0
    for kind in ('MSG','JAM'):
        for n in range(1,pick(4,5)+1):
            for o in itertools.product('E-x',repeat=n):
                o=''.join(o)
                if '-' in o and o.count('-')==1: yield 'open',(kind,o)
# ---- lists sent by command (SENDQUERY etc.), to one node or all that want notifications
SENDS={'SENDLIST':'full','SENDQUERY':'query','SENDUNLINKED':'unlinked','SENDHELP':'help','SENDINFO':'info'}
def sent(c):
    cmd,who,notify,opts=c; cfg=mkcfg(opts); names={}
    for n in cfg.nodes:
        a=S(n.addr,n.addr.p!=0); n.flags=tuple(f for f in n.flags if f!='NOTIFY')+(('NOTIFY',) if a in notify else ())
        n.extra=['REMOTESYSOP "Op of %s"'%a]; names[n.addr]='Op of %s'%a
    text=cfg.text(loglevel=1); m=M(cfg)
    with World(text) as w:
        prepare(w); r=w.cm(cmd,who); tag='%s %s (NOTIFY: %s): '%(cmd,who,' '.join(notify))
        if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
        to=[n.addr for n in cfg.nodes if 'NOTIFY' in n.flags] if who.upper()=='ALL' else [n.addr for n in cfg.nodes if n.addr==A(who)] if ':' in who else []
        got=netmails(w,tag)
        for a in to:
            mine=[g for g in got if g[0]==a]; judge_mails([(a,SENDS[cmd],m.listing(a,m.nodes[a],SENDS[cmd]))],mine,tag,toname=names[a])
        extra=[g for g in got if g[0] not in to]
        if extra: raise Violation(tag+'message to %s'%S(extra[0][0]))
        if w.read('cm.cfg')!=text.encode(): raise Violation(tag+'the configuration was changed')
        # the same texts as the answer to a request
        if to and who.upper()!='ALL':
            w.inbound(mkpkt(to[0],A(OWN),[requestmsg(who,('"%s"'%m.nodes[to[0]]['pw']).encode(),b'%%%s\r'%{'SENDLIST':b'LIST','SENDQUERY':b'QUERY','SENDUNLINKED':b'UNLINKED','SENDHELP':b'HELP','SENDINFO':b'INFO'}[cmd])])); w.cm('TOSS')
            ans=[g for g in netmails(w,tag) if g[1].subj!=b'AreaFix response']
            t=lambda g:[l for l in g[2] if not l.startswith('\1')]
            if [t(g) for g in ans]!=[t(g) for g in got]: raise Violation(tag+'the text differs from the answer to a request: %r'%[t(g) for g in got])
    return dict(evaluations=len(cfg.nodes),nontrivial=[c],states=1,transitions=1)
def sentcases():
    ns=[ME,'1:1/100',FWD,PT,UP,UP2]
    for cmd in SENDS:
        for who in ns+['1:1/77','junk','1:1/30','2:1/10','2:1/20','1:1/10.9','2:1/50']:
            for o in ((),('INCLUDEFORWARD',)): yield cmd,who,(UP,),o
        for k in range(0,4 if not thorough() else 7):
            for nt in itertools.combinations(ns,k): yield cmd,('all','ALL')[k%2],nt,()
INFOFL={'PASSIVE':'you are passive','TINYSEENBY':'tiny seen-by','NOSEENBY':'without seen-by','FORWARDREQ':'forward-requests','NOTIFY':'receive notifications','PACKNETMAIL':'netmail to you will be packed','AUTOADD':'auto-added'}
def info(c):
    """the configuration report of a node shows its own settings"""
    flags,pw,packer,groups,ro,named=c; cfg=mkcfg(())
    cfg.nodes[0]=Node(ME,flags,pw=pw,packer=packer,afinfo=('PW',groups,ro,''),extra=['REMOTESYSOP "The Remote Op"'])
    text=cfg.text(loglevel=1)
    if not named: text=re.sub('(?m)^GROUPNAME .*\n','',text)
    with World(text) as w:
        prepare(w); w.inbound(mkpkt(A(ME),A(OWN),[requestmsg(ME,b'PW',b'%INFO\r')],pw=pw.encode())); w.cm('TOSS'); tag='%%INFO for a node with %s: '%(c,)
        got=[g for g in netmails(w,tag,kinds=('netmail','pkt')) if g[1].subj==b'AreaFix configuration info']
        if len(got)!=1: raise Violation(tag+'%d reports'%len(got))
        ls=[l.strip() for l in got[0][2] if not l.startswith('\1')]; low=[l.lower() for l in ls]
        for f,t in INFOFL.items():
            if any(t in l for l in low)!=(f in flags): raise Violation(tag+'%s is %s'%(f,'missing' if f in flags else 'reported'))
        for lab,v in (('Sysop:','The Remote Op'),('Packet  password:',pw),('Areafix password:','PW'),('Packer:',packer or 'No packer')):
            x=[l[len(lab):].strip() for l in ls if l.startswith(lab)]
            if x!=[v]: raise Violation(tag+'%s %r, expected %r'%(lab,x,v))
        i=[k for k,l in enumerate(low) if 'full access to these groups' in l]; j=[k for k,l in enumerate(low) if 'read-only access to these groups' in l]; e=[k for k,l in enumerate(low) if k>(j or [0])[0] and l.startswith('---')] or [len(ls)]
        if not i or not j: raise Violation(tag+'no list of groups')
        full=''.join(l[0] for l in ls[i[0]+1:j[0]] if l); only=''.join(l[0] for l in ls[j[0]+1:e[0]] if l)
        if full!=''.join(sorted(set(groups)-set(ro))) or only!=''.join(sorted(set(ro))): raise Violation(tag+'groups %r, read-only %r'%(full,only))
        for l in ls[i[0]+1:j[0]]+ls[j[0]+1:e[0]]:
            if named and l and l[0] in 'AR' and not l.endswith('Group '+l[0]): raise Violation(tag+'group line %r'%l)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def infocases():
    fl=list(INFOFL)
    for k in range(0,8):
        for f in itertools.combinations(fl,k):
            if k<=2 or k>=6 or thorough(): yield f,'','' if 'PACKNETMAIL' in f else 'P1','AL','R',1
    for pw in ('','SECRET'):
        for pk in ('','P1'):
            for g in ('','A','AR','AZ','QRSTUVWXYZ'):
                for ro in ('','R','AR','Z'):
                    for nm in (0,1): yield (),pw,pk,g,ro,nm
LTAGS=['ZULU','ALFA','MIKE.'+'X'*23,'MIKE.'+'X'*24,'LONG.'+'Y'*62]
def listing(c):
    """every area of a listing is shown under the name of its own group, each group once, in order, with its description and mark"""
    groups,links,cmd,msgs,named=c
    nodes=[Node(ME,afinfo=('PW','ABZ','',''))]; areas=[Area('BAD',OWN,('MSG','areas/bad'))]
    for t,g,l in zip(LTAGS,groups,links): areas.append(Area(t,OWN,('MSG','areas/'+t[:4]+str(len(t))),[(ME,l)] if l!='-' else [],group=g,desc='About '+t[:4]))
    cfg=Cfg([Aka(OWN)],nodes,areas,routes=['"*:*/*.*" "*:*/*.*" '+OWN],tail='AREAFIXNAME "AreaFix"\n'+''.join('GROUPNAME %s "Name of %s"\n'%(g,g) for g in named))
    with World(cfg.text(loglevel=1)) as w:
        tag='%s with areas %s: '%(cmd,list(zip([t[:4]+str(len(t)) for t in LTAGS],groups,links)))
        for day in msgs:
            w.now+=86400*day; n=len([t for t,l in zip(LTAGS,links) if l!='-'])
            w.inbound(mkpkt(A(ME),A(OWN),[Msg((1,10),(1,1),to=b'All',frm=b'Someone',subj=b'x',body=b'AREA:%s\rtext %d\rSEEN-BY: 1/10\r'%(t.encode(),w.now)) for t,l in zip(LTAGS,links) if l!='-']),'m%07d.pkt'%(w.now%10000000)); w.cm('TOSS')
            for f in w.ls('out'):
                if not os.path.isdir(w.p('out',f)): os.unlink(w.p('out',f))
        w.inbound(mkpkt(A(ME),A(OWN),[requestmsg(ME,b'PW',cmd.encode()+b'\r')])); w.cm('TOSS')
        got=[g for g in netmails(w,tag) if g[1].subj==b'AreaFix list of areas']
        if len(got)!=1: raise Violation(tag+'%d listings'%len(got))
        ls=[l for l in got[0][2] if not l.startswith('\1')]
        exp=[]
        for t,g,l in zip(LTAGS,groups,links):
            acc=g in ('A','B','Z') if g else False
            if cmd=='%LIST' and not (acc or l!='-') or cmd=='%QUERY' and l=='-' or cmd=='%UNLINKED' and (l!='-' or not acc): continue
            exp.append((g,t,'%' if l=='%' else '*' if l!='-' and cmd=='%LIST' else ' ','About '+t[:4]))
        exp.sort(key=lambda e:(e[0],e[1])); have=[]; cur=None; heads=[]; pend=None
        for l in ls:
            m=re.match(r' Group: (.*)$',l)
            if m: cur=m.group(1).strip(); heads.append(cur); continue
            m=re.match(r'([ *%])(\S+)(?: +(About \S+) +(\?|\d+))? *$',l)
            if m and m.group(2) in LTAGS:
                if m.group(3): have.append((cur,m.group(2),m.group(1),m.group(3)))
                else: pend=(cur,m.group(2),m.group(1))
                continue
            m=re.match(r' +(About \S+) +(\?|\d+) *$',l)
            if m and pend: have.append(pend+(m.group(1),)); pend=None
        nm=lambda g:('Name of '+g if g in named else '') if g else '<No group>'
        want=[(nm(g),t,mk,d) for g,t,mk,d in exp]
        if have!=want: raise Violation(tag+'listed %r, expected %r'%(have,want))
        wh=[]
        for g,t,mk,d in exp:
            if not wh or wh[-1]!=g: wh.append(g)
        if heads!=[nm(g) for g in wh]: raise Violation(tag+'groups shown %r'%heads)
        tot='Totally %d areas, you are connected to %d'%(len(exp),len([e for e in exp if e[2]!=' '])) if cmd=='%LIST' else '%d %s areas'%(len(exp),'linked' if cmd=='%QUERY' else 'unlinked')
        if not any(tot in l for l in ls): raise Violation(tag+'no line %r'%tot)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def listcases():
    for g in itertools.product(('','A','B','Z'),repeat=4):
        yield g+('B',),('','-','','-',''),'%LIST',(),'AB'
    for l in itertools.product(('-','','%','!'),repeat=pick(3,4)):
        for cmd in ('%LIST','%QUERY','%UNLINKED'): yield ('B','','B','A','Z'),l+('-','')[:5-len(l)],cmd,(),'ABZ'
    for k in range(0,pick(4,10)):
        for m in ((k,),(0,k),(1,k,0)): yield ('A','A','B','B','B'),('','','','%',''),'%LIST',m,'AB'
def forms(c):
    kind,k=c; cfg=mkcfg(()); m=M(cfg)
    if kind=='aka': cfg.akas=[Aka(x) for x in k[0]]
    text=cfg.text(loglevel=1); before=cfgparse.parse(text)
    with World(text) as w:
        prepare(w); tag='%s %r: '%(kind,k)
        for d in ('net','bad'): os.mkdir(w.p('areas',d))
        if kind=='line':
            f,l=k; line=f%l; body=line+'\r+DEFRO\r'; exp=m.request(ME,'PW',l+'\r+DEFRO\r'); run(w,[(ME,'PW',body)],tag); netmails(w,tag); compare(w,m,before,tag)
        elif kind=='pw':
            pw='p'*(k-1)+'Z' if k>1 else 'Z'
            m.request(ME,'PW','%%PWD %s\r'%pw); run(w,[(ME,'PW','%%PWD %s\r'%pw)],tag); netmails(w,tag); compare(w,m,before,tag)
            for bad in ('PW',pw[:-1],pw+'q'):
                m.request(ME,bad,'+ALPHA\r'); run(w,[(ME,bad,'+ALPHA\r')],tag); netmails(w,tag); compare(w,m,before,tag+'then subject %r: '%bad)
            m.request(ME,pw,'+ALPHA\r'); run(w,[(ME,pw,'+ALPHA\r')],tag); netmails(w,tag); compare(w,m,before,tag+'then the new password: ')
        else:
            akas,dest=k; d=A(dest); own=dest in akas
            if own: m.request(ME,'PW','+ALPHA\r-LINKED\r')
            x=requestmsg(ME,b'PW',b'+ALPHA\r-LINKED\r',dest=(d.n,d.f)); x.body=x.body.replace(b'INTL 1:',b'INTL %d:'%d.z,1)
            if d.p: x.body=b'\1TOPT %d\r'%d.p+x.body
            w.inbound(mkpkt(A(ME),A(OWN),[x])); r=w.cm('TOSS')
            if r.rc!=0 or w.ls('in'): raise Violation(tag+'exit status %r, inbound %r'%(r.rc,w.ls('in')))
            compare(w,m,before,tag)
            if own and not [g for g in netmails(w,tag) if g[0]==A(ME)]: raise Violation(tag+'no reply')
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(form=kind))
def formcases():
    for f in ('%s ','  %s   ','%s,X=1','%s ,X=1','%s  , X=1 ','%s,',' %s ,'):
        for l in ('+ALPHA','alpha','-LINKED','=LINKED','+ALRO','-LINK*','+NOSUCH'): yield 'line',(f,l)
    for f in ('%s ','  %s   ','  %s'):
        for l in ('%PAUSE','%PWD new','%COMPRESS p2','%RESUME','%LIST'): yield 'line',(f,l)
    for k in range(1,40): yield 'pw',k
    akas=(OWN,'1:1/1.5','2:7/7','1:1/5','1:2/1')
    for d in akas+('1:1/1.6','1:1/5.5','1:1/90','2:7/7.1','2:7/8'): yield 'aka',(akas,d)
def main():
    ck=Check('C15','exploration','every sequence of command lines up to the depth bound from every kind of requester, in one message, several messages of one run and several runs, x option sets; all requester/password/name/destination combinations; all reply length limits; non-trivial = distinct case',['tags and passwords contain no control characters','results are recognised in the reply by the documented key words'])
    world.init(('plain','asan'))
    ck.explore('sequences',seq,list(seqcases()),chunk=16)
    ck.explore('requester',auth,list(authcases()),chunk=4)
    ck.explore('splitting',split,[(mx,nl) for mx in [None,0]+list(range(6,pick(14,40))) for nl in range(0,pick(16,40))],chunk=4)
    ck.explore('position',place,[('block',o) for o in range(-30,pick(12,90))]+[('len',o) for o in range(1,pick(120,240))]+[('crlf',o) for o in range(6)],chunk=4)
    ck.explore('one run',several,list(severalcases()),chunk=8)
    ck.explore('edges',edge,list(edgecases()),chunk=2)
    ck.explore('commands',sent,list(sentcases()),chunk=4)
    ck.explore('listing',listing,list(listcases()),chunk=4)
    ck.explore('forms',forms,list(formcases()),chunk=4)
    ck.explore('info',info,list(infocases()),chunk=4)
    ck.finish()
if __name__=='__main__': main()
