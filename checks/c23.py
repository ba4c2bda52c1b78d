"""C23: crashwrite over all option combinations, texts and interruptions; crashexport and crashlistout over all small configurations and outbound directories."""
import _boot,itertools,re,time
import scen; from scen import *
import nmodel
from harness import *
MON='Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DEF=dict(FROMNAME='CrashWrite',TONAME='All',SUBJECT='Information',ORIGIN='Another user of CrashMail II')
LIM=dict(FROMNAME=35,TONAME=35,SUBJECT=71,ORIGIN=79)
def addr(s): return A(s) if s else A('0:0/0')
def expected(o,text):
    """-> (pkt orig, dest, password, msg orig, dest, attr, to, frm, subj, control lines, text, tail?)"""
    st=lambda k: o.get(k,DEF[k]).encode('latin1')[:LIM[k]]
    f,t=addr(o.get('FROMADDR')),addr(o.get('TOADDR'))
    area='AREA' in o; ctl=[]
    if not area:
        if f.p: ctl.append(b'\1FMPT %d\r'%f.p)
        if t.p: ctl.append(b'\1TOPT %d\r'%t.p)
        ctl.append(b'\1INTL %d:%d/%d %d:%d/%d\r'%(t.z,t.n,t.f,f.z,f.n,f.f))
    return dict(porig=addr(o['PKTFROMADDR']) if 'PKTFROMADDR' in o else f,pdest=addr(o['PKTTOADDR']) if 'PKTTOADDR' in o else t,pw=o.get('PASSWORD','').encode('latin1')[:8],orig=f,dest=t,
        attr=(0 if area else 1)|(0x10 if 'FILEATTACH' in o else 0),to=st('TONAME'),frm=st('FROMNAME'),subj=st('SUBJECT'),ctl=ctl,text=text,area=o['AREA'].encode('latin1') if area else None,origin=st('ORIGIN'))
def argv(o,dir='in'):
    a=[]
    for k,v in o.items(): a+=[k] if v is True else [k,v]
    return a+['DIR',dir]
def judge(tag,data,e,now,nomsgid):
    """-> msgid"""
    try: p=parse_pkt(data)
    except PktError as x: raise Violation(tag+'not a valid packet: %s'%x)
    if (p.orig,p.dest,p.pw)!=(e['porig'],e['pdest'],e['pw']): raise Violation(tag+'packet %s->%s password %r, expected %s->%s %r'%(S(p.orig),S(p.dest),p.pw,S(e['porig']),S(e['pdest']),e['pw']))
    t=time.gmtime(now)
    if p.date!=(t.tm_year,t.tm_mon-1,t.tm_mday,t.tm_hour,t.tm_min,t.tm_sec): raise Violation(tag+'packet date %r'%(p.date,))
    if len(p.msgs)!=1: raise Violation(tag+'%d messages'%len(p.msgs))
    m=p.msgs[0]
    got=(tuple(m.orig),tuple(m.dest),m.attr,m.cost,m.to,m.frm,m.subj); want=((e['orig'].n,e['orig'].f),(e['dest'].n,e['dest'].f),e['attr'],0,e['to'],e['frm'],e['subj'])
    if got!=want: raise Violation(tag+'message header %r, expected %r'%(got,want))
    if m.date!=b'%02d %s %02d  %02d:%02d:%02d'%(t.tm_mday,MON[t.tm_mon-1].encode(),t.tm_year%100,t.tm_hour,t.tm_min,t.tm_sec): raise Violation(tag+'date %r'%m.date)
    L=lines(m.body)
    if e['area'] is not None:
        if not L or L[0]!=b'AREA:%s\r'%e['area']: raise Violation(tag+'begins with %r'%L[:1])
        L=L[1:]
        if len(L)<2 or not re.match(rb'--- .*\r$',L[-2],re.S) or L[-1]!=b' * Origin: %s (%d:%d/%d.%d)\r'%((e['origin'],)+tuple(e['orig'])): raise Violation(tag+'ends with %r'%L[-2:])
        L=L[:-2]
    ctl=L[:len(e['ctl'])+(not nomsgid)]; rest=b''.join(L[len(ctl):]); mid=None
    if not nomsgid:
        x=[l for l in ctl if l.startswith(b'\1MSGID: ')]
        if len(x)!=1 or not re.match(rb'\x01MSGID: %d:%d/%d\.%d [0-9a-f]{8}\r$'%tuple(e['orig']),x[0]): raise Violation(tag+'MSGID %r'%x)
        mid=x[0]; ctl.remove(mid)
    if sorted(ctl)!=sorted(e['ctl']): raise Violation(tag+'control lines %r, expected %r'%(ctl,e['ctl']))
    want=e['text'].replace(b'\n',b'\r')
    if rest!=want and not (want and not want.endswith(b'\r') and rest==want+b'\r'): raise Violation(tag+'text %r, expected %r'%(rest[:300],want[:300]))
    return mid
def write(w,o,text,tag=''):
    if text is not None: w.write('text',text); o=dict(o,TEXT='text')
    before=set(w.ls('in')); now=w.now
    r=w.run(argv(o),prog='crashwrite',advance=0)
    tag='crashwrite %r%s: '%({k:v for k,v in o.items() if k!='TEXT'},'' if text is None else ' text %r'%(text if len(text)<200 else text[:200]))
    if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-200:]))
    new=sorted(set(w.ls('in'))-before)
    if len(new)!=1 or not re.match(r'^[0-9a-f]{8}\.pkt$',new[0]): raise Violation(tag+'created %r'%new)
    return new[0],judge(tag,w.read('in/'+new[0]),expected(o,text or b''),now,'NOMSGID' in o),tag
def writecases(c):
    w=World('x'); ids=set()
    try:
        for o,text in c:
            n,mid,tag=write(w,o,text)
            if mid is not None:
                if mid in ids: raise Violation(tag+'the MSGID has been used before: %r'%mid)
                ids.add(mid)
    finally: w.close()
    return dict(evaluations=len(c),nontrivial=[repr(x) for x in c],states=len(c),transitions=len(c),sample=dict(last=repr(c[-1])[:200]))
def tosscfg():
    return Cfg([Aka('1:1/1')],[Node('1:1/10')],[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),Area('ECHO.MSG','1:1/1',('MSG','areas/em'),[('1:1/10','')]),Area('ECHO.JAM','1:1/1',('JAM','areas/ej'))]).text()
def tosscase(c):
    """what was written arrives in the message base"""
    ev=0
    for o,text in c:
        w=World(tosscfg())
        try:
            for d in ('bad','net','em'): os.mkdir(w.p('areas/'+d))
            n,mid,tag=write(w,o,text); r=w.cm('TOSS','NOSECURITY'); e=expected(o,text or b'')
            tag+='tossed: '
            if r.rc!=0: raise Violation(tag+'exit %r'%r.rc)
            got={a:[(m.frm,m.to,m.subj,m.text) for k,m in sorted(read_msgdir(w.p('areas/'+a)).items())] for a in ('bad','net','em')}
            got['ej']=[(jamfield(m,2),jamfield(m,3),jamfield(m,6),m.text) for m in read_jam(w.p('areas/ej')).msgs] if w.exists('areas/ej.jhr') else []
            where={b'ECHO.MSG':'em',b'ECHO.JAM':'ej',None:'net'}.get(e['area'],'bad')
            for a in got:
                if len(got[a])!=(a==where): raise Violation(tag+'%d messages in %s'%(len(got[a]),a))
            f,t,s,x=got[where][0]
            if (f,t,s)!=(e['frm'],e['to'],e['subj']): raise Violation(tag+'stored %r'%((f,t,s),))
            body=[l for l in lines(x.rstrip(b'\0')) if not l.startswith((b'\1',b'SEEN-BY:'))]
            if where in ('em','ej'): body=body[:-2]
            elif where=='bad': continue
            want=[l for l in lines(e['text'].replace(b'\n',b'\r')) if not l.startswith(b'\1')]
            if want and not want[-1].endswith(b'\r'): want[-1]+=b'\r'
            if body!=want: raise Violation(tag+'stored text %r, expected %r'%(body,want))
            ev+=1
        finally: w.close()
    return dict(evaluations=ev,nontrivial=[repr(x) for x in c],states=ev,transitions=2*ev,sample=dict(last=repr(c[-1])[:200]))
def badcase(c):
    o,dir,text=c; w=World('x')
    try:
        r=w.run(argv(dict(o,**({'TEXT':text} if text else {})),dir),prog='crashwrite'); tag='crashwrite %r %r %r: '%(o,dir,text)
        if r.rc==0: raise Violation(tag+'exit 0')
        if w.ls('in'): raise Violation(tag+'left %r'%w.ls('in'))
    finally: w.close()
    return dict(evaluations=1,nontrivial=[repr(c)],states=1,transitions=1,sample=None)
O0=dict(FROMNAME='Me',FROMADDR='1:1/1',TONAME='You',AREA='ECHO.MSG',SUBJECT='S',TEXT='text')
def supw(w,o,mode):
    return sup(w,'m',mode,[],cmds=[[os.path.join(BIN['plain'],'crashwrite')]+argv(o)])
def faults(c):
    """crashwrite is interrupted or a call fails: the tosser never sees an incomplete packet, and failure is reported"""
    o,text,mode=c; w=World('x')
    try:
        w.write('text',text); now=w.now
        rc,out,evs,ex=supw(w,o,mode); tag='crashwrite %r with %d bytes of text, %s: '%(o,len(text),' '.join(map(str,mode)))
        pk=[f for f in w.ls('in') if f.endswith('.pkt')]
        for f in pk: judge(tag,w.read('in/'+f),expected(o,text),now,False)
        rc1=ex.get(0,rc)
        if mode[0] in ('fail','full','short'):
            if rc1==0 and not pk: raise Violation(tag+'exit 0 but nothing was written')
    finally: w.close()
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=len(evs),sample=dict(mode=mode))
def race(c):
    """two crashwrite runs at the same time, or one and a toss: no message is lost, mixed or doubled"""
    what,i,j,pre=c; w=World(tosscfg())
    try:
        for d in ('bad','net','em'): os.mkdir(w.p('areas/'+d))
        for k in range(pre): w.write('in/%08x.pkt'%(((w.now<<8)+k)&0xffffffff),mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:ECHO.MSG\rPRE%d\rSEEN-BY: 1/10\r'%k)]))
        for k in (0,1): w.write('t%d'%k,b'TEXT%d '%k*700+b'\n')
        cw=lambda k: [os.path.join(BIN['plain'],'crashwrite')]+argv(dict(FROMNAME='Me%d'%k,FROMADDR='1:1/10',TONAME='You',AREA='ECHO.MSG',SUBJECT='S%d'%k,TEXT='t%d'%k))
        cm=[os.path.join(BIN['plain'],'crashmail'),'SETTINGS','cm.cfg','TOSS','NOSECURITY']
        rc,out,evs,ex=sup(w,'mos',['sched','0:%d,1:%d,0:-1'%(i,j)],None,cmds=[cw(0),cw(1) if what=='write' else cm]); tag='crashwrite stopped before its operation %d, %s carried out for %d operations, then the rest, %d packets there before: '%(i,what,j,pre)
        if ex.get(0)!=0 or ex.get(1)!=0: raise Violation(tag+'exit %r'%ex)
        for f in w.ls('in'):
            if not f.endswith('.pkt'): raise Violation(tag+'leaves %s'%f)
        r=w.cm('TOSS','NOSECURITY')
        n=2 if what=='write' else 1; got=[(m.frm,m.subj,m.text) for k,m in sorted(read_msgdir(w.p('areas/em')).items())]
        for k in range(n):
            g=[x for x in got if x[0]==b'Me%d'%k]
            if len(g)!=1: raise Violation(tag+'message %d is stored %d times'%(k,len(g)))
            if g[0][1]!=b'S%d'%k or g[0][2].count(b'TEXT%d '%k)!=700 or b'TEXT%d'%(1-k) in g[0][2]: raise Violation(tag+'message %d is damaged: %r'%(k,g[0][2][:200]))
        for k in range(pre):
            if sum(b'PRE%d\r'%k in x[2] for x in got)!=1: raise Violation(tag+'a packet that was there before is lost')
        if len(got)!=n+pre or w.ls('in') or read_msgdir(w.p('areas/bad')): raise Violation(tag+'%d messages stored, inbound %r'%(len(got),w.ls('in')))
    finally: w.close()
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=len(evs))
# ------------------------------------------------------------ crashexport
class X:
    def __init__(s,kind,tag,mb=None,path=None,desc=None,group=None,export=(),unconf=False,extra=''): s.__dict__.update(kind=kind,tag=tag,mb=mb,path=path,desc=desc,group=group,export=export,unconf=unconf,extra=extra)
    def text(s):
        t='%s %s 1:1/1%s\n'%(s.kind,s.tag,' %s "%s"'%(s.mb,s.path) if s.mb else '')
        for l in s.export: t+='  EXPORT %s\n'%l
        if s.desc is not None: t+='  DESCRIPTION "%s"\n'%s.desc.replace('\\','\\\\').replace('"','\\"')
        if s.group: t+='  GROUP %s\n'%s.group
        if s.unconf: t+='  UNCONFIRMED\n'
        return t+s.extra
POOL=[X('AREA','ECHO.A','MSG','/a/b',desc='First area',group='A',export=['1:1/10 20 !2:2/3.4 .5 6 @3:3/7.1 8 @9','%1:1/30']),X('AREA','ECHO.B','JAM','/a/j',desc='He said "hi" \\ there',group='b'),X('AREA','PASS',desc=None,group='A',export=['1:1/10']),X('NETMAIL','NET','JAM','/n',desc='Netmail'),X('LOCALAREA','LOC','MSG','/l',group='C'),
      X('AREA','BAD','MSG','/bad'),X('AREA','DEFAULT','JAM','/d',group='A',desc='def'),X('AREA','DEFAULT_A','MSG','/d',group='A'),X('AREA','NEW.ONE','MSG','/new',unconf=True,group='A',desc='no'),X('AREA','LAST',None,None,extra=';DESCRIPTION "x"\n;GROUP A\n;UNCONFIRMED\n'),X('NETMAIL','NET2','MSG','/n2',group='A',desc='')]
def p4(s): return S(A(s))
def expo(s):
    o=[]
    for l in s.export:
        z=n=f=0
        for x in l.split():
            x=x.lstrip('!@%'); pt=0
            if '.' in x: x,pt=x.split('.')
            if ':' in x: z,x=x.split(':')
            if '/' in x: n,x=x.split('/')
            if x: f=x
            o.append('%s:%s/%s'%(z,n,f)+('.%s'%pt if int(pt) else ''))
    return ' '.join(o)
def exline(s,fmt,grp):
    if s.unconf or s.tag.startswith('DEFAULT'): return None
    if grp is not None and (s.group or '\0').upper() not in grp.upper(): return None
    d=s.desc or ''; e=d.replace('"',"'")
    kind='net' if s.kind=='NETMAIL' else 'local' if s.kind=='LOCALAREA' else 'bad' if s.tag=='BAD' else 'echo'
    if fmt=='areasbbs':
        if kind in ('net','local'): return None
        return '%s %s %s'%({'MSG':s.path,'JAM':'!%s'%s.path,None:'#'+s.tag}[s.mb],s.tag,expo(s))
    if fmt in ('forward','forwardnodesc'):
        if kind!='echo': return None
        return s.tag+(' '+d if d and fmt=='forward' else '')
    if not s.path: return None
    if fmt=='golded': return 'AREADEF %s "%s" %s %s %s %s 1:1/1 %s'%(s.tag,e,s.group or '0',{'net':'NET','local':'LOCAL'}.get(kind,'ECHO'),{'MSG':'FTS1','JAM':'JAM'}[s.mb],s.path,'(Loc Pvt)' if kind=='net' else '(Loc)')
    return '%s "%s" %s %s -P1:1/1%s'%({'net':'NetArea','local':'LocalArea'}.get(kind,'EchoArea'),e,s.tag,s.path,' -J' if s.mb=='JAM' else '')
def export(c):
    sel,cases=c; sel=[POOL[i] for i in sel]; ev=0
    w=World('SYSOP "Sys Op"\n\n'+'\n'.join(s.text() for s in sel)+'\n',flavour='asan')
    try:
        for fmt,grp in cases:
            r=w.run(['cm.cfg','list',fmt]+(['GROUP',grp] if grp is not None else []),prog='crashexport'); tag='crashexport %s GROUP %r of %s: '%(fmt,grp,' '.join(s.tag for s in sel)); ev+=1
            if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-500:]))
            L=[l for l in w.read('list').decode('latin1').split('\n') if l and not l.startswith(';')]
            f=fmt.lower()
            want=[x for x in (exline(s,f,grp) for s in sel) if x is not None]
            if f=='areasbbs': want.insert(0,'Default origin ! Sys Op')
            if [l.rstrip() for l in L]!=[l.rstrip() for l in want]: raise Violation(tag+'wrote %r, expected %r'%(L,want))
    finally: w.close()
    return dict(evaluations=ev,nontrivial=[(c[0],x) for x in cases],states=ev,transitions=ev,sample=dict(areas=[s.tag for s in sel]))
def manylinks(c):
    """areas with many links"""
    form,ns=c; ev=0
    for n in ns:
        ad=['%d:%d/%d.%d'%(65535,65535,65535-i,65535-i) if form=='long' else '1:1/%d'%(i+1) if form=='short' else '1:%d/%d'%(i%300+100,i*7%1000+1) for i in range(n)]
        a=X('AREA','ECHO.A','MSG','/a/b',export=[' '.join(ad[i:i+(9 if n%2 else 40)]) for i in range(0,n,9 if n%2 else 40)]); b=X('AREA','ECHO.B','MSG','/a/c',export=['1:1/77'])
        w=World('SYSOP "Sys Op"\n\n'+a.text()+b.text(),flavour='asan')
        try:
            r=w.run(['cm.cfg','list','areasbbs'],prog='crashexport'); tag='crashexport areasbbs, an area with %d links (%s): '%(n,form); ev+=1
            if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-300:]))
            L=[l.rstrip() for l in w.read('list').decode('latin1').split('\n') if l and not l.startswith(';')]
            if L[1:]!=[exline(a,'areasbbs',None).rstrip(),exline(b,'areasbbs',None).rstrip()]: raise Violation(tag+'wrote %d lines, the first with %d of the links'%(len(L)-1,len(L[1].split())-2 if len(L)>1 else 0))
        finally: w.close()
    return dict(evaluations=ev,nontrivial=[(form,n) for n in ns],states=ev,transitions=ev,sample=None)
# ------------------------------------------------------------ crashlistout
TYPES=dict(clo='Crash',dlo='Direct',flo='Normal',hlo='Hold',cut='Crash',dut='Direct',out='Normal',hut='Hold',req='Request')
def unit(i): return '%dM'%(i//1048576) if i>10000000 else '%dK'%(i//1024) if i>10000 else '%d'%i
def listout(c):
    """files: [(relative name, content)] content: int size of a packet, list of lines for flow and request files"""
    files,runs,zone=c; ev=0
    w=World('x',flavour='asan')
    try:
        data={'data/f1':100,'data/f2':9000,'data/big':20000,'data/huge':30000000,'out/0001000a.mo0':500,'out/0001000a.pnt/x.mo0':700}
        os.mkdir(w.p('data')); os.mkdir(w.p('out/0001000a.pnt'))
        def mk(n,size):
            os.makedirs(os.path.dirname(w.p(n)),exist_ok=True)
            with open(w.p(n),'wb') as f: f.truncate(size)
        for n,s in data.items(): mk(n,s)
        rows=[]; k=0
        for n,ct in files:
            k+=1; os.makedirs(os.path.dirname(w.p('out',n)),exist_ok=True); mt=1700000000+k*4000
            if isinstance(ct,int): mk('out/'+n,ct)
            else: w.write('out/'+n,'\n'.join(l.replace('@',w.root) for l in ct)+('\n' if ct else ''))
            os.utime(w.p('out',n),(mt,mt))
            b=os.path.basename(n); d=os.path.dirname(n); ext=b[-3:].lower()
            if len(b)!=12 or b[8]!='.' or ext not in TYPES: continue
            hx=int(d[:8],16) if d else int(b[:8],16)
            a=nmodel.Addr(zone,hx>>16,hx&0xffff,int(b[:8],16)&0xffff if d else 0)
            sz=0;num=0;cont=[]
            if ext=='req': num=len([l for l in ct if l.strip()]); bf='-/%d'%num; cont=[l.rstrip() for l in ct if l.strip()]
            elif ext[1:]=='lo':
                for l in ct:
                    l=l.rstrip()
                    if not l: continue
                    todo='(To be truncated)' if l[0] in '#^' else '(To be deleted)' if l[0]=='-' else ''
                    f=l[1:] if l[0] in '#^-' else l
                    rel=f.replace('@','') if '@' in f else None
                    s=data.get(rel.lstrip('/')) if rel is not None else data.get('out/'+(d+'/' if d else '')+f)
                    if s is not None: sz+=s;num+=1
                    cont.append((f.replace('@',w.root),'Not found' if s is None else unit(s),todo))
                bf='%s/%d'%(unit(sz),num)
            else: sz=ct;num=1;bf='%s/1'%unit(ct)
            t=time.gmtime(mt)
            rows.append((TYPES[ext],a,'%02d-%s-%02d %02d:%02d'%(t.tm_mday,MON[t.tm_mon-1],t.tm_year%100,t.tm_hour,t.tm_min),bf,n,sz,num,cont,ext))
        for pat,verb in runs:
            r=w.run(['out',str(zone)]+([pat] if pat else [])+(['VERBOSE'] if verb else []),prog='crashlistout'); ev+=1
            tag='crashlistout zone %d pattern %r verbose %r of %r: '%(zone,pat,verb,files)
            if r.rc!=0: raise Violation(tag+'exit %r %r'%(r.rc,r.out[-600:]))
            out=r.out.decode('latin1'); sel=[x for x in rows if pat is None or nmodel.match(pat,x[1],None)]
            got=re.findall(r'^(Crash|Direct|Normal|Hold|Request) +(\d+:\d+/\d+(?:\.\d+)?) +(\S+ \S+) +(\S+)   (\S+)$',out,re.M)
            want=[(x[0],S(x[1],False) if not x[1].p else S(x[1]),x[2],x[3][:7],x[4]) for x in sel]
            if sorted(got)!=sorted(want): raise Violation(tag+'shows %r, expected %r'%(got,want))
            ks=[A(g[1]) for g in got]
            if ks!=sorted(ks): raise Violation(tag+'not sorted by node: %r'%[g[1] for g in got])
            m=re.search(r'Totally (\S+) bytes in (\d+) files to send, (\d+) requests',out)
            if sel:
                e=(unit(sum(x[5] for x in sel)),str(sum(x[6] for x in sel if x[8]!='req')),str(sum(x[6] for x in sel if x[8]=='req')))
                if not m or m.groups()!=e: raise Violation(tag+'total %r, expected %r'%(m and m.groups(),e))
            elif m or 'empty' not in out: raise Violation(tag+'says %r'%out[-200:])
            if verb:
                # what follows the row of each flow or request file
                for x in sel:
                    i=out.index('   %s\n'%x[4])+len('   %s\n'%x[4]); j=re.compile(r'^$',re.M).search(out,i); blk=out[i:j.start()].split('\n')[:-1] if j else []
                    if x[8]=='req': e=[' '+l for l in x[7]]
                    elif x[8][1:]=='lo': e=[(' %-39.39s %10s   %s'%l) for l in x[7]]
                    else: e=[]
                    if [l.rstrip() for l in blk]!=[l.rstrip() for l in e]: raise Violation(tag+'contents of %s shown as %r, expected %r'%(x[4],blk,e))
    finally: w.close()
    return dict(evaluations=ev,nontrivial=[(repr(files),x,zone) for x in runs],states=ev,transitions=ev,sample=dict(files=repr(files)[:200]))
def chunks(l,n): return [tuple(l[i:i+n]) for i in range(0,len(l),n)]
def main():
    ck=Check('C23','fault_enumeration','crashwrite: all subsets of its options, all values of each option, all texts of up to 2 (3) lines over a length alphabet, every mutating call as crash or fault point; crashexport: all sequences of up to 2 (3) areas from a pool, all formats and groups; crashlistout: all small sets of queue files, patterns and modes; non-trivial = distinct input',['every write may fail or be cut short; completed calls persist'])
    scen.init(); world.init(('plain','asan')); L=thorough()
    V=dict(FROMNAME=['A','x'*35,'x'*36,'y'*200,'Anna %s%n'],TONAME=['B','x'*35,'x'*36,'y'*200],SUBJECT=['s','x'*71,'x'*72,'y'*300,'100% %d'],ORIGIN=['o','x'*79,'x'*80,'y'*300,'%s'],FROMADDR=['1:1/1','2:200/300.4','65535:65535/65535.65535','1:1/0'],TOADDR=['1:1/10','3:4/5.6','1:1/10.32767'],
        AREA=['ECHO.MSG','E','X'*70,'a%sb'],PKTFROMADDR=['5:6/7.8','1:1/1'],PKTTOADDR=['1:2/3','9:8/7.6'],PASSWORD=['p','12345678','123456789','a%d'],NOMSGID=[True],FILEATTACH=[True])
    keys=list(V); cs=[]
    for m in range(1<<len(keys)):
        o={k:V[k][0] for i,k in enumerate(keys) if m>>i&1}; cs.append((o,b'line one\nline two\n' if bin(m).count('1')%2 else None))
    for k in keys:
        for v in V[k]:
            for rest in ({},{'AREA':'ECHO.MSG'},{'FROMADDR':'1:2/3.4','TOADDR':'2:3/4.5'}): cs.append((dict(rest,**{k:v}),b'text\n'))
    ck.explore('options',writecases,chunks(cs,40))
    al=[b'',b'a',b'x'*97,b'x'*98,b'x'*99,b'x'*100,b'y'*198,b'y'*199,b'z'*1000,b'100%s %n',b'\xe5\xe4\xf6',b'--- tear',b'\1KLUDGE x',b' * Origin: fake (1:1/1)',b'SEEN-BY: 1/1',b'tab\there']
    tx=[b'']+[b'\n'.join(q)+f for k in (1,2,3) for q in itertools.product(al if k<2 or L and k<3 else al[:10] if k<3 else [al[0],al[1],al[4]],repeat=k) for f in (b'',b'\n',b'\n\n')]+[b'q'*20000+b'\n'+b'r'*200+b'\n']
    ck.explore('text',writecases,chunks([(o,t) for o in (dict(AREA='ECHO.MSG',FROMADDR='1:1/1'),dict(FROMADDR='1:1/1',TOADDR='1:1/10')) for t in tx],40))
    tt=[t for t in tx if len(t)<2000 and b'SEEN-BY' not in t and not t.startswith(b'\1')]
    tc=[(dict(FROMADDR='1:1/10',TOADDR='1:1/1',**o),t) for o in (dict(AREA='ECHO.MSG'),dict(AREA='ECHO.JAM',FROMNAME='x'*35,SUBJECT='y'*71),dict(TONAME='Somebody Else')) for t in tt[::7 if not L else 2]]
    tc+=[(dict(FROMADDR='1:1/10',TOADDR='1:1/1',AREA='NOSUCH'),b'x\n')]
    tc=[(o,t if t.strip(b'\n') else b'x\n') for o,t in tc]      # empty netmail is not imported
    ck.explore('toss',tosscase,chunks(tc,10))
    ck.explore('invalid',badcase,[(dict(x),d,t) for x in ({'FROMADDR':'x'},{'TOADDR':'1:1/1x'},{'PKTFROMADDR':'abc'},{'PKTTOADDR':'1:y/1'}) for d in ('in',) for t in (None,)]+[({},'nosuch',None),({},'in','nosuch'),({'AREA':'E'},'in','nosuch')])
    fc=[]
    for o in (O0,dict(FROMADDR='1:1/1',TOADDR='1:1/10',TEXT='text')):
        for text in (b'hello\n',b'line\n'*3000):
            w=World('x'); w.write('text',text); evs=supw(w,o,('count',))[2]; w.close()
            for e in evs:
                fc.append((o,text,('kill',e.n)))
                for er in (28,5,13): fc.append((o,text,('fail',e.n,er)))
                fc.append((o,text,('full',e.n,28)))
                if e.name=='write' and int(e.res)>1:
                    for b in sorted({1,int(e.res)//2,int(e.res)-1}): fc+=[(o,text,('torn',e.n,b)),(o,text,('short',e.n,b,28))]
    ck.explore('faults',faults,[(dict(o),t,m) for o,t,m in fc])
    FG=[(f,g) for f in ('areasbbs','forward','forwardnodesc','golded','timed') for g in (None,'A','bc','Z')]+[('AreasBBS',None),('GOLDED','a')]
    n=len(POOL); sels=[()]+[(i,) for i in range(n)]+list(itertools.permutations(range(n),2))+(list(itertools.permutations(range(n),3)) if L else [(i,(i+1)%n,(i+3)%n) for i in range(n)])+[tuple(range(n)),tuple(range(n))[::-1]]
    ck.explore('races',race,[(x,i,j,pre) for pre in (0,1,3) for x,J in (('write',list(range(pick(16,24)))+[-1]),('toss',list(range(0,pick(40,120),pick(2,1)))+[-1])) for i in range(pick(16,24)) for j in J],chunk=8)
    ck.explore('manylinks',manylinks,[(f,list(range(k,301,15))) for f in ('short','mid','long') for k in range(15)])
    ck.explore('export',export,[(s,FG) for s in sels])
    F=[('0001000a.out',100),('0001000A.FLO',['^@/data/f1','#@/data/f2','@/data/nosuch','-@/data/big','0001000a.mo0','']),('0001000a.clo',['@/data/huge']),('0001000b.hut',10000),('0001000b.dlo',[]),('0002000a.req',['file1','','file2 !pw']),('00010001.cut',10001),('0001000a.pnt/00000005.flo',['x.mo0','^@/data/f1']),('0001000a.pnt/00000006.out',10000001),
       ('0001000a.bsy',0),('0001000a.try',5),('short.flo',['x']),('0001000a.flox',['@/data/f1']),('00010014.dut',10000000),('0001000a.pnt/00000005.req',['r']),('ffffffff.hlo',['-@/data/f2'])]
    P=[(None,False),(None,True),('*',False),('1:1/10',False),('1:1/10.*',True),('1:1/*',False),('1:*/*.*',False),('2:*/*.*',False),('1:1/1?',False),('1:?/10.5',False),('1:1/1*.*',False)]
    lc=[((),P[:2],1)]+[((f,),P,z) for f in F for z in (1,2)]+[(q,P,1) for q in itertools.combinations(F,2)]+[(q,P[:5],1) for q in (itertools.combinations(F,3) if L else [F[i:i+3] for i in range(len(F)-2)])]+[(tuple(F),P,1),(tuple(F[::-1]),P,1),(tuple(F),P,65535)]
    ck.explore('listout',listout,lc)
    ck.finish()
if __name__=='__main__': main()
