"""C26: configurations and command lines: every statement with every class of wrong, missing, quoted and over-long arguments, all orders of dependent statements, damaged files."""
import _boot,itertools,re,shutil
import world; from world import *
from harness import *
BASE=['SYSOP "Sys Op"','INBOUND "in"','OUTBOUND "out"','TEMPDIR "tmp"','CREATEPKTDIR "cr"','PACKETDIR "pkt"','LOGFILE "cm.log"','LOGLEVEL 1','STATSFILE "cm.stats"','DUPEFILE "cm.dup" 100','DUPEMODE BAD','LOOPMODE LOG',
  'PACKER "P" "true" "true" "PK"','AKA 1:1/1','NODE 1:1/10 "" ""','NODE 1:1/20 "P" "pw"','AREA "BAD" 1:1/1 MSG "areas/bad"','NETMAIL "NET" 1:1/1 MSG "areas/net"','LOCALAREA "LOC" 1:1/1 MSG "areas/loc"','ROUTE "*:*/*.*" "1:1/10" 1:1/1','FILTER SUBJECT="zz"','AREA "ECHO" 1:1/1 JAM "areas/echo"']
PKT=mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:ECHO\rBEGIN-X lorem END-X\rSEEN-BY: 1/10\r\1PATH: 1/10\r')])
def judge(w,tag,want,line=None,args=('TOSS',),asan=False):
    """runs it; want: True accepted, False rejected, None either; -> accepted?"""
    before=w.tree(); r=w.cm(*args)
    t=r.out.decode('latin1')
    if r.rc==99 or 'runtime error' in t or r.rc in ('timeout',) or (isinstance(r.rc,int) and r.rc<0): raise Violation(tag+'%s: %s'%('memory error' if r.rc==99 or 'runtime' in t else 'ends with %r'%r.rc,t[-600:]))
    if r.rc==0:
        if want is False: raise Violation(tag+'accepted')
        return True
    if r.rc!=10: raise Violation(tag+'exit status %r: %s'%(r.rc,t[-200:]))
    if want is True: raise Violation(tag+'rejected: %s'%t[-300:])
    m=re.search(r'Configuration error in cm\.cfg( on line (\d+))?:\n(.*)',t)
    if m:
        if line is not None and m.group(2) is not None and int(m.group(2))!=line: raise Violation(tag+'the error is reported on line %s instead of %d'%(m.group(2),line))
        if not m.group(3).strip(): raise Violation(tag+'rejected without a reason: %r'%t[-200:])
    elif want is False: raise Violation(tag+'exit status 10 without a configuration error: %r'%t[-300:])
    after=w.tree(skip=('cm.log',)) if not m else w.tree()
    if m and after!=before: raise Violation(tag+'rejected, but files changed: %s'%sorted(set(after.items())^set(before.items()))[0][0])
    return False
def mk(lines,flavour='asan',eol='\n'):
    w=World(eol.join(lines)+eol,flavour=flavour); w.inbound(PKT); os.mkdir(w.p('areas/bad')); os.mkdir(w.p('areas/net')); os.mkdir(w.p('areas/loc')); return w
def one(tag,lines,want,line=None,flavour='asan',eol='\n',args=('TOSS',)):
    w=mk(lines,flavour,eol)
    try:
        a=judge(w,tag,want,line,args)
        if a and want and args==('TOSS',) and w.ls('in'): raise Violation(tag+'accepted, but the packet was not tossed')
        return a
    finally: w.close()
NB=['x','1:1/a','1:1/1/1','1.1.1','1:1:1','1:1/10@fido','-1:1/1','1/1:1','"1:1/1 "']      # no addresses
PB=['x','"1:1:1"','"1:1/1/1"','"a:*/*.*"','"1:1/1-"','"1.1.1"','"NETX 1:1"','"REGIONS 1:1"','"*:*/*.*x"']
K={ # kind: (good, bad)
 'node':(['1:1/10','2:2/2','1:1/10.5','"3:3/3.3"'],NB),
 '2d':(['1/10','20/3','"1/1"'],['x','1/1/1','1/a']),
 '2dpat':(['1/10','"1/*"','"*"','"1/1?"'],['x','1/1/1','1/a','"1:1/1"']),
 'aka':(['1:1/1','"1:1/1"','1:1/1.0'],NB+['1:1/2','2:1/1','1:1/1.5']),
 'cnode':(['1:1/10','1:1/20.0'],NB+['1:1/99','1:1/10.1','2:1/10','1:2/10','2:1/20']),
 'packer':(['""','P','"p"'],['Q','PP']),
 'letter':(['A','z','"M"'],['1','"!"','"\xc5"','[','@','`','{']),
 'groups':(['"ABC"','""','z','ABCDEFGHIJKLMNOPQRSTUVWXYZ'],['"A1"','"A B"','A-Z','"A,B"']),
 'mb':(['MSG','msg','JAM'],['UMS','xyz','JAMX','JA']),
 'pat':(['"*"','"1:*/*.*"','"NET 1:2"','"node 1:1/1"','"ZONE 3"','1:1/1','"1:1/1?.*"'],PB),
 'dpat':(['"*:*/*.*"','"1:1/20"','NODE','net','ZONE'],PB),
 'flavs':(['*','Normal','crash,HOLD','Normal,Crash,Hold,Direct'],['x','Normal,x','Normal,Crash,Holdx','Normal+Crash']),
 'flav':(['Normal','crash','HOLD','Direct'],['x','Normal,Crash','*']),
 'dupe':(['IGNORE','kill','Bad'],['x','KILLX','LOG']),
 'loop':(['IGNORE','log','LOG+BAD'],['x','BAD','LOG+','KILL']),
 'level':(['1','6','3'],['0','7','-1','x','100']),
 'num':(['0','1','10','65535'],[]),
 'str':(['x','"x y"','"a\\\\b"'],[]),
 'name':(['x','"x y"'],[]),
 'mode':(['FORWARD','desc'],['x','FORWARDX','NEEDSPLUS']),
 'plus':(['NEEDSPLUS','needsplus'],['x','FORWARD']),
 'nflag':(['NOTIFY','passive','NOSEENBY','TINYSEENBY','FORWARDREQ','PACKNETMAIL','SENDAREAFIX','SENDTEXT','AUTOADD','NONETMAILPASSWORD','CRASH','DIRECT','hold'],['x','NOTIFYX','NORMAL','"NOTIFY PASSIVE"']),
 'toss':(['1:1/10','!1:1/10','@1:1/20','%1:1/10','"1:1/20"'],['x','!x','1:1/99','!1:1/99','#1:1/10']),
 'cnode*':(['1:1/10','1:1/20'],['x','1:1/99']),
 'nltype':(['CMNL','v7+'],['x','FTSC']),
}
# keyword: (context, required kinds, optional kinds, repeated kind)
S={'AKA':('',['node'],[],None),'ADDNODE':('',[],[],'2d'),'REMNODE':('',[],[],'2dpat'),'DOMAIN':('',['name'],[],None),'GROUPNAME':('',['letter','str'],[],None),
 'NODE':('',['node','packer','name'],[],'nflag'),'PKTFROM':('',['node'],[],None),'AREAFIXINFO':('',['name'],['groups','groups','groups'],None),'DEFAULTGROUP':('',['letter'],[],None),'REMOTEAF':('',['name','name'],[],'plus'),'REMOTESYSOP':('',['name'],[],None),
 'UNCONFIRMED':('',[],[],None),'MANDATORY':('',[],[],None),'DEFREADONLY':('',[],[],None),'IGNOREDUPES':('',[],[],None),'IGNORESEENBY':('',[],[],None),'EXPORT':('',[],[],'toss'),'IMPORT':('net',[],[],'node'),'BANNED':('',[],[],'cnode*'),'DESCRIPTION':('',['str'],[],None),'GROUP':('',['letter'],[],None),'KEEPNUM':('',['num'],[],None),'KEEPDAYS':('',['num'],[],None),
 'AREAFIXNAME':('',['str'],[],None),'FILEATTACH':('',[],[],'pat'),'BOUNCE':('',[],[],'pat'),'SYSOP':('',['str'],[],None),'BEFORETOSS':('',['true'],[],None),'BEFOREPACK':('',['true'],[],None),'AREAFIXHELP':('',['str'],[],None),
 'LOGLEVEL':('',['level'],[],None),'DUPEMODE':('',['dupe'],[],None),'LOOPMODE':('',['loop'],[],None),'PACKER':('',['name','str','str','str'],[],None),'ROUTE':('',['pat','dpat','aka'],[],None),'CHANGE':('',['flavs','pat','flav'],[],None),'AREALIST':('',['cnode','str'],[],'mode'),
 'KILL':('',[],[],None),'TWIT':('',[],[],None),'EXECUTE':('',['str'],[],None),'WRITELOG':('',['str'],[],None),'WRITEBAD':('',['str'],[],None),'BOUNCEMSG':('',['str'],[],None),'BOUNCEHEADER':('',['str'],[],None),'REMAPMSG':('',['str','dpat'],[],None),
 'MAXPKTSIZE':('',['num'],[],None),'MAXBUNDLESIZE':('',['num'],[],None),'DEFAULTZONE':('',['num'],[],None),'AREAFIXMAXLINES':('',['num'],[],None),'JAM_MAXOPEN':('',['pos'],[],None)}
K['true']=(['true','"true x"'],[]); K['pos']=(['1','5','20'],[])
for x in ('STRIPRE','FORCEINTL','BOUNCEHEADERONLY','REMOVEWHENFEED','INCLUDEFORWARD','NOMAXOUTBOUNDZONE','ALLOWKILLSENT','FLOWCRLF','NOEXPORTNETMAIL','NOROUTE','ANSWERRECEIPT','ANSWERAUDIT','CHECKSEENBY','CHECKPKTDEST','PATH3D','IMPORTEMPTYNETMAIL','IMPORTAREAFIX','AREAFIXREMOVE','NODIRECTATTACH','BOUNCEPOINTS','IMPORTSEENBY','WEEKDAYNAMING','ADDTID','ALLOWRESCAN','FORWARDPASSTHRU','MSG_HIGHWATER','MSG_WRITEBACK','JAM_HIGHWATER','JAM_LINK','JAM_QUICKLINK'): S[x]=('',[],[],None)
AREAS={'AREA':(['name','aka'],['mb','path']),'NETMAIL':(['name','aka','mb','path'],[]),'LOCALAREA':(['name','aka','mb','path'],[])}
K['path']=(['areas/other','"areas/other"'],['areas/bad','AREAS/NET','"areas/echo"'])
def base(ctx): return BASE if not ctx else [l for l in BASE if l[:7]!='NETMAIL']+[l for l in BASE if l[:7]=='NETMAIL']
def statements():
    """-> (description, statement, context, verdict)"""
    for k,(ctx,req,opt,rep) in list(S.items())+[(k,('',r,o,None)) for k,(r,o) in AREAS.items()]:
        al=[K[x] for x in req]; good=[g[0] for g,b in al]
        for n in range(len(req)): yield k+' '+' '.join(good[:n]),ctx,False                     # missing arguments
        full=k+' '+' '.join(good)
        yield full,ctx,True
        for v in (k.lower(),k.capitalize()): yield v+' '+' '.join(good),ctx,True
        yield '\t '+k+'\t  '+'\t'.join(good)+' \t',ctx,True
        for bad in (k+'X',k[:-1] if k not in ('NODES',) and k[:-1] not in S else 'ZZ',k+':'): 
            if bad.upper() not in S and bad.upper() not in AREAS: yield bad+' '+' '.join(good),ctx,False
        yield ';'+full,ctx,True
        for i,(g,b) in enumerate(al):
            for x in g[1:]: yield k+' '+' '.join(good[:i]+[x]+good[i+1:]),ctx,True
            for x in b: yield k+' '+' '.join(good[:i]+[x]+good[i+1:]),ctx,False
            for x in ('""','"','\\','"x','x"y','\\"'): yield k+' '+' '.join(good[:i]+[x]+good[i+1:]),ctx,None
        for i in range(len(opt)):
            pre=good+[K[x][0][0] for x in opt[:i]]; g,b=K[opt[i]]; post=[K['path'][0][0]] if k=='AREA' and i==0 else []
            for x in g: yield k+' '+' '.join(pre+[x]+post),ctx,True
            for x in b: yield k+' '+' '.join(pre+[x]+post),ctx,False
            if post: yield k+' '+' '.join(pre+[g[0]]),ctx,False
        if rep:
            g,b=K[rep]
            for n in range(1,len(g)+1): yield full+' '+' '.join(g[:n]),ctx,True
            for x in g: yield full+' '+x,ctx,True
            for x in b:
                yield full+' '+x,ctx,False; yield full+' '+g[0]+' '+x,ctx,False; yield full+' '+x+' '+g[0],ctx,False
    yield 'AREALIST 1:1/10 "x" GROUP A','',True; yield 'AREALIST 1:1/10 "x" GROUP','',False; yield 'AREALIST 1:1/10 "x" GROUP 1','',False; yield 'AREALIST 1:1/10 "x" DESC FORWARD GROUP b','',True
    yield 'COPY LOC','',True; yield 'COPY "loc"','',True; yield 'COPY NOSUCH','',False; yield 'COPY LO','',False; yield 'COPY LOCX','',False; yield 'COPY ECHO','',False; yield 'COPY NET','',False; yield 'COPY BAD','',False; yield 'COPY','',False
    for p in ('REGION 1:2','HUB 1:1/1'):
        for s in ('FILEATTACH "%s"','BOUNCE "%s"','ROUTE "%s" "1:1/1" 1:1/1','CHANGE * "%s" Hold'): yield s%p,'',False
    for p in ('REGION','HUB'): yield 'ROUTE "*" %s 1:1/1'%p,'',False; yield 'REMAPMSG "x" '+p,'',False
    yield 'IMPORT 1:1/5','',False; yield 'EXPORT 1:1/10','net',False
    yield 'AREA "BAD" 1:1/1','',False; yield 'AREA "DEFAULT" 1:1/1 JAM "areas/%a"','',True; yield 'AREA "DEFAULT_A" 1:1/1','',True
    yield 'NETMAIL "N" 1:1/1','',False; yield 'LOCALAREA "N" 1:1/1','',False
    for f in ('FROMNAME="x"','FROMNAME="x" and SUBJECT="y"','NOT (FROMNAME="x")','(TEXT|"x") or TEXT|"y"'): yield 'FILTER '+f,'',True
    for f in ('','NOSUCH="x"','FROMNAME','(FROMNAME="x"','FROMNAME="x")','FROMNAME="x" SUBJECT="y"','FROMNAME="x" and','and','FROMNAME="x" xor SUBJECT="y"','NOT','()','FROMNAME ~ "x"'): yield 'FILTER '+f,'',False
    for l in ('','   ','\t',';',';;x',' ; x','      '): yield l,'',True
    for l in ('#x','x','"','""x','"NODE" 1:1/5 "" ""'): yield l,'',None
def stmt(c):
    i,(l,ctx,want),pos=c; b=base(ctx); k=l.strip().split(' ')[0].split('\t')[0]
    lines=b+[l] if pos==0 else b+[l,'; end',''] if pos==1 else b+[l]
    one('"%s" added: '%l,lines,want,len(b)+1,eol='\r\n' if pos==2 else '\n')
    return dict(evaluations=1,nontrivial=[(l,pos)],states=1,transitions=1,sample=dict(statement=l,accepted=want) if i%97==3 else None)
# ---- lengths
def lens(c):
    k,i,q,lo,hi=c; ctx,req,opt,rep=S[k] if k in S else ('',AREAS[k][0],AREAS[k][1],None); kinds=req+opt+([rep] if rep else []); n=0
    for L in range(lo,hi):
        a=[K[x][0][0] for x in kinds]; kind=kinds[i]
        v={'n':'1'*L,'x':'A'*L,'s':'A '*(L//2)+'A'*(L%2),'p':'*'*L,'a':'1:1/'+'1'*L,'e':'\\A'*L}[q]
        a[i]='"%s"'%v if q in 'xspe' else v
        one('%s with an argument of %d characters (%s...): '%(k,L,v[:8]),base(ctx)+[k+' '+' '.join(a[:max(i+1,len(req))])],None); n+=1
    return dict(evaluations=n,nontrivial=[(k,i,q,L) for L in range(lo,hi)],states=n,transitions=n)
# ---- order of dependent statements
ORD={'AKA 2:2/2':('aka',None),'DOMAIN "d"':(None,'aka'),'ADDNODE 1/1':(None,'aka'),'NODE 2:2/10 "" ""':('node',None),'NODE 2:2/11 "PK" ""':('node','packer'),'PACKER "PK" "t" "t" "x"':('packer',None),'PKTFROM 2:2/2':(None,'node'),'AREAFIXINFO "x" "A"':(None,'node'),'REMOTEAF "x" "y"':(None,'node'),
 'AREA "E2" 2:2/2 MSG "areas/e2"':('area','aka'),'EXPORT 2:2/10':(None,'area+node'),'MANDATORY':(None,'area'),'GROUP A':(None,'area'),'BANNED 2:2/10':(None,'area+node'),'FILTER SUBJECT="q"':('filter',None),'KILL':(None,'filter'),'WRITELOG "x"':(None,'filter'),'ROUTE "2:*/*.*" "2:2/10" 2:2/2':(None,'aka'),'AREALIST 2:2/10 "x"':(None,'node')}
ORD.pop('AREALIST 2:2/10 "x"'); ORD['AREALIST 2:2/10 "x"']=(None,'node10'); 
def verdict(seq):
    have=set()
    for n,l in enumerate(seq,1):
        g,need=ORD[l]
        if l.startswith(('EXPORT','BANNED')):
            if 'area' not in have or 'node10' not in have: return n
        elif need and need not in have: return n
        if g: have.add(g)
        if l.startswith('NODE 2:2/10'): have.add('node10')
    return 0 if 'aka' in have and sum(l.startswith('AREA ') for l in seq)<2 else -1
def order(c):
    seq=c; n=verdict(seq)
    one('configuration of the statements %s: '%'; '.join(seq),['INBOUND "in"','OUTBOUND "out"','LOGFILE "cm.log"','LOGLEVEL 1','DUPEFILE "cm.dup" 10']+list(seq),n==0,n+5 if n>0 else None,flavour='plain',args=())
    return dict(evaluations=1,nontrivial=[seq],states=1,transitions=1)
# ---- damage to a whole configuration
def damaged(c):
    lo,hi,kind,lines=c; n=0
    b=('\n'.join(lines)+'\n').encode('latin1')
    for i in range(lo,min(hi,len(b))):
        for d in ([b[:i]] if kind=='cut' else [b[:i]+b[i+1:]] if kind=='del' else [b[:i]+b[i:i+1]+b[i:]] if kind=='dup' else [b[:i]+x+b[i+1:] for x in kind.split(b'|')]):
            w=World(None,flavour='asan'); w.write('cm.cfg',d); w.inbound(PKT); os.mkdir(w.p('areas/bad')); os.mkdir(w.p('areas/net')); os.mkdir(w.p('areas/loc'))
            try: judge(w,'configuration with %s at byte %d (line %d, %r): '%(kind,i,d[:i].count(b'\n')+1,d[max(0,i-20):i+20]),None,args=('TOSS','SCAN')); n+=1
            finally: w.close()
    return dict(evaluations=n,nontrivial=[(kind,i) for i in range(lo,min(hi,len(b)))],states=n,transitions=n)
ALL=BASE+['EXPORT 1:1/10 !20 @1:1/10 %1:1/20','BANNED 1:1/10','DESCRIPTION "A \\"description\\""','GROUP A','KEEPNUM 100','KEEPDAYS 5','MANDATORY','NODE 1:1/30.5 "P" "" NOTIFY AUTOADD TINYSEENBY HOLD','PKTFROM 1:1/1.5','AREAFIXINFO "secret" "ABC" "D" "EF"','DEFAULTGROUP Z','REMOTEAF "AreaFix" "pw" NEEDSPLUS','REMOTESYSOP "Remote"','AKA 2:2/2.2','DOMAIN "fidonet"','ADDNODE 1/2 3/4','REMNODE 1/* "5/5?"','CHANGE Normal,Crash "2:*/*.*" Hold','ROUTE "NET 2:2" NODE 2:2/2.2','BOUNCE "1:*/*.*"','FILEATTACH "1:1/10.*"','GROUPNAME A "Group"','AREALIST 1:1/10 "list" FORWARD DESC GROUP B','FILTER (FROMNAME~"x*" or TOADDR=2:*/*) and NOT TEXT|"spam"','WRITELOG "%f %t"','COPY LOC','REMAPMSG "name" "1:1/10"','KILL','AREAFIXNAME "AreaFix"','MAXPKTSIZE 10','DEFAULTZONE 2','JAM_MAXOPEN 3']
# ---- values are used as written
SPEC=' "\\;\'%'
def quoted(v,form):
    if form=='plain': return v
    if form=='bare': return re.sub(r'([ \\])',r'\\\1',v)
    if form=='all': return '"'+''.join('\\'+x if not x.isalnum() else x for x in v)+'"'
    return '"'+v.replace('\\','\\\\').replace('"','\\"')+'"'
def values(c):
    L,form,sep,eol=c
    special=form in ('bare','all','quote')
    def nm(pfx,n):
        n=min(n,L); t=pfx+''.join('abcdefghijklmnopqrstuvwxyz0123456789'[i%36] for i in range(n-1))
        if special and n>=8: t=t[:3]+SPEC[L%len(SPEC)]+t[4:6]+SPEC[(L//6)%len(SPEC)]+t[7:]
        return t
    P={k:nm(x,99) for k,x in (('INBOUND','I'),('OUTBOUND','O'),('TEMPDIR','T'),('CREATEPKTDIR','C'),('PACKETDIR','P'),('LOGFILE','L'),('STATSFILE','S'),('DUPEFILE','D'))}
    tag=nm('E',79).replace(' ','_').replace(';','_'); path=nm('A',79); pw=nm('W',8).upper(); jam=nm('J',79); jtag=nm('F',79).replace(' ','_').replace(';','_')
    q=lambda v: quoted(v,form)
    w=World('',flavour='plain'); tg='values of %d characters (%s, separated by %r): '%(L,form,sep)
    try:
        for k in ('INBOUND','OUTBOUND','TEMPDIR','CREATEPKTDIR','PACKETDIR'): os.mkdir(w.p(P[k]))
        os.mkdir(w.p(path))
        W=lambda *a: sep.join(a)
        ln=[W('SYSOP','"Sys Op"')]+[W(k,q(v))+(sep+'100' if k=='DUPEFILE' else '') for k,v in P.items()]+[W('LOGLEVEL','1'),W('DUPEMODE','BAD'),W('AKA','1:1/1'),W('NODE','1:1/10','""','""'),W('NODE','1:1/20','""',q(pw)),
          W('AREA','"BAD"','1:1/1','MSG','"areas/bad"'),W('AREA',q(tag),'1:1/1','MSG',q(path)),W('EXPORT','1:1/10','1:1/20'),W('AREA',q(jtag),'1:1/1','JAM',q(jam)),W('EXPORT','1:1/10','1:1/20'),W('NETMAIL','"NET"','1:1/1','MSG','"areas/net"')]
        w.write('cm.cfg',(eol.join(ln)+(eol if L%2 else '')).encode('latin1'))
        ms=[Msg((1,10),(1,1),body=b'AREA:'+t.encode()+b'\rtext %d\rSEEN-BY: 1/10\r\1PATH: 1/10\r'%i,subj=b'm%d'%i) for i,t in enumerate((tag,jtag))]
        w.write(P['INBOUND']+'/00000001.pkt',mkpkt(A('1:1/10'),A('1:1/1'),ms))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tg+'exit status %r: %s'%(r.rc,r.out[-300:].decode('latin1')))
        t=w.tree(); files=set(t)
        want={'cm.cfg',P['LOGFILE'],P['STATSFILE'],P['DUPEFILE']}|{jam+'.'+e for e in ('jhr','jdx','jdt','jlr')}
        outs={f for f in files if f.startswith((P['OUTBOUND']+'/',P['PACKETDIR']+'/'))}
        extra=files-want-outs-{path+'/%d.msg'%i for i in (1,2)}; miss=want-files
        if extra or miss: raise Violation(tg+'files %r are missing, files %r are not named by the configuration'%(sorted(miss),sorted(extra)))
        st=read_msgdir(w.p(path)); jm=read_jam(w.p(jam)).msgs
        if b'm0' not in [m.subj for m in st.values()] or len(jm)!=1: raise Violation(tg+'the messages were not stored in the areas named')
        pk=[parse_pkt(t[f]) for f in outs if f.lower().endswith(('.pkt','ut'))]
        if len(pk)!=1 or sorted(parse_echo(m.body).area for m in pk[0].msgs)!=sorted((tag.encode(),jtag.encode())): raise Violation(tg+'forwarded: %r'%[m.body[:120] for p in pk for m in p.msgs])
        if pk[0].pw.rstrip(b'\0')!=pw.encode(): raise Violation(tg+'packet password %r'%pk[0].pw)
        w.cm('TOSS')
    finally: w.close()
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
# ---- command lines
STR={'SETTINGS','SCANAREA','SCANLIST','SCANDOTJAM','TOSSFILE','TOSSDIR','RESCAN','RESCANNODE','RESCANMAX','SENDLIST','SENDQUERY','SENDUNLINKED','SENDHELP','SENDINFO','REMOVE'}
BOOL=['SCAN','TOSS','LOCK','UNLOCK','NOSECURITY','VERSION']
def cmdline(c):
    w=mk(BASE,'asan'); tag='crashmail %s: '%' '.join(c)
    try:
        before=w.tree(); r=w.run(list(c)); t=r.out.decode('latin1')
        if r.rc not in (0,10): raise Violation(tag+'exit status %r: %s'%(r.rc,t[-300:]))
        # model
        seen={}; i=0; err=False; a=list(c)
        while i<len(a):
            u=a[i].upper()
            if u in STR:
                if i+1>=len(a): err=True; break
                seen[u]=a[i+1]; i+=2
            elif u in BOOL: seen[u]=True; i+=1
            else: err=True; break
        after=w.tree()
        if err:
            if r.rc!=10: raise Violation(tag+'accepted')
            if after!=before: raise Violation(tag+'refused, but files changed')
        elif 'VERSION' in seen:
            if r.rc!=0 or after!=before: raise Violation(tag+'VERSION: exit status %r, files changed: %r'%(r.rc,after!=before))
        elif 'LOCK' in seen or 'UNLOCK' in seen: pass
        elif seen.get('SETTINGS')!='cm.cfg':
            if r.rc!=10 or after!=before: raise Violation(tag+'without a configuration: exit status %r, files changed: %r'%(r.rc,after!=before))
        elif 'TOSS' in seen:
            if 'in/00000001.pkt' in after: raise Violation(tag+'nothing tossed: %s'%t[-200:])
        elif 'in/00000001.pkt' not in after and seen.get('TOSSFILE')!='in/00000001.pkt' and seen.get('TOSSDIR')!='in': raise Violation(tag+'tossed')
        if 'LOCK' not in seen and not err and w.exists('cm.cfg.busy') : raise Violation(tag+'the lock is left behind')
    finally: w.close()
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def cmdcases():
    W=['TOSS','scan','NOSECURITY','VERSION','BOGUS','','-x','SETTINGS','cm.cfg','nosuch.cfg','TOSSFILE','in/00000001.pkt','SCANAREA','ECHO','RESCAN','RESCANNODE','1:1/10']
    for k in (0,1,2): yield from itertools.product(W,repeat=k)
    for c in itertools.product(W,repeat=2): yield ('SETTINGS','cm.cfg')+c
    for c in itertools.product(W,repeat=1): yield ('SETTINGS','cm.cfg')+c; yield c+('SETTINGS','cm.cfg'); yield ('settings','cm.cfg')+c; yield ('SETTINGS','cm.cfg','TOSS')+c
def main():
    ck=Check('C26','exploration','every configuration statement with every missing, wrong, quoted and boundary-length argument, all sequences of dependent statements up to the bound, all one-byte damages of a configuration using every statement, all command lines of up to 2 further words; non-trivial = distinct configuration or command line',['lines over 3999 characters and NUL bytes are only judged for memory safety'])
    world.init(('plain','asan'))
    st=list(statements())
    ck.explore('statements',stmt,[(i,s,p) for i,s in enumerate(st) for p in (0,1,2)],chunk=8)
    LN=[]
    for k,(ctx,req,opt,rep) in list(S.items())+[(k,('',r,o,None)) for k,(r,o) in AREAS.items()]+[('FILTER',('',['str'],[],None))]:
        if k=='FILTER': S[k]=('',['str'],[],None)
        for i,x in enumerate(req+opt+([rep] if rep else [])):
            for q in ('n','x','p','s') if x not in ('node','aka','cnode','toss') else ('n','a','x'):
                for lo in range(0,pick(121,260),20): LN.append((k,i,q,lo,lo+20) if thorough() or lo<60 else (k,i,q,lo+(i*7+len(k)*3)%19,lo+(i*7+len(k)*3)%19+1))
                LN+=[(k,i,q,L,L+1) for L in (198,199,200,201,299,300,301,399,400,401,999,3980,4100)]
    ck.explore('lengths',lens,LN,chunk=2)
    ck.explore('order',order,[s for n in range(0,pick(3,4)+1) for s in itertools.product(ORD,repeat=n)],chunk=32)
    L=len('\n'.join(ALL)+'\n')
    ck.explore('damage',damaged,[(i,i+8,k,ALL) for k in ['cut','del','dup',b'"',b' ',b'\\',b'\n']+([b'\xff',b'\0',b'%',b'0',b':|/|.'] if thorough() else [b'\0']) for i in range(0,L,8)],chunk=1)
    ck.explore('values',values,[(L,f,sp,e) for L in range(1,100) for f in ('plain','bare','quote','all') for sp in (' ','\t','   ') for e in ('\n',) if thorough() or sp==' ' or L%9==0],chunk=8)
    ck.explore('command lines',cmdline,sorted(set(cmdcases())),chunk=8)
    ck.finish()
if __name__=='__main__': main()
