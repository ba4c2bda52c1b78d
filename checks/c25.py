"""C25: another program changes the JAM bases, by the JAM locking rule, at every moment of a run; or holds a base locked."""
import _boot,tempfile,itertools
import build,scen; from scen import *
from harness import *
CL='mor'; ED=None
EX=[('1:1/10',''),('1:1/20','')]
def cfg(maxopen=5,tail='',opts=()):
    return Cfg([Aka('1:1/1')],[Node('1:1/10'),Node('1:1/20')],[Area('BAD','1:1/1',('JAM','areas/bad')),Area('JA','1:1/1',('JAM','areas/ja'),EX,['KEEPNUM 3']),Area('JB','1:1/1',('JAM','areas/jb'),EX),Area('NETJ','1:1/1',('JAM','areas/netj'),kind='NETMAIL')],
        opts=opts,routes=['"1:*/*.*" "1:1/20" 1:1/1'],tail='JAM_MAXOPEN %d\n'%maxopen+tail).text(loglevel=1)
def jb(w,name,msgs):
    W=JamWriter(basenum=3)
    for x,attr,sub in msgs: W.add(text=mark(x),subj=b'S '+x,attr=attr,sub=[(0,b'1:1/1')]+list(sub))
    W.write(w.p('areas/'+name))
IMP=JTYPEECHO; LOC=JTYPEECHO|JTYPELOCAL|JL; NETL=JTYPENET|JTYPELOCAL|JL
def mid(x): return (4,b'1:1/1 '+x)
def rep(x): return (5,b'1:1/1 '+x)
def em(area,x,reply=None):
    m=echo(area,x,frm='1:1/10'); m.body=m.body.replace(b'\1MSGID: 1:1/10 ',b'\1MSGID: 1:1/1 ')
    if reply: m.body=m.body.replace(b'\1MSGID',b'\1REPLY: 1:1/1 %s\r\1MSGID'%reply,1)
    return m
def bases(w):
    jb(w,'ja',[(b'A1',IMP,[mid(b'A1')]),(b'A2',IMP|JREAD,[mid(b'A2')])]); jb(w,'jb',[(b'B1',IMP,[mid(b'B1')])]); jb(w,'netj',[(b'N1',JTYPENET|JSENT,[(1,b'1:1/1')])])
def inb(w): w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[em(b'JA',b'T1',b'A2'),em(b'JB',b'T2'),em(b'JA',b'T3',b'T1'),em(b'NOSUCH',b'T4'),net('1:1/1',b'T5')]))
def h_toss(m,tail=''):
    def f(w): w.write('cm.cfg',cfg(m,tail)); bases(w); inb(w)
    return f
def h_scan(tail):
    def f(w):
        w.write('cm.cfg',cfg(5,tail,('ALLOWKILLSENT',)))
        jb(w,'ja',[(b'A1',IMP,[mid(b'A1')]),(b'A2',LOC,[mid(b'A2')]),(b'A3',LOC,[mid(b'A3')])]); jb(w,'jb',[(b'B1',LOC,[mid(b'B1')])]); jb(w,'netj',[(b'N1',NETL|JPRIV,[(1,b'1:1/20')]),(b'N2',NETL|JPRIV|JKS,[(1,b'1:1/20')])])
    return f
def h_old(w):
    w.write('cm.cfg',cfg()); bases(w); jb(w,'ja',[(b'A%d'%i,IMP,[mid(b'A%d'%i)]) for i in range(1,6)])
H={'toss':(h_toss(5),('TOSS',)),'toss, one base open':(h_toss(1),('TOSS',)),'toss and link':(h_toss(5,'JAM_LINK\n'),('TOSS',)),'toss and quick link':(h_toss(5,'JAM_LINK\nJAM_QUICKLINK\n'),('TOSS',)),
   'scan':(h_scan(''),('SCAN',)),'scan with high water marks':(h_scan('JAM_HIGHWATER\n'),('SCAN',)),'rescan':(h_scan(''),('RESCAN','JA','RESCANNODE','1:1/10')),'expire':(h_old,('MAINT',))}
ACT={'add':('ja','add','E1','0x01800001'),'addb':('jb','add','E1','0x01800001'),'read':('ja','attr','3','0x8'),'delete':('ja','del','4'),'netmail':('netj','attr','3','0x8')}
def cmd(w,argv):
    if argv[0]=='MAINT' or argv[0]=='PACK': return ['/usr/bin/env','CM_TIME=%d'%w.now,os.path.join(BIN['plain'],'crashmaint')]+list(argv)+['SETTINGS','cm.cfg']
    return ['/usr/bin/env','CM_TIME=%d'%w.now,os.path.join(BIN['plain'],'crashmail'),'SETTINGS','cm.cfg']+list(argv)
def ed(a): return [ED,'areas/'+ACT[a][0]]+list(ACT[a][1:])
def state(w):
    """base -> {marker: (count, attr)}; strict reading of every base"""
    o={}
    for b in ('ja','jb','netj','bad'):
        if not w.exists('areas/%s.jhr'%b): o[b]={}; continue
        d={}
        for m in read_jam(w.p('areas/'+b)).msgs:
            if m.deleted: continue
            for x in marks(m.text): d.setdefault(x,[]).append(m.attr)
        o[b]=d
    return o
def sent(w):
    d={}
    items,prob=outbound(w,{'out':1})
    if prob: raise PktError(prob[0])
    for it in items:
        for p in it.pkts:
            for m in p.msgs:
                for x in marks(m.body): d[x,S(it.dest)]=d.get((x,S(it.dest)),0)+1
    return d
_ref={}
def ref(name):
    if name not in _ref:
        w=instance('c25 '+name)
        try:
            before=state(w); rc,out,evs,ex=sup(w,CL,['count'],None,cmds=[cmd(w,H[name][1])])
            if rc: raise Exception('reference %s: %r %r'%(name,rc,out[-300:]))
            _ref[name]=(before,state(w),sent(w),len(evs))
        finally: w.close()
    return _ref[name]
def final(w,name,tag,acts,again=False):
    """acts: editor actions that were carried out; again: the run gave up waiting for a lock, so mail may have been processed twice"""
    cnt=(lambda n:min(n,1)) if again else (lambda n:n)
    before,after,snt,_=ref(name); H_=H[name][1][0]
    if H_ in ('TOSS','SCAN'):
        for r in (('TOSS',),('SCAN',),('SCAN',)):
            x=w.cm(*r)
            if x.rc!=0: raise Violation(tag+'%s after it exits with %r: %r'%(r[0],x.rc,x.out[-200:]))
    if w.ls('in'): raise Violation(tag+'left in the inbound: %r'%w.ls('in'))
    try: got=state(w); gs=sent(w)
    except PktError as e: raise Violation(tag+'damaged: %s'%e)
    for b in after:
        want=dict(after[b])
        for a in acts:
            if ACT[a][0]!=b: continue
            if ACT[a][1]=='add': want['E1']=[0]
            elif ACT[a][1]=='del': want.pop({'4':'A2'}[ACT[a][2]],None)
        g=got[b]
        if H_=='MAINT' and acts:
            # which messages are the surplus depends on the moment; the newest ones are kept, an added one always
            for x in ('A3','A4','A5') if b=='ja' else sorted(want):
                if x=='A3' and 'add' in acts: continue
                if x=='A2' and 'delete' in acts: continue
                if len(g.get(x,()))!=1: raise Violation(tag+'message %s in %s %d times'%(x,b,len(g.get(x,()))))
            if b=='ja' and 'add' in acts and len(g.get('E1',()))!=1: raise Violation(tag+'the message added by the other program is in the base %d times'%len(g.get('E1',())))
        else:
            # high water marks: what could not be marked in the locked base is not looked at again; it was sent once and stays
            if again and 'water' in name and 'N2' in g: want.setdefault('N2',[0])
            if {x:cnt(len(v)) for x,v in g.items()}!={x:len(v) for x,v in want.items()}: raise Violation(tag+'%s holds %s, expected %s'%(b,{x:len(v) for x,v in sorted(g.items())},sorted(want)))
        for a in acts:
            if ACT[a][0]==b and ACT[a][1]=='attr':
                x={'ja':'A1','netj':'N1'}[b]
                if x in g and not g[x][0]&JREAD: raise Violation(tag+'the change of message %s in %s by the other program is undone'%(x,b))
        for x,v in g.items():
            if x in after[b] and (after[b][x][0]^v[0])&~(JREAD|JSENT): raise Violation(tag+'attributes of %s in %s: %x, expected %x'%(x,b,v[0],after[b][x][0]))
            if x in after[b] and after[b][x][0]&JSENT and not v[0]&JSENT and not (again and 'water' in name): raise Violation(tag+'message %s in %s is not marked as sent'%(x,b))
    want=dict(snt)
    if H_ in ('TOSS','SCAN'):
        if 'add' in acts or 'addb' in acts: want.update({('E1',n):1 for n in ('1:1/10.0','1:1/20.0') if any(k[1]==n for k in snt) or True})
        if 'delete' in acts:    # deleted before or after it was exported
            for n in ('1:1/10.0','1:1/20.0'):
                if ('A2',n) in want and ('A2',n) not in gs: del want['A2',n]
        if {k:cnt(v) for k,v in gs.items()}!=want: raise Violation(tag+'sent: %s, expected %s'%(sorted(gs.items()),sorted(want.items())))
    else:
        for k,v in gs.items():
            if k[0]!='E1' and want.get(k)!=cnt(v): raise Violation(tag+'sent %s %d times'%(k,v))
        if any(k not in gs and not (k[0]=='A2' and 'delete' in acts) for k in want): raise Violation(tag+'not sent: %s'%[k for k in want if k not in gs])
def monitor(evs,tag):
    """a base is written only by who holds its lock"""
    hold={}; name=('the run','the other program','the other program')
    for e in evs:
        if e.p1[-4:] in ('.jhr','.jdt','.jdx') and e.p1.startswith('areas/'):
            b=e.p1[:-4]
            if e.name=='lock' and int(e.res)==0:
                if hold.get(b,e.proc)!=e.proc: raise Violation(tag+'two programs hold the lock of %s'%b)
                hold[b]=e.proc
            elif e.name=='unlock': hold.pop(b,None) if hold.get(b)==e.proc else None
            elif e.name in ('write','truncate','trunc','unlink','rename') and e.proc==0:
                if e.name=='trunc': hold.setdefault(b,e.proc) if b not in hold else None     # a new base
                if hold.get(b)!=e.proc: raise Violation(tag+'%s %ss %s without holding its lock'%(name[e.proc],e.name,e.p1))
def play(name,sched,acts,tag):
    w=instance('c25 '+name)
    try:
        rc,out,evs,ex=sup(w,CL,['sched',sched],None,cmds=[cmd(w,H[name][1])]+[ed(a) for a in acts])
        if ex.get(0) not in (0,10): raise Violation(tag+'the run ends with %r: %r'%(ex.get(0),out[-200:]))
        for k in range(len(acts)):
            if ex.get(k+1) not in (0,3,4): raise Violation(tag+'the other program finds the base damaged (%r)'%ex.get(k+1))
        monitor(evs,tag)
        w.now+=100
        final(w,name,tag,[a for k,a in enumerate(acts) if ex.get(k+1)==0],any(e.proc==0 and e.name=='lock' and int(e.res)<0 for e in evs))
        return ex,len(evs)
    finally: w.close()
def whole(c):
    name,i,a=c; tag='%s, after %d file operations another program does "%s": '%(name,i,' '.join(ACT[a])); ex,t=play(name,'0:%d,1:-1,0:-1'%i,[a],tag)
    return dict(evaluations=1,nontrivial=[(name,a,i,ex.get(1))],states=1,transitions=t,sample=dict(history=name,at=i,action=a,result=ex.get(1)) if i%25==3 else None)
def split(c):
    name,i,a=c; k=t=0
    for j in range(1,40):
        tag='%s, after %d file operations another program starts "%s" and is interrupted after %d of its own: '%(name,i,' '.join(ACT[a]),j); ex,n=play(name,'0:%d,1:%d,0:-1'%(i,j),[a],tag); k+=1; t+=n
        if ex.get(('switch',1),0)<j: break
    return dict(evaluations=k,nontrivial=[(name,a,i,'split')],states=k,transitions=t)
def two(c):
    name,i,j,a,b=c; tag='%s, other programs do "%s" after %d file operations and "%s" %d later: '%(name,' '.join(ACT[a]),i,' '.join(ACT[b]),j); ex,t=play(name,'0:%d,1:-1,0:%d,2:-1,0:-1'%(i,j),[a,b],tag)
    return dict(evaluations=1,nontrivial=[(name,a,b,i,j)],states=1,transitions=t)
def held(c):
    """a base is locked by somebody else during the whole run: nothing of it changes, and nothing is lost"""
    name,b=c; tag='%s while %s is locked by another program: '%(name,'+'.join(b)); w=instance('c25 '+name); fds=[]
    try:
        rd=lambda:{x+e:w.read('areas/'+x+e) for x in b for e in ('.jhr','.jdt','.jdx') if w.exists('areas/'+x+e)}
        for x in b:
            f=subprocess.Popen([ED,'areas/'+x,'hold','x'],cwd=w.root,stdin=subprocess.PIPE,stdout=subprocess.PIPE); fds.append(f)
            if f.stdout.read(1)!=b'L': raise Exception('cannot lock')
        before=rd()
        c_=cmd(w,H[name][1]); r=subprocess.run(c_,cwd=w.root,env=w.env(),stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=60)
        if r.returncode not in (0,10): raise Violation(tag+'the run ends with %r: %r'%(r.returncode,r.stdout[-200:]))
        if rd()!=before: raise Violation(tag+'the base is changed')
        w.now+=100
        for f in fds: f.communicate()
        fds=[]
        if H[name][1][0] in ('MAINT','PACK'): 
            r=subprocess.run(cmd(w,H[name][1]),cwd=w.root,env=w.env(),stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=60); w.now+=100
        final(w,name,tag,[],True)
    finally:
        for f in fds: f.kill(); f.communicate()
        w.close()
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def main():
    global ED
    ck=Check('C25','schedule_exploration','every point (file operation) of each run x every action of another program on the bases, done at once there or interrupted after each of its own file operations; bases locked throughout; non-trivial = distinct (history, action, point, outcome)',['the other program follows the JAM locking rule','packing (crashmaint PACK) replaces the files of a base and is used while no other program has it open'])
    scen.init(); ED=build.tool('jamedit','jamedit.c',[])
    for k,v in H.items(): scen.XHIST['c25 '+k]=v
    d=tempfile.mkdtemp(prefix='cmc25.',dir=scratchroot()); scen.setroot(d)
    try:
        pts=[(h,i,a) for h in H for i in range(0,ref(h)[3]+1) for a in ACT]
        ck.explore('one action',whole,pts,chunk=8)
        ck.explore('interrupted',split,[(h,i,a) for h,i,a in pts if a in (ACT if thorough() else ('add','read')) and (thorough() or h in ('toss','scan','toss and link','expire'))],chunk=2)
        if thorough(): ck.explore('two actions',two,[(h,i,j,a,b) for h in H for i in range(0,ref(h)[3]+1) for j in range(0,ref(h)[3]-i+1) for a,b in (('read','add'),('add','delete'))],chunk=8)
        H['pack']=(h_old,('MAINT','PACK')); scen.XHIST['c25 pack']=H['pack']
        ck.explore('held',held,[(h,b) for h in H for k in (1,2,3) for b in itertools.combinations(('ja','jb','netj'),k)],chunk=1)
    finally: shutil.rmtree(d,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
