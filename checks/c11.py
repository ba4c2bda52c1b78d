"""C11: all interleavings (two preemptions, at file-system calls) of two crashmail runs and of a run with a mailer session; foreign busy files and locks."""
import _boot,tempfile,itertools
import scen; from scen import *
from harness import *
MAILER=None
def cm(w,argv,dt=0): return ['/usr/bin/env','CM_TIME=%d'%(w.now+dt),os.path.join(BIN['plain'],'crashmail'),'SETTINGS','cm.cfg']+list(argv)
NODES={'1:1/10':'out/0001000a','1:1/20':'out/00010014','1:1/30':'out/0001001e','2:5/9':'out.002/00050009'}
def result(w):
    pl,prob=places(w); prob=[p for p in prob if not p.startswith('busy file left')]
    if w.exists('sent'):
        for f in w.ls('sent'):
            b=w.read('sent/'+f); dest=[n for n,x in NODES.items() if x.endswith(f.split('.')[0])][0]
            if f.split('.')[-1].endswith('ut') or f.endswith('.pkt'): t=[m.body for m in parse_pkt(b).msgs]
            elif b[:4]==b'VPK1': t=[m.body for _,p in unpack_bundle(b) for m in parse_pkt(p).msgs]
            else: t=[b]
            for x in t:
                for k in marks(x): pl['queue %s.0'%dest,k]=pl.get(('queue %s.0'%dest,k),0)+1
    return pl,prob
def diff(a,b):
    for k in sorted(set(a)|set(b)):
        if a.get(k,0)!=b.get(k,0): return '%s in %s %d times instead of %d'%(k[1],k[0],a.get(k,0),b.get(k,0))
# ---- two runs
PAIRS=[(('TOSS',),('TOSS',)),(('TOSS',),('SCAN',)),(('SCAN',),('SCAN',)),(('SCAN',),('TOSS','SCAN'))]
CL='mos'
_ser={}
def serial(pi):
    if pi not in _ser:
        o=[]
        for first in (0,1):
            w=instance('both')
            try:
                rc,out,evs,ex=sup(w,CL,['sched','%d:-1,%d:-1'%(first,1-first)],None,cmds=[cm(w,PAIRS[pi][0]),cm(w,PAIRS[pi][1],5)])
                if ex.get(0)!=0 or ex.get(1)!=0: raise Exception('serial run fails %r'%out[-300:])
                pl,prob=result(w)
                if prob: raise Exception('serial run: %s'%prob)
                o.append((pl,ex['switch',0]))
            finally: w.close()
        _ser[pi]=(o[0][0],o[1][0],o[0][1])
    return _ser[pi]
def two(pi,i,j):
    w=instance('both'); A,B=PAIRS[pi]
    try:
        tag='%s preempted after %d file operations by %s, that after %s: '%(' '.join(A),i,' '.join(B),j if j>=0 else 'it waits or ends')
        rc,out,evs,ex=sup(w,CL,['sched','0:%d,1:%d,0:-1'%(i,j)],None,cmds=[cm(w,A),cm(w,B,5)])
        if ex.get('waiting'): raise Violation(tag+'neither run can go on')
        if ex.get(0)!=0 or ex.get(1)!=0: raise Violation(tag+'exit status %r %r: %r'%(ex.get(0),ex.get(1),out[-200:]))
        seq=[e.proc for e in evs if e.name not in ('open','stat') and 'cm.cfg.busy' not in (e.p1,e.p2) and not e.p1.startswith(('cm.log','.sup'))]
        sw=sum(1 for a,b in zip(seq,seq[1:]) if a!=b)
        if sw>1: raise Violation(tag+'both runs change files at the same time')
        if w.exists('cm.cfg.busy'): raise Violation(tag+'lock left')
        pl,prob=result(w)
        if prob: raise Violation(tag+prob[0])
        s=serial(pi)
        if pl!=s[0] and pl!=s[1]: raise Violation(tag+'result differs from both serial orders: '+diff(pl,s[0]))
        return ex['switch',1],len(evs)
    finally: w.close()
def runs(c):
    pi,i=c; n,t=two(pi,i,-1); k=1
    for j in range(1,n): t+=two(pi,i,j)[1]; k+=1
    return dict(evaluations=k,nontrivial=[('runs',pi,i)],states=k,transitions=t,sample=dict(pair=[' '.join(x) for x in PAIRS[pi]],preempt=i,second=n) if i%40==3 else None)
# ---- a run and a mailer
_full={}
def undisturbed(name):
    """result of the run and the finishing runs without anybody else"""
    if name not in _full:
        w=instance(name); os.mkdir(w.p('sent'))
        try:
            rc,out,evs,ex=sup(w,CL,['count'],None,cmds=[cm(w,HIST[name][1])])
            e=finish_runs(w,'x')
            if rc or e: raise Exception('reference %r %r'%(rc,e))
            pl,prob=result(w)
            if prob: raise Exception('reference: %s'%prob)
            _full[name]=(pl,len(evs))
        finally: w.close()
    return _full[name]
def withmailer(name,i,j):
    w=instance(name); os.mkdir(w.p('sent'))
    try:
        tag='%s run, mailer session after %d file operations, interrupted after %s: '%(name,i,j if j>=0 else 'its end')
        rc,out,evs,ex=sup(w,CL,['sched','0:%d,1:%d,0:-1'%(i,j)],None,cmds=[cm(w,HIST[name][1]),[MAILER,'sent']+list(NODES.values())])
        if ex.get(0)!=0 or ex.get(1)!=0: raise Violation(tag+'exit status %r %r: %r'%(ex.get(0),ex.get(1),out[-200:]))
        # while one holds the busy file the other must not change that node's files
        hold={}
        for e in evs:
            p=e.p1
            if p.endswith('.bsy'):
                b=p[:-4]
                if e.name in ('creat','trunc') and int(e.res)>=0:
                    if b in hold and hold[b]!=e.proc: raise Violation(tag+'both hold %s'%p)
                    hold[b]=e.proc
                elif e.name=='unlink' and int(e.res)==0:
                    if hold.get(b)!=e.proc: raise Violation(tag+'%s removes the busy file of the other'%('crashmail','mailer')[e.proc])
                    hold.pop(b,None)
            elif e.name not in ('open','stat'):
                for q in (e.p1,e.p2):
                    b=q[:-4]
                    if b in hold and hold[b]!=e.proc and q.startswith('out'): raise Violation(tag+'%s changes %s while the other holds the busy file'%(('crashmail','mailer')[e.proc],q))
        left=[x for x in NODES.values() if w.exists(x+'.bsy')]
        if left: raise Violation(tag+'busy file left: '+left[0])
        w.now+=100
        e=finish_runs(w,tag)
        if e: raise Violation(tag+e)
        pl,prob=result(w)
        if prob: raise Violation(tag+prob[0])
        d=diff(pl,undisturbed(name)[0])
        if d: raise Violation(tag+'afterwards '+d)
        return ex['switch',1],len(evs)
    finally: w.close()
def mailer(c):
    name,i=c; n,t=withmailer(name,i,-1); k=1
    for j in range(1,n): t+=withmailer(name,i,j)[1]; k+=1
    return dict(evaluations=k,nontrivial=[('mailer',name,i)],states=k,transitions=t,sample=dict(history=name,preempt=i,mailer_events=n) if i%40==3 else None)
# ---- foreign busy files
def busy(c):
    name,sub,content=c
    w=instance(name)
    try:
        tag='%s run while %s busy: '%(name,', '.join(sub) or 'no node is')
        for n in sub: os.makedirs(os.path.dirname(w.p(NODES[n])),exist_ok=True); w.write(NODES[n]+'.bsy',content)
        def files(): return {(n,f):w.read(os.path.join(os.path.dirname(NODES[n]),f)) for n in sub for f in w.ls(os.path.dirname(NODES[n])) if f.startswith(os.path.basename(NODES[n]))}
        before=files(); r=w.cm(*HIST[name][1])
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        if files()!=before: raise Violation(tag+'files of a busy node changed: %s'%sorted(set(files().items())^set(before.items()))[0][0][1])
        w.now+=100; r=w.cm('TOSS')     # still busy
        if files()!=before: raise Violation(tag+'files of a busy node changed by the next run')
        for n in sub: os.unlink(w.p(NODES[n]+'.bsy'))
        w.now+=100; e=finish_runs(w,tag)
        if e: raise Violation(tag+e)
        pl,prob=result(w)
        if prob: raise Violation(tag+prob[0])
        d=diff(pl,undisturbed(name)[0])
        if d: raise Violation(tag+'when it is no longer busy '+d)
    finally: w.close()
    return dict(evaluations=1,nontrivial=[('busy',name,sub)],states=1,transitions=4,sample=dict(history=name,busy=list(sub)) if len(sub)==2 else None)
# ---- LOCK / UNLOCK
def lock(c):
    cmds=c; w=instance('both')
    try:
        locked=False
        for k,x in enumerate(cmds):
            tag='history %s: step %d: '%(' '.join(cmds),k+1)
            before={f:open(f,'rb').read() for d,ds,fs in os.walk(w.root) for f in (os.path.join(d,g) for g in fs) if os.path.isfile(f)}
            rc,out,evs,ex=sup(w,CL,['count'],None,cmds=[cm(w,(x,))]); w.now+=100
            after={f:open(f,'rb').read() for d,ds,fs in os.walk(w.root) for f in (os.path.join(d,g) for g in fs) if os.path.isfile(f)}
            waits=bool(ex.get('waiting'))
            if x=='UNLOCK': exp=False; locked=False
            else:
                exp=locked
                if x=='LOCK': locked=True
            if waits!=exp: raise Violation(tag+('does not wait though locked' if exp else 'waits though not locked'))
            if waits and before!=after: raise Violation(tag+'changes files while waiting for the lock')
            if not waits and rc!=0: raise Violation(tag+'status %r'%rc)
            if w.exists('cm.cfg.busy')!=locked: raise Violation(tag+('lock missing' if locked else 'lock left'))
            if not waits and x in ('TOSS','SCAN') and x not in cmds[:k] and before==after: raise Violation(tag+'did nothing')
    finally: w.close()
    return dict(evaluations=1,nontrivial=[('lock',)+tuple(cmds)],states=len(cmds),transitions=len(cmds))
def interrupt(c):
    x,n=c; w=instance('both')
    try:
        tag='crashmail %s interrupted (SIGINT) at its file operation %d while another run holds the lock: '%(' '.join(x),n)
        w.write('cm.cfg.busy',b'other run')
        files=lambda: {f:open(f,'rb').read() for d,ds,fs in os.walk(w.root) for f in (os.path.join(d,g) for g in fs) if os.path.isfile(f)}
        before=files(); rc,out,evs,ex=sup(w,CL,['sig',n,2],None,cmds=[cm(w,x)])
        if files()!=before: raise Violation(tag+('the lock of the other run is gone' if not w.exists('cm.cfg.busy') else 'files changed'))
        if ex.get('waiting') and len(evs)>n+12: raise Violation(tag+'goes on waiting')
    finally: w.close()
    return dict(evaluations=1,nontrivial=[('interrupt',x,n)],states=1,transitions=len(evs))
def main():
    global MAILER
    ck=Check('C11','exploration','all schedules with two preemptions at file-system calls of two runs (TOSS/SCAN pairs) and of a run with a mailer session over all nodes; every subset of nodes busy; waiting runs interrupted; all LOCK/UNLOCK/TOSS/SCAN sequences up to length 3; results compared with serial orders; non-trivial = distinct (pair or history, first preemption point) and busy subsets',
        ['preemption between system calls only (single-threaded programs share nothing but files)','the packer runs atomically'])
    scen.init(); MAILER=build.tool('mailer','mailer.c',[])
    d=tempfile.mkdtemp(prefix='cmc11.',dir=scratchroot()); scen.setroot(d)
    try:
        serials=[(pi,i) for pi in range(len(PAIRS)) if thorough() or pi in (1,2) for i in range(0,serial(pi)[2]+1)]
        ck.explore('two-runs',runs,serials,chunk=1)
        ck.explore('mailer',mailer,[(h,i) for h in (HIST if thorough() else ('retry',)) for i in range(0,undisturbed(h)[1]+1)],chunk=1)
        ck.explore('busy',busy,[(h,s,ct) for h in HIST for k in range(5) for s in itertools.combinations(NODES,k) for ct in (b'',b'1234\n')],chunk=4)
        ck.explore('interrupt',interrupt,[(x,n) for x in (('TOSS',),('SCAN',),('LOCK',),('TOSS','SCAN'),('TOSSDIR','in'),('SENDLIST','1:1/10')) for n in range(1,10)],chunk=4)
        ck.explore('lock',lock,[s for n in (1,2,3) for s in itertools.product(('LOCK','UNLOCK','TOSS','SCAN'),repeat=n)],chunk=4)
    finally: shutil.rmtree(d,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
