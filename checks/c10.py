"""C10: every file operation of toss, scan, areafix, bundle and retry histories fails (once, from then on, or partially); every point of interruption by Ctrl-C."""
import _boot,tempfile,errno,signal
import scen; from scen import *
from harness import *
import c09
_old={}
def oldcfg(name):
    if name not in _old:
        w=instance(name)
        try: _old[name]=cfgparse.parse(w.read('cm.cfg').decode('latin1'))
        finally: w.close()
    return _old[name]
_evs={}
def events(name,cl):
    if (name,cl) not in _evs:
        w=instance(name)
        try:
            rc,out,evs,ex=sup(w,cl,['count'],HIST[name][1])
            if rc!=0: raise Exception('reference run fails: %r'%out[-300:])
            _evs[name,cl]=evs
        finally: w.close()
    return _evs[name,cl]
def kept(w):
    """complete messages kept in quarantine: renamed inbound files"""
    k=set()
    for f in w.ls('in'):
        if '.bad' in f:
            b=w.read('in/'+f); k|=set(marks(b))
            if b[:4]==b'VPK1':
                for n,p in unpack_bundle(b): k|=set(marks(p))
        elif f.endswith('.zip'): k|=set(marks(w.read('in/'+f)))
    return k
def case(c):
    name,cl,mode=c[0],c[1],c[2:]
    evs=events(name,cl); e=evs[mode[1]-1]
    w=instance(name)
    try:
        what={'fail':'fails with %s','full':'and every later write and create fail with %s','short':'is partial, the next write fails with %s','sig':'interrupted by signal %s'}[mode[0]]%(errno.errorcode.get(mode[-1]) if mode[0]!='sig' else mode[-1])
        tag='%s run, event %d (%s %s %s) %s: '%(name,e.n,e.name,e.p1,e.p2,what)
        rc,out,ev2,ex=sup(w,cl,mode,HIST[name][1])
        if rc not in (0,10,20): raise Violation(tag+'the run ends with status %r: %r'%(rc,out[-200:]))
        if not any(x.inj for x in ev2) and mode[0]!='sig': raise Violation(tag+'the run is not reproducible')
        # the lock must be free again, unless it is the removal of the lock that failed
        if w.exists('cm.cfg.busy') and not (e.name=='unlink' and e.p1=='cm.cfg.busy'): raise Violation(tag+'the lock is left behind')
        ref,rprob,rcfg,_=reference(name)
        err=finish_runs(w,tag)
        if err: raise Violation(tag+err)
        pl,prob=places(w)
        prob=[p for p in prob if not p.startswith('unreferenced file') and not p.startswith('stray outbound')]
        if e.p1[-2:]=='lo': prob=[p for p in prob if 'dangling reference' not in p and 'no final newline' not in p]   # the torn line itself; what it announced is announced again
        if e.name=='unlink' and e.p1.startswith('in/'): prob=[p for p in prob if 'dangling reference in/' not in p]   # tossed again; the attached file had been queued the first time
        if prob: raise Violation(tag+'afterwards '+'; '.join(prob[:3]))
        k=kept(w) if e.name in ('open','read','getdents','fork','creat','trunc','write','opendir') else set()
        lost=sorted(x for x in ref-set(pl) if x[1] not in k and not (e.p1=='dupes' and x==('area bad','D0')))   # an unreadable history lets a duplicate through
        if lost: raise Violation(tag+'after later runs message %s is not in %s and not kept (%d such)'%(lost[0][1],lost[0][0],len(lost)))
        cf=cfgparse.parse(w.read('cm.cfg').decode('latin1'))
        if not samecfg(cf,rcfg) and not samecfg(cf,oldcfg(name)) and not k: raise Violation(tag+'the configuration is neither that of before nor that of an undisturbed run')
        n=places(w)[0].get(('area jama','D0'),0); w.inbound(pk([echo(b'JAMA',b'D0')])); w.cm('TOSS')
        if places(w)[0].get(('area jama','D0'),0)!=n: raise Violation(tag+'the dupe history of before has been lost')
    finally: w.close()
    return dict(evaluations=1,nontrivial=[(name,mode[0],e.name,e.p1)],states=1,transitions=len(ev2),sample=dict(history=name,fault=list(mode),call='%s %s'%(e.name,e.p1)) if mode[1]%60==7 else None)
def main():
    ck=Check('C10','fault_enumeration','every mutating call, open, read and directory read of each history fails with EIO; every create and write with ENOSPC for the rest of the run; every write is partial and the next fails; SIGINT before every mutating call; then TOSS and SCAN run and all complete messages at all places are compared with an undisturbed run; non-trivial = distinct (history, fault, call, file)',
        ['the faults are single (one call, or one device filling up)','busy files that could not be removed are removed by the administrator'])
    scen.init()
    d=tempfile.mkdtemp(prefix='cmc10.',dir=scratchroot()); scen.setroot(d)
    try:
        cases=[]
        for h in HIST:
            for e in events(h,'mord'):
                cases.append((h,'mord','fail',e.n,errno.EIO))
            for e in events(h,'m'):
                cases.append((h,'m','sig',e.n,2))
                if e.name in ('write','creat','trunc','mkdir'): cases.append((h,'m','full',e.n,errno.ENOSPC))
                if e.name=='write' and int(e.res)>1:
                    for b in ({1,int(e.res)//2,int(e.res)-1} if thorough() else {int(e.res)//2}): cases.append((h,'m','short',e.n,b,errno.ENOSPC))
                if thorough() and e.name=='write': cases.append((h,'m','fail',e.n,errno.ENOSPC))
        ck.explore('faults',case,cases,chunk=4,maxviol=int(os.environ.get('MAXV','3')))
    finally: shutil.rmtree(d,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
