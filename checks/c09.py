"""C09: every crash point of toss, scan, areafix, bundle and retry histories."""
import _boot,tempfile
import scen; from scen import *
from harness import *
def ATOMIC(p): return p[-4:-2]=='.j' or p[-2:]=='lo'    # one record appended in one call: taken as atomic
def evs_of(name):
    return [(e.n,e.name,e.p1,e.p2,e.res) for e in reference(name)[3]]
def judge(w,name,tag,ck_dupe=True):
    ref,rprob,rcfg,_=reference(name)
    e=finish_runs(w,tag)
    if e: raise Violation(tag+e)
    pl,prob=places(w)
    prob=[p for p in prob if not p.startswith('unreferenced file') and not p.startswith('stray outbound')]
    if prob: raise Violation(tag+'afterwards '+'; '.join(prob[:3]))
    lost=sorted(ref-set(pl))
    if lost: raise Violation(tag+'after restarting and finishing, message %s is not in %s (%d such)'%(lost[0][1],lost[0][0],len(lost)))
    c=cfgparse.parse(w.read('cm.cfg').decode('latin1'))
    if not samecfg(c,rcfg): raise Violation(tag+'configuration differs from that of an undisturbed run')
    if ck_dupe:
        n=pl.get(('area jama','D0'),0); w.inbound(pk([echo(b'JAMA',b'D0')])); r=w.cm('TOSS')
        if places(w)[0].get(('area jama','D0'),0)!=n: raise Violation(tag+'the dupe history of before has been lost')
def case(c):
    name,mode=c[0],c[1:]
    evs=reference(name)[3]; e=evs[mode[1]-1]
    w=instance(name)
    try:
        tag='%s run %s at event %d (%s %s %s): '%(name,{'kill':'killed','torn':'killed after %s bytes'%(mode[2:] or ('',))[0]}[mode[0]],e.n,e.name,e.p1,e.p2)
        rc,out,ev2,ex=sup(w,'m',mode,HIST[name][1])
        if rc!=128+9: raise Violation(tag+'the run is not reproducible: rc %r'%rc)
        judge(w,name,tag)
    finally: w.close()
    return dict(evaluations=1,nontrivial=[(name,e.name,e.p1)],states=1,transitions=len(ev2),sample=dict(history=name,crash='%s %s'%(e.name,e.p1)) if mode[1]%40==7 else None)
def main():
    ck=Check('C09','fault_enumeration','every mutating file-system call (create, truncate, write, rename, unlink, mkdir, lock, fork of the packer) of each history as a crash point (SIGKILL before it takes effect, and after half the bytes of a write; thorough: also after 1 and all but 1 bytes), then lock and busy files removed, TOSS and SCAN run, and all complete messages at all places compared with an undisturbed run; non-trivial = distinct (history, call, file)',
        ['process crash: completed system calls persist','the single write of a message base record or flow line is not torn','the packer program itself is atomic (writes a temporary archive and renames it)'])
    scen.init()
    d=tempfile.mkdtemp(prefix='cmc09.',dir=scratchroot()); scen.setroot(d)
    try:
        cases=[]
        for h in HIST:
            evs=reference(h)[3]
            for e in evs:
                cases.append((h,'kill',e.n))
                if e.name=='write' and int(e.res)>1 and not ATOMIC(e.p1):
                    for b in ({1,int(e.res)//2,int(e.res)-1} if thorough() else {int(e.res)//2}): cases.append((h,'torn',e.n,b))
        ck.explore('crash-points',case,cases,chunk=4,maxviol=int(os.environ.get('MAXV','3')))
    finally: shutil.rmtree(d,ignore_errors=True)
    ck.finish()
if __name__=='__main__': main()
