"""Common driver: parallel exhaustive enumeration, replay-before-report, evidence, known findings."""
import os,sys,errno,json,time,hashlib,multiprocessing,traceback
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER=os.environ.get('VERIF_TIER','quick')
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
NPROC=min(int(os.environ.get('VP_NPROC','8')),os.cpu_count() or 1)
class Violation(Exception):
    def __init__(s,what,sig=None): Exception.__init__(s,what); s.what=what; s.sig=sig
def known():
    """KNOWN_FINDINGS lines: 'known: property=<id> sig=<sig> <text>'"""
    out=[]
    try:
        for l in open(os.path.join(VERIF,'KNOWN_FINDINGS')):
            l=l.strip()
            if l.startswith('known: '):
                f=l[7:].split(' ',2); out.append((f[0].split('=',1)[1],f[1].split('=',1)[1],f[2] if len(f)>2 else ''))
    except FileNotFoundError: pass
    return out
def _call(a):
    fn,case=a
    try:
        r=fn(case)
        return ('ok',case,r)
    except Violation as v: return ('viol',case,v.what,v.sig)
    except MemoryError: return ('err',case,traceback.format_exc())
    except OSError as e:
        if e.errno in (errno.ENOSPC,errno.ENOMEM,errno.EMFILE,errno.EAGAIN,errno.ENFILE): return ('err',case,traceback.format_exc())
        return ('viol',case,'what the programs left cannot be interpreted: '+traceback.format_exc()[-900:],None)
    except Exception: return ('viol',case,'what the programs left cannot be interpreted: '+traceback.format_exc()[-900:],None)
class Check:
    def __init__(s,prop,level,rule,assumptions=()):
        s.prop=prop; s.level=level; s.rule=rule; s.assumptions=list(assumptions); s.t0=time.time()
        s.evaluations=0; s.nontrivial=set(); s.samples=[]; s.viol=[]; s.states=0; s.transitions=0; s.traces=0; s.exhaustive=True; s.extra={}; s.found_known=set()
        s.tier='thorough' if TIER=='thorough' else 'quick'; s.seed=SEED; s.only=None
        if len(sys.argv)>1 and sys.argv[1]=='--replay': s.only=json.load(open(sys.argv[2]))
    def note(s,r):
        """r: dict(evaluations, nontrivial=list of hashables, states, transitions, traces, sample)"""
        if not r: return
        s.evaluations+=r.get('evaluations',0); s.states+=r.get('states',0); s.transitions+=r.get('transitions',0); s.traces+=r.get('traces',0)
        for k in r.get('nontrivial',()): s.nontrivial.add(k if isinstance(k,(str,int)) else hashlib.md5(repr(k).encode()).hexdigest())
        if r.get('sample') is not None and len(s.samples)<4: s.samples.append(r['sample'])
        for k,v in r.get('extra',{}).items(): s.extra[k]=s.extra.get(k,0)+v
    def explore(s,name,fn,cases,chunk=1,maxviol=3):
        """run fn(case) for every case (all of them), in parallel. fn raises Violation. Every violation is re-run before it counts."""
        if s.only is not None:
            if s.only['part']!=name: return
            cases=[totuple(s.only['case'])]
        cases=list(cases)
        if s.viol and s.only is None and not os.environ.get('VP_ALLPARTS'): return
        v0=len(s.viol)
        if os.environ.get('VP_PART') and name not in os.environ['VP_PART'].split(','): return
        t=time.time()
        with multiprocessing.Pool(NPROC) as pool:
            for res in pool.imap_unordered(_call,((fn,c) for c in cases),chunk):
                if res[0]=='ok': s.note(res[2])
                elif res[0]=='viol':
                    case,what,sig=res[1:]
                    kf=[k for k in known() if k[0]==s.prop and sig and k[1]==sig]
                    if kf: s.found_known.add(kf[0]); continue
                    again=_call((fn,case))
                    if again[0]!='viol':
                        print('non-reproducible outcome in part %s case %r: %s / %r'%(name,case,what,again),file=sys.stderr); 
                        again2=_call((fn,case))
                        if again2[0]!='viol': s.extra['unreproduced']=s.extra.get('unreproduced',0)+1; continue
                    s.viol.append((name,case,what))
                    if len(s.viol)-v0>=maxviol: pool.terminate(); break
                else:
                    print('harness error in part %s case %r:\n%s'%(name,res[1],res[2]),file=sys.stderr); pool.terminate(); s.finish(error=True)
        s.extra.setdefault('parts',{}) if False else None
        print('# part %-28s cases=%d wall=%.1fs'%(name,len(cases),time.time()-t)); sys.stdout.flush()
        s.parts=getattr(s,'parts',{}); s.parts[name]=dict(cases=len(cases),wall_s=round(time.time()-t,2))
    def finish(s,error=False):
        cov=dict(s.extra); cov.update(evaluations=s.evaluations,distinct_nontrivial=len(s.nontrivial),rule=s.rule,samples=s.samples or ['-'],exhaustive=s.exhaustive and not s.viol,parts=getattr(s,'parts',{}))
        if s.level=='model_checking': cov.update(states=s.states,transitions=s.transitions,traces_validated_against_impl=s.traces)
        ev=dict(property=s.prop,tier=s.tier,seed=s.seed,level=s.level,coverage=cov,assumptions=s.assumptions,wall_s=round(time.time()-s.t0,2),violations=len(s.viol))
        if s.only is None:
            os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
            json.dump(ev,open(os.path.join(VERIF,'evidence',s.prop+'.json'),'w'),indent=1,default=repr)
        if error: sys.exit(2)
        for k in sorted(s.found_known): print('KNOWN-FINDING: property=%s %s'%(s.prop,k[2]))
        print('# %s evaluations=%d nontrivial=%d states=%d transitions=%d wall=%.1fs'%(s.prop,s.evaluations,len(s.nontrivial),s.states,s.transitions,time.time()-s.t0))
        if s.viol:
            rd=os.path.join(VERIF,'evidence','replay'); os.makedirs(rd,exist_ok=True)
            for i,(name,case,what) in enumerate(s.viol):
                f=os.path.join(rd,'%s-%d.json'%(s.prop,i)); json.dump(dict(part=name,case=case,what=what,property=s.prop),open(f,'w'),indent=1,default=repr)
                print('violating case (%s): %s'%(name,what[:1500]))
                print('VIOLATION property=%s replay=%s'%(s.prop,f))
            sys.exit(1)
        sys.exit(0)
def totuple(x): return tuple(totuple(i) for i in x) if isinstance(x,list) else x
def thorough(): return TIER=='thorough'
def pick(q,t): return t if thorough() else q
