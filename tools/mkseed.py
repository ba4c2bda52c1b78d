#!/usr/bin/env python3
"""mkseed.py [id...]: builds seeded/<id> from tools/seeds/<id>.py and verifies it against /repo (build, stable tests, demo both ways).
   seed file: PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO=python text.  -c also runs the property's check with the bug in place."""
import sys,os,subprocess,json,shutil,glob
V='/verif'; R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def build(): 
    r=sh('bash /opt/vp/build.sh'); return r.returncode==0
def tests():
    sh('bash /opt/vp/test.sh /tmp/ms.json'); t=json.load(open('/tmp/ms.json')); b=json.load(open('/opt/vp/BASELINE.json'))
    g=lambda x:set(x.get('passed',x.get('pass',[]))) or set(x.get('stable_pass',[]))
    return not(g(b)-g(t))
def demo(d):
    try: return subprocess.run(['bash',d+'/demo.sh'],cwd=R,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=300)
    except subprocess.TimeoutExpired:
        class T: returncode=124; stdout=b'timeout'
        return T
def main():
    args=[a for a in sys.argv[1:] if not a.startswith('-')]; runchk='-c' in sys.argv
    ids=args or [os.path.basename(f)[:-3] for f in sorted(glob.glob(V+'/tools/seeds/*.py'))]
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip(),'/repo not clean'
    ok=True
    clean_built=build()
    base={}
    for i in ids:
        ns={}; exec(open('%s/tools/seeds/%s.py'%(V,i)).read(),ns)
        d='%s/seeded/%s'%(V,i); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        shutil.copy(V+'/lib/fido.py',d); shutil.copy(V+'/tools/demolib.py',d)
        for x in ns.get('FILES',()): shutil.copy(x,d)
        open(d+'/demo.py','w').write('from demolib import *\n'+ns['DEMO'])
        open(d+'/demo.sh','w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=ns['PROP'],needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(d+'/meta.json','w'),indent=1)
        ns['d']=d; base[i]=(ns,demo(d))
    for i in ids:
        ns,b=base[i]; d=ns['d']; msg=[]
        if b.returncode: msg.append('demo fails on the clean tree: '+b.stdout.decode(errors='replace')[-300:])
        try:
            for f,o,n in ns['EDITS']:
                t=open(R+'/'+f,newline='',encoding='latin1').read()
                if t.count(o)!=1 and '\r\n' in t: o,n=o.replace('\n','\r\n'),n.replace('\n','\r\n')
                if t.count(o)!=1: msg.append('%s: old text occurs %d times'%(f,t.count(o))); continue
                open(R+'/'+f,'w',newline='',encoding='latin1').write(t.replace(o,n))
            open(d+'/patch.diff','wb').write(sh('git -C /repo diff').stdout)
            if not msg:
                if not build(): msg.append('does not build')
                elif not tests(): msg.append('fails the tests')
                else:
                    r=demo(d)
                    if r.returncode==0: msg.append('demo does not notice')
                    if runchk:
                        c=sh('cd /verif && python3 checks/%s.py'%ns['PROP'].lower(),env=dict(os.environ,VERIF_SEED='1'))
                        hit=c.returncode==1 and ('VIOLATION property=%s '%ns['PROP']) in c.stdout.decode(errors='replace')
                        print('   check: rc=%d %s'%(c.returncode,'CAUGHT' if hit else 'MISSED')); 
                        print('\n'.join('      '+l[:200] for l in c.stdout.decode(errors='replace').split('\n') if l.startswith('violating'))[:500])
        finally: sh('git -C /repo checkout -- .')
        print(i,'ok' if not msg else msg); ok&=not msg; sys.stdout.flush()
    build()
    sys.exit(not ok)
main()
