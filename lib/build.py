"""Builds the programs from /repo's current working tree (never touching /repo) into /verif/.build/<hash>-<flavour>."""
import os,sys,hashlib,shutil,subprocess,fcntl,tempfile
REPO=os.environ.get('CM_REPO','/repo')
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BD=os.path.join(VERIF,'.build')
FL={'plain':'', 'asan':'-g -O1 -fsanitize=address,undefined -fno-sanitize=alignment,shift,signed-integer-overflow -fno-sanitize-recover=undefined -fno-omit-frame-pointer'}
def files():
    out=[]
    for d,ds,fs in os.walk(os.path.join(REPO,'src')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.c','.h','.inc')) or f.startswith('Makefile'): out.append(os.path.join(d,f))
    out.append(os.path.join(REPO,'Makefile'))
    return out
def key(fs):
    h=hashlib.sha256()
    for f in fs:
        h.update(f.encode()); h.update(b'\0'); h.update(open(f,'rb').read()); h.update(b'\0')
    return h.hexdigest()[:16]
class BuildError(Exception): pass
def build(flavour='plain'):
    os.makedirs(BD,exist_ok=True)
    fs=files(); k=key(fs)+'-'+flavour+hashlib.sha256(FL[flavour].encode()).hexdigest()[:6]; dst=os.path.join(BD,k)
    lock=open(os.path.join(BD,'lock-'+flavour),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(dst,'ok')): return os.path.join(dst,'bin')
        # drop old builds of this flavour
        for e in os.listdir(BD):
            if '-'+flavour in e and not e.startswith('lock') and e!=k: shutil.rmtree(os.path.join(BD,e),ignore_errors=True)
        shutil.rmtree(dst,ignore_errors=True)
        w=tempfile.mkdtemp(prefix='cmbuild.',dir=BD)
        try:
            for f in fs:
                t=os.path.join(w,os.path.relpath(f,REPO)); os.makedirs(os.path.dirname(t),exist_ok=True); shutil.copy(f,t)
            os.makedirs(os.path.join(w,'src','obj'),exist_ok=True)
            env={k2:v for k2,v in os.environ.items() if k2 not in('CFLAGS','CPPFLAGS','LDFLAGS','MAKEFLAGS','CC','LD_PRELOAD')}
            env['CFLAGS']=FL[flavour]; env['ASAN_OPTIONS']='detect_leaks=0'
            r=subprocess.run(['make','-j4','linux','STRIP=true'],cwd=w,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            need=['crashmail','crashstats','crashlist','crashgetnode','crashmaint','crashwrite','crashexport','crashlistout']
            if r.returncode!=0 or not all(os.path.exists(os.path.join(w,'bin',b)) for b in need):
                raise BuildError(r.stdout.decode('latin1')[-3000:])
            os.makedirs(dst); shutil.move(os.path.join(w,'bin'),os.path.join(dst,'bin')); open(os.path.join(dst,'ok'),'w').close()
        finally: shutil.rmtree(w,ignore_errors=True)
        return os.path.join(dst,'bin')
    finally: lock.close()
def tool(name,src,args):
    """compile a helper of ours"""
    os.makedirs(BD,exist_ok=True)
    src=os.path.join(VERIF,'lib',src)
    h=hashlib.sha256(open(src,'rb').read()+' '.join(args).encode()).hexdigest()[:12]
    out=os.path.join(BD,'tool-%s-%s'%(name,h))
    lock=open(os.path.join(BD,'lock-tool'),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    try:
        if not os.path.exists(out):
            r=subprocess.run(['gcc','-O2','-o',out+'.t',src]+args,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode: raise BuildError(r.stdout.decode())
            os.rename(out+'.t',out)
    finally: lock.close()
    return out
def shim(): return tool('shim.so','shim.c',['-shared','-fPIC','-ldl'])
if __name__=='__main__':
    for f in (sys.argv[1:] or ['plain']): print(build(f))
    print(shim())
