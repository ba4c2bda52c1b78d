"""Small scratch-installation helper for the demonstrations (uses /repo/bin, effects only in a temporary directory)."""
import os,sys,shutil,subprocess,tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from fido import *
BIN=os.path.join(os.getcwd(),'bin')
class W:
    def __init__(s,cfg=None,dirs=('in','out','tmp','pkt','cr','areas')):
        s.root=tempfile.mkdtemp(prefix='demo.'); s.n=0
        for d in dirs: os.mkdir(s.p(d))
        if cfg is not None: s.write('cm.cfg',cfg)
    def p(s,*a): return os.path.join(s.root,*a)
    def __enter__(s): return s
    def __exit__(s,*a): shutil.rmtree(s.root,ignore_errors=True)
    def write(s,n,d):
        if isinstance(d,str): d=d.encode('latin1')
        open(s.p(n),'wb').write(d)
    def read(s,n): return open(s.p(n),'rb').read()
    def exists(s,n): return os.path.exists(s.p(n))
    def ls(s,d): return sorted(os.listdir(s.p(d))) if os.path.isdir(s.p(d)) else []
    def inbound(s,d,name=None):
        s.n+=1; s.write('in/'+(name or '%08x.pkt'%s.n),d)
    def run(s,*a,prog='crashmail',timeout=60,pre=()):
        return subprocess.run(list(pre)+[os.path.join(BIN,prog)]+list(a),cwd=s.root,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
    def cm(s,*a,**k): return s.run('SETTINGS','cm.cfg',*a,**k)
    def pkts(s,d='pkt'):
        return [parse_pkt(s.read(d+'/'+f)) for f in s.ls(d) if f.endswith('.pkt')]
    def netmails(s,d='out'):
        out=[]
        for dp,ds,fs in os.walk(s.p(d)):
            for f in sorted(fs):
                if f[-2:]=='ut': out.append((f,parse_pkt(open(os.path.join(dp,f),'rb').read())))
        return out
HEAD='''SYSOP "Sys Op"
LOGLEVEL 5
LOGFILE "cm.log"
DUPEFILE "cm.dup" 100
DUPEMODE BAD
LOOPMODE LOG+BAD
TEMPDIR "tmp"
CREATEPKTDIR "cr"
PACKETDIR "pkt"
STATSFILE "cm.stats"
INBOUND "in"
OUTBOUND "out"
'''
def check(c,msg):
    if not c: print('FAIL:',msg); sys.exit(1)
