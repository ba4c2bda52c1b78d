PROP='C09'
NEEDS='a crash after a packet given to TOSSFILE was read and before its mail is in the outbound queue'
BREAKS='the packet is gone although its mail was not processed completely'
EDITS=[('src/crashmail/toss.c','''         AfterScanToss(FALSE);
         return(FALSE);
      }

      SafeDelete(file);
   }
   else
   {
      if(!TossBundle(file,fe))''','''         AfterScanToss(FALSE);
         return(FALSE);
      }

      osDelete(file);
   }
   else
   {
      if(!TossBundle(file,fe))''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NODE 1:1/20 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10 1:1/20
"""
SO="""#include <unistd.h>
#include <string.h>
int rename(const char *a,const char *b) { if(strstr(a,"newpkt")) _exit(99); return -1; }
"""
with W(CFG) as w:
    w.write('k.c',SO); subprocess.run(['gcc','-shared','-fPIC','-o','k.so','k.c'],cwd=w.root,check=True)
    w.write('00000001.pkt',mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:TEST\\rhello\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r')]))
    r=w.cm('TOSSFILE','00000001.pkt',pre=['env','LD_PRELOAD='+w.p('k.so')])
    check(r.returncode==99,'was not stopped: %r'%r.returncode)
    check(w.exists('00000001.pkt'),'the packet is gone')
    if w.exists('cm.cfg.busy'): os.unlink(w.p('cm.cfg.busy'))
    w.cm('TOSSFILE','00000001.pkt'); w.cm('TOSS')
    check([S(p.dest,False) for p in w.pkts()]==['1:1/20'],'not forwarded')
    check(not w.exists('00000001.pkt'),'the packet is still there')
'''
