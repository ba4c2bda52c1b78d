PROP='C07'
NEEDS='a looping netmail where the own address is not in the first Via line made by a CrashMail'
BREAKS='only the first CrashMail Via line is examined, so loops through another CrashMail system go unnoticed'
EDITS=[('src/crashmail/handle.c','''               if(v!=0)
               {
                  destbuf[v]=0;
                  if(CheckFoundAka(destbuf)) return(TRUE);
               }
            }''','''               if(v!=0)
               {
                  destbuf[v]=0;
                  if(CheckFoundAka(destbuf)) return(TRUE);
               }

               return(FALSE);
            }''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NETMAIL "NET" 1:1/1 JAM "areas/net"
AREA "BAD" 1:1/1 MSG "bad"
ROUTE "1:*/*.*" "1:1/20" 1:1/1
"""
import os
with W(CFG) as w:
    os.mkdir(w.p('bad'))
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,77),attr=PVT,body=b'\\1INTL 1:1/77 1:1/10\\rhi\\r\\1Via 1:1/10 @20240101.000000 CrashMail II/Linux 1.5\\r\\1Via 1:1/1 @20240101.000000 CrashMail II/Linux 1.5\\r')]))
    w.cm('TOSS')
    check(len(read_msgdir(w.p('bad')))==1,'loop not noticed')
'''
