PROP='C18'
NEEDS='a nodelist where a net directly under a second zone follows a region of the first'
BREAKS='the region of the previous zone sticks to the next zone'
EDITS=[('src/tools/crashlist.c','''			idx.zone=atoi(&buf[5]);
			idx.region=0;''','''			idx.zone=atoi(&buf[5]);''')]
DEMO='''
import os
NL="""Zone,1,Z1,Loc,Sysop,000,300
Region,17,R17,Loc,Sysop,000,300
Host,170,N170,Loc,Sysop,000,300
,5,N5,Loc,Sysop,000,300
Zone,2,Z2,Loc,Sysop,000,300
Host,200,N200,Loc,Sysop,000,300
,6,N6,Loc,Sysop,000,300
"""
CFG=HEAD+"""NODELIST "nl" CMNL
AKA 1:1/1
NODE 1:1/10 "" ""
NETMAIL "NET" 1:1/1 JAM "areas/net"
ROUTE "REGION 2:17" "2:17/0" 1:1/1
ROUTE "*:*/*.*" "1:1/20" 1:1/1
"""
with W(CFG) as w:
    os.mkdir(w.p('nl')); w.write('nl/cmnodelist.prefs','nl.txt 1\\n'); w.write('nl/nl.txt',NL)
    w.run('nl',prog='crashlist')
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(200,6),attr=PVT,body=b'\\1INTL 2:200/6 1:1/10\\rhi\\r')]))
    w.cm('TOSS')
    n=w.netmails()
    check([S(p.dest,False) for f,p in n]==['1:1/20'],'sent to %r'%[S(p.dest,False) for f,p in n])
'''
