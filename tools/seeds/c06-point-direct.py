PROP='C06'
NEEDS='a netmail to a point that a CHANGE or ROUTE makes direct'
BREAKS='direct netmail to a point is put in the outbound of the point and not of its boss'
EDITS=[('src/crashmail/handle.c','''			if(mm->Type == PKTS_DIRECT || mm->Type == PKTS_CRASH)
			{
				Dest4D.Point=0;''','''			if(mm->Type == PKTS_CRASH)
			{
				Dest4D.Point=0;''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NETMAIL "NET" 1:1/1 JAM "areas/net"
ROUTE "1:5/*.*" "1:*/*.*" 1:1/1
CHANGE "NORMAL" "1:5/*.*" DIRECT
"""
with W(CFG) as w:
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(5,7),attr=PVT,body=b'\\1INTL 1:5/7 1:1/10\\r\\1TOPT 3\\rhi\\r')]))
    w.cm('TOSS')
    n=w.netmails()
    check(len(n)==1 and n[0][0].lower()=='00050007.dut','files %r'%[x[0] for x in n])
    check(n[0][1].dest==A('1:5/7'),'packet to %r'%(n[0][1].dest,))
'''
