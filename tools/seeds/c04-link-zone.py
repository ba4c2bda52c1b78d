PROP='C04'
NEEDS='a configured node of another zone with the net and node number of a link of the area'
BREAKS='the zone of the sender is ignored when looking for the link, so an outsider can write in the area'
EDITS=[('src/crashmail/handle.c','         if(Compare4D(&temptnode->ConfigNode->Node,&mm->PktOrig)==0) break;','         if(temptnode->ConfigNode->Node.Net==mm->PktOrig.Net && temptnode->ConfigNode->Node.Node==mm->PktOrig.Node && temptnode->ConfigNode->Node.Point==mm->PktOrig.Point) break;')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NODE 2:1/10 "" ""
NODE 1:1/20 "" ""
AREA "BAD" 1:1/1 MSG "bad"
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10 1:1/20
"""
import os
with W(CFG) as w:
    os.mkdir(w.p('bad'))
    w.inbound(mkpkt(A('2:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:TEST\\rhello\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r')]))
    w.cm('TOSS')
    check(len(read_msgdir(w.p('bad')))==1,'message of an outsider was accepted')
    check(w.pkts()==[],'message of an outsider was sent on')
'''
