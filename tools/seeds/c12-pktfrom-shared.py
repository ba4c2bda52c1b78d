PROP='C12'
NEEDS='mail for one node in one run from areas with different AKAs'
BREAKS='the second message goes in the packet opened with the other address, so the packet says it comes from the wrong address'
EDITS=[('src/crashmail/pkt.c','Compare4D(mynode,&pkt->Orig)==0 && type','type')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
AKA 1:9/9
NODE 1:1/10 "" ""
NODE 1:1/20 "" ""
AREA "ONE" 1:1/1
EXPORT 1:1/10 1:1/20
AREA "TWO" 1:9/9
EXPORT 1:1/10 1:1/20
"""
with W(CFG) as w:
    def m(t): return Msg((1,10),(1,1),body=b'AREA:'+t+b'\\rhello '+t+b'\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r')
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m(b'ONE'),m(b'TWO'),m(b'ONE')]))
    w.cm('TOSS')
    got=sorted((S(p.orig,False),x.body.split(b'\\r')[0]) for p in w.pkts() for x in p.msgs)
    check(got==[('1:1/1',b'AREA:ONE'),('1:1/1',b'AREA:ONE'),('1:9/9',b'AREA:TWO')],'%r'%got)
'''
