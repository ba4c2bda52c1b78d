PROP='C22'
NEEDS='two configured nodes that differ only in the zone, and a second run'
BREAKS='the counters of a node are given to the node of another zone with the same net and node'
EDITS=[('src/crashmail/stats.c','         if(Compare4D(&dnstat.Node,&cnode->Node)==0) break;','         if(dnstat.Node.Net==cnode->Node.Net && dnstat.Node.Node==cnode->Node.Node) break;')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
AKA 2:1/1
NODE 1:1/10 "" ""
NODE 2:1/10 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
AREA "TWO" 2:1/1 JAM "areas/two"
EXPORT 2:1/10
"""
import re
with W(CFG) as w:
    def toss(n,o,t): w.inbound(mkpkt(A(o),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:'+t+b'\\r\\1MSGID: %s %d\\rhello\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r'%(o.encode(),n+i)) for i in range(n)]))
    toss(3,'1:1/10',b'TEST'); toss(5,'2:1/10',b'TWO')
    w.cm('TOSS')
    def show():
        out=w.run('cm.stats',prog='crashstats').stdout.decode('latin1')
        return [l for l in out.split(chr(10)) if re.search(r'[12]:1/10',l)]
    a=show(); check(len(a)>=2,'no statistics')
    w.cm('SCAN')
    check(show()==a,'counters changed without mail')
'''
