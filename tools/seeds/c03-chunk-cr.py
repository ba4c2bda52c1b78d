PROP='C03'
NEEDS='a text longer than 10000 bytes where a line crosses the border between two chunks'
BREAKS='the CR before the line that crosses the border is lost, so two lines are joined'
EDITS=[('src/crashmail/memmessage.c','            oldchunk->Length=d+1;','            oldchunk->Length=d;')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NODE 1:1/20 "" ""
AREA "TEST" 1:1/1
EXPORT 1:1/10 1:1/20
"""
with W(CFG) as w:
    text=b''.join((b'line %04d '%i+b'word '*(i%90)).strip()+b'\\r' for i in range(300))
    body=b'AREA:TEST\\r'+text+b'SEEN-BY: 1/10\\r\\1PATH: 1/10\\r'
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=body)]))
    w.cm('TOSS')
    p=w.pkts()
    check(len(p)==1 and text in p[0].msgs[0].body,'text changed in transit')
'''
