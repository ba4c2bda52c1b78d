PROP='C02'
NEEDS='an echomail with ten or more PATH lines'
BREAKS='the eleventh and later PATH lines are dropped, and so is the own address added to the path'
EDITS=[('src/crashmail/memmessage.c','''   if(path && path->Paths == PKT_NUMPATH)
      path=NULL;

   if(!path)
   {
      if(!(path=(struct Path *)osAlloc''','''   if(path && path->Paths == PKT_NUMPATH)
      return(TRUE);

   if(!path)
   {
      if(!(path=(struct Path *)osAlloc''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NODE 1:1/20 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10 1:1/20
"""
for n in (2,12,25):
    with W(CFG) as w:
        body=b'AREA:TEST\\rhello\\rSEEN-BY: 1/10\\r'+b''.join(b'\\1PATH: 5/%d\\r'%(100+i) for i in range(n))
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=body)]))
        w.cm('TOSS')
        p=w.pkts()
        check(len(p)==1,'packets')
        e=parse_echo(p[0].msgs[0].body)
        hops=[x[:2] for x in e.path]
        check(hops==[(5,100+i) for i in range(n)]+[(1,1)],'%d: path is %r'%(n,hops))
'''
