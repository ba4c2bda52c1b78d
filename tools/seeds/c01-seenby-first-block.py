PROP='C01'
NEEDS='CHECKSEENBY with a message carrying more than 50 SEEN-BY entries where the link is listed after the 50th'
BREAKS='a link already in SEEN-BY gets another copy when its entry lies beyond the first block of the parsed list'
EDITS=[('src/crashmail/handle.c','''   for(tmp=(struct Nodes2D *)list->First;tmp;tmp=tmp->Next)
      for(c=0;c<tmp->Nodes;c++)
         if(tmp->Net[c]==node->Net && tmp->Node[c]==node->Node) return(TRUE);
''','''   if((tmp=(struct Nodes2D *)list->First))
      for(c=0;c<tmp->Nodes;c++)
         if(tmp->Net[c]==node->Net && tmp->Node[c]==node->Node) return(TRUE);
''')]
DEMO='''
CFG=HEAD+"""CHECKSEENBY
AKA 1:1/1
NODE 1:1/10 "" ""
NODE 1:1/20 "" ""
NODE 1:1/30 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10 1:1/20 1:1/30
"""
for pos in (0,30,70):
    with W(CFG) as w:
        sb=[(1,n) for n in range(100,190)]; sb.insert(pos,(1,20))
        body=b'AREA:TEST\\rhello\\r'+b''.join(b'SEEN-BY: %d/%d\\r'%x for x in sb)+b'\\1PATH: 1/10\\r'
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=body)]))
        check(w.cm('TOSS').returncode==0,'toss')
        to=sorted(S(p.dest,False) for p in w.pkts())
        check(to==['1:1/30'],'position %d: sent to %r'%(pos,to))
'''
