PROP='C27'
NEEDS='a netmail that passed a CrashMail system with the same net and node numbers in another zone'
BREAKS='it is taken for loop mail: a copy of it is put aside, though it passes here for the first time'
EDITS=[('src/crashmail/handle.c','''   for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
      if(Compare4D(&aka->Node,&via4d)==0) return(TRUE);
''','''   for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
   {
      /* Some gates leave their own zone in the line */

      via4d.Zone=aka->Node.Zone;
      if(Compare4D(&aka->Node,&via4d)==0) return(TRUE);
   }
''')]
DEMO='''
CFG=HEAD+"""LOOPMODE LOG+BAD
AKA 2:1/1
NODE 1:1/1 "" ""
NODE 3:1/1 "" ""
AREA "BAD" 2:1/1 MSG "areas/bad"
NETMAIL "NET" 2:1/1 MSG "areas/net"
ROUTE "3:*/*.*" "3:1/1" 2:1/1
"""
for z in (5,1):
    with W(CFG) as w:
        w.inbound(mkpkt(A('1:1/1'),A('2:1/1'),[Msg((1,1),(1,1),body=b'\\1INTL 3:1/1 1:1/1\\rhello\\r\\1Via %d:1/1 @19991231.235900 CrashMail II/Linux 0.71\\r'%z)])); w.cm('TOSS')
        check(not [x for x in w.ls('areas/bad') if x.endswith('.msg')],'a message that came by %d:1/1 is put aside at 2:1/1 as loop mail'%z)
'''
