PROP='C14'
NEEDS='a RESCAN of an area that is not an echomail area'
BREAKS='the private netmail of the system is sent out as echomail'
EDITS=[('src/crashmail/crashmail.c','''   if(area->AreaType != AREATYPE_ECHOMAIL)
   {
      LogWrite(1,USERERR,"Area %s is not an echomail area",area->Tagname);
      return(FALSE);
   }
''','')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NETMAIL "NET" 1:1/1 MSG "areas/net"
AREA "TEST" 1:1/1 MSG "areas/test"
EXPORT 1:1/10
"""
import os
with W(CFG) as w:
    os.mkdir(w.p('areas/net')); os.mkdir(w.p('areas/test'))
    w.write('areas/net/2.msg',mkmsg(attr=0x9,text=b'secret\\r',dest=(1,1,1,0)))
    w.write('areas/test/2.msg',mkmsg(attr=0x8,text=b'public\\r'))
    w.cm('RESCAN','NET','RESCANNODE','1:1/10')
    check(w.pkts()==[],'netmail area rescanned')
    w.cm('RESCAN','TEST','RESCANNODE','1:1/10')
    check(sum(len(p.msgs) for p in w.pkts())==1,'echomail area not rescanned')
'''
