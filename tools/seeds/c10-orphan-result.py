PROP='C10'
NEEDS='a failure when the flow file is written while an orphan of an earlier run is retried'
BREAKS='the orphan is deleted although its file was not added to the flow file; the packet is never sent'
EDITS=[('src/crashmail/outbound.c','''   if(doAddFlow(buf,basename,type,mode))
   	osDelete(name); /* Orphan file no longer needed */
''','''   doAddFlow(buf,basename,type,mode);
  	osDelete(name); /* Orphan file no longer needed */
''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NODE 1:1/20 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10 1:1/20
"""
with W(CFG) as w:
    os.mkdir(w.p('out/00010014.flo'))     # the flow file cannot be written
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:TEST\\rhello\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r')]))
    w.cm('TOSS'); check(any(f.endswith('.orphan') for f in w.ls('pkt')),'no orphan')
    w.cm('TOSS'); os.rmdir(w.p('out/00010014.flo'))
    w.cm('TOSS')
    check(w.exists('out/00010014.flo') and b'.pkt' in w.read('out/00010014.flo').lower(),'the packet is not queued')
'''
