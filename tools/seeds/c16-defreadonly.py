PROP='C16'
NEEDS='an area that is both MANDATORY and DEFREADONLY and is changed by AreaFix'
BREAKS='DEFREADONLY is lost when the area is written back'
EDITS=[('src/crashmail/config.c','''   if(tmparea->Flags & AREA_DEFREADONLY)
      osFPrintf(osfh,"DEFREADONLY\\n");''','''   if((tmparea->Flags & AREA_DEFREADONLY) && !(tmparea->Flags & AREA_MANDATORY))
      osFPrintf(osfh,"DEFREADONLY\\n");''')]
DEMO='''
CFG=HEAD+"""AREAFIXNAME "AreaFix"
AKA 1:1/1
NODE 1:1/10 "" ""
AREAFIXINFO "pw" "A" "" ""
NODE 1:1/20 "" ""
NETMAIL "NET" 1:1/1 JAM "areas/net"
AREA "ONE" 1:1/1 JAM "areas/one"
EXPORT 1:1/20
GROUP A
%s
ROUTE "1:*/*.*" "1:*/*.*" 1:1/1
"""
for k in (['MANDATORY'],['DEFREADONLY'],['MANDATORY','DEFREADONLY'],['MANDATORY','DEFREADONLY','IGNOREDUPES','IGNORESEENBY']):
    with W(CFG%chr(10).join(k)) as w:
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),attr=PVT,to=b'AreaFix',subj=b'pw',body=b'\\1INTL 1:1/1 1:1/10\\r+ONE\\r')]))
        w.cm('TOSS')
        l=w.read('cm.cfg').decode('latin1').split(chr(10))
        check(any('1:1/10' in x for x in l if x.startswith('EXPORT')),'not linked')
        for x in k: check(x in [y.strip() for y in l],'%s lost'%x)
'''
