PROP='C15'
NEEDS='an AreaFix request with a wildcard from a node that is banned from one of the areas'
BREAKS='a node that is banned from an area gets linked to it by +*'
EDITS=[('src/crashmail/areafix.c','''                                       if(bannednode->ConfigNode == cnode) break;

                                    /* Are we banned? */''','''                                       if(bannednode->ConfigNode == cnode && !iswild) break;

                                    /* Are we banned? */''')]
DEMO='''
CFG=HEAD+"""AREAFIXNAME "AreaFix"
AKA 1:1/1
NODE 1:1/10 "" ""
AREAFIXINFO "pw" "A" "" ""
NODE 1:1/20 "" ""
NETMAIL "NET" 1:1/1 JAM "areas/net"
AREA "ONE" 1:1/1 JAM "areas/one"
EXPORT 1:1/20
GROUP A
AREA "TWO" 1:1/1 JAM "areas/two"
EXPORT 1:1/20
BANNED 1:1/10
GROUP A
ROUTE "1:*/*.*" "1:*/*.*" 1:1/1
"""
for line in (b'+TWO',b'+*',b'*'):
    with W(CFG) as w:
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),attr=PVT,to=b'AreaFix',subj=b'pw',body=b'\\1INTL 1:1/1 1:1/10\\r'+line+b'\\r')]))
        w.cm('TOSS')
        t=w.read('cm.cfg').decode('latin1')
        one,two=t.split('"ONE"')[1].split('"TWO"')
        check('1:1/10' not in two.split('BANNED')[0],'%r linked a banned node'%line)
        if b'*' in line: check('1:1/10' in one,'not linked to the other area')
'''
