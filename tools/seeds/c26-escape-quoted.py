PROP='C26'
NEEDS='a configuration value written without quotes that holds an escaped space'
BREAKS='the value is cut at the escaped space and the rest is read as further arguments'
EDITS=[('src/shared/jbstrcpy.c',"      if(src[jbcpos]=='\\\\' && src[jbcpos+1]!=0 && src[jbcpos+1]!=10)\n","      if(src[jbcpos]=='\\\\' && (src[jbcpos+1]=='\"' || src[jbcpos+1]=='\\\\'))\n")]
DEMO='''
for how in ('"in bound"','in\\\\ bound','"in\\\\ bound"'):
    CFG=HEAD.replace('INBOUND "in"','INBOUND '+how)+"""AKA 1:1/1
NODE 1:1/10 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
"""
    with W(CFG) as w:
        os.mkdir(w.p('in bound')); w.write('in bound/00000001.pkt',mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:TEST\\rhello\\r')]))
        r=w.cm('TOSS'); check(r.returncode==0,'%s: %r'%(how,r.stdout[-200:]))
        check(not w.ls('in bound') and len(read_jam(w.p('areas/test')).msgs)==1,how+': not tossed')
'''
