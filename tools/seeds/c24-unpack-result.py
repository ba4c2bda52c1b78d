PROP='C24'
NEEDS='an unpacker that fails with exit code 1 on a damaged bundle'
BREAKS='the bundle is deleted as if it had been unpacked'
EDITS=[('src/crashmail/toss.c','''   if(arcres!=0)
''','''   if(arcres>1)
''')]
DEMO='''
import os
CFG=HEAD+"""PACKER "T" "tar cf %%a %%f" "sh ../unp %%a" "PK34"
AKA 1:1/1
NODE 1:1/10 "T" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
""".replace('%%','%')
for rc in (1,2,3):
    with W(CFG) as w:
        w.write('unp','exit %d\\n'%rc)
        w.write('in/00010001.mo0',b'PK34 damaged')
        w.cm('TOSS')
        check(any(n.startswith('00010001.mo0') for n in w.ls('in')),'exit code %d: bundle is gone'%rc)
'''
