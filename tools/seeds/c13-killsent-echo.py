PROP='C13'
NEEDS='ALLOWKILLSENT and a local echomail in a *.MSG area with the kill/sent flag'
BREAKS='the echomail is deleted from the local area after it is exported'
EDITS=[('src/crashmail/mb_msg.c','(oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))','(oldattr & FLAG_KILLSENT))')]
DEMO='''
CFG=HEAD+"""ALLOWKILLSENT
AKA 1:1/1
NODE 1:1/10 "" ""
AREA "TEST" 1:1/1 MSG "areas/test"
EXPORT 1:1/10
"""
import os
with W(CFG) as w:
    os.mkdir(w.p('areas/test'))
    w.write('areas/test/2.msg',mkmsg(attr=0x100,text=b'one\\r'))
    w.write('areas/test/3.msg',mkmsg(attr=0x100|0x80,text=b'two\\r'))
    w.cm('SCAN')
    check(sum(len(p.msgs) for p in w.pkts())==2,'not exported')
    check({2,3}<=set(read_msgdir(w.p('areas/test'))),'a message in the area is gone: %r'%w.ls('areas/test'))
'''
