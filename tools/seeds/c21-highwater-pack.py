PROP='C21'
NEEDS='crashmaint packing a *.MSG area where messages were removed so that the one at the highwater mark is gone'
BREAKS='the highwater mark is not moved with the renumbered message it stands for'
EDITS=[('src/tools/crashmaint.c','''            if(highwater == msg->Num)
               highwater=msg->NewNum;''','''            if(oldhighwater == msg->Num)
               highwater=msg->NewNum;''')]
DEMO='''
import os
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
AREA "TEST" 1:1/1 MSG "areas/test"
EXPORT 1:1/10
"""
for hw,want in ((9,3),(8,3),(5,2),(12,4)):
    with W(CFG) as w:
        os.mkdir(w.p('areas/test'))
        w.write('areas/test/1.msg',mkmsg(frm=b'CrashMail II',subj=b'HighWater mark',replyto=hw,attr=9))
        for i in (5,8,12,15): w.write('areas/test/%d.msg'%i,mkmsg(subj=b'n%d'%i,attr=0x108,text=b'x\\r'))
        w.run('SETTINGS','cm.cfg','PACK',prog='crashmaint')
        d=read_msgdir(w.p('areas/test'))
        check(sorted(d)==[1,2,3,4,5],'names %r'%sorted(d))
        check(d[1].replyto==want,'mark %d became %d'%(hw,d[1].replyto))
'''
