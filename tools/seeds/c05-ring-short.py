PROP='C05'
NEEDS='the duplicate must be exactly DUPEFILE-size entries back, after the ring has wrapped'
BREAKS='the history holds one message less than configured once full, so an old duplicate is delivered again'
EDITS=[('src/crashmail/dupe.c','''   if(dupeentrynum == config.cfg_DupeSize)
      dupeentrynum=0;''','''   if(dupeentrynum+1 >= config.cfg_DupeSize)
      dupeentrynum=0;''')]
DEMO='''
CFG=HEAD.replace('"cm.dup" 100','"cm.dup" 8')+"""AKA 1:1/1
NODE 1:1/10 "" ""
AREA "BAD" 1:1/1 MSG "bad"
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
"""
import os
with W(CFG) as w:
    os.mkdir(w.p('bad'))
    def m(i): return Msg((1,10),(1,1),body=b'AREA:TEST\\r\\1MSGID: 1:1/10 %08x\\rx\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r'%i)
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m(i) for i in range(8)]))
    w.cm('TOSS')
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m(0)]))
    w.cm('TOSS')
    j=read_jam(w.p('areas/test'))
    check(len(j.msgs)==8,'%d messages stored'%len(j.msgs))
    check(len(read_msgdir(w.p('bad')))==1,'duplicate not kept')
'''
