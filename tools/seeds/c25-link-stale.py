PROP='C25'
NEEDS='another program changing a message while the reply linking of a toss waits for the lock of the JAM base'
BREAKS='the linking writes back the header as it was before the other program changed it'
EDITS=[('src/crashmail/mb_jam.c','''  
         if(JAM_LockMB(ja->Base_PS,10))
         {
            LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \\"%s\\"",area->Path);
            osFree(msgs);
				return(FALSE);
         }

         res = JAM_ReadMsgHeader( ja->Base_PS, c, &Header_S, NULL);

         if(!res)
''','''  
         res = JAM_ReadMsgHeader( ja->Base_PS, c, &Header_S, NULL);

         if(JAM_LockMB(ja->Base_PS,10))
         {
            LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \\"%s\\"",area->Path);
            osFree(msgs);
				return(FALSE);
         }

         if(!res)
''')]
DEMO='''
import struct
CFG=HEAD+"""JAM_LINK
AKA 1:1/1
NODE 1:1/10 "" ""
NETMAIL "NET" 1:1/1 MSG "areas/net"
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
FILTER SUBJECT="hold"
EXECUTE "sh hold.sh"
"""
HELP="""import fcntl,os,sys,struct,time
f=os.open('areas/test.jhr',os.O_RDWR); fcntl.lockf(f,fcntl.LOCK_EX,1,0,0); open('locked','w').close()
time.sleep(2.5)
o=struct.unpack('<I',open('areas/test.jdx','rb').read()[4:8])[0]
a=struct.unpack('<I',os.pread(f,4,o+52))[0]; os.pwrite(f,struct.pack('<I',a|8),o+52); os.close(f)
"""
with W(CFG) as w:
    os.mkdir(w.p('areas/net')); w.write('help.py',HELP); w.write('hold.sh','python3 help.py </dev/null >/dev/null 2>&1 &\\nwhile [ ! -e locked ]; do sleep 0.1; done\\nexit 1\\n')
    e=lambda x,r=b'':Msg((1,10),(1,1),subj=b'x',body=b'AREA:TEST\\r\\1MSGID: 1:1/10 %s\\r'%x+r+b'hello\\rSEEN-BY: 1/10\\r')
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[e(b'1')])); w.cm('TOSS')
    w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[e(b'2',b'\\1REPLY: 1:1/10 1\\r'),Msg((1,10),(1,1),subj=b'hold',body=b'hi\\r')])); r=w.cm('TOSS')
    check(w.exists('locked'),'base was not locked')
    m=read_jam(w.p('areas/test')).msgs
    check(len(m)==2 and m[0].reply1st==2,'not linked')
    check(m[0].attr&8,'the change of the other program is undone')
'''
