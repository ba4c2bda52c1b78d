PROP='C19'
NEEDS='a netmail with several attached files separated by commas stored in a JAM area'
BREAKS='names separated by commas are stored as one name'
EDITS=[('src/crashmail/mb_jam.c','''         while(mm->Subject[c]!=0 && mm->Subject[c]!=32 && mm->Subject[c]!=',' && f<80)
            buf[f++]=mm->Subject[c++];

         buf[f]=0;

         while(mm->Subject[c]==32 || mm->Subject[c]==',') c++;

         if(buf[0]!=0)
            jam_addfield(SubPacket_PS,JAMSFLD_ENCLFILE,buf);''','''         while(mm->Subject[c]!=0 && mm->Subject[c]!=32 && f<80)
            buf[f++]=mm->Subject[c++];

         buf[f]=0;

         while(mm->Subject[c]==32 || mm->Subject[c]==',') c++;

         if(buf[0]!=0)
            jam_addfield(SubPacket_PS,JAMSFLD_ENCLFILE,buf);''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
NETMAIL "NET" 1:1/1 JAM "areas/net"
"""
for subj,want in ((b'a.zip',[b'a.zip']),(b'a.zip b.zip',[b'a.zip',b'b.zip']),(b'a.zip,b.zip',[b'a.zip',b'b.zip']),(b'a.zip, b.zip c',[b'a.zip',b'b.zip',b'c'])):
    with W(CFG) as w:
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),attr=PVT|0x10,subj=subj,body=b'\\1INTL 1:1/1 1:1/10\\rhi\\r')]))
        w.cm('TOSS')
        m=read_jam(w.p('areas/net')).msgs
        check(len(m)==1,'not stored')
        got=[d for l,d in m[0].sub if l==9]
        check(got==want,'%r: %r'%(subj,got))
'''
