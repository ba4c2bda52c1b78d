PROP='C23'
NEEDS='crashwrite with a packet sender that is a point other than the message sender'
BREAKS='the packet header carries the point number of the message sender'
EDITS=[('src/tools/crashwrite.c','   putuword(PktHeader,PKTHEADER_ORIGPOINT,pktfrom4d.Point);','   putuword(PktHeader,PKTHEADER_ORIGPOINT,from4d.Point);')]
DEMO='''
for frm,pf in (('1:1/10','1:1/10.5'),('1:1/10.4','1:1/10'),('1:1/10.4',None)):
    with W() as w:
        a=['DIR','in','FROMADDR',frm,'TOADDR','1:1/1','SUBJECT','x']+(['PKTFROMADDR',pf] if pf else [])
        w.run(*a,prog='crashwrite')
        p=w.pkts('in')
        check(len(p)==1,'no packet')
        check(p[0].orig==A(pf or frm),'packet from %r'%(p[0].orig,))
'''
