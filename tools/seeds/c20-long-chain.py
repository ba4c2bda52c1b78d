PROP='C20'
NEEDS='more than twenty replies to one message in a JAM area with JAM_LINK'
BREAKS='further replies are not put in the chain of replies'
EDITS=[('src/crashmail/mb_jam.c','			if(times > 1000) /* Something appears','			if(times > 20) /* Something appears')]
DEMO='''
CFG=HEAD+"""JAM_LINK
AKA 1:1/1
NODE 1:1/10 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
"""
for n in (3,40):
    with W(CFG) as w:
        ms=[Msg((1,10),(1,1),body=b'AREA:TEST\\r\\1MSGID: 1:1/10 0\\rhello\\rSEEN-BY: 1/10\\r')]+[Msg((1,10),(1,1),body=b'AREA:TEST\\r\\1MSGID: 1:1/10 %d\\r\\1REPLY: 1:1/10 0\\rhello\\rSEEN-BY: 1/10\\r'%i) for i in range(1,n+1)]
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),ms)); w.cm('TOSS')
        m={x.num:x for x in read_jam(w.p('areas/test')).msgs}; k=m[min(m)].reply1st; c=0
        while k: c+=1; k=m[k].replynext
        check(c==n,'%d of %d replies in the chain'%(c,n))
'''
