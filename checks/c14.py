"""C14: rescans by command line and by AreaFix over all small base contents and counts."""
import _boot,itertools,re
import world; from world import *
from emodel import *
from harness import *
LINKS=['1:1/10','1:1/20','1:1/30.3']
def mark(x): return b'BEGIN-%s lorem END-%s\r'%(x,x)
RX=re.compile(rb'BEGIN-(\w+) lorem END-(\w+)\r')
def config(kind,hw,path3d=False):
    areas=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('ECHOS','1:1/2',(kind,'areas/x'),[(n,'') for n in LINKS],group='A'),Area('ECH','1:1/2',(kind,'areas/y'),[(n,'') for n in LINKS],group='A'),Area('ECHO','1:1/1',(kind,'areas/e'),[(n,'') for n in LINKS],group='A'),Area('OTHER','1:1/1',(kind,'areas/o'),[(n,'') for n in LINKS],group='A'),
           Area('FREE','1:1/1',(kind,'areas/f'),[('1:1/20','')],group='A'),Area('PASS','1:1/1',None,[(n,'') for n in LINKS],group='A'),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL'),Area('LOC','1:1/1',(kind,'areas/loc'),kind='LOCALAREA')]
    return Cfg([Aka('1:1/1'),Aka('1:1/2')],[Node(n) for n in ('2:1/10','1:1/10.7','1:1/20.1','2:1/20','1:1/30','2:1/30.3')]+[Node(n,afinfo=('PW','A','')) for n in LINKS],areas,opts=('ALLOWRESCAN',)+(('PATH3D',) if path3d else ()),routes=['"1:*/*.*" "*:*/*.*" 1:1/1'],
        tail='AREAFIXNAME "AreaFix"\n'+('%s_HIGHWATER\n'%kind if hw else '')).text(loglevel=6)
KINDS='ilsdh'     # imported, local unsent, local sent, deleted, hole in the numbering
def fill(w,kind,name,slots,hw):
    """-> ids of the messages present, oldest first"""
    ids=[]; d='areas/'+name
    if kind=='MSG':
        os.mkdir(w.p(d)); n=2
        if hw: w.write(d+'/1.msg',mkmsg(attr=SENT|PVT,replyto=2))
        for i,k in enumerate(slots):
            x='%s%d'%(name.upper(),i)
            if k=='h': n+=3; continue
            if k!='d':
                w.write('%s/%d.msg'%(d,n),mkmsg(text=b'\1MSGID: 1:1/1 %s\r'%x.encode()+mark(x.encode())+b'SEEN-BY: 1/1 5\r\1PATH: 1/5\r',attr={'i':SENT,'l':LOCAL,'s':LOCAL|SENT}[k],subj=b'Subj '+x.encode())); ids.append(x)
            n+=1
    else:
        W=JamWriter(basenum=7 if len(slots)%2 else 1)
        for i,k in enumerate(slots):
            x='%s%d'%(name.upper(),i)
            if k=='h': W.add(hole=True); continue
            W.add(text=mark(x.encode()),subj=b'Subj '+x.encode(),attr=JTYPEECHO|{'i':0,'l':JL|JTYPELOCAL,'s':JL|JTYPELOCAL|JSENT,'d':JDELETED}[k],sub=[(0,b'1:1/5'),(4,b'1:1/1 '+x.encode()),(2001,b'1/1 5'),(2002,b'1/5')])
            if k!='d': ids.append(x)
        W.write(w.p(d))
        if hw: w.write(d+'.cmhw',struct.pack('<I',1))
    return ids
def bases(w): return {f:d for f,d in w.tree().items() if f.startswith('areas/')}
def fetch(w,tag):
    items,prob=outbound(w,{'out':1})
    if prob: raise Violation(tag+prob[0])
    return items
def judge(w,items,node,area,want,tag,reply=False):
    got=[]
    for it in items:
        if it.kind=='netmail':
            if reply and it.dest==A(node) and len(it.pkts)==1 and len(it.pkts[0].msgs)==1: continue
            raise Violation(tag+'netmail for %s'%S(it.dest))
        if it.dest!=A(node): raise Violation(tag+'mail for %s, which did not ask'%S(it.dest))
        for p in it.pkts:
            for m in p.msgs:
                e=parse_echo(m.body); r=RX.findall(m.body)
                if len(r)!=1 or r[0][0]!=r[0][1]: raise Violation(tag+'damaged message %r'%m.body[:200])
                x=r[0][0].decode(); got.append(x)
                if not m.body.startswith(b'AREA:'+area.encode()+b'\r'): raise Violation(tag+'%s sent in %r'%(x,m.body[:20]))
                if m.subj!=b'Subj '+x.encode(): raise Violation(tag+'subject of %s is %r'%(x,m.subj))
                if m.body.count(b'\1RESCANNED 1:1/1')!=1: raise Violation(tag+'%s is not marked as rescanned: %r'%(x,m.body[:200]))
                a=A(node); sb=b' '.join(re.findall(rb'SEEN-BY: ([^\r]*)\r',m.body)); pth=b' '.join(re.findall(rb'\x01PATH: ([^\r]*)\r',m.body))
                if not a.p and (a.n,a.f) not in parse2d(sb): raise Violation(tag+'%s is not in SEEN-BY of %s: %r'%(node,x,sb))
                if (1,1) not in parse2d(sb): raise Violation(tag+'own node not in SEEN-BY of %s: %r'%(x,sb))
                if set(parse2d(sb))-{(1,1),(1,5)}-({(a.n,a.f)} if not a.p else set()): raise Violation(tag+'SEEN-BY of %s names systems that did not get it: %r'%(x,sb))
                if not pth.endswith(b' 1') and not pth.endswith(b'1/1'): raise Violation(tag+'PATH of %s: %r'%(x,pth))
    if got!=want: raise Violation(tag+'rescanned %s instead of %s'%(got,want))
def request(node,text): a=A(node); return Msg((a.n,a.f),(1,1),attr=PVT,to=b'AreaFix',frm=b'Node Op',subj=b'PW',body=b'\1INTL 1:1/1 %s\r'%S(a,False).encode()+(b'\1FMPT %d\r'%a.p if a.p else b'')+text)
def rescan(c):
    kind,hw,slots,mx,via,node=c
    with World(config(kind,hw)) as w:
        tag='%s%s base %s, rescan of %s for %s by %s: '%(kind,', high-water mark' if hw else '',slots or 'empty','everything' if mx is None else '%d messages'%mx,node,via)
        ids=fill(w,kind,'e',slots,hw); fill(w,kind,'o','il',0); fill(w,kind,'x','i',0); fill(w,kind,'y','i',0); fill(w,kind,'f',slots,hw); os.mkdir(w.p('areas/bad')); os.mkdir(w.p('areas/net')); before=bases(w); area='ECHO'
        if via=='+': area='FREE'; ids=[x.replace('E','F') for x in ids]
        want=ids if not mx else ids[-mx:]
        if via=='cmd': r=w.cm('RESCAN',area if mx!=2 else area.lower(),'RESCANNODE',node,*(['RESCANMAX',str(mx)] if mx is not None else []))
        else:
            opt=b'' if mx is None else b', r=%d'%mx if mx==3 else b',R=%d'%mx
            t={'=':b'=ECHO%s\r'%opt,'+':b'+FREE%s\r'%opt,'%':b'%%%s\r=ECHO%s\r'%(b'Rescan' if hw else b'RESCAN',opt)}[via]
            w.inbound(mkpkt(A(node),A('1:1/1'),[request(node,t)])); r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        judge(w,fetch(w,tag),node,area,want,tag,reply=via!='cmd')
        after=bases(w)
        if after!=before: raise Violation(tag+'message base changed: %s'%sorted(set(after.items())^set(before.items()))[0][0])
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1,sample=dict(kind=kind,slots=slots,max=mx,via=via) if 'h' in slots and mx==2 else None)
def cases():
    n=pick(4,5)
    for kind in ('MSG','JAM'):
        for k in range(0,n+1):
            for slots in itertools.product(KINDS,repeat=k):
                slots=''.join(slots)
                for via in ('cmd','=','+','%'):
                    for mx in ([None] if via in ('cmd','%') else [])+list(range(0 if via=='cmd' else 1,k+2)):
                        node=LINKS[(len(slots)+(mx or 0))%3 if via!='+' else 2*((mx or 0)%2)]
                        if not thorough() and via!='cmd' and (k==n or (k==n-1 and mx not in (None,2))): continue
                        for hw in ((0,1) if k<=2 or thorough() else (k%2,)): yield (kind,hw,slots,mx,via,node)
# ---- rescans in the same run as other work
def mixed(c):
    kind,hw,order,mx=c
    """one packet: echomail for the area before and after the request (letters E and A), then a scan"""
    with World(config(kind,hw)) as w:
        tag='%s%s: packet with %s, rescan of %s: '%(kind,', high-water mark' if hw else '',order,mx or 'everything')
        ids=fill(w,kind,'f','il',0); fill(w,kind,'e','',0); fill(w,kind,'x','',0); fill(w,kind,'y','',0); fill(w,kind,'o','',0); os.mkdir(w.p('areas/bad')); os.mkdir(w.p('areas/net')); ms=[]; linked=False; want=[]; k=0; base=list(ids); norm=[]
        for o in order:
            if o=='E':
                x='N%d'%k; k+=1; ms.append(Msg((1,20),(1,1),subj=b'Subj '+x.encode(),body=b'AREA:FREE\r\1MSGID: 1:1/20 %s\r'%x.encode()+mark(x.encode())+b'SEEN-BY: 1/20\r\1PATH: 1/20\r')); base.append(x)
                if linked: want.append(x); norm.append(x)
            else:
                ms.append(request('1:1/10',b'%sFREE%s\r'%(b'=' if linked else b'+',b',R=%d'%(mx or 99)))); linked=True; want+=base if not mx else base[-mx:]
        # the request comes from 1:1/10, the echomail from 1:1/20: split into packets of one message, in order
        for m in ms: w.inbound(mkpkt(A('1:1/%d'%m.orig[1]),A('1:1/1'),[m]))
        r=w.cm('TOSS')
        if r.rc!=0: raise Violation(tag+'exit status %r'%r.rc)
        got=[];res=[]
        for it in fetch(w,tag):
            for p in it.pkts:
                for m in p.msgs:
                    x=RX.findall(m.body)
                    if not x: continue
                    if it.dest!=A('1:1/10'): raise Violation(tag+'mail for %s'%S(it.dest))
                    got.append(x[0][0].decode())
        if got!=want: raise Violation(tag+'1:1/10 gets %s instead of %s'%(got,want))
        w.write('out/x',b''); os.unlink(w.p('out/x'))
        for d in ('out','pkt'):
            for f in w.ls(d): os.unlink(w.p(d,f))
        w.cm('SCAN'); got=[(S(it.dest),[RX.findall(m.body)[0][0].decode() for p in it.pkts for m in p.msgs]) for it in fetch(w,tag)]
        if sorted(got)!=[('1:1/10.0',['F1']),('1:1/20.0',['F1'])]: raise Violation(tag+'the next scan exports %s'%got)
    return dict(evaluations=1,nontrivial=[c],states=2,transitions=2)
# ---- requests that must not rescan
def refuse(c):
    kind,what=c
    with World(config(kind,0) if what!='noallow' else config(kind,0).replace('ALLOWRESCAN\n','')) as w:
        tag='%s, %s: '%(kind,what); fill(w,kind,'e','ili',0); fill(w,kind,'f','ili',0); fill(w,kind,'o','il',0); fill(w,kind,'x','il',0); fill(w,kind,'y','il',0); fill(w,'MSG','bad','ili',0); fill(w,'MSG','net','ils',0); fill(w,kind,'loc','ils',0); before=bases(w)
        if what=='cmd-unknown-node': w.cm('RESCAN','ECHO','RESCANNODE','1:1/99')
        elif what=='cmd-unknown-area': w.cm('RESCAN','NOSUCH','RESCANNODE','1:1/10')
        elif what=='cmd-pass': w.cm('RESCAN','PASS','RESCANNODE','1:1/10')
        elif what=='cmd-bad': w.cm('RESCAN','BAD','RESCANNODE','1:1/10')
        elif what=='cmd-local': w.cm('RESCAN','LOC','RESCANNODE','1:1/10')
        elif what=='cmd-net': w.cm('RESCAN','NET','RESCANNODE','1:1/10')
        elif what=='cmd-nonode': w.cm('RESCAN','ECHO')
        else:
            t={'noallow':b'%RESCAN\r=ECHO\r=OTHER,R=1\r','unlinked':b'=FREE,R=2\r','wild':b'+F*,R=2\r','pass':b'=PASS,R=2\r','plain':b'=ECHO\r+FREE\r','wrongpw':b'=ECHO,R=2\r'}[what]
            m=request('1:1/10',t)
            if what=='wrongpw': m.subj=b'BADPW'
            w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[m])); w.cm('TOSS')
        judge(w,fetch(w,tag),'1:1/10','ECHO',[],tag,reply=not what.startswith('cmd'))
        if bases(w)!=before: raise Violation(tag+'message base changed')
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def akas(c):
    """areas with other addresses of the own system: the rescanned message names the address of its area"""
    kind,aka,via=c; tag='%s area of %s, rescan by %s: '%(kind,aka,via)
    cfg=Cfg([Aka('1:1/1'),Aka('2:2/2'),Aka('1:1/1.7'),Aka('3:3/3.5')],[Node('1:1/10',afinfo=('PW','A',''))],[Area('BAD','1:1/1',('MSG','areas/bad')),Area('ECHO',aka,(kind,'areas/e'),[('1:1/10','')],group='A'),Area('NET','1:1/1',('MSG','areas/net'),kind='NETMAIL')],opts=('ALLOWRESCAN',),routes=['"*:*/*.*" "*:*/*.*" 1:1/1'],tail='AREAFIXNAME "AreaFix"\n').text(loglevel=1)
    with World(cfg) as w:
        ids=fill(w,kind,'e','il',0); os.mkdir(w.p('areas/bad')); os.mkdir(w.p('areas/net'))
        if via=='cmd': r=w.cm('RESCAN','ECHO','RESCANNODE','1:1/10')
        else: w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[request('1:1/10',b'=ECHO,R=9\r')])); r=w.cm('TOSS')
        items,prob=outbound(w,{'out':1,'out.002':2,'out.003':3})
        if prob: raise Violation(tag+prob[0])
        ms=[m for it in items if it.kind!='netmail' for p in it.pkts for m in p.msgs]
        if len(ms)!=2: raise Violation(tag+'%d messages sent'%len(ms))
        for m in ms:
            k=re.findall(rb'\x01RESCANNED[^\r]*\r',m.body)
            if k!=[b'\1RESCANNED %s\r'%S(A(aka)).encode()]: raise Violation(tag+'marked with %r'%k)
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def main():
    ck=Check('C14','exploration','all base contents up to the length bound (imported/local/sent/deleted messages and numbering holes) x all counts x command line and the three AreaFix forms; all orders of echomail and requests in one run followed by a scan; refused requests; non-trivial = distinct case',['rescans are requested for linked nodes'])
    world.init()
    ck.explore('rescan',rescan,list(cases()),chunk=32)
    ck.explore('mixed',mixed,[(k,hw,''.join(o),mx) for k in ('MSG','JAM') for hw in (0,1) for n in range(1,pick(3,4)+1) for o in itertools.product('EA',repeat=n) if 'A' in o for mx in (0,1,2,3)],chunk=4)
    ck.explore('refuse',refuse,[(k,x) for k in ('MSG','JAM') for x in ('cmd-unknown-node','cmd-unknown-area','cmd-pass','cmd-bad','cmd-net','cmd-local','cmd-nonode','noallow','unlinked','wild','pass','plain','wrongpw')])
    ck.explore('akas',akas,[(k,a,v) for k in ('MSG','JAM') for a in ('1:1/1','2:2/2','1:1/1.7','3:3/3.5') for v in ('cmd','=')])
    ck.finish()
if __name__=='__main__': main()
