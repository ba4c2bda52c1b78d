"""C13: all histories of writing, receiving, deleting and scanning local messages, *.MSG and JAM, with all high-water settings."""
import _boot,itertools,re
import world; from world import *
from emodel import *
from harness import *
NODES={'1:1/10':'','1:1/20':'!','1:1/30':'@'}      # normal, may only read, may only write
HOPS={'1:1/77':'1:1/10','2:7/7':'1:1/20'}
def mark(x): return b'BEGIN-%s lorem END-%s\r'%(x,x)
RX=re.compile(rb'BEGIN-(\w+) lorem END-(\w+)\r')
def ids(p):
    o=[]
    for m in p.msgs:
        r=RX.findall(m.body)
        if len(r)!=1 or r[0][0]!=r[0][1]: raise Violation('damaged message %r'%m.body[:200])
        o.append((m,r[0][0].decode()))
    return o
def config(kind,hw,opts):
    b=lambda n: (kind,'areas/'+n)
    areas=[Area('BAD','1:1/1',('MSG','areas/bad')),Area('ECHO.ONE2','1:1/1',b('one.loc'),kind='LOCALAREA'),Area('ECHO.ON','1:1/1',b('on'),list(NODES.items())),Area('ECHO.ONE','1:1/1',b('one'),list(NODES.items())),Area('PASS','1:1/1',None,list(NODES.items())),
           Area('NET','1:1/1',b('net'),kind='NETMAIL')]
    o=[x for x in opts if not x.startswith('MSG_')]
    return Cfg([Aka('1:1/1')],[Node(n) for n in NODES],areas,opts=o,routes=['"1:1/77.*" "1:1/10" 1:1/1','"2:*/*.*" "1:1/20" 1:1/1'],
        tail=('%s_HIGHWATER\n'%kind if hw else '')+''.join(x+'\n' for x in opts if x.startswith('MSG_'))).text(loglevel=6)
AR={'e':('one','ECHO.ONE'),'f':('on','ECHO.ON'),'n':('net','NET'),'l':('one.loc','ECHO.ONE2')}
class M: pass
class Hist:
    def __init__(s,kind,hw,opts):
        s.kind,s.hw,s.opts=kind,hw,opts; s.w=World(config(kind,hw,opts)); s.k=0; s.area={a:[] for a in AR}; s.top={a:1 if kind=='MSG' else 0 for a in AR}
        for d in ['bad']+([x for x,_ in AR.values()] if kind=='MSG' else []): os.mkdir(s.w.p('areas/'+d))
    def path(s,a): return s.w.p('areas/'+AR[a][0])
    def write(s,a,local=True,sent=False,ks=False,dest='1:1/77'):
        """another program stores a message"""
        s.k+=1; m=M(); m.id='%s%d'%(a.upper(),s.k); m.local=local; m.sent=sent; m.ks=ks; m.dest=dest; m.deleted=False; o=(1,1,1,0); t=mark(m.id.encode())
        if s.kind=='MSG':
            d=A(dest) if a=='n' else (0,0,0,0)
            if a=='n': t=b'\1INTL %s 1:1/1\r'%S(A(dest),False).encode()+t
            s.top[a]=max([s.top[a]]+[x.num for x in s.area[a]])+1; m.num=s.top[a]
            m.raw=mkmsg(text=t,attr=(LOCAL if local else 0)|(SENT if sent else 0)|(KS if ks else 0),orig=o,dest=tuple(d)); s.w.write('areas/%s/%d.msg'%(AR[a][0],m.num),m.raw)
        else:
            at=(JL|JTYPELOCAL if local else 0)|(JSENT if sent else 0)|(JKS if ks else 0)|(JTYPENET if a=='n' else JTYPEECHO)
            m.num=jam_append(s.path(a),text=t,attr=at,sub=[(0,b'1:1/1')]+([(1,dest.encode())] if a=='n' else []))
        s.area[a].append(m)
    def delete(s,a,which):
        L=[m for m in s.area[a] if not m.deleted]
        if not L: return
        m=L[which]; m.deleted=True
        if s.kind=='MSG': os.unlink(s.path(a)+'/%d.msg'%m.num)
        else: jam_patch(s.path(a),m.num,lambda x: x|JDELETED)
    def fetch(s,tag):
        """everything in the outbound queue, which is emptied"""
        items,prob=outbound(s.w,{'out':1})
        if prob: raise Violation(tag+prob[0])
        got=[]
        for it in items:
            for p in it.pkts:
                for m,i in ids(p): got.append((i,S(it.dest,False),it.kind))
        for d,ds,fs in os.walk(s.w.p('out')):
            for f in fs: os.unlink(os.path.join(d,f))
        for f in s.w.ls('pkt'): os.unlink(s.w.p('pkt',f))
        return sorted(got)
    def check(s,argv,scanned,received,tag):
        before={a:s.read(a) for a in AR}
        exp=[]; newly={a:[] for a in AR}
        for m in received:   # tossed in this run
            exp+=[(m.id,'1:1/20','pkt')]
        for a in scanned:
            for m in s.area[a]:
                if m.deleted or m.sent or not m.local: continue
                if a=='n': exp.append((m.id,HOPS[m.dest],'netmail'))
                else: exp+=[(m.id,n,'pkt') for n,f in NODES.items() if f!='@']
                newly[a].append(m)
        r=s.w.cm(*argv)
        if r.rc!=0: raise Violation(tag+'exit status %r: %r'%(r.rc,r.out[-300:]))
        got=s.fetch(tag)
        if got!=sorted(exp):
            x=[e for e in exp if e not in got]; y=[g for g in got if g not in exp]; z=sorted({g for g in got if got.count(g)>1})
            raise Violation(tag+'exported %s%s%s'%('; missing %s'%x if x else '','; too much: %s'%y if y else '','; twice: %s'%z if z else ''))
        for a in AR:
            for m in newly[a]:
                m.sent=True
                if a=='n' and m.ks and 'ALLOWKILLSENT' in s.opts: m.deleted=True
        for a in AR:
            after=s.read(a); rec=[m for m in received if m.area==a]
            want={m.num:m for m in s.area[a] if not m.deleted}; extra=set(after)-set(want)
            if set(want)-set(after): raise Violation(tag+'message %s of %s is gone'%(sorted(set(want)-set(after)),AR[a][1]))
            if len(extra)!=len(rec): raise Violation(tag+'%s has additional messages %s'%(AR[a][1],sorted(extra)))
            for m,n in zip(rec,sorted(extra)):
                m.num=n; s.area[a].append(m); s.top[a]=max(s.top[a],n); x=after[n]
                m.sent=x[2]
                if x[0]!=m.id or x[1]: raise Violation(tag+'received message stored as %r'%(x,))
            for n,m in want.items():
                i,loc,snt,rest=after[n]
                if i!=m.id: raise Violation(tag+'message %d of %s is %s instead of %s'%(n,AR[a][1],i,m.id))
                if snt!=m.sent: raise Violation(tag+'message %s of %s %s'%(m.id,AR[a][1],'is not marked as sent' if m.sent else 'is marked as sent though it was not exported'))
                if loc!=m.local: raise Violation(tag+'local flag of %s changed'%m.id)
                if n in before[a] and before[a][n][3]!=rest and not ('MSG_WRITEBACK' in s.opts and m in newly[a]): raise Violation(tag+'stored message %s changed otherwise: %r -> %r'%(m.id,before[a][n][3],rest))
    def read(s,a):
        o={}
        if s.kind=='MSG':
            for n,m in read_msgdir(s.path(a)).items():
                if n==1: continue
                b=s.w.read('areas/%s/%d.msg'%(AR[a][0],n)); o[n]=(RX.findall(m.text)[0][0].decode(),bool(m.attr&LOCAL),bool(m.attr&SENT),(b[:164],m.attr&~(SENT|LOCAL),m.replyto,m.text))
        elif os.path.exists(s.path(a)+'.jhr'):
            for m in read_jam(s.path(a)).msgs:
                if not m.deleted: o[m.num]=(RX.findall(m.text)[0][0].decode(),bool(m.attr&JL),bool(m.attr&JSENT),(m.attr&~(JSENT|JL),m.sub,m.text,m.replyto,m.datewritten))
        return o
    def step(s,o,tag):
        if o=='we': s.write('e')
        elif o=='wf': s.write('f')
        elif o=='wn': s.write('n')
        elif o=='wN': s.write('n',dest='2:7/7')
        elif o=='wk': s.write('n',ks=True)
        elif o=='wq': s.write('e',ks=True)
        elif o=='ws': s.write('e',sent=True); s.write('n',sent=True)
        elif o=='wr': s.write('e',local=False); s.write('n',local=False)
        elif o=='wl': s.write('l')
        elif o=='do': s.delete('e',0); s.delete('n',0)
        elif o=='dn': s.delete('e',-1); s.delete('n',-1)
        elif o in ('toss','both'):
            s.k+=1; m=M(); m.id='T%d'%s.k; m.area='e'; m.local=False; m.sent=True; m.deleted=False; m.ks=False; x=m.id.encode()
            s.w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=b'AREA:ECHO.ONE\r\1MSGID: 1:1/10 %s\r'%x+mark(x)+b'SEEN-BY: 1/10\r\1PATH: 1/10\r')]))
            s.check(('TOSS',)+(('SCAN',) if o=='both' else ()),('efn' if 'NOEXPORTNETMAIL' not in s.opts else 'ef') if o=='both' else '',[m],tag); return 1
        elif o=='scan': s.check(('SCAN',),'efn' if 'NOEXPORTNETMAIL' not in s.opts else 'ef',[],tag); return 1
        elif o=='sae': s.check(('SCANAREA','ECHO.ONE'),'e',[],tag); return 1
        elif o=='san': s.check(('SCANAREA','NET'),'n',[],tag); return 1
        elif o=='list':
            s.w.write('list.txt','ECHO.ONE\necho.one\n\nNOSUCH\nPASS\nBAD\nECHO.ONE2\nNET  \n'+'ECHO.ONE\n')
            s.check(('SCANLIST','list.txt'),'en' if 'NOEXPORTNETMAIL' not in s.opts else 'e',[],tag); return 1
        elif o=='dot':
            s.w.write('echomail.jam','areas/one 1\nareas/one 2\nareas/none\nareas/net\r\nareas/one.loc 3\n')
            s.check(('SCANDOTJAM','echomail.jam'),'en' if 'NOEXPORTNETMAIL' not in s.opts else 'e',[],tag); return 1
        return 0
WR=['we','wf','wn','wN','wk','wq','ws','wr','wl','do','dn']; RUN=['toss','scan','both','sae','san','list','dot']
def history(c):
    kind,hw,opts,ops=c; h=Hist(kind,hw,opts); k=0
    try:
        for i,o in enumerate(ops):
            k+=h.step(o,'%s%s %s, history %s: '%(kind,', high-water marks' if hw else '',' '.join(opts),' '.join(ops[:i+1])))
    finally: h.w.close()
    return dict(evaluations=k,nontrivial=[c],states=len(ops),transitions=k,sample=dict(kind=kind,highwater=hw,options=list(opts),ops=list(ops)) if 'dn' in ops and 'dot' in ops else None)
def canon(ops):
    if ops[-1] not in RUN: return False
    if not any(o[0]=='w' for o in ops) : return False
    ORD={o:i for i,o in enumerate(WR)}
    for a,b in zip(ops,ops[1:]):
        if a in ORD and b in ORD and ORD[a]>ORD[b] and not(b[0]=='w' and a[0]=='d'): return False
        if a in ('do','dn') and b in ('do','dn'): return False
    return True
def cases():
    full=pick(3,4)
    for kind in ('MSG','JAM'):
        for hw in (0,1):
            for k in range(2,full+1):
                for ops in itertools.product(WR+RUN,repeat=k):
                    if canon(ops): yield (kind,hw,(),ops)
            # longer histories over a smaller alphabet
            small=['we','wn','dn','toss','scan','sae','list']
            for k in range(full+1,pick(5,6)+1):
                for ops in itertools.product(small,repeat=k):
                    if canon(ops): yield (kind,hw,(),ops)
            for opts in (('ALLOWKILLSENT',),('NOEXPORTNETMAIL',),('FORCEINTL','ADDTID'),('MSG_WRITEBACK','IMPORTSEENBY'),('MSG_WRITEBACK','ALLOWKILLSENT')):
                for k in range(2,pick(3,4)+1):
                    for ops in itertools.product(['we','wn','wk','wq','do','toss','scan','both','san','list'],repeat=k):
                        if canon(ops) and (kind=='MSG' or opts[0][:4]!='MSG_'): yield (kind,hw,opts,ops)
def bulk(c):
    """many messages, some with gaps, and every number of messages exported by several scans"""
    kind,hw,n,gap,reverse=c[:5]; base=c[5] if len(c)>5 else 0
    if 1:
        h=Hist(kind,hw,())
        try:
            tag='%s%s: %d messages%s%s: '%(kind,', high-water marks' if hw else '',n,', every %dth deleted'%gap if gap else '',', first number %d'%base if base else '')
            if base:
                for a in AR:
                    if kind=='JAM': JamWriter(basenum=base).write(h.path(a))
                    else: h.top[a]=base-1
            for i in range(n): h.write('e',local=i%3!=2,sent=i%5==4)
            if gap:
                for i in range(0,n,gap):
                    m=h.area['e'][i]; m.deleted=True
                    if kind=='MSG': os.unlink(h.path('e')+'/%d.msg'%m.num)
                    else: jam_patch(h.path('e'),m.num,lambda x: x|JDELETED)
            env=h.w.env
            if reverse: h.w.env=lambda extra=None: env({'CM_DIRORDER':'desc'})
            h.step('scan',tag); h.write('e'); h.step('scan',tag+'second scan: '); h.step('scan',tag+'third scan: ')
        finally: h.w.close()
    return dict(evaluations=3,nontrivial=[c],states=3,transitions=3)
def addresses(c):
    """netmail written by other programs, with and without zones and points, with domains: the addresses it is sent with"""
    kind,zone,orig,dest,intl,force,dom=c; k=0
    aka={1:'1:1/1',2:'2:2/2'}[zone]
    cfg=Cfg([Aka('1:1/1'),Aka('2:2/2')],[Node('1:1/10')],[Area('BAD','1:1/1',('MSG','areas/bad')),Area('NET',aka,(kind,'areas/net'),kind='NETMAIL')],opts=['FORCEINTL'] if force else [],routes=['"*:*/*.*" "1:1/10" 1:1/1']).text(loglevel=1)
    o=A(orig); d=A(dest); tag='%s netmail from %s to %s in an area of %s%s%s%s: '%(kind,orig,dest,aka,', with INTL' if intl else ', without INTL',', FORCEINTL' if force else '',', domain %s'%dom if dom else '')
    with World(cfg) as w:
        os.mkdir(w.p('areas/bad'))
        if kind=='MSG':
            t=(b'\1INTL %s %s\r'%(S(d._replace(p=0) if 0 else A(dest.split('.')[0]),False).encode(),S(A(orig.split('.')[0]),False).encode()) if intl else b'')+(b'\1FMPT %d\r'%o.p if o.p else b'')+(b'\1TOPT %d\r'%d.p if d.p else b'')+mark(b'X')
            os.mkdir(w.p('areas/net')); w.write('areas/net/2.msg',mkmsg(text=t,attr=LOCAL,orig=tuple(o) if intl==2 else (0,o.n,o.f,0),dest=tuple(d) if intl==2 else (0,d.n,d.f,0)))
        else:
            W=JamWriter(basenum=4); W.add(text=mark(b'X'),attr=JL|JTYPELOCAL|JTYPENET,sub=[(0,(orig+dom).encode()),(1,(dest+dom).encode())]); W.write(w.p('areas/net'))
        r=w.cm('SCAN')
        if r.rc!=0: raise Violation(tag+'exit status %r: %r'%(r.rc,r.out[-300:]))
        items,prob=outbound(w,{'out':1,'out.002':2})
        if prob: raise Violation(tag+prob[0])
        ms=[(S(it.dest,False),m) for it in items for p in it.pkts for m in p.msgs]
        if len(ms)!=1 or ms[0][0]!='1:1/10': raise Violation(tag+'sent %r'%[x[0] for x in ms])
        m=ms[0][1]; kl=[l for l in m.body.split(b'\r') if l[:5] in (b'\1INTL',b'\1FMPT',b'\1TOPT')]
        if tuple(m.orig)[-2:]!=(o.n,o.f) or tuple(m.dest)[-2:]!=(d.n,d.f): raise Violation(tag+'header has %r to %r'%(m.orig,m.dest))
        want=([b'\1INTL %d:%d/%d %d:%d/%d'%(d.z,d.n,d.f,o.z,o.n,o.f)] if force or intl or o.z!=d.z else [])+([b'\1FMPT %d'%o.p] if o.p else [])+([b'\1TOPT %d'%d.p] if d.p else [])
        if sorted(kl)!=sorted(want): raise Violation(tag+'sent with %r, expected %r'%(kl,want))
    return dict(evaluations=1,nontrivial=[c],states=1,transitions=1)
def addrcases():
    for kind in ('MSG','JAM'):
        for z in (1,2):
            for o in ('%d:1/1','%d:1/1.5','%d:9/2'):
                for dz in (1,2,3):
                    for d in ('%d:7/8','%d:7/8.3','%d:1/1.9'):
                        d_=d%dz
                        if dz==1 and d=='%d:1/1.9': continue      # the own system
                        for force in (0,1):
                            if kind=='MSG':
                                for intl in ((0,1,2) if dz==z else (1,2)): yield (kind,z,o%z,d_,intl,force,'')
                            else:
                                for dom in ('','@fidonet','@fidonet.org'): yield (kind,z,o%z,d_,0,force,dom)
def main():
    ck=Check('C13','exploration','all histories of writing (new, sent, foreign, kill-sent), receiving, deleting and SCAN/SCANAREA/SCANLIST/SCANDOTJAM/TOSS SCAN runs up to the depth bound, *.MSG and JAM, with and without high-water marks and export options; every exported copy, sent mark and stored message compared with the model; non-trivial = distinct (options, history)',
        ['with high-water marks in *.MSG areas, new messages get numbers above the mark (as message editors do)'])
    world.init()
    ck.explore('history',history,list(cases()),chunk=16)
    ck.explore('bulk',bulk,[(k,hw,n,g,r) for k in ('MSG','JAM') for hw in (0,1) for n in (list(range(1,14))+[98,99,100,101,257] if not thorough() else list(range(1,40))+[98,99,100,101,257,1001]) for g in (0,2,3) for r in (0,1)],chunk=2)
    ck.explore('numbers',bulk,[(k,hw,n,g,0,b) for k in ('MSG','JAM') for hw in (0,1) for n in range(1,pick(7,14)) for g in (0,2,3) for b in (2,3,5,255,256,257,32767,32768,65530,65535,65536,70000,1000000)],chunk=2)
    ck.explore('addresses',addresses,list(addrcases()),chunk=8)
    ck.finish()
if __name__=='__main__': main()
