"""Reference model of configuration and of echomail tossing, written from the documentation."""
import re
from fido import *
class Node:
    def __init__(s,addr,flags=(),pw='',packer='',pktfrom=None,afinfo=None,defgroup=None,remoteaf=None,extra=()):
        s.addr=A(addr) if isinstance(addr,str) else addr; s.flags=set(flags); s.pw=pw; s.packer=packer; s.pktfrom=A(pktfrom) if pktfrom else None
        s.afinfo=afinfo; s.defgroup=defgroup; s.remoteaf=remoteaf; s.extra=list(extra)
    def text(s):
        t='NODE %s "%s" "%s"%s\n'%(S(s.addr,s.addr.p!=0),s.packer,s.pw,''.join(' '+f for f in sorted(s.flags)))
        if s.pktfrom: t+='PKTFROM %s\n'%S(s.pktfrom)
        if s.defgroup: t+='DEFAULTGROUP %s\n'%s.defgroup
        if s.afinfo: t+='AREAFIXINFO '+' '.join('"%s"'%x for x in s.afinfo)+'\n'
        if s.remoteaf: t+='REMOTEAF '+s.remoteaf+'\n'
        return t+''.join(e+'\n' for e in s.extra)
    def flavour(s):
        for f in ('CRASH','DIRECT','HOLD'):
            if f in s.flags: return f.lower()
        return 'normal'
class Aka:
    def __init__(s,addr,add=(),rem=(),domain=''): s.addr=A(addr); s.add=list(add); s.rem=list(rem); s.domain=domain
    def text(s):
        t='AKA %s\n'%S(s.addr,s.addr.p!=0)
        if s.domain: t+='DOMAIN "%s"\n'%s.domain
        if s.add: t+='ADDNODE '+' '.join(s.add)+'\n'
        if s.rem: t+='REMNODE '+' '.join(s.rem)+'\n'
        return t
class Area:
    """links: list of (node addr string, flag) flag in '' '!' '@' '%'"""
    def __init__(s,tag,aka,base=None,links=(),opts=(),kind='AREA',imports=(),banned=(),group=None,desc=None):
        s.tag=tag; s.aka=A(aka); s.base=base; s.links=[(A(a),f) for a,f in links]; s.opts=list(opts); s.kind=kind; s.imports=list(imports); s.banned=list(banned); s.group=group; s.desc=desc
    def text(s):
        t='%s "%s" %s'%(s.kind,s.tag,S(s.aka))
        if s.base: t+=' %s "%s"'%s.base
        t+='\n'
        for i in range(0,len(s.links),5): t+='EXPORT '+' '.join(f+S(a) for a,f in s.links[i:i+5])+'\n'
        if s.imports: t+='IMPORT '+' '.join(s.imports)+'\n'
        if s.banned: t+='BANNED '+' '.join(s.banned)+'\n'
        if s.desc: t+='DESCRIPTION "%s"\n'%s.desc
        if s.group: t+='GROUP %s\n'%s.group
        return t+''.join(o+'\n' for o in s.opts)
class Cfg:
    def __init__(s,akas,nodes,areas,opts=(),routes=(),dupes=('dupes',200,'IGNORE'),loop='IGNORE',packers=(),defzone=1,tail=''):
        s.akas,s.nodes,s.areas,s.opts,s.routes,s.dupes,s.loop,s.packers,s.defzone,s.tail=akas,nodes,areas,set(opts),routes,dupes,loop,packers,defzone,tail
    def text(s,loglevel=1):
        t='SYSOP "Sys Op"\nLOGFILE "cm.log"\nLOGLEVEL %d\nDUPEFILE "%s" %d\nDUPEMODE %s\nLOOPMODE %s\nDEFAULTZONE %d\n'%(loglevel,s.dupes[0],s.dupes[1],s.dupes[2],s.loop,s.defzone)
        t+='INBOUND "in"\nOUTBOUND "out"\nTEMPDIR "tmp"\nCREATEPKTDIR "cr"\nPACKETDIR "pkt"\nSTATSFILE "cm.stats"\n'
        for p in s.packers: t+='PACKER '+p+'\n'
        for o in sorted(s.opts): t+=o+'\n'
        t+='\n'+'\n'.join(a.text() for a in s.akas)+'\n'
        t+='\n'.join(n.text() for n in s.nodes)+'\n'
        for r in s.routes: t+='ROUTE '+r+'\n'
        t+='\n'+'\n'.join(a.text() for a in s.areas)+'\n'
        return t+s.tail
    def node(s,addr):
        for n in s.nodes:
            if n.addr==addr: return n
    def area(s,tag):
        for a in s.areas:
            if a.tag.lower()==tag.lower(): return a
    def aka(s,addr):
        for a in s.akas:
            if a.addr==addr: return a
    def zones(s):
        z={'out':s.akas[0].addr.z}
        allz={n.addr.z for n in s.nodes}|{a.addr.z for a in s.akas}
        for q in allz:
            if q!=s.akas[0].addr.z: z['out.%03x'%q]=q
        return z
def pat1(p,v):
    """one numeric field of a pattern: '*' ends as 'anything', '?' any digit"""
    s=str(v)
    for i,c in enumerate(p):
        if c=='*': return True
        if i>=len(s): return False
        if c!='?' and c!=s[i]: return False
    return len(p)==len(s)
def match2d(p,n,f):
    a,b=p.split('/') if '/' in p else ('*',p); return pat1(a,n) and pat1(b,f)
class ECopy:
    def __init__(s,**k): s.__dict__.update(k)
def seenby_out(cfg,area,seenby,orig):
    """the full SEEN-BY (set) after this system handled the message"""
    aka=cfg.aka(area.aka); sb=set(seenby) if orig.z==area.aka.z or orig.z==0 else set()
    for a,fl in area.links:
        n=cfg.node(a)
        if a.p==0 and a.z==area.aka.z and 'PASSIVE' not in n.flags and fl!='@': sb.add((a.n,a.f))
    sb={x for x in sb if not any(match2d(p,*x) for p in aka.rem)}
    for x in aka.add: sb.add(tuple(int(v) for v in x.split('/')))
    if area.aka.p==0: sb.add((area.aka.n,area.aka.f))
    sb.discard((0,0))
    return sb
def path_out(cfg,area,path):
    own=(area.aka.n,area.aka.f,area.aka.p); p=list(path)
    if area.aka.p==0 or 'PATH3D' in cfg.opts:
        if not p or p[-1]!=own: p.append(own)
    return p
def toss_echo(cfg,orig,area,seenby,path,rescanned=False,exported=False):
    """-> (verdict, recipients, full seenby, path). verdict 'ok' | 'bad:<reason>'"""
    if not exported:
        l=[fl for a,fl in area.links if a==orig]
        if not l: return ('bad:Node does not receive this area',[],None,None)
        if l[0]=='!': return ('bad:Node is not allowed to write in this area',[],None,None)
    insb=set(seenby) if orig.z==area.aka.z else set()
    rec=[]
    if not rescanned:
        for a,fl in area.links:
            n=cfg.node(a)
            if a==orig or 'PASSIVE' in n.flags or fl=='@': continue
            if 'CHECKSEENBY' in cfg.opts and 'IGNORESEENBY' not in area.opts and a.p==0 and a.z==area.aka.z and (a.n,a.f) in insb: continue
            rec.append(a)
    return ('ok',rec,seenby_out(cfg,area,seenby,orig),path_out(cfg,area,path))
def sb_for(cfg,area,dest,full):
    n=cfg.node(dest)
    if dest.z!=area.aka.z or 'TINYSEENBY' in n.flags:
        s=set()
        if dest.p==0: s.add((dest.n,dest.f))
        if area.aka.p==0: s.add((area.aka.n,area.aka.f))
        return sorted(s)
    if 'NOSEENBY' in n.flags: return []
    return sorted(full)
