"""Independent reader of the configuration file, for comparing configurations before and after a rewrite."""
from fido import *
def words(line):
    out=[];i=0
    while True:
        while i<len(line) and line[i] in ' \t': i+=1
        if i>=len(line): return out
        q=line[i]=='"'; t=''
        if q: i+=1
        while i<len(line) and (line[i]!='"' if q else line[i] not in ' \t'):
            if line[i]=='\\' and i+1<len(line): i+=1
            t+=line[i]; i+=1
        i+=1; out.append(t)
NODEKW={'DEFAULTGROUP','REMOTESYSOP','REMOTEAF','AREAFIXINFO','PKTFROM'}
AREAKW={'IGNORESEENBY','IGNOREDUPES','DEFREADONLY','MANDATORY','UNCONFIRMED','KEEPNUM','KEEPDAYS','GROUP','DESCRIPTION','BANNED','EXPORT','IMPORT'}
def link(w):
    fl=''
    while w and w[0] in '!@%': fl+=w[0]; w=w[1:]
    return (A(w) if ':' in w else w,fl)
def expand(ws,base=None):
    """EXPORT lists may abbreviate addresses relative to the previous one"""
    out=[];last=Addr(0,0,0,0)
    for w in ws:
        fl=''
        while w and w[0] in '!@%': fl+=w[0]; w=w[1:]
        z,n,f,p=last.z,last.n,last.f,0
        if ':' in w: a,w=w.split(':'); z=int(a)
        if '/' in w: a,w=w.split('/'); n=int(a)
        if w.startswith('.'): p=int(w[1:]); f=last.f
        else:
            if '.' in w: w,q=w.split('.'); p=int(q)
            f=int(w)
        last=Addr(z,n,f,p); out.append((last,fl))
    return out
class Conf:
    """nodes: {Addr: dict}, areas: {TAG upper: dict}, order lists, other: list of raw lines not belonging to node/area sections"""
def parse(text):
    c=Conf(); c.nodes={}; c.areas={}; c.nodeorder=[]; c.areaorder=[]; c.other=[]
    node=area=None
    for raw in text.split('\n'):
        l=raw.strip()
        if not l: continue
        if l[0]==';' or l[0]=='#': c.other.append(raw); continue
        w=words(l); k=w[0].upper()
        if k=='NODE':
            a=A(w[1]); node=dict(addr=a,packer=w[2] if len(w)>2 else '',pw=w[3] if len(w)>3 else '',flags=frozenset(x.upper() for x in w[4:]))
            if a in c.nodes: raise PktError('node %s twice in configuration'%S(a))
            c.nodes[a]=node; c.nodeorder.append(a)
        elif k in ('AREA','NETMAIL','LOCALAREA'):
            t=w[1].upper()
            area=dict(tag=w[1],kind=k,aka=A(w[2]),base=tuple(w[3:5]),links=[],imports=[],banned=[],flags=set())
            if t in c.areas: raise PktError('area %s twice in configuration'%t)
            c.areas[t]=area; c.areaorder.append(t)
        elif k in NODEKW and node is not None:
            if k=='AREAFIXINFO': node[k]=tuple((w[1:]+['']*4)[:4])
            elif k=='PKTFROM': node[k]=A(w[1])
            else: node[k]=tuple(w[1:])
        elif k in AREAKW and area is not None:
            if k=='EXPORT': area['links']+=expand(w[1:])
            elif k=='IMPORT': area['imports']+=[a for a,_ in expand(w[1:])]
            elif k=='BANNED': area['banned']+=[a for a,_ in expand(w[1:])]
            elif len(w)==1: area['flags'].add(k)
            else: area[k]=tuple(w[1:])
        else: c.other.append(raw)
    return c
