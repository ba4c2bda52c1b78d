"""Reference model of netmail routing, flavours and node patterns, written from doc/ReadMe.txt and doc/example.prefs."""
from fido import *
from emodel import pat1
class Nodelist:
    """independent interpretation of a St. Louis nodelist (text)"""
    def __init__(s,text,defzone=0):
        s.d={}; z=defzone;r=n=h=0
        for l in text.splitlines():
            if not l or l[0]==';': continue
            kw,num=l.split(',')[:2]; kw=kw.lower()
            if not num.isdigit(): continue
            num=int(num)
            if kw=='zone': z=n=num; r=h=0; f=0
            elif kw=='region': r=n=num; h=0; f=0
            elif kw=='host': n=num; h=0; f=0
            elif kw=='hub': h=f=num
            elif kw in ('','pvt','hold'): f=num
            else: continue
            s.d.setdefault((z,n,f),(r,h))
    def has(s,a): return (a.z,a.n,a.f) in s.d
    def region(s,a): return s.d.get((a.z,a.n,a.f),(None,None))[0]
    def hub(s,a): return s.d.get((a.z,a.n,a.f),(None,None))[1]
def split4d(p):
    z,r=p.split(':'); n,r=r.split('/'); f,pt=(r.split('.')+['0'])[:2]; return z,n,f,pt
def match(p,a,nl):
    k=p.split(' ',1)
    if p=='*': return True
    if len(k)==1: return all(pat1(x,v) for x,v in zip(split4d(p),a))
    kw,v=k[0].upper(),k[1]
    if kw=='ZONE': return pat1(v,a.z)
    if kw=='NET': z,n=v.split(':'); return pat1(z,a.z) and pat1(n,a.n)
    if kw=='NODE': z,n,f,_=split4d(v); return pat1(z,a.z) and pat1(n,a.n) and pat1(f,a.f)
    if kw=='REGION':
        if nl is None or not nl.has(a): return False
        z,n=v.split(':'); return pat1(z,a.z) and pat1(n,nl.region(a))
    if kw=='HUB':
        if nl is None or not nl.has(a): return False
        z,n,f,_=split4d(v); return pat1(z,a.z) and pat1(n,a.n) and pat1(f,nl.hub(a))
    raise ValueError(p)
def expand(p,a,nl):
    k=p.upper()
    if k=='ZONE': return Addr(a.z,a.z,0,0)
    if k=='REGION': return Addr(a.z,(nl.region(a) if nl else 0) or a.n,0,0)
    if k=='NET': return Addr(a.z,a.n,0,0)
    if k=='HUB': return Addr(a.z,a.n,(nl.hub(a) if nl else 0) or 0,0)
    if k=='NODE': return a._replace(p=0)
    if k=='*': return a
    return Addr(*[v if '*' in x or '?' in x else int(x) for x,v in zip(split4d(p),a)])
def first_route(routes,a,nl):
    for r in routes:
        if match(r[0],a,nl): return r
def change(changes,a,typ,nl):
    new=typ
    for olds,p,n in changes:
        if match(p,a,nl) and (olds=='*' or typ in [o.lower() for o in olds.split(',')]): new=n.lower()
    return new
def netmail_hop(routes,changes,nodes,dest,typ,nl):
    """-> None (no route) or (hop Addr, type) ; typ 'normal','crash','hold','direct'; result type 'packed' for packed netmail"""
    r=first_route(routes,dest,nl)
    if r is None: return None
    hop=expand(r[1],dest,nl) if typ=='normal' else dest
    t=change(changes,hop,typ,nl)
    if t in ('direct','crash'): hop=hop._replace(p=0)
    n=nodes.get(hop)
    if n is not None and 'PACKNETMAIL' in n.flags and t=='normal': t='packed'
    return hop,t,r[2]
