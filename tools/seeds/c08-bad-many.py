PROP='C08'
NEEDS='a damaged packet while a hundred .bad files of the same name are kept in the inbound directory'
BREAKS='the damaged packet overwrites a kept .bad file instead of being kept beside it'
EDITS=[('src/crashmail/misc.c','   } while(osExists(destname));\n','   } while(num < 100 && osExists(destname));\n')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
"""
for n in (1,50,120):
    with W(CFG) as w:
        names=['00000001.pkt.bad'+(',%d'%i if i else '') for i in range(n)]
        for i,x in enumerate(names): w.write('in/'+x,'old %d'%i)
        w.inbound(b'damaged packet',name='00000001.pkt')
        check(w.cm('TOSS').returncode==0,'toss')
        for i,x in enumerate(names): check(w.read('in/'+x)==b'old %d'%i,'%s overwritten'%x)
        check(any(w.read('in/'+f)==b'damaged packet' for f in w.ls('in')),'packet lost')
'''
