PROP='C17'
NEEDS='a FILTER on TEXT and a message with the text beyond the first 10000 bytes'
BREAKS='only the first 10000 bytes of a message are searched'
EDITS=[('src/crashmail/filter.c','''   for(chunk=(struct TextChunk *)mm->TextChunks.First;chunk;chunk=chunk->Next)
   {
      /* Search chunk */''','''   if((chunk=(struct TextChunk *)mm->TextChunks.First))
   {
      /* Search chunk */''')]
DEMO='''
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
FILTER TEXT|"needle"
KILL
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
"""
for n in (0,10,400):
    with W(CFG) as w:
        body=b'AREA:TEST\\r'+b'just some ordinary text in a line, nothing else\\r'*n+b'the needle is here\\rbye\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r'
        w.inbound(mkpkt(A('1:1/10'),A('1:1/1'),[Msg((1,10),(1,1),body=body),Msg((1,10),(1,1),subj=b'x',body=b'AREA:TEST\\rother\\rSEEN-BY: 1/10\\r\\1PATH: 1/10\\r')]))
        w.cm("TOSS")
        check(len(read_jam(w.p('areas/test')).msgs)==1,'%d lines: filter did not match'%n)
'''
