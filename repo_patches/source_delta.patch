From 7d366a71fb5aa4c38b9ba80f8181b794ee3354d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:06 +0000
Subject: [PATCH 001/107] fix: JAM_Crc32 indexed its table with signed chars

Where char is signed every CRC whose low byte was >= 0x80, and every
8-bit character, read outside crc32tab, so the CRCs stored in JAM bases
(MSGID, REPLY and user name) were not the ones other JAM software expects.
---
 src/jamlib/crc32.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jamlib/crc32.c b/src/jamlib/crc32.c
index 42b37de..1896574 100644
--- a/src/jamlib/crc32.c
+++ b/src/jamlib/crc32.c
@@ -72,7 +72,7 @@ uint32_t JAM_Crc32(char *Buffer_PC, uint32_t Length_I)
    Crc_I=0xffffffff;
 
    for(c=0;c < Length_I; c++)
-      Crc_I=(Crc_I>>8) ^ crc32tab[(char)Crc_I ^ tolower(Buffer_PC[c])];
+      Crc_I=(Crc_I>>8) ^ crc32tab[(unsigned char)Crc_I ^ (unsigned char)tolower((unsigned char)Buffer_PC[c])];
 
    return(Crc_I);
 }
-- 
2.43.0


From 639139fe5ed53a62647e1bc2da23884c3cb0785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:24 +0000
Subject: [PATCH 002/107] fix: IGNORESEENBY areas used the seen-by result of an
 earlier message

The mark saying that a node is in SEEN-BY was only recomputed for areas
that check SEEN-BY, but it was tested for all areas, so a message in an
IGNORESEENBY area was not sent to nodes listed in the SEEN-BY of some
earlier message in another area.
---
 src/crashmail/handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 441d6ba..16157ce 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -617,12 +617,13 @@ bool HandleEchomail(struct MemMessage *mm)
 
    /* Check if a node already is in seen-by */
 
+   for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
+      temptnode->ConfigNode->IsInSeenBy=FALSE;
+
    if((config.cfg_Flags & CFG_CHECKSEENBY) && !(temparea->Flags & AREA_IGNORESEENBY))
    {
       for(temptnode=(struct TossNode *)temparea->TossNodes.First;temptnode;temptnode=temptnode->Next)
       {
-         temptnode->ConfigNode->IsInSeenBy=FALSE;
-
          if(temptnode->ConfigNode->Node.Zone == temparea->Aka->Node.Zone)
             if(temptnode->ConfigNode->Node.Point==0)
                if(FindNodes2D(&mm->SeenBy,&temptnode->ConfigNode->Node))
-- 
2.43.0


From b98f944ef2b6a4969d7d26679f4ba8c8d85d4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 003/107] fix: message text without a final CR ran into the
 SEEN-BY and Via lines

---
 src/crashmail/handle.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 16157ce..6e9a208 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -20,6 +20,23 @@ bool HandleMessage(struct MemMessage *mm)
    return(res);
 }
 
+/* Add CR if last line doesn't end with CR */
+
+bool AddFinalCR(struct MemMessage *mm)
+{
+   struct TextChunk *chunk;
+
+   chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+   if(chunk && chunk->Length!=0)
+   {
+      if(chunk->Data[chunk->Length-1] != 13 && chunk->Data[chunk->Length-1])
+         return mmAddBuf(&mm->TextChunks,"\x0d",1);
+   }
+
+   return(TRUE);
+}
+
 /**************************** auto-add *****************************/
 
 bool GetDescription(char *area,struct ConfigNode *node,char *desc)
@@ -526,6 +543,11 @@ bool HandleEchomail(struct MemMessage *mm)
 
    mm->Type=PKTS_ECHOMAIL;
 
+   /* Add CR if last line doesn't end with CR, seen-by lines will follow */
+
+   if(!AddFinalCR(mm))
+      return(FALSE);
+
    /* Find orignode */
 
    for(tempcnode=(struct ConfigNode *)config.CNodeList.First;tempcnode;tempcnode=tempcnode->Next)
@@ -1166,13 +1188,8 @@ bool HandleNetmail(struct MemMessage *mm)
 
    /* Add CR if last line doesn't end with CR */
 
-   chunk=(struct TextChunk *)mm->TextChunks.First;
-
-   if(chunk && chunk->Length!=0)
-   {
-      if(chunk->Data[chunk->Length-1] != 13 && chunk->Data[chunk->Length-1])
-         mmAddBuf(&mm->TextChunks,"\x0d",1);
-   }
+   if(!AddFinalCR(mm))
+      return(FALSE);
 
 	/* Filter */
 
@@ -1701,6 +1718,9 @@ bool HandleRescan(struct MemMessage *mm)
 
    rescan_total++;
 
+   if(!AddFinalCR(mm))
+      return(FALSE);
+
    /* Find area */
 
    for(temparea=(struct Area *)config.AreaList.First;temparea;temparea=temparea->Next)
-- 
2.43.0


From e1d818c6f59a7a00e1b65135d96d1587024c20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:00 +0000
Subject: [PATCH 004/107] fix: continuation of a long line was taken for a
 control line

---
 src/crashmail/pkt.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 3d9e0fa..a9a4ea2 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -73,6 +73,13 @@ uint32_t ReadCR(char *buf, uint32_t maxlen, osFile fh)
    return(c);
 }
 
+bool IsLineEnd(char *buf)
+{
+   size_t len=strlen(buf);
+
+   return (len != 0 && (buf[len-1]==13 || buf[len-1]==10));
+}
+
 bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(struct MemMessage *mm))
 {
    osFile fh;
@@ -86,7 +93,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    char *monthnames[]={"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec","???"};
    struct MemMessage *mm;
    struct TextChunk *chunk;
-   bool pkt_pw,pkt_4d,pkt_5d;
+   bool pkt_pw,pkt_4d,pkt_5d,linestart;
    int res;
 
    if(config.cfg_BeforeToss[0])
@@ -382,6 +389,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       messageend=FALSE;
 
       ReadCR(buf,200,fh);
+      linestart=IsLineEnd(buf);
 
       /* Echomail or netmail? */
 
@@ -434,12 +442,16 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 
          if(buf[0])
          {
-            if(!mmAddLine(mm,buf))
+            /* The rest of a line that didn't fit in the buffer is just text */
+
+            if(!(linestart ? mmAddLine(mm,buf) : mmAddBuf(&mm->TextChunks,buf,(uint32_t)strlen(buf))))
             {
                osClose(fh);
                mmFree(mm);
                return(FALSE);
             }
+
+            linestart=IsLineEnd(buf);
          }
       }
 
-- 
2.43.0


From f1581bb6dd59edfaaaa0de8b4f367e424ea01a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:23 +0000
Subject: [PATCH 005/107] fix: control lines cut off after the keyword took
 over text of the previous line

---
 src/crashmail/memmessage.c | 46 +++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 8e16f63..82cc024 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -359,6 +359,14 @@ bool AddSeenby(char *str,struct jbList *list)
    return(TRUE);
 }
 
+char *AfterKeyword(char *line,uint32_t len)
+{
+   /* What follows a keyword and the character after it, if the line is that long */
+
+   if(line[len] == 0) return(&line[len]);
+   return(&line[len+1]);
+}
+
 void ProcessKludge(struct MemMessage *mm,char *kludge)
 {
    struct Node4D node;
@@ -372,16 +380,20 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 
    if(strncmp(kludge,"\x01MSGID:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
-         mm->MSGID[d]=kludge[c];
+      char *id=AfterKeyword(kludge,7);
+
+      for(d=0;d<79 && id[d]!=13 && id[d]!=0;d++)
+         mm->MSGID[d]=id[d];
          
       mm->MSGID[d]=0;
    }
 
    if(strncmp(kludge,"\x01REPLY:",7)==0)
    {
-      for(d=0,c=8;d<79 && kludge[c]!=13 && kludge[c]!=0;c++,d++)
-         mm->REPLY[d]=kludge[c];
+      char *id=AfterKeyword(kludge,7);
+
+      for(d=0;d<79 && id[d]!=13 && id[d]!=0;d++)
+         mm->REPLY[d]=id[d];
          
       mm->REPLY[d]=0;
    }
@@ -389,21 +401,25 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
    if(mm->Area[0]==0)
    {
       if(strncmp(kludge,"\x01" "FMPT",5)==0)
-         mm->OrigNode.Point=atoi(&kludge[6]);
+         mm->OrigNode.Point=atoi(AfterKeyword(kludge,5));
 
       if(strncmp(kludge,"\x01TOPT",5)==0)
-          mm->DestNode.Point=atoi(&kludge[6]);
+          mm->DestNode.Point=atoi(AfterKeyword(kludge,5));
 
       if(strncmp(kludge,"\x01INTL",5)==0)
       {
+         char *addr;
+
          if(kludge[5]==':')
-            c=7;
+            addr=AfterKeyword(kludge,6);
 
          else
-            c=6;
+            addr=AfterKeyword(kludge,5);
+
+         c=0;
 
-         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0;c++,d++)
-            buf[d]=kludge[c];
+         for(d=0;d<59 && addr[c]!=32 && addr[c]!=0;c++,d++)
+            buf[d]=addr[c];
 
          buf[d]=0;
 
@@ -414,10 +430,10 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
             mm->DestNode.Node = node.Node;
          }
 
-         if(kludge[c]==32) c++;
+         if(addr[c]==32) c++;
 
-         for(d=0;d<59 && kludge[c]!=32 && kludge[c]!=0 && kludge[c]!=13;c++,d++)
-            buf[d]=kludge[c];
+         for(d=0;d<59 && addr[c]!=32 && addr[c]!=0 && addr[c]!=13;c++,d++)
+            buf[d]=addr[c];
 
          buf[d]=0;
 
@@ -435,10 +451,10 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
 bool mmAddLine(struct MemMessage *mm,char *buf)
 {
    if(mm->Area[0] && strncmp(buf,"SEEN-BY:",8)==0)
-      return AddSeenby(&buf[9],&mm->SeenBy);
+      return AddSeenby(AfterKeyword(buf,8),&mm->SeenBy);
 
    else if(mm->Area[0] && strncmp(buf,"\x01PATH:",6)==0)
-      return mmAddPath(&buf[7],&mm->Path);
+      return mmAddPath(AfterKeyword(buf,6),&mm->Path);
 
  	else if(mm->Area[0] && strncmp(buf," * Origin: ",11)==0)
 	{
-- 
2.43.0


From 9e1594d99df2d6bc9424dca9ce17e79d4bfcfb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:43 +0000
Subject: [PATCH 006/107] fix: Type-2.2 packet headers were read with the
 Type-2+ offsets

---
 src/crashmail/pkt.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index a9a4ea2..343d6a7 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -159,15 +159,15 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    {
       /* PktOrig och PktDest */
 
-      PktOrig.Zone  = getuword(PktHeader,PKTHEADER_ORIGZONE);
-      PktOrig.Net   = getuword(PktHeader,PKTHEADER_ORIGNET);
-      PktOrig.Node  = getuword(PktHeader,PKTHEADER_ORIGNODE);
-      PktOrig.Point = getuword(PktHeader,PKTHEADER_ORIGPOINT);
-
-      PktDest.Zone  = getuword(PktHeader,PKTHEADER_DESTZONE);
-      PktDest.Net   = getuword(PktHeader,PKTHEADER_DESTNET);
-      PktDest.Node  = getuword(PktHeader,PKTHEADER_DESTNODE);
-      PktDest.Point = getuword(PktHeader,PKTHEADER_DESTPOINT);
+      PktOrig.Zone  = getuword(PktHeader,PKTHEADER45_ORIGZONE);
+      PktOrig.Net   = getuword(PktHeader,PKTHEADER45_ORIGNET);
+      PktOrig.Node  = getuword(PktHeader,PKTHEADER45_ORIGNODE);
+      PktOrig.Point = getuword(PktHeader,PKTHEADER45_ORIGPOINT);
+
+      PktDest.Zone  = getuword(PktHeader,PKTHEADER45_DESTZONE);
+      PktDest.Net   = getuword(PktHeader,PKTHEADER45_DESTNET);
+      PktDest.Node  = getuword(PktHeader,PKTHEADER45_DESTNODE);
+      PktDest.Point = getuword(PktHeader,PKTHEADER45_DESTPOINT);
 
 
       pkt_5d=TRUE;
-- 
2.43.0


From 5173cbc34d5de2ff3c9d427821681e4ea905ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:44 +0000
Subject: [PATCH 007/107] fix: destination zone of netmail without INTL was the
 zone of the sender

---
 src/crashmail/pkt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 343d6a7..0e27229 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -344,7 +344,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       mm->DestNode.Node = getuword(PktMsgHeader,PKTMSGHEADER_DESTNODE);
 
       mm->DestNode.Zone=PktDest.Zone;
-      mm->DestNode.Zone=PktOrig.Zone;
+      mm->OrigNode.Zone=PktOrig.Zone;
 
       mm->Attr=getuword(PktMsgHeader,PKTMSGHEADER_ATTR);
       mm->Cost=getuword(PktMsgHeader,PKTMSGHEADER_COST);
-- 
2.43.0


From a3a6258d5dd43405f2b1c819741b625df1ad9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:00 +0000
Subject: [PATCH 008/107] fix: calcstringcrc indexed its table with signed
 chars

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index caf4630..ff3ec65 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -45,7 +45,7 @@ uint32_t calcstringcrc(char *str)
    crc=0xffffffff;
 
    for(c=0;str[c];c++)
-      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ str[c]];
+      crc=(crc>>8) ^ cm_crc32tab[(unsigned char)crc ^ (unsigned char)str[c]];
 
    return(crc);
 }
-- 
2.43.0


From 59469d299241fde47a14f5a9f9047facb24dee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:01 +0000
Subject: [PATCH 009/107] fix: dupe buffers of more than 65536 entries were not
 saved correctly

---
 src/crashmail/dupe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index ff3ec65..826b45b 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -76,7 +76,7 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint16_t c,osFile oldfh,osFile newfh)
+void copydupe(uint32_t c,osFile oldfh,osFile newfh)
 {
    char buf[300];
    uint16_t size;
-- 
2.43.0


From 3bec6c23b7624d8e17c17978ae47ee26093adace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:02 +0000
Subject: [PATCH 010/107] fix: duplicates were not found when the area name
 differed in case

---
 src/crashmail/dupe.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 826b45b..7b90317 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -288,8 +288,13 @@ bool CheckDupe(struct MemMessage *mm)
    strcpy(&dbuf[dsize],mm->MSGID);
    dsize += strlen(mm->MSGID) + 1;
 
-   strcpy(&dbuf[dsize],mm->Area);
-   dsize += strlen(mm->Area) + 1;
+   /* Area names are case-insensitive */
+
+   for(c=0;mm->Area[c];c++)
+      dbuf[dsize+c]=toupper((unsigned char)mm->Area[c]);
+
+   dbuf[dsize+c]=0;
+   dsize += c + 1;
 
    for(c=0;c<dupeentrymax;c++)
       if(dupebuf[c].crc32 == crc32)
-- 
2.43.0


From 20ef17dd02c862fae3d8d6500e39ee808eaaf416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:54 +0000
Subject: [PATCH 011/107] fix: long MSGIDs and control lines were truncated

---
 src/crashmail/mb_jam.c     | 12 ++++++------
 src/crashmail/memmessage.c |  4 ++--
 src/crashmail/memmessage.h |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2110ea0..214c0cf 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -302,7 +302,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    struct jam_Area *ja;
    s_JamSubPacket*	SubPacket_PS;
    s_JamMsgHeader	Header_S;
-   char buf[100],newflags[100],flag[10];
+   char buf[256],newflags[260],flag[10];
    uint32_t c,f,jbcpos,linebegin,linelen;
    char *msgtext;
    uint32_t msgsize,msgpos;
@@ -465,28 +465,28 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
          {
             if(linelen>=5 && strncmp(&msgtext[linebegin],"\x01""PID:",5)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+5],MIN(100,linelen-5));
+               mystrncpy(buf,&msgtext[linebegin+5],MIN(sizeof(buf),linelen-5));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_PID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""MSGID:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(sizeof(buf),linelen-7));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(sizeof(buf),linelen-7));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
             {
-               mystrncpy(buf,&msgtext[linebegin+7],MIN(100,linelen-7));
+               mystrncpy(buf,&msgtext[linebegin+7],MIN(sizeof(buf),linelen-7));
                stripleadtrail(buf);
 
                jbcpos=0;
@@ -531,7 +531,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
             }
             else if(msgtext[linebegin]==1)
             {
-               mystrncpy(buf,&msgtext[linebegin+1],MIN(100,linelen-1));
+               mystrncpy(buf,&msgtext[linebegin+1],MIN(sizeof(buf),linelen-1));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_FTSKLUDGE,buf);
 					msgpos=linebegin;
diff --git a/src/crashmail/memmessage.c b/src/crashmail/memmessage.c
index 82cc024..3210012 100644
--- a/src/crashmail/memmessage.c
+++ b/src/crashmail/memmessage.c
@@ -382,7 +382,7 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
    {
       char *id=AfterKeyword(kludge,7);
 
-      for(d=0;d<79 && id[d]!=13 && id[d]!=0;d++)
+      for(d=0;d<sizeof(mm->MSGID)-1 && id[d]!=13 && id[d]!=0;d++)
          mm->MSGID[d]=id[d];
          
       mm->MSGID[d]=0;
@@ -392,7 +392,7 @@ void ProcessKludge(struct MemMessage *mm,char *kludge)
    {
       char *id=AfterKeyword(kludge,7);
 
-      for(d=0;d<79 && id[d]!=13 && id[d]!=0;d++)
+      for(d=0;d<sizeof(mm->MSGID)-1 && id[d]!=13 && id[d]!=0;d++)
          mm->REPLY[d]=id[d];
          
       mm->REPLY[d]=0;
diff --git a/src/crashmail/memmessage.h b/src/crashmail/memmessage.h
index 118bb5c..093ea24 100644
--- a/src/crashmail/memmessage.h
+++ b/src/crashmail/memmessage.h
@@ -53,8 +53,8 @@ struct MemMessage
    char Subject[72];
    char DateTime[20];
 
-   char MSGID[80];
-   char REPLY[80];
+   char MSGID[200];
+   char REPLY[200];
 
    uint16_t Attr;
    uint16_t Cost;
-- 
2.43.0


From 9baba69e0d2e80040aa056b9e27778f7e55d8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:03 +0000
Subject: [PATCH 012/107] fix: receipts to undeliverable senders were bounced
 to the own system

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 6e9a208..cf66c2e 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1035,7 +1035,7 @@ bool AnswerReceipt(struct MemMessage *mm)
 
    MakeFidoDate(time(NULL),tmpmm->DateTime);
 
-   mm->Flags |= MMFLAG_AUTOGEN;
+   tmpmm->Flags |= MMFLAG_AUTOGEN;
 
    MakeNetmailKludges(tmpmm);
 
-- 
2.43.0


From 74f1b082b050b5b388bd8f76e79b363c5b05d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:58 +0000
Subject: [PATCH 013/107] fix: striptrail removed 8-bit characters and read
 before empty strings

---
 src/crashmail/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 5a1d0ce..e8affd6 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -256,7 +256,7 @@ void striptrail(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--) 
 		str[c]=0;
 }
 
-- 
2.43.0


From 7905a5ce20401ba8800a0d85f3f2c765e7a34777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:11 +0000
Subject: [PATCH 014/107] fix: AreaFix lines of 100 characters overflowed the
 line buffer

---
 src/crashmail/areafix.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3b55e3a..2dc6b8d 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -120,11 +120,10 @@ bool AreaFix(struct MemMessage *mm)
    {
       for(c=0;c<chunk->Length && !stop && !ctrlc;c++)
       {
-         for(d=0;d<100 && chunk->Data[c+d]!=13 && chunk->Data[c+d]!=10 && c+d<chunk->Length;d++)
-            buf[d]=chunk->Data[c+d];
+         for(d=0;c<chunk->Length && chunk->Data[c]!=13 && chunk->Data[c]!=10;c++)
+            if(d<99) buf[d++]=chunk->Data[c];
 
          buf[d]=0;
-         c+=d;
 
          if(strncmp(buf,"---",3)==0)
             stop=TRUE;
@@ -326,19 +325,19 @@ bool AreaFix(struct MemMessage *mm)
             if(areaname[0]=='-')
             {
                command=COMMAND_REMOVE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else if(areaname[0]=='=')
             {
                command=COMMAND_UPDATE;
-               strcpy(areaname,&areaname[1]);
+               memmove(areaname,&areaname[1],strlen(areaname));
             }
             else
             {
                command=COMMAND_ADD;
 
                if(areaname[0]=='+')
-                  strcpy(areaname,&areaname[1]);
+                  memmove(areaname,&areaname[1],strlen(areaname));
             }
 
             if(!osCheckPattern(areaname))
-- 
2.43.0


From c059edac10300c0ea9a1e0814a82aeeec40947d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:12 +0000
Subject: [PATCH 015/107] fix: write the new configuration completely before
 replacing the old one, and report write errors when closing files

---
 src/crashmail/config.c   | 23 +++++++++++++++++++----
 src/crashmail/misc.c     | 11 +++++++++++
 src/crashmail/misc.h     |  1 +
 src/oslib/osfile.h       |  2 +-
 src/oslib_linux/osfile.c | 17 ++++++++++++++---
 src/oslib_win32/osfile.c |  7 +++++--
 6 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 949e251..0be0ab1 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2362,11 +2362,26 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       }
 
    osClose(oldfh);
-   osClose(newfh);
 
-   osDelete(cfgbak);
-   osRename(cfg->filename,cfgbak);
-   osRename(cfgtemp,cfg->filename);
+   if(!osClose(newfh))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Failed to write config file %s (error: %s)",cfgtemp,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
+
+   /* There must be a complete configuration file at all times */
+
+   copyfile(cfg->filename,cfgbak);
+
+   if(!replacefile(cfgtemp,cfg->filename))
+   {
+		uint32_t err=osError();
+      sprintf(cfgerr,"Unable to rename %s to %s (error: %s)",cfgtemp,cfg->filename,osErrorMsg(err));
+      osDelete(cfgtemp);
+      return(FALSE);
+   }
 
    cfg->changed=FALSE;
 
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index e8affd6..8622261 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -413,6 +413,17 @@ bool movefile(char *file,char *newfile)
    return(TRUE);    
 }
 
+/* Renames file to newfile, replacing any old newfile */
+
+bool replacefile(char *file,char *newfile)
+{
+#ifdef PLATFORM_WIN32
+   osDelete(newfile); /* Cannot rename to a name that already exists */
+#endif
+
+   return osRename(file,newfile);
+}
+
 char ChangeType(struct Node4D *dest,char pri)
 {
    struct Change *change;
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 28fc611..9f68c4a 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -33,6 +33,7 @@ void MakeFidoDate(time_t tim,char *dest);
 bool AddTID(struct MemMessage *mm);
 
 bool movefile(char *file,char *newfile);
+bool replacefile(char *file,char *newfile);
 bool copyfile(char *file,char *newfile);
 
 char ChangeType(struct Node4D *dest,char pri);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 8b55d20..9658551 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -15,7 +15,7 @@ typedef void *osFile;
 #define OFFSET_END	 1 
 
 osFile osOpen(char *name,uint32_t mode);
-void osClose(osFile os);
+bool osClose(osFile os);
 int osGetChar(osFile os);
 uint32_t osRead(osFile os,void *buf,uint32_t bytes);
 uint32_t osFGets(osFile os,char *str,uint32_t max);
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 8982646..86a8f8c 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -2,6 +2,7 @@
 #include <stdint.h>
 #include <string.h>
 #include <stdarg.h>
+#include <errno.h>
 #include <stdio.h>
 
 #include <shared/types.h>
@@ -22,16 +23,26 @@ osFile osOpen(char *name,uint32_t mode)
 	}
 	else
 	{
-   	if(!(fh=fopen(name,"r+b")))
+   	if(!(fh=fopen(name,"r+b")) && errno == ENOENT)
 	      fh=fopen(name,"w+b");
 	}
 	
    return (osFile) fh;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
-    fclose((FILE *)os);
+   bool res;
+
+   res=TRUE;
+
+   if(ferror((FILE *)os))
+      res=FALSE;
+
+   if(fclose((FILE *)os)!=0)
+      res=FALSE;
+
+   return(res);
 }
 
 int osGetChar(osFile os)
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index 528865b..e995d34 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -142,16 +142,19 @@ osFile osOpen(char *name,ulong mode)
    return (osFile)os;
 }
 
-void osClose(osFile os)
+bool osClose(osFile os)
 {
    struct osfile *osf=(struct osfile *)os;
+   bool res=TRUE;
 
    if(osf->lastaccessmode == LASTACCESS_WRITE)
-      win32writebuffer(osf);
+      if(!win32writebuffer(osf)) res=FALSE;
 
    CloseHandle(osf->h);
    osFree(osf->buf);
    osFree(osf);
+
+   return(res);
 }
 
 ulong osRead(osFile os,void *buf,ulong bytes)
-- 
2.43.0


From cd65c1b4090e57ccc6d257756f808ec17fd89064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:12 +0000
Subject: [PATCH 016/107] fix: add messages to the dupe history only when the
 run that tossed them succeeds

---
 src/crashmail/dupe.c | 152 +++++++++++++++++++++++++------------------
 src/crashmail/dupe.h |   1 +
 2 files changed, 90 insertions(+), 63 deletions(-)

diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index 7b90317..f39ff39 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -52,20 +52,27 @@ uint32_t calcstringcrc(char *str)
 
 struct dupeentry
 {
-   uint32_t offset;
+   uint32_t offset; /* Position in dupe file */
    uint32_t crc32;
+   char *data;      /* Entry added in this run, not in dupe file yet */
+   uint16_t size;
 };
 
-bool dupechanged;
+bool dupechanged,dupediscard;
 
 struct dupeentry *dupebuf;
 uint32_t dupeentrynum,dupeentrymax;
 osFile dupefh;
 
-void adddupeindex(uint32_t offset,uint32_t crc32)
+void adddupeindex(uint32_t offset,uint32_t crc32,char *data,uint16_t size)
 {
+   if(dupebuf[dupeentrynum].data)
+      osFree(dupebuf[dupeentrynum].data);
+
    dupebuf[dupeentrynum].offset=offset;
    dupebuf[dupeentrynum].crc32=crc32;
+   dupebuf[dupeentrynum].data=data;
+   dupebuf[dupeentrynum].size=size;
 
    dupeentrynum++;
 
@@ -76,34 +83,51 @@ void adddupeindex(uint32_t offset,uint32_t crc32)
       dupeentrynum=0;
 }
 
-void copydupe(uint32_t c,osFile oldfh,osFile newfh)
+/* Reads an entry, returns size or 0 on failure */
+
+uint16_t readdupe(uint32_t c,char *buf)
 {
-   char buf[300];
    uint16_t size;
 
-   osSeek(oldfh,dupebuf[c].offset,OFFSET_BEGINNING);
+   if(dupebuf[c].data)
+   {
+      memcpy(buf,dupebuf[c].data,dupebuf[c].size);
+      return(dupebuf[c].size);
+   }
 
-   if(osRead(oldfh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
-      return;
+   osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
 
-   if(osRead(oldfh,buf,size) != size)
-      return;
+   if(osRead(dupefh,&size,sizeof(uint16_t))!=sizeof(uint16_t))
+      return(0);
+
+   if(size > 300 || osRead(dupefh,buf,size) != size)
+      return(0);
+
+   return(size);
+}
+
+bool copydupe(uint32_t c,osFile newfh)
+{
+   char buf[300];
+   uint16_t size;
+
+   if(!(size=readdupe(c,buf)))
+      return(FALSE);
 
    if(!osWrite(newfh,&size,sizeof(uint16_t)))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+      return(FALSE);
 
-   if(!osWrite(newfh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to temporary dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+   return osWrite(newfh,buf,size);
+}
+
+void freedupes(void)
+{
+   uint32_t c;
+
+   for(c=0;c<dupeentrymax;c++)
+      if(dupebuf[c].data) osFree(dupebuf[c].data);
+
+   osFree(dupebuf);
 }
 
 bool OpenDupeDB(void)
@@ -112,7 +136,7 @@ bool OpenDupeDB(void)
    uint32_t offset,crc32,*crc32p;
    uint16_t size,res;
 
-   if(!(dupebuf=osAlloc(config.cfg_DupeSize*sizeof(struct dupeentry))))
+   if(!(dupebuf=osAllocCleared(config.cfg_DupeSize*sizeof(struct dupeentry))))
    {
       LogWrite(1,SYSTEMERR,"Not enough memory for dupe-check buffer\n");
       return(FALSE);
@@ -122,6 +146,7 @@ bool OpenDupeDB(void)
    dupeentrymax=0;
 
    dupechanged=FALSE;
+   dupediscard=FALSE;
 
    if(!(dupefh=osOpen(config.cfg_DupeFile,MODE_READWRITE)))
    {
@@ -171,7 +196,7 @@ bool OpenDupeDB(void)
       crc32p=(uint32_t *)buf;
       crc32=*crc32p;
 
-      adddupeindex(offset,crc32);
+      adddupeindex(offset,crc32,NULL,0);
 
       offset += size+2;
    }
@@ -186,10 +211,12 @@ void CloseDupeDB(void)
    osFile newfh;
    uint32_t c;
    char duptemp[200];
+   bool res;
 
-   if(!dupechanged)
+   if(!dupechanged || dupediscard)
    {
       osClose(dupefh);
+      freedupes();
       return;
    }
 
@@ -202,60 +229,61 @@ void CloseDupeDB(void)
       LogWrite(1,SYSTEMERR,"Failed to open temporary dupe file %s for writing",duptemp);
       LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
 
-      osFree(dupebuf);
       osClose(dupefh);
+      freedupes();
 
       return;
    }
 
-   osWrite(newfh,DUPES_IDENTIFIER,4);
+   res=osWrite(newfh,DUPES_IDENTIFIER,4);
 
-   for(c=dupeentrynum;c<dupeentrymax;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=dupeentrynum;c<dupeentrymax && res;c++)
+      res=copydupe(c,newfh);
 
-   for(c=0;c<dupeentrynum;c++)
-      copydupe(c,dupefh,newfh);
+   for(c=0;c<dupeentrynum && res;c++)
+      res=copydupe(c,newfh);
 
    osClose(dupefh);
-   osClose(newfh);
-   osFree(dupebuf);
+
+   if(!osClose(newfh))
+      res=FALSE;
+
+   if(!res || !replacefile(duptemp,config.cfg_DupeFile))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write dupe file %s",config.cfg_DupeFile);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(duptemp);
+   }
+
+   freedupes();
 
    dupechanged=FALSE;
+}
 
-   osDelete(config.cfg_DupeFile);
-   osRename(duptemp,config.cfg_DupeFile);
+/* Messages that will be tossed again must not be regarded as duplicates */
 
-   return;
+void DiscardDupes(void)
+{
+   dupediscard=TRUE;
 }
 
 void AddDupeBuf(char *buf,uint16_t size)
 {
-   uint32_t offset;
-   uint32_t crc32,*crc32p;
+   uint32_t *crc32p;
+   char *data;
 
-   osSeek(dupefh,0,OFFSET_END);
-   offset=osFTell(dupefh);
-
-   crc32p=(uint32_t *)buf;
-   crc32=*crc32p;
-
-   if(!osWrite(dupefh,&size,sizeof(uint16_t)))
+   if(!(data=osAlloc(size)))
    {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      nomem=TRUE;
       return;
    }
 
-   if(!osWrite(dupefh,buf,size))
-   {
-		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to write to dupe file");
-      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
-   }
+   memcpy(data,buf,size);
+
+   crc32p=(uint32_t *)buf;
 
-   adddupeindex(offset,crc32);
+   adddupeindex(0,*crc32p,data,size);
 
    dupechanged=TRUE;
 }
@@ -301,13 +329,11 @@ bool CheckDupe(struct MemMessage *mm)
       {
          /* CRC matches, check rest */
 
-         osSeek(dupefh,dupebuf[c].offset,OFFSET_BEGINNING);
+         size=readdupe(c,buf);
 
-         if(osRead(dupefh,&size,sizeof(uint16_t))==sizeof(uint16_t))
-            if(size == dsize)
-               if(osRead(dupefh,buf,(uint32_t)size) == size)
-                  if(dupecomp(buf,dbuf,dsize) == 0)
-                     return(TRUE); /* Dupe */
+         if(size == dsize)
+            if(dupecomp(buf,dbuf,dsize) == 0)
+               return(TRUE); /* Dupe */
       }
 
 
diff --git a/src/crashmail/dupe.h b/src/crashmail/dupe.h
index accab05..3f3be8b 100644
--- a/src/crashmail/dupe.h
+++ b/src/crashmail/dupe.h
@@ -2,6 +2,7 @@
 
 bool OpenDupeDB(void);
 void CloseDupeDB(void);
+void DiscardDupes(void);
 
 bool CheckDupe(struct MemMessage *mm);
 
-- 
2.43.0


From d85556adc561a69907199053fd389dce7d826523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:12 +0000
Subject: [PATCH 017/107] fix: delete processed messages only after everything
 they caused has been written

---
 src/crashmail/crashmail.c | 40 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index c0c884e..47deccf 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -152,11 +152,14 @@ void AfterScanToss(bool success)
 
    ClosePackets();
 
-   if(success)
-   {
-      ArchiveOutbound();
-      ProcessSafeDelete();
-   }
+   /* If the outgoing packets could not be written or put in the outbound,
+      the messages have to be processed again in the next run */
+
+   if(success && (ioerror || !ArchiveOutbound()))
+      success=FALSE;
+
+   if(!success)
+      DiscardDupes();
 
    for(i=0;AvailMessagebases[i].name;i++)
       if(AvailMessagebases[i].active && AvailMessagebases[i].afterfunc)
@@ -164,6 +167,19 @@ void AfterScanToss(bool success)
 
    if(success)
    {
+      /* Changes to the configuration must have been written before the
+         messages that caused them are deleted */
+
+      if(config.changed)
+      {
+         LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
+
+         if(!UpdateConfig(&config,errbuf))
+            LogWrite(1,SYSTEMERR,"%s",errbuf);
+      }
+
+      ProcessSafeDelete();
+
       /* Rotate last8 if needed */
 
       if(DayStatsWritten == 0) /* First time we use this statsfile */
@@ -208,14 +224,6 @@ void AfterScanToss(bool success)
       }
 
       WriteStats(config.cfg_StatsFile);
-
-      if(config.changed)
-      {
-         LogWrite(2,SYSTEMINFO,"Updating configuration file \"%s\"",config.filename);
-
-         if(!UpdateConfig(&config,errbuf))
-            LogWrite(1,SYSTEMERR,errbuf);
-      }
    }
 
    if(config.cfg_NodelistType)
@@ -519,12 +527,12 @@ void CleanUp(int err)
    if(done_welcomemsg)
       LogWrite(2,SYSTEMINFO,"CrashMail end");
 
-	if(done_lockconfig)
-		UnlockConfig(config.filename);
-
    if(done_init)
       Free();
 
+	if(done_lockconfig)
+		UnlockConfig(config.filename);
+
    if(done_initconfig)
       FreeConfig(&config);
 
-- 
2.43.0


From 248d782b07c50499689a35b4053cd04f3f06331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:31 +0000
Subject: [PATCH 018/107] fix: mark exported messages as sent only when the run
 that exported them succeeds

---
 src/crashmail/mb_jam.c |  99 +++++++++++++++++++++++++++++----------
 src/crashmail/mb_msg.c | 104 +++++++++++++++++++++++++++++++++++------
 2 files changed, 163 insertions(+), 40 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 214c0cf..73427b9 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -23,7 +23,19 @@ struct jam_Area
    bool newmsg;
 };
 
+/* Exported messages are marked as sent when the whole run has succeeded */
+
+struct jam_Sent
+{
+   struct jam_Sent *Next;
+   struct Area *area;
+   uint32_t num;
+   uint32_t attr;           /* Attributes to set */
+   uint32_t dateprocessed;
+};
+
 struct jbList jam_AreaList;
+struct jbList jam_SentList;
 struct openbase *jam_openbases;
 
 uint32_t jam_lastnum;
@@ -190,6 +202,7 @@ bool jam_beforefunc(void)
    struct tm *tp;
 
    jbNewList(&jam_AreaList);
+   jbNewList(&jam_SentList);
 
    if(config.cfg_jam_MaxOpen == 0)
       config.cfg_jam_MaxOpen = 5;
@@ -213,10 +226,49 @@ bool jam_beforefunc(void)
    return(TRUE);
 }
 
+bool jam_marksent(struct jam_Sent *js)
+{
+   struct jam_Area *ja;
+   s_JamMsgHeader Header_S;
+   bool res;
+
+   if(!(ja=jam_getarea(js->area)))
+      return(FALSE);
+
+   if(JAM_LockMB(ja->Base_PS,10))
+   {
+      LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",js->area->Path);
+      return(FALSE);
+   }
+
+   res=FALSE;
+
+   if(!JAM_ReadMsgHeader(ja->Base_PS,js->num-ja->BaseNum,&Header_S,NULL))
+   {
+      Header_S.Attribute |= js->attr;
+      Header_S.DateProcessed = js->dateprocessed;
+
+      if(!JAM_ChangeMsgHeader(ja->Base_PS,js->num-ja->BaseNum,&Header_S))
+         res=TRUE;
+   }
+
+   JAM_UnlockMB(ja->Base_PS);
+
+   return(res);
+}
+
 bool jam_afterfunc(bool success)
 {
    int c;
    struct jam_Area *ja;
+   struct jam_Sent *js;
+
+   if(success)
+      for(js=(struct jam_Sent *)jam_SentList.First;js;js=js->Next)
+         if(!jam_marksent(js))
+            LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",js->num,js->area->Path);
+
+   jbFreeList(&jam_SentList);
 
    if(success && (config.cfg_jam_Flags & CFG_JAM_HIGHWATER))
       for(ja=(struct jam_Area *)jam_AreaList.First;ja;ja=ja->Next)
@@ -644,6 +696,11 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    bool hasaddr;
    char flagsbuf[200],filesubject[200];
    uint16_t oldattr;
+   struct jam_Sent *js;
+
+   if(!isrescanning)
+      for(js=(struct jam_Sent *)jam_SentList.First;js;js=js->Next)
+         if(js->area == area && js->num == num) return(TRUE); /* Already exported in this run */
 
    /* Open the area */
 
@@ -985,7 +1042,19 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
-	   /* Update message header */
+	   /* Message header should be updated when everything is done */
+
+      if(!(js=osAllocCleared(sizeof(struct jam_Sent))))
+      {
+         nomem=TRUE;
+         mmFree(mm);
+         return(FALSE);
+      }
+
+      jbAddNode(&jam_SentList,(struct jbNode *)js);
+
+      js->area=area;
+      js->num=num;
 
 		if(config.cfg_Flags & CFG_ALLOWKILLSENT)
 		{
@@ -994,34 +1063,14 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 				/* Delete message with KILLSENT flag */
 
 				LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   	Header_S.Attribute |= MSG_DELETED;
+		   	js->attr |= MSG_DELETED;
 			}
 		}
 
-	   Header_S.Attribute |= MSG_SENT;
-
-      Header_S.DateProcessed = time(NULL);
-      Header_S.DateProcessed -= jam_utcoffset;
-
-      /* jam_openbases might have been changed in handlefunc */
-
-      if(!(ja=jam_getarea(area)))
-      {
-         mmFree(mm);
-         return(FALSE);
-      }
-
-      if(JAM_LockMB(ja->Base_PS,10))
-   	{
-      	LogWrite(1,SYSTEMERR,"Timeout when trying to lock JAM messagebase \"%s\"",area->Path);
-         mmFree(mm);
-         return(FALSE);
-	   }
-
-      if(JAM_ChangeMsgHeader(ja->Base_PS,num-ja->BaseNum,&Header_S))
-         LogWrite(1,TOSSINGERR,"Failed to update header of message #%u in JAM messagebase \"%s\"",num,area->Path);
+	   js->attr |= MSG_SENT;
 
-      JAM_UnlockMB(ja->Base_PS);
+      js->dateprocessed = time(NULL);
+      js->dateprocessed -= jam_utcoffset;
    }
 
    mmFree(mm);
diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index 25e99cf..a4a38a3 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -10,6 +10,17 @@ struct msg_Area
    uint32_t HighWater;
 };
 
+/* Exported messages are marked as sent when the whole run has succeeded */
+
+struct msg_Sent
+{
+   struct msg_Sent *Next;
+   char file[200];
+   bool del;                /* Message should be deleted */
+   char newfile[200];       /* Rewritten message to replace file with */
+   struct StoredMsg Msg;    /* New header if not rewritten */
+};
+
 bool msg_GetHighLowMsg(struct msg_Area *area);
 bool msg_WriteHighWater(struct msg_Area *area);
 bool msg_WriteMSG(struct MemMessage *mm,char *file);
@@ -17,6 +28,7 @@ uint32_t msg_ReadCR(char *buf, uint32_t maxlen, osFile fh);
 bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning);
 
 struct jbList msg_AreaList;
+struct jbList msg_SentList;
 
 bool msg_messageend;
 bool msg_shortread;
@@ -50,13 +62,56 @@ struct msg_Area *msg_getarea(struct Area *area)
 bool msg_beforefunc(void)
 {
    jbNewList(&msg_AreaList);
+   jbNewList(&msg_SentList);
 
    return(TRUE);
 }
 
+bool msg_marksent(struct msg_Sent *ms)
+{
+   osFile fh;
+   bool res;
+
+   if(ms->del)
+      return osDelete(ms->file);
+
+   if(ms->newfile[0])
+      return replacefile(ms->newfile,ms->file);
+
+   if(!(fh=osOpen(ms->file,MODE_READWRITE)))
+      return(FALSE);
+
+   res=osWrite(fh,&ms->Msg,sizeof(struct StoredMsg));
+
+   if(!osClose(fh))
+      res=FALSE;
+
+   return(res);
+}
+
 bool msg_afterfunc(bool success)
 {
    struct msg_Area *ma;
+   struct msg_Sent *ms;
+
+   for(ms=(struct msg_Sent *)msg_SentList.First;ms;ms=ms->Next)
+   {
+      if(success)
+      {
+         if(!msg_marksent(ms))
+         {
+            uint32_t err=osError();
+            LogWrite(1,SYSTEMERR,"Failed to mark message %s as sent",ms->file);
+            LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+         }
+      }
+      else if(ms->newfile[0])
+      {
+         osDelete(ms->newfile);
+      }
+   }
+
+   jbFreeList(&msg_SentList);
 
    if(success && (config.cfg_msg_Flags & CFG_MSG_HIGHWATER))
       for(ma=(struct msg_Area *)msg_AreaList.First;ma;ma=ma->Next)
@@ -174,19 +229,25 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    struct MemMessage *mm;
 	uint16_t oldattr;
    struct msg_Area *ma;
+   struct msg_Sent *ms;
 
    if(!(ma=msg_getarea(area)))
       return(FALSE);
 
-   if(!(mm=mmAlloc()))
-      return(FALSE);
-
    sprintf(buf2,"%u.msg",num);
    MakeFullPath(area->Path,buf2,buf,200);
 
+   if(!isrescanning)
+      for(ms=(struct msg_Sent *)msg_SentList.First;ms;ms=ms->Next)
+         if(strcmp(ms->file,buf)==0) return(TRUE); /* Already exported in this run */
+
+   if(!(mm=mmAlloc()))
+      return(FALSE);
+
    if(!(fh=osOpen(buf,MODE_OLDFILE)))
    {
       /* Message doesn't exist */
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -194,6 +255,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       LogWrite(1,TOSSINGERR,"Unexpected EOF while reading %s, message ignored",buf);
       osClose(fh);
+      mmFree(mm);
       return(TRUE);
    }
 
@@ -203,6 +265,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 		{
 			/* Don't touch if the message is sent or not local */
 			osClose(fh);
+			mmFree(mm);
    	   return(TRUE);
 		}
    }
@@ -303,34 +366,44 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    {
       scan_total++;
 
+      if(!(ms=osAllocCleared(sizeof(struct msg_Sent))))
+      {
+         nomem=TRUE;
+         mmFree(mm);
+         return(FALSE);
+      }
+
       sprintf(buf2,"%u.msg",num);
-      MakeFullPath(area->Path,buf2,buf,200);
+      MakeFullPath(area->Path,buf2,ms->file,200);
+
+      jbAddNode(&msg_SentList,(struct jbNode *)ms);
 
 		if((config.cfg_Flags & CFG_ALLOWKILLSENT) && (oldattr & FLAG_KILLSENT) && (area->AreaType == AREATYPE_NETMAIL))
 		{
 			/* Delete message with KILLSENT flag */
 
 			LogWrite(2,TOSSINGINFO,"Deleting message with KILLSENT flag");
-		   osDelete(buf);
+		   ms->del=TRUE;
 		}
 		else
 		{
          ma->HighWater=num;
 
          Msg.Attr|=FLAG_SENT;
+         ms->Msg=Msg;
 
    	   if(config.cfg_msg_Flags & CFG_MSG_WRITEBACK)
       	{
          	mm->Attr=Msg.Attr;
-	         msg_WriteMSG(mm,buf);
-   	   }
-      	else
-	      {
-   	      if((fh=osOpen(buf,MODE_READWRITE)))
-      	   {
-         	   osWrite(fh,&Msg,sizeof(struct StoredMsg));
-            	osClose(fh);
-	         }
+
+            sprintf(buf2,"%u.new",num);
+            MakeFullPath(area->Path,buf2,ms->newfile,200);
+
+	         if(!msg_WriteMSG(mm,ms->newfile))
+            {
+               mmFree(mm);
+               return(FALSE);
+            }
    	   }
 		}
    }
@@ -559,7 +632,8 @@ bool msg_WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
-- 
2.43.0


From 0ae1a3f80f02c9f97d9f9c5bcc2735874a7393fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:03 +0000
Subject: [PATCH 019/107] fix: never leave a window in which a queued packet,
 attached file or bad packet is lost

---
 src/crashmail/handle.c   |   6 +-
 src/crashmail/misc.c     |  24 ++---
 src/crashmail/outbound.c | 190 +++++++++++++++++++++++----------------
 src/crashmail/safedel.c  |  10 ++-
 4 files changed, 137 insertions(+), 93 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index cf66c2e..b81a1aa 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1625,9 +1625,8 @@ bool HandleNetmail(struct MemMessage *mm)
 					if(osExists(buf))
                {
 						MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf2,200);
-                  copyfile(buf,buf2);
 
-						if(nomem || ioerror)
+                  if(!copyfile(buf,buf2))
 							return(FALSE);
 
                   AddFlow(buf2,&Dest4D,mm->Type,FLOW_DELETE);
@@ -1642,8 +1641,9 @@ bool HandleNetmail(struct MemMessage *mm)
 					MakeFullPath(config.cfg_Inbound,GetFilePart(buf),buf2,200);
 					MakeFullPath(config.cfg_PacketDir,GetFilePart(buf),buf3,200);
 
-               if(movefile(buf2,buf3))
+               if(copyfile(buf2,buf3))
                {
+                  SafeDelete(buf2);
                   AddFlow(buf3,&Dest4D,mm->Type,FLOW_DELETE);
                }
                else
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 8622261..be321bc 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -303,11 +303,15 @@ void BadFile(char *filename,char *comment)
 
    } while(osExists(destname));
 
-   if(!movefile(filename,destname))
+   /* The original is not deleted until everything has succeeded */
+
+   if(!copyfile(filename,destname) && !movefile(filename,destname))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Failed to move %s to %s",filename,destname);
+      LogWrite(1,SYSTEMERR,"Failed to copy %s to %s",filename,destname);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+		ioerror=TRUE;
+		ioerrornum=err;
       return;
    }
 
@@ -361,6 +365,7 @@ bool copyfile(char *file,char *newfile)
    osFile ifh,ofh;
    uint32_t len;
    char *copybuf;
+   bool res;
 
    if(!(copybuf=(char *)malloc(COPYBUFSIZE)))
 	{
@@ -381,18 +386,17 @@ bool copyfile(char *file,char *newfile)
       return(FALSE);
    }
 
-   while((len=osRead(ifh,copybuf,COPYBUFSIZE)) && !ioerror)
-	{
-      if(!osWrite(ofh,copybuf,len))
-			{ ioerror=TRUE; ioerrornum=osError(); }
-	}
+   res=TRUE;
+
+   while(res && (len=osRead(ifh,copybuf,COPYBUFSIZE)))
+      res=osWrite(ofh,copybuf,len);
 
    free(copybuf);
 
-   osClose(ofh);
-   osClose(ifh);
+   if(!osClose(ofh)) res=FALSE;
+   if(!osClose(ifh)) res=FALSE;
 
-   if(ioerror)
+   if(!res)
    {
       osDelete(newfile);
       return(FALSE);
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 263aef5..e9ddbdd 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -447,7 +447,7 @@ void HandleOrphan(char *name)
 	UnlockBasename(basename);
 }
 
-void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
+bool MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 {
    char buf[200];
    osFile fh;
@@ -460,7 +460,7 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
 		uint32_t err=osError();
       LogWrite(1,SYSTEMERR,"Failed to open \"%s\", cannot make .orphan file",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
-      return;
+      return(FALSE);
    }
 
    sprintf(buf,"%s %d:%d/%d.%d",prinames[(int)type],n4d->Zone,n4d->Net,n4d->Node,n4d->Point);
@@ -470,7 +470,8 @@ void MakeOrphan(char *file,struct Node4D *n4d,char type,long mode)
    strcat(buf,"\n");
 
    osPuts(fh,buf);
-   osClose(fh);
+
+   return osClose(fh);
 }
 
 /* Only call if file is already locked */
@@ -479,6 +480,7 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 {
    char buf[200],letter,*prefix;
    osFile fh;
+   bool newline;
 
    switch(type)
    {
@@ -504,8 +506,12 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
       return(FALSE);
    }
 
+   newline=TRUE;
+
    while(osFGets(fh,buf,200))
    {
+      newline=(buf[0]!=0 && buf[strlen(buf)-1]=='\n');
+
       striptrail(buf);
 
       if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
@@ -522,6 +528,9 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 
    osSeek(fh,0,OFFSET_END);
 
+   if(!newline)
+      osPuts(fh,"\n"); /* The last line is not complete */
+
    prefix="";
 
    if(mode == FLOW_TRUNC)
@@ -533,7 +542,13 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
    if(config.cfg_Flags & CFG_FLOWCRLF) osFPrintf(fh,"%s%s\r\n",prefix,filename);
    else                         osFPrintf(fh,"%s%s\n",prefix,filename);
 
-   osClose(fh);
+   if(!osClose(fh))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write to flow file for \"%s\"",filename);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
+   }
 
    return(TRUE);
 }
@@ -600,15 +615,58 @@ void UpdateFile(char *name)
 
 #define COPYBUFSIZE 5000
 
+/* Appends the messages in the packet file to the packet newfile */
+
+bool appendpkt(char *file,char *newfile)
+{
+   osFile ifh,ofh;
+   uint32_t len;
+   char *copybuf;
+   bool res;
+
+   if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
+   {
+      nomem=TRUE;
+      return(FALSE);
+   }
+
+   if(!(ifh=osOpen(file,MODE_OLDFILE)))
+   {
+      osFree(copybuf);
+      return(FALSE);
+   }
+
+   if(!(ofh=osOpen(newfile,MODE_READWRITE)))
+   {
+      osFree(copybuf);
+      osClose(ifh);
+      return(FALSE);
+   }
+
+   osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
+   osSeek(ofh,-2,OFFSET_END);
+
+   res=TRUE;
+
+   while(res && (len=osRead(ifh,copybuf,COPYBUFSIZE)))
+      res=osWrite(ofh,copybuf,len);
+
+   osFree(copybuf);
+
+   if(!osClose(ofh)) res=FALSE;
+   if(!osClose(ifh)) res=FALSE;
+
+   return(res);
+}
+
 bool PackFile(char *file)
 {
-   char basename[200],arcname[200],pktname[200],buf[200],buf2[200],*copybuf;
-   uint32_t jbcpos,readlen;
+   char basename[200],arcname[200],pktname[200],tmpname[210],buf[200],buf2[200];
+   uint32_t jbcpos;
    int c,res;
    struct Node4D n4d;
    char type;
 	char letter;
-	osFile ifh,ofh;
 
    /* Parse filename */
 
@@ -694,7 +752,14 @@ bool PackFile(char *file)
 				cnode->Node.Point,
 				cnode->Packer->Name);
 
-         osRename(file,pktname);
+         /* The packet must not be lost if something fails */
+
+         if(!copyfile(file,pktname))
+         {
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
+				UnlockBasename(basename);
+				return(FALSE);
+         }
 
          if(config.cfg_BeforePack[0])
          {
@@ -703,7 +768,7 @@ bool PackFile(char *file)
 
             if(res != 0)
             {
-	            osRename(pktname,file);
+	            osDelete(pktname);
                LogWrite(1,SYSTEMERR,"BEFOREPACK command failed: %u",res);
 	   			UnlockBasename(basename);
    				return(FALSE);
@@ -713,18 +778,21 @@ bool PackFile(char *file)
          ExpandPacker(cnode->Packer->Packer,buf,200,arcname,pktname);
          res=osExecute(buf);
 
+         osDelete(pktname);
+
          if(res == 0)
          {
 				UpdateFile(arcname);
 
-            osDelete(pktname);
-
             if(!doAddFlow(arcname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE);
+               if(!MakeOrphan(arcname,&n4d,cnode->EchomailPri,FLOW_DELETE))
+               {
+                  UnlockBasename(basename);
+                  return(FALSE);
+               }
          }
          else
          {
-	         osRename(pktname,file);
             LogWrite(1,SYSTEMERR,"Packer failed: %u",res);
 				UnlockBasename(basename);
 				return(FALSE);
@@ -734,29 +802,35 @@ bool PackFile(char *file)
       {
          /* Send unpacked echomail */
 
+         type=(cnode ? cnode->EchomailPri : PKTS_NORMAL);
+
          MakeFullPath(config.cfg_PacketDir,GetFilePart(file),pktname,200);
          GetFilePart(pktname)[8]=0;
          strcat(pktname,".pkt");
 
 			LogWrite(4,TOSSINGINFO,"Sending %s unpacked to %d:%d/%d.%d",
 				GetFilePart(pktname),
-				cnode->Node.Zone,
-				cnode->Node.Net,
-				cnode->Node.Node,
-				cnode->Node.Point);
+				n4d.Zone,
+				n4d.Net,
+				n4d.Node,
+				n4d.Point);
 
-         if(!movefile(file,pktname))
+         if(!copyfile(file,pktname))
          {
-            LogWrite(1,SYSTEMERR,"Failed to move file \"%s\" to \"%s\"",file,pktname);
+            LogWrite(1,SYSTEMERR,"Failed to copy file \"%s\" to \"%s\"",file,pktname);
 				UnlockBasename(basename);
 				return(FALSE);
          }
-         else
-         {
-            if(!doAddFlow(pktname,basename,cnode->EchomailPri,FLOW_DELETE))
-               MakeOrphan(pktname,&n4d,cnode->EchomailPri,FLOW_DELETE);
-         }
+
+         if(!doAddFlow(pktname,basename,type,FLOW_DELETE))
+            if(!MakeOrphan(pktname,&n4d,type,FLOW_DELETE))
+            {
+               UnlockBasename(basename);
+               return(FALSE);
+            }
       }
+
+      osDelete(file);
    }
    else
    {
@@ -787,71 +861,31 @@ bool PackFile(char *file)
 			n4d.Point,
 			prinames[(int)type]);
 
-		if(!(copybuf=(char *)osAlloc(COPYBUFSIZE)))
-		{
-			nomem=TRUE;
-			UnlockBasename(basename);
-			return(FALSE);
-		}
-		
-		if(!(ifh=osOpen(file,MODE_OLDFILE)))
-		{
-			uint32_t err=osError();
-			LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-			osFree(copybuf);
-			UnlockBasename(basename);
-			return(FALSE);
-		}
-		
+		/* Build the complete packet before anything in the outbound is changed */
+
+		sprintf(tmpname,"%s.tmp",basename);
+
 		if(osExists(buf))
-		{
-			if(!(ofh=osOpen(buf,MODE_READWRITE)))
-			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
+			res=copyfile(buf,tmpname) && appendpkt(file,tmpname);
 
-			osSeek(ifh,SIZE_PKTHEADER,OFFSET_BEGINNING);
-			osSeek(ofh,-2,OFFSET_END);
-		}
 		else
-		{
-			if(!(ofh=osOpen(buf,MODE_NEWFILE)))
-			{
-				uint32_t err=osError();
-				LogWrite(1,SYSTEMERR,"Failed to open \"%s\"",file);
-				LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
-				osClose(ifh);
-				osFree(copybuf);
-				UnlockBasename(basename);
-				return(FALSE);
-			}
-		}
+			res=copyfile(file,tmpname);
 
-		while((readlen=osRead(ifh,copybuf,COPYBUFSIZE)))
+		if(!res || !replacefile(tmpname,buf))
 		{
-			if(!osWrite(ofh,copybuf,readlen))
-				{ ioerror=TRUE; ioerrornum=osError(); }
+			uint32_t err=osError();
+			LogWrite(1,SYSTEMERR,"Failed to add \"%s\" to \"%s\"",file,buf);
+			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			osDelete(tmpname);
+			UnlockBasename(basename);
+			return(FALSE);
 		}
-				
-		osClose(ifh);
-		osClose(ofh);
-		osFree(copybuf);
 
 		osDelete(file);
    }
 
 	UnlockBasename(basename);
-	
-	if(ioerror)
-		return(FALSE);
-	
+
 	return(TRUE);
 }
 
diff --git a/src/crashmail/safedel.c b/src/crashmail/safedel.c
index 24e720c..7e8cd2f 100644
--- a/src/crashmail/safedel.c
+++ b/src/crashmail/safedel.c
@@ -7,8 +7,14 @@ bool SafeDelete(char *file)
    if(!(fe=osAllocCleared(sizeof(struct osFileEntry))))
       return(FALSE);
 
-   mystrncpy(fe->Name,file,100);
-   jbAddNode(&DeleteList,(struct jbNode *)fe);
+   mystrncpy(fe->Name,file,sizeof(fe->Name));
+
+   /* Last one first, attached files should not be deleted before the
+      packet that the message was in */
+
+   fe->Next=(struct osFileEntry *)DeleteList.First;
+   DeleteList.First=(struct jbNode *)fe;
+   if(!DeleteList.Last) DeleteList.Last=(struct jbNode *)fe;
 
 	return(TRUE);
 }
-- 
2.43.0


From f8506107e8837f83d316dfa79c378b1383e135f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:03 +0000
Subject: [PATCH 020/107] fix: write the stats file completely before replacing
 the old one

---
 src/crashmail/stats.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/stats.c b/src/crashmail/stats.c
index 12fffcc..c234622 100644
--- a/src/crashmail/stats.c
+++ b/src/crashmail/stats.c
@@ -41,11 +41,15 @@ bool WriteStats(char *file)
    struct DiskNodeStats dnstat;
    osFile fh;
    uint32_t areas,nodes;
+   char tmpfile[200];
 
-   if(!(fh=osOpen(file,MODE_NEWFILE)))
+   mystrncpy(tmpfile,file,190);
+   strcat(tmpfile,".tmp");
+
+   if(!(fh=osOpen(tmpfile,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
-      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",file);
+      LogWrite(1,SYSTEMERR,"Unable to open %s for writing",tmpfile);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       return(FALSE);
    }
@@ -109,7 +113,14 @@ bool WriteStats(char *file)
       osWrite(fh,&dnstat,sizeof(struct DiskNodeStats));
    }
 
-   osClose(fh);
+   if(!osClose(fh) || !replacefile(tmpfile,file))
+   {
+		uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to write stats file %s",file);
+		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      osDelete(tmpfile);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
-- 
2.43.0


From fbbdcf1cb3694fa1aa4e86d9bf85fa8027d897a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:03 +0000
Subject: [PATCH 021/107] fix: only create a JAM base that does not exist,
 never overwrite one that cannot be opened

---
 src/crashmail/mb_jam.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 73427b9..f4d6215 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -43,6 +43,29 @@ long jam_utcoffset;
 
 int jam_linkmb(struct Area *area,uint32_t oldnum);
 
+/* A base without a complete header was never completely created */
+
+bool jam_baseexists(char *path)
+{
+   char buf[200];
+   struct osFileEntry *fe;
+   bool res;
+
+   mystrncpy(buf,path,190);
+   strcat(buf,".jhr");
+
+   if(!osExists(buf))
+      return(FALSE);
+
+   if(!(fe=osGetFileEntry(buf)))
+      return(TRUE);
+
+   res=(fe->Size >= 1024);
+   osFree(fe);
+
+   return(res);
+}
+
 s_JamBase *jam_openbase(struct jam_Area *area)
 {
    int c;
@@ -82,10 +105,17 @@ s_JamBase *jam_openbase(struct jam_Area *area)
 
    /* Open area */
 
-   if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+   if(jam_baseexists(area->area->Path))
+   {
+      if(JAM_OpenMB(area->area->Path,&thisbase->Base_PS))
+      {
+         if(thisbase->Base_PS) free(thisbase->Base_PS);
+         LogWrite(1,SYSTEMERR,"Failed to open JAM messagebase \"%s\"",area->area->Path);
+         return(NULL);
+      }
+   }
+   else
    {
-      if(thisbase->Base_PS) free(thisbase->Base_PS);
-
       LogWrite(2,SYSTEMINFO,"Creating JAM messagebase \"%s\"",area->area->Path);
 
       if(JAM_CreateMB(area->area->Path,1,&thisbase->Base_PS))
-- 
2.43.0


From a91aaa2177200976e5ce58f2f54675a9fca74064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:03 +0000
Subject: [PATCH 022/107] fix: do not reuse packet numbers, notice packets that
 cannot be opened or written

---
 src/crashmail/crashmail.c |  5 +++++
 src/crashmail/pkt.c       | 33 +++++++++++++++++++++++++++++++--
 src/crashmail/pkt.h       |  1 +
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 47deccf..249f261 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -530,6 +530,11 @@ void CleanUp(int err)
    if(done_init)
       Free();
 
+	/* The next run must not use the same packet numbers */
+
+	if(done_init)
+		WaitPktNumber();
+
 	if(done_lockconfig)
 		UnlockConfig(config.filename);
 
diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 0e27229..2ed9158 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -134,6 +134,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       LogWrite(1,SYSTEMERR,"Unable to open %s",pkt);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
       mmFree(mm);
+      BadFile(pkt,"Unable to open packet");
       return(TRUE);
    }
 
@@ -511,6 +512,13 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
       }
    }
 
+   if(ctrlc)
+   {
+      osClose(fh);
+      mmFree(mm);
+      return(FALSE);
+   }
+
    if(getuword(PktMsgHeader,PKTMSGHEADER_PKTTYPE)!=0)
    {
       osClose(fh);
@@ -573,6 +581,15 @@ struct Pkt *FindPkt(struct Node4D *node,struct Node4D *mynode,uint16_t type)
 time_t lastt;
 uint32_t serial;
 
+/* Packet numbers are based on the time. Waits until numbers used so far will not
+   be used again. */
+
+void WaitPktNumber(void)
+{
+   while(lastt != 0 && time(NULL) == lastt)
+      osSleep(1);
+}
+
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
    char buf[100],buf2[100];
@@ -585,9 +602,17 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
    do
    {
       t=time(NULL);
+
+      while(t == lastt && serial == 255)
+      {
+         /* There are only 256 numbers every second */
+
+         osSleep(1);
+         t=time(NULL);
+      }
+
       if(t == lastt) serial++;
       else serial=0;
-      if(serial == 256) serial=0;
       lastt=t; 
       num = (t<<8) + serial;
       sprintf(buf2,"%08x.newpkt",num);
@@ -671,7 +696,9 @@ void FinishPacket(struct Pkt *pkt)
 {
    pktWrite(pkt,(uint8_t *)"",1);
    pktWrite(pkt,(uint8_t *)"",1);
-   osClose(pkt->fh);
+
+   if(!osClose(pkt->fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(pkt->hexnum)
    {
@@ -711,6 +738,8 @@ void FinishPacket(struct Pkt *pkt)
 			uint32_t err=osError();
 			LogWrite(1,SYSTEMERR,"Failed to rename %s to %s",oldname,newname);
 			LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+			ioerror=TRUE;
+			ioerrornum=err;
 		}	
    }
    
diff --git a/src/crashmail/pkt.h b/src/crashmail/pkt.h
index 35d403b..5591de9 100644
--- a/src/crashmail/pkt.h
+++ b/src/crashmail/pkt.h
@@ -2,5 +2,6 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 bool WriteEchoMail(struct MemMessage *mm,struct ConfigNode *cnode, struct Aka *aka);
 bool WriteNetMail(struct MemMessage *mm,struct Node4D *dest,struct Aka *aka);
 void ClosePackets(void);
+void WaitPktNumber(void);
 
 
-- 
2.43.0


From d9df37c802232303a8d343ca5a2ad58036d68e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:03 +0000
Subject: [PATCH 023/107] fix: report failing writes to a JAM base, never index
 a message that is not there

---
 src/jamlib/message.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/jamlib/message.c b/src/jamlib/message.c
index 457f174..8d6b235 100644
--- a/src/jamlib/message.c
+++ b/src/jamlib/message.c
@@ -329,7 +329,8 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    	Header_PS->TxtLen    = TextLen_I;
 
 	/* write text */
-   	if ( 1 > fwrite( Text_PC, TextLen_I, 1, Base_PS->TxtFile_PS ) ) {
+   	if ( 1 > fwrite( Text_PC, TextLen_I, 1, Base_PS->TxtFile_PS ) ||
+	     fflush( Base_PS->TxtFile_PS ) ) {
 	 	 	 Base_PS->Errno_I = errno;
 	   return JAM_IO_ERROR;
     	}
@@ -370,6 +371,15 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
 	return JAM_IO_ERROR;
    }
 
+   /* overwrite incomplete index record left by a failed write */
+   if ( Offset_I % sizeof( s_JamIndex ) ) {
+	Offset_I -= Offset_I % sizeof( s_JamIndex );
+	if ( fseek( Base_PS->IdxFile_PS, Offset_I, SEEK_SET ) ) {
+	       Base_PS->Errno_I = errno;
+        return JAM_IO_ERROR;
+	}
+   }
+
    /* update header */
    Header_PS->MsgNum = Offset_I / sizeof( s_JamIndex ) +
 		                 BaseHeader_S.BaseMsgNum;
@@ -443,8 +453,15 @@ int JAM_AddMessage( s_JamBase* 		Base_PS,
    **  Add index
    */
 
+   /* the index record must not be written until the message is there */
+   if ( fflush( Base_PS->HdrFile_PS ) ) {
+		Base_PS->Errno_I = errno;
+		return JAM_IO_ERROR;
+   }
+
    /* write index record */
-   if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) ) {
+   if ( 1 > fwritejamindex(Base_PS->IdxFile_PS,&Index_S) ||
+	fflush( Base_PS->IdxFile_PS ) ) {
 		Base_PS->Errno_I = errno;
 		return JAM_IO_ERROR;
    }
-- 
2.43.0


From 44c2fa62070c269a4a59986a2453e99cc63732a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:03 +0000
Subject: [PATCH 024/107] fix: notice errors when reading directories

---
 src/oslib_linux/osdir.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/oslib_linux/osdir.c b/src/oslib_linux/osdir.c
index 2358e3b..4f11b82 100644
--- a/src/oslib_linux/osdir.c
+++ b/src/oslib_linux/osdir.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
@@ -28,7 +29,7 @@ bool osReadDir(char *dirname,struct jbList *filelist,bool (*acceptfunc)(char *fi
    if(!(dir=opendir(dirname)))
       return(FALSE);
 
-   while((dirent=readdir(dir)))
+   while(errno=0,(dirent=readdir(dir)))
    {
       bool add;
 
@@ -59,6 +60,15 @@ bool osReadDir(char *dirname,struct jbList *filelist,bool (*acceptfunc)(char *fi
       }
    }
 
+   if(errno != 0)
+   {
+      /* The list is not complete */
+
+      jbFreeList(filelist);
+      closedir(dir);
+      return(FALSE);
+   }
+
    closedir(dir);
 
    return(TRUE);
@@ -72,9 +82,15 @@ bool osScanDir(char *dirname,void (*func)(char *file))
    if(!(dir=opendir(dirname)))
       return(FALSE);
 
-   while((dirent=readdir(dir)))
+   while(errno=0,(dirent=readdir(dir)))
       (*func)(dirent->d_name);
 
+   if(errno != 0)
+   {
+      closedir(dir);
+      return(FALSE);
+   }
+
    closedir(dir);
 
    return(TRUE);
-- 
2.43.0


From 909472aa05aa0684c0dc2d7ade079545008fc935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:03 +0000
Subject: [PATCH 025/107] fix: notice read errors in the configuration, dupe
 file and *.msg messages

---
 src/crashmail/config.c | 10 +++++++---
 src/crashmail/dupe.c   |  5 ++++-
 src/crashmail/mb_msg.c | 19 ++++++++++++++++---
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 0be0ab1..0b988d5 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -1825,7 +1825,11 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
       }
    }
 
-   osClose(cfgfh);
+   if(!osClose(cfgfh))
+   {
+      sprintf(cfgerr,"Failed to read %s",filename);
+      return(FALSE);
+   }
 
    return(TRUE);
 }
@@ -2361,9 +2365,9 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
          area->changed=FALSE;
       }
 
-   osClose(oldfh);
+   copyres=osClose(oldfh);
 
-   if(!osClose(newfh))
+   if(!osClose(newfh) || !copyres)
    {
 		uint32_t err=osError();
       sprintf(cfgerr,"Failed to write config file %s (error: %s)",cfgtemp,osErrorMsg(err));
diff --git a/src/crashmail/dupe.c b/src/crashmail/dupe.c
index f39ff39..2b8788e 100644
--- a/src/crashmail/dupe.c
+++ b/src/crashmail/dupe.c
@@ -243,7 +243,10 @@ void CloseDupeDB(void)
    for(c=0;c<dupeentrynum && res;c++)
       res=copydupe(c,newfh);
 
-   osClose(dupefh);
+   /* The old file could not be read completely? */
+
+   if(!osClose(dupefh))
+      res=FALSE;
 
    if(!osClose(newfh))
       res=FALSE;
diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index a4a38a3..af8aff5 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -8,6 +8,7 @@ struct msg_Area
    uint32_t HighMsg;
    uint32_t OldHighWater;
    uint32_t HighWater;
+   bool Unread;
 };
 
 /* Exported messages are marked as sent when the whole run has succeeded */
@@ -247,6 +248,11 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(!(fh=osOpen(buf,MODE_OLDFILE)))
    {
       /* Message doesn't exist */
+      if(osExists(buf))
+      {
+         LogWrite(1,SYSTEMERR,"Unable to open %s",buf);
+         ma->Unread=TRUE;
+      }
       mmFree(mm);
       return(TRUE);
    }
@@ -254,7 +260,7 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(osRead(fh,&Msg,sizeof(struct StoredMsg))!=sizeof(struct StoredMsg))
    {
       LogWrite(1,TOSSINGERR,"Unexpected EOF while reading %s, message ignored",buf);
-      osClose(fh);
+      if(!osClose(fh)) ma->Unread=TRUE;
       mmFree(mm);
       return(TRUE);
    }
@@ -349,7 +355,13 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    } while(!msg_messageend && !msg_shortread);
 
-   osClose(fh);
+   if(!osClose(fh))
+   {
+      LogWrite(1,SYSTEMERR,"Failed to read message #%u in %s",num,area->Path);
+      ma->Unread=TRUE;
+      mmFree(mm);
+      return(TRUE);
+   }
 
    mm->msgnum=num;
 
@@ -387,7 +399,8 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 		}
 		else
 		{
-         ma->HighWater=num;
+         if(!ma->Unread) /* Do not skip messages that could not be read */
+            ma->HighWater=num;
 
          Msg.Attr|=FLAG_SENT;
          ms->Msg=Msg;
-- 
2.43.0


From 5e40156631217a93694ddccf9b21d2212b57a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:40 +0000
Subject: [PATCH 026/107] fix: create lock and busy files atomically

---
 src/crashmail/crashmail.c | 23 ++++++++++++++++-------
 src/crashmail/outbound.c  | 11 +++++++----
 src/oslib/osfile.h        |  1 +
 src/oslib_linux/osfile.c  |  4 ++++
 src/oslib_win32/osfile.c  |  6 ++++++
 5 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/crashmail/crashmail.c b/src/crashmail/crashmail.c
index 249f261..09e54b5 100644
--- a/src/crashmail/crashmail.c
+++ b/src/crashmail/crashmail.c
@@ -487,26 +487,35 @@ bool LockConfig(char *file)
 {
 	char buf[200];
 	osFile fp;
+	int failed;
 	
 	strcpy(buf,file);
 	strcat(buf,".busy");
 
-	while(osExists(buf))
+	failed=0;
+
+	/* The file must not be created by someone else in between */
+
+	while(!(fp=osOpen(buf,MODE_EXCLUSIVE)))
 	{
+		if(!osExists(buf))
+		{
+			if(failed++ < 10)
+				continue; /* Might have been deleted now */
+
+			printf("Failed to create lock file %s\n",buf);
+			return(FALSE);
+		}
+
 		printf("Configuration file %s is already in use, waiting 10 seconds...\n",file);
 
 		osSleep(10);
+		failed=0;
 
 		if(ctrlc)
 			return(FALSE);
 	}
 	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
-	{
-		printf("Failed to create lock file %s\n",buf);
-		return(FALSE);
-	}
-	
 	osClose(fp);
 
 	return(TRUE);
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index e9ddbdd..528ec15 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -12,12 +12,15 @@ bool LockBasename(char *basename)
 	strcpy(buf,basename);
 	strcat(buf,".bsy");
 
-	if(osExists(buf))
-		return(FALSE);
-	
-	if(!(fp=osOpen(buf,MODE_NEWFILE)))
+	/* The file must not be created by someone else in between */
+
+	if(!(fp=osOpen(buf,MODE_EXCLUSIVE)))
 	{
 		uint32_t err=osError();
+
+		if(osExists(buf))
+			return(FALSE);
+
 		LogWrite(1,SYSTEMERR,"Failed to create busy file %s\n",buf);
 		LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));		
 		return(FALSE);
diff --git a/src/oslib/osfile.h b/src/oslib/osfile.h
index 9658551..148d2e8 100644
--- a/src/oslib/osfile.h
+++ b/src/oslib/osfile.h
@@ -10,6 +10,7 @@ typedef void *osFile;
 #define MODE_OLDFILE    1005  /* Corresponds to "rb" with fopen */
 #define MODE_NEWFILE    1006  /* Corresponds to "wb" with fopen */
 #define MODE_READWRITE  1004  /* Corresponds to "w+b" with fopen */
+#define MODE_EXCLUSIVE  1007  /* Like MODE_NEWFILE but fails if the file exists */
 
 #define OFFSET_BEGINNING -1
 #define OFFSET_END	 1 
diff --git a/src/oslib_linux/osfile.c b/src/oslib_linux/osfile.c
index 86a8f8c..0a56034 100644
--- a/src/oslib_linux/osfile.c
+++ b/src/oslib_linux/osfile.c
@@ -17,6 +17,10 @@ osFile osOpen(char *name,uint32_t mode)
 	{
 		fh=fopen(name,"wb");
 	}
+   else if(mode == MODE_EXCLUSIVE) 
+	{
+		fh=fopen(name,"wbx");
+	}
    else if(mode == MODE_OLDFILE) 
 	{
 		fh=fopen(name,"rb");
diff --git a/src/oslib_win32/osfile.c b/src/oslib_win32/osfile.c
index e995d34..928da0e 100644
--- a/src/oslib_win32/osfile.c
+++ b/src/oslib_win32/osfile.c
@@ -114,6 +114,12 @@ osFile osOpen(char *name,ulong mode)
       sharemode=0;
       creationdisposition=CREATE_ALWAYS;
 	}
+   else if(mode == MODE_EXCLUSIVE) 
+	{
+      desiredaccess=GENERIC_WRITE;
+      sharemode=0;
+      creationdisposition=CREATE_NEW;
+	}
    else if(mode == MODE_OLDFILE) 
 	{
       desiredaccess=GENERIC_READ;
-- 
2.43.0


From b7767e2b01366e6d3611a3039b86e6d80e4b15fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:39 +0000
Subject: [PATCH 027/107] fix: do not append netmail to an empty packet file

---
 src/crashmail/outbound.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 528ec15..405a696 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -668,6 +668,7 @@ bool PackFile(char *file)
    uint32_t jbcpos;
    int c,res;
    struct Node4D n4d;
+   struct osFileEntry *oldfe;
    char type;
 	char letter;
 
@@ -868,12 +869,16 @@ bool PackFile(char *file)
 
 		sprintf(tmpname,"%s.tmp",basename);
 
-		if(osExists(buf))
+		oldfe=osGetFileEntry(buf);
+
+		if(oldfe && oldfe->Size >= SIZE_PKTHEADER+2) /* Might be empty */
 			res=copyfile(buf,tmpname) && appendpkt(file,tmpname);
 
 		else
 			res=copyfile(file,tmpname);
 
+		if(oldfe) osFree(oldfe);
+
 		if(!res || !replacefile(tmpname,buf))
 		{
 			uint32_t err=osError();
-- 
2.43.0


From fd9ba80c89d2d513125db9ea23b65a03bef82ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:05 +0000
Subject: [PATCH 028/107] fix: list a file again if its line in the flow file
 is marked as sent

---
 src/crashmail/outbound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 405a696..9ef08c2 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -517,8 +517,9 @@ bool doAddFlow(char *filename,char *basename,char type,long mode)
 
       striptrail(buf);
 
+      if(buf[0]=='~') continue; /* Already sent */
+
       if(buf[0]=='#') memmove(buf, buf + 1, strlen (buf));
-      if(buf[0]=='~') memmove(buf, buf + 1, strlen (buf));
       if(buf[0]=='^') memmove(buf, buf + 1, strlen (buf));
       if(buf[0]=='-') memmove(buf, buf + 1, strlen (buf));
 
-- 
2.43.0


From 3dbecd115cc080dab3543da6c1c74df6d8150967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:06 +0000
Subject: [PATCH 029/107] fix: rescan the requested number of messages, also
 those imported in the same run

---
 src/crashmail/mb_jam.c | 29 +++++++++++++++++++++++++----
 src/crashmail/mb_msg.c | 20 ++++++++++++++++++--
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index f4d6215..10a5815 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1151,20 +1151,41 @@ bool jam_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm))
 
 bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm))
 {
-   uint32_t start;
+   uint32_t start,num;
    struct jam_Area *ja;
+   s_JamMsgHeader Header_S;
 
    /* Open the area */
 
    if(!(ja=jam_getarea(area)))
       return(FALSE);
 
+   /* Messages may have been imported in this run */
+
+   if(JAM_GetMBSize(ja->Base_PS,&num))
+   {
+      LogWrite(1,TOSSINGERR,"Failed to get size of JAM area \"%s\"",area->Path);
+      return(FALSE);
+   }
+
    start=ja->BaseNum;
 
-   if(max !=0 && ja->OldNum > max)
-      start=ja->BaseNum+ja->OldNum-max;
+   if(max != 0)
+   {
+      /* Find the first one of the last max messages, some may be deleted */
+
+      start=ja->BaseNum+num;
+
+      while(start > ja->BaseNum && max != 0)
+      {
+         start--;
+
+         if(!JAM_ReadMsgHeader(ja->Base_PS,start-ja->BaseNum,&Header_S,NULL))
+            if(!(Header_S.Attribute & MSG_DELETED)) max--;
+      }
+   }
 
-   while(start < ja->BaseNum + ja->OldNum && !ctrlc)
+   while(start < ja->BaseNum + num && !ctrlc)
    {
       if(!jam_ExportJAMNum(area,start,handlefunc,TRUE))
          return(FALSE);
diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index af8aff5..e162244 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -148,6 +148,7 @@ bool msg_importfunc(struct MemMessage *mm,struct Area *area)
 bool msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct MemMessage *mm))
 {
    uint32_t start;
+   char buf[200],buf2[50];
    struct msg_Area *ma;
 
    if(!(ma=msg_getarea(area)))
@@ -155,8 +156,23 @@ bool msg_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
    start=ma->LowMsg;
 
-   if(max !=0 && ma->HighMsg-start+1 > max)
-      start=ma->HighMsg-max+1;
+   if(max != 0)
+   {
+      /* Find the first one of the last max messages, there may be gaps */
+
+      start=ma->HighMsg+1;
+
+      while(start > ma->LowMsg && max != 0)
+      {
+         start--;
+
+         sprintf(buf2,"%u.msg",start);
+         MakeFullPath(area->Path,buf2,buf,200);
+
+         if(osExists(buf))
+            max--;
+      }
+   }
 
    while(start <= ma->HighMsg && !ctrlc)
    {
-- 
2.43.0


From 385c1f7f8d8d952bb475000f1c63fb1923702dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:22 +0000
Subject: [PATCH 030/107] fix: the AreaFix help text lost the last character of
 long and unterminated lines

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 2dc6b8d..6a9e7a2 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1319,7 +1319,7 @@ void rawSendHelp(struct Node4D *from4d,char *toname,struct ConfigNode *cnode)
    {
       while(osFGets(fh,helpbuf,100) && !nomem)
       {
-         if(helpbuf[0]!=0)
+         if(helpbuf[0]!=0 && helpbuf[strlen(helpbuf)-1]==10)
             helpbuf[strlen(helpbuf)-1]=0;
 
          afAddLine(afr,"%s",helpbuf);
-- 
2.43.0


From 45771f052d5d639633cda930f7384daa522a8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:04 +0000
Subject: [PATCH 031/107] fix: AreaFix requests to other nodes cut area names
 to 70 characters

---
 src/crashmail/areafix.c | 8 +++-----
 src/crashmail/config.h  | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 6a9e7a2..3223295 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1522,12 +1522,11 @@ void RemoteAreafixAdd(char *area,struct ConfigNode *node)
    }
 
 	if(node->Flags & NODE_AFNEEDSPLUS)
-	   sprintf(cmd->Command,"+%.78s",area);
+	   sprintf(cmd->Command,"+%.79s",area);
 
 	else
-	   sprintf(cmd->Command,"%.78s",area);
+	   sprintf(cmd->Command,"%.79s",area);
 
-   cmd->Command[70]=0;
    jbAddNode(&node->RemoteAFList,(struct jbNode *)cmd);
 }
 
@@ -1541,9 +1540,8 @@ void RemoteAreafixRemove(char *area,struct ConfigNode *node)
       return;
    }
 
-   sprintf(cmd->Command,"-%.78s",area);
+   sprintf(cmd->Command,"-%.79s",area);
 
-   cmd->Command[70]=0;
    jbAddNode(&node->RemoteAFList,(struct jbNode *)cmd);
 }
 
diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 762d2bb..21c86d5 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -149,7 +149,7 @@ struct BannedNode
 struct RemoteAFCommand
 {
    struct RemoteAFCommand *Next;
-   char Command[80];
+   char Command[100];
 };
 
 struct ConfigNode
-- 
2.43.0


From 53da0971ea0c6b66114cb695062795d67a6d1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:43 +0000
Subject: [PATCH 032/107] fix: a forward-request for a name longer than an area
 name overflowed a buffer

---
 src/crashmail/areafix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 3223295..104beb3 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -612,7 +612,7 @@ bool AreaFix(struct MemMessage *mm)
                         {
                            if(!areaexists)
                            {
-                              if(cnode->Flags & NODE_FORWARDREQ)
+                              if((cnode->Flags & NODE_FORWARDREQ) && strlen(areaname) < sizeof(area->Tagname))
                               {
                                  arealist=FindForward(areaname,cnode->Groups);
 
-- 
2.43.0


From 39722b750a6584d75b7a272bd240aa1136bb6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:34 +0000
Subject: [PATCH 033/107] fix: crash when an AreaFix request was to be sent to
 a node without a route

---
 src/crashmail/areafix.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 104beb3..8c351a9 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1565,6 +1565,19 @@ void SendRemoteAreafix(void)
          for(tmproute=(struct Route *)config.RouteList.First;tmproute;tmproute=tmproute->Next)
             if(Compare4DPat(&tmproute->Pattern,&node->Node)==0) break;
 
+         if(!tmproute)
+         {
+            LogWrite(1,TOSSINGERR,"No route found for %d:%d/%d.%d",
+               node->Node.Zone,
+               node->Node.Net,
+               node->Node.Node,
+               node->Node.Point);
+
+            mmFree(mm);
+            jbFreeList(&node->RemoteAFList);
+            continue;
+         }
+
          Copy4D(&mm->DestNode,&node->Node);
          Copy4D(&mm->OrigNode,&tmproute->Aka->Node);
 
-- 
2.43.0


From 52ed33ac021f835621b8e29e2c1dd4d15d080f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:46 +0000
Subject: [PATCH 034/107] fix: an area linked to a node defined further down
 made the rewritten configuration unreadable

---
 src/crashmail/config.c | 23 ++++++++++++++++++++---
 src/crashmail/config.h |  1 +
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 0b988d5..6fed21a 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2250,6 +2250,7 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
    bool skiparea,skipnode,dontwrite,copyres;
    struct ConfigNode    *cnode;
    struct Area          *area;
+   struct TossNode *tnode;
    struct Node4D n4d;
    uint32_t jbcpos,c;
 
@@ -2277,6 +2278,9 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
    skiparea=FALSE;
    skipnode=FALSE;
 
+   for(cnode=(struct ConfigNode *)cfg->CNodeList.First;cnode;cnode=cnode->Next)
+      cnode->written=FALSE;
+
    while(osFGets(oldfh,cfgbuf,4000))
    {
       jbcpos=0;
@@ -2297,9 +2301,19 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
             if(area && area->changed)
             {
                skiparea=TRUE;
-               WriteArea(area,newfh);
-				   osFPrintf(newfh,"\n");
-               area->changed=FALSE;
+
+               /* All nodes must be defined before the area. If they are not,
+                  the area is written at the end of the file instead */
+
+               for(tnode=(struct TossNode *)area->TossNodes.First;tnode;tnode=tnode->Next)
+                  if(!tnode->ConfigNode->written) break;
+
+               if(!tnode)
+               {
+                  WriteArea(area,newfh);
+				      osFPrintf(newfh,"\n");
+                  area->changed=FALSE;
+               }
             }
 
 				/* Area has been removed */
@@ -2322,6 +2336,9 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
                for(cnode=(struct ConfigNode *)cfg->CNodeList.First;cnode;cnode=cnode->Next)
                   if(Compare4D(&n4d,&cnode->Node)==0) break;
 
+               if(cnode)
+                  cnode->written=TRUE;
+
                if(cnode && cnode->changed)
                {
                   skipnode=TRUE;
diff --git a/src/crashmail/config.h b/src/crashmail/config.h
index 21c86d5..44da8f2 100644
--- a/src/crashmail/config.h
+++ b/src/crashmail/config.h
@@ -156,6 +156,7 @@ struct ConfigNode
 {
    struct ConfigNode *Next;
    bool changed;
+   bool written;
    struct Node4D Node;
    char PacketPW[9];
    struct Packer *Packer;
-- 
2.43.0


From fe58a7d7cc84673a6182460c02373a3edf96ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:12 +0000
Subject: [PATCH 035/107] fix: areas with names longer than 79 characters were
 removed when the configuration was rewritten

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 6fed21a..5216af1 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -2291,7 +2291,7 @@ bool UpdateConfig(struct Config *cfg,char *cfgerr)
       {
          skiparea=FALSE;
 
-         if(jbstrcpy(buf,cfgbuf,100,&jbcpos))
+         if(jbstrcpy(buf,cfgbuf,80,&jbcpos))
          {
             for(area=(struct Area *)cfg->AreaList.First;area;area=area->Next)
                if(stricmp(buf,area->Tagname)==0) break;
-- 
2.43.0


From 1c1efb0841d18c75e129b8d534cf8036e7aedf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:16 +0000
Subject: [PATCH 036/107] fix: filter substring search missed matches and
 indexed outside its table

---
 src/crashmail/filter.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 91b49cb..6fc5823 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -11,13 +11,10 @@ void bminit(char *pat)
    len=strlen(pat);
 
    for(i=0;i<256;i++)
-      bmstep[i]=0;
+      bmstep[i]=(len == 0 ? 1 : len);
 
-   for(i=0;i<len;i++)
-      bmstep[tolower(pat[i])]=len-i-1;
-
-   for(i=0;i<256;i++)
-      if(bmstep[i] == 0) bmstep[i]=len;
+   for(i=0;i<len-1;i++)
+      bmstep[(uint8_t)tolower((uint8_t)pat[i])]=len-i-1;
 }
 
 long bmfind(char *pat,char *text,long textlen,long start)
@@ -32,12 +29,12 @@ long bmfind(char *pat,char *text,long textlen,long start)
    while(i<=end)
    {
       for(j=len-1;j>=0;j--)
-         if(tolower(text[i+j])!=tolower(pat[j])) break;
+         if(tolower((uint8_t)text[i+j])!=tolower((uint8_t)pat[j])) break;
 
       if(j == -1)
          return(i);
 
-      i+=bmstep[tolower(text[i+j])];
+      i+=bmstep[(uint8_t)tolower((uint8_t)text[i+len-1])];
    }
 
    return(-1);
-- 
2.43.0


From d9f352e8ed77e61f96cc028c44533443ffb1e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:30 +0000
Subject: [PATCH 037/107] fix: NOT before a parenthesised filter expression
 only negated its first term

---
 src/shared/expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index d010367..a14789e 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -72,10 +72,13 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
          res->buf[0]=0;
 
          if(hasnot)
-            strcat(res->buf,"NOT ");
+            strcat(res->buf,"NOT (");
 
          strncat(res->buf,&expr->buf[start],len);
 
+         if(hasnot)
+            strcat(res->buf,")");
+
          expr->parsepos=d;
 
          return(res);
@@ -258,7 +261,7 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
          {
             int res;
 
-            strcpy(e1->buf,&e1->buf[4]);
+            memmove(e1->buf,&e1->buf[4],strlen(&e1->buf[4])+1);
             e1->parsepos=0;
 
             res=expr_eval(e1,eval,errpos,errstr);
-- 
2.43.0


From 52d8d0bcebdd13877b5a50e17b5d9774ebe0d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:44 +0000
Subject: [PATCH 038/107] fix: parentheses inside quoted filter patterns were
 counted as parentheses

---
 src/shared/expr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index a14789e..f63d492 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -35,14 +35,17 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
    if(expr->buf[c]=='(')
    {
       int nump;
+      bool inquote;
 
       nump=1;
+      inquote=FALSE;
       d=c+1;
 
       while(nump!=0 && expr->buf[d]!=0)
       {
-         if(expr->buf[d]=='(') nump++;
-         if(expr->buf[d]==')') nump--;
+         if(expr->buf[d]=='"') inquote=!inquote;
+         if(expr->buf[d]=='(' && !inquote) nump++;
+         if(expr->buf[d]==')' && !inquote) nump--;
 
          d++;
       }
-- 
2.43.0


From 9521be88efe43e9951cc48495b228f1735f5c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 039/107] fix: filter expressions mixing AND and OR were not
 evaluated from left to right

---
 src/shared/expr.c | 168 +++++++---------------------------------------
 1 file changed, 26 insertions(+), 142 deletions(-)

diff --git a/src/shared/expr.c b/src/shared/expr.c
index f63d492..160dd89 100644
--- a/src/shared/expr.c
+++ b/src/shared/expr.c
@@ -152,52 +152,6 @@ struct expr *expr_get(struct expr *expr,int *errpos,char **errstr)
    return(res);
 }
 
-struct expr *expr_getrest(struct expr *expr,int *errpos,char **errstr)
-{
-   int c,d,start,len;
-   struct expr *res;
-
-   c=expr->parsepos;
-
-   /* Skip leading whitespace */
-
-   while(expr->buf[c]==' ')
-      c++;
-
-   d=c;
-
-   while(expr->buf[d]!=0)
-      d++;
-
-   start=c;
-   len=d-c;
-
-   if(!(res=osAlloc(sizeof(struct expr))))
-   {
-      *errpos=expr->offset;
-      *errstr="Out of memory";
-      return(NULL);
-   }
-
-   if(!(res->buf=osAlloc(len+10)))
-   {
-      osFree(res);
-      *errpos=expr->offset;
-      *errstr="Out of memory";
-      return(NULL);
-   }
-
-   res->parsepos=0;
-   res->offset=expr->offset+start;
-   res->buf[0]=0;
-
-   strncat(res->buf,&expr->buf[start],len);
-
-   expr->parsepos=d;
-
-   return(res);
-}
-
 struct expr *expr_makeexpr(char *str)
 {
    struct expr *expr;
@@ -227,6 +181,8 @@ void expr_free(struct expr *expr)
 int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr),int *errpos,char **errstr)
 {
    struct expr *e1,*e2,*e3;
+   int res,r2;
+   bool and;
 
    e1=expr_get(expr,errpos,errstr);
 
@@ -243,15 +199,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
       return(-1);
    }
 
-   e3=expr_getrest(expr,errpos,errstr);
-
-   if(!e3)
-   {
-      expr_free(e1);
-      expr_free(e2);
-      return(-1);
-   }
-
    if(e2->buf[0] == 0)
    {
       /* Only one expression */
@@ -276,7 +223,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -293,7 +239,6 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
             expr_free(e1);
             expr_free(e2);
-            expr_free(e3);
 
             return(res);
          }
@@ -308,122 +253,61 @@ int expr_eval(struct expr *expr,int (*eval)(char *str,int *errpos,char **errstr)
 
          expr_free(e1);
          expr_free(e2);
-         expr_free(e3);
 
          return (res);
       }
    }
 
-   if(stricmp(e2->buf,"AND")==0)
-   {
-      int r1,r2,res;
-
-      if(e3->buf[0] == 0)
-      {
-         *errstr="Expected second expression after AND";
-         *errpos=e3->offset;
+   /* Several expressions linked with AND and OR, evaluated from left to right */
 
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+   res=expr_eval(e1,eval,errpos,errstr);
+   expr_free(e1);
 
-         return(-1);
+   while(res != -1 && e2->buf[0] != 0)
+   {
+      if(stricmp(e2->buf,"AND")==0)
+      {
+         and=TRUE;
       }
-
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
+      else if(stricmp(e2->buf,"OR")==0)
       {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-         return(-1);
+         and=FALSE;
       }
-
-      r2=expr_eval(e3,eval,errpos,errstr);
-
-      if(r2 == -1)
+      else
       {
-         expr_free(e1);
+         *errstr="Expected AND or OR";
+         *errpos=e2->offset;
+
          expr_free(e2);
-         expr_free(e3);
          return(-1);
       }
 
-      res=0;
-
-      if(r1 && r2)
-         res=1;
-
-/* printf("|%s| AND |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
       expr_free(e2);
-      expr_free(e3);
 
-      return(res);
-   }
-   else if(stricmp(e2->buf,"OR")==0)
-   {
-      int r1,r2,res;
+      if(!(e3=expr_get(expr,errpos,errstr)))
+         return(-1);
 
       if(e3->buf[0] == 0)
       {
-         *errstr="Expected second expression after OR";
+         *errstr=and ? "Expected second expression after AND" : "Expected second expression after OR";
          *errpos=e3->offset;
 
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
-
-         return(-1);
-      }
-
-      r1=expr_eval(e1,eval,errpos,errstr);
-
-      if(r1 == -1)
-      {
-         expr_free(e1);
-         expr_free(e2);
          expr_free(e3);
-
          return(-1);
       }
 
       r2=expr_eval(e3,eval,errpos,errstr);
+      expr_free(e3);
 
-      if(r2 == -1)
-      {
-         expr_free(e1);
-         expr_free(e2);
-         expr_free(e3);
+      if(r2 == -1) res=-1;
+      else if(and) res=(res && r2);
+      else         res=(res || r2);
 
+      if(!(e2=expr_get(expr,errpos,errstr)))
          return(-1);
-      }
-
-      res=0;
-
-      if(r1 || r2)
-         res=1;
-
-/* printf("|%s| OR |%s|: %d\n",e1->buf,e3->buf,res); */
-
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
-
-      return(res);
    }
-   else
-   {
-      *errstr="Expected AND or OR";
-      *errpos=e2->offset;
 
-      expr_free(e1);
-      expr_free(e2);
-      expr_free(e3);
+   expr_free(e2);
 
-      return(-1);
-   }
+   return(res);
 }
-
-- 
2.43.0


From 7a537dd9f969a05219620668333878ed350c248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:42 +0000
Subject: [PATCH 040/107] fix: EXISTSNL_* filter variables ignored =FALSE

---
 src/crashmail/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 6fc5823..8dce9b8 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -409,7 +409,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool(var,res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_FROMBOSS")==0)
@@ -425,7 +425,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool(var,res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
@@ -441,7 +441,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool(var,res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSNL_TOBOSS")==0)
@@ -457,7 +457,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
          return(-1);
       }
 
-      return res;
+      return filter_comparebool(var,res,operator,data,opn,datan,errpos,errstr);
    }
 
    if(stricmp(var,"EXISTSCFG_FROMBOSS")==0)
-- 
2.43.0


From c723a31b1690f526d239615edb44db7b3e04e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:55 +0000
Subject: [PATCH 041/107] fix: syntax errors in filters longer than 200
 characters were accepted

---
 src/crashmail/filter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 8dce9b8..0536cde 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -1100,6 +1100,7 @@ bool CheckFilter(char *filter,char *cfgerr)
 		if(strlen(filter) > 200)
 		{
 			strcpy(cfgerr,"Syntax error in filter");
+	      return(FALSE);
 		}
 		else
 		{
-- 
2.43.0


From 0c7aa7a4d5a849460fce79bc5047faad5a9e0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 042/107] fix: long filter texts and patterns overflowed their
 buffers

---
 src/crashmail/filter.c | 10 +++++-----
 src/crashmail/misc.c   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 0536cde..bc23fdd 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -55,7 +55,7 @@ int filter_nllookup(struct Node4D *node)
 
 int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct Node4DPat pat;
 
    if(operator[0]==0)
@@ -98,7 +98,7 @@ int filter_comparenode(char *var,struct Node4D *node,char *operator,char *data,i
 
 int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -143,7 +143,7 @@ int filter_comparestring(char *var,char *str,char *operator,char *data,int opn,i
 
 int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
 
    if(operator[0]==0)
    {
@@ -187,7 +187,7 @@ int filter_comparebool(char *var,bool bl,char *operator,char *data,int opn,int d
 
 int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operator,char *data,int opn,int datan,int *errpos,char **errstr)
 {
-   static char errbuf[100];
+   static char errbuf[200];
    struct TextChunk *chunk;
    long start,pos,c;
 
@@ -232,7 +232,7 @@ int filter_comparetext(char *var,struct MemMessage *mm,bool kludge,char *operato
 int filter_evalfunc(char *str,int *errpos,char **errstr)
 {
    char type[20],source[20];
-   static char errbuf[100];
+   static char errbuf[200];
    struct Aka *aka;
    struct ConfigNode *cnode;
    bool fileattach,tolocalaka,fromlocalaka,tolocalpoint,fromlocalpoint;
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index be321bc..97d4946 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -120,10 +120,10 @@ void ExpandFilter(char *cmd,char *dest,uint32_t destsize,
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d<destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d<destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
-- 
2.43.0


From cf536864db95e8e24d0749400dbe4ad474f18834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:21 +0000
Subject: [PATCH 043/107] fix: remapped netmail ended with an unterminated
 kludge line

---
 src/crashmail/filter.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index bc23fdd..f691d8e 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -719,7 +719,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    struct Route *tmproute;
    struct jbList oldlist;
    struct TextChunk *tmp;
-   char buf[100];
+   char buf[200];
    char oldto[36],newto[36];
    struct Node4D olddest4d,newdest4d,my4d;
    uint32_t c,d;
@@ -737,7 +737,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
    ExpandNodePat(destpat,&mm->DestNode,&newdest4d);
 
    if(strcmp(namepat,"*")==0) strcpy(newto,mm->To);
-   else                       strcpy(newto,namepat);
+   else                       mystrncpy(newto,namepat,36);
 
    my4d.Zone=0;
    my4d.Net=0;
@@ -812,7 +812,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
 
 	mmAddLine(mm,buf);
 
-   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%ud",
+   sprintf(buf,"\x01Message originally to %s at %u:%u/%u.%u\x0d",
       oldto,
       olddest4d.Zone,
       olddest4d.Net,
-- 
2.43.0


From f53330aabba315a451d6274505fbd7a7ee39f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:35 +0000
Subject: [PATCH 044/107] fix: a failed filter COPY was ignored and changed the
 message

---
 src/crashmail/filter.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index f691d8e..bf157bf 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -537,6 +537,7 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    struct TextChunk *tmp;
    struct jbList oldlist;
    char buf[200];
+   bool res;
 
    LogWrite(4,TOSSINGINFO,"Filter: Copying message to area %s",tagname);
 
@@ -560,17 +561,17 @@ bool Filter_Copy(struct MemMessage *mm,char *tagname)
    for(tmp=(struct TextChunk *)oldlist.First;tmp;tmp=tmp->Next)
       mmAddBuf(&mm->TextChunks,tmp->Data,tmp->Length);
 
-   if(!((*area->Messagebase->importfunc)(mm,area)))
-      return(FALSE);
+   res=(*area->Messagebase->importfunc)(mm,area);
 
-   area->NewTexts++;
+   if(res)
+      area->NewTexts++;
 
    jbFreeList(&mm->TextChunks);
 
    mm->TextChunks.First=oldlist.First;
    mm->TextChunks.Last=oldlist.Last;
 
-   return(TRUE);
+   return(res);
 }
 
 bool Filter_WriteBad(struct MemMessage *mm,char *reason)
@@ -1015,7 +1016,9 @@ bool Filter(struct MemMessage *mm)
 						break;
 
 					case COMMAND_COPY:
-						Filter_Copy(mm,command->string);
+						if(!Filter_Copy(mm,command->string))
+							return(FALSE);
+
 						break;
 
                case COMMAND_EXECUTE:
-- 
2.43.0


From 86c6999c5d8a5ff1b62c7d4f2d013de82e02551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:42 +0000
Subject: [PATCH 045/107] fix: the filter took the destination of the packet as
 TOADDR of echomail

---
 src/crashmail/filter.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index bf157bf..82f9b37 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -240,7 +240,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
    char var[100],operator[2],data[100];
    int opn,datan,res;
    int c,d;
-   struct Node4D from4d,fromboss,toboss;
+   struct Node4D from4d,to4d,fromboss,toboss;
 
    /* Parse statement */
 
@@ -282,10 +282,24 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
    if(filter_mm->Area[0] == 0) Copy4D(&from4d,&filter_mm->OrigNode);
    else                        Copy4D(&from4d,&filter_mm->Origin4D);
 
+   if(filter_mm->Area[0] == 0)
+   {
+      Copy4D(&to4d,&filter_mm->DestNode);
+   }
+   else
+   {
+      /* Echomail has no destination */
+
+      to4d.Zone=0;
+      to4d.Net=0;
+      to4d.Node=0;
+      to4d.Point=0;
+   }
+
    Copy4D(&fromboss,&from4d);
    fromboss.Point=0;
 
-   Copy4D(&toboss,&filter_mm->DestNode);
+   Copy4D(&toboss,&to4d);
    toboss.Point=0;
 
    /* Make local variables */
@@ -304,10 +318,10 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
 
    for(aka=(struct Aka *)config.AkaList.First;aka;aka=aka->Next)
    {
-      if(Compare4D(&filter_mm->DestNode,&aka->Node)==0) tolocalaka=TRUE;
+      if(Compare4D(&to4d,&aka->Node)==0) tolocalaka=TRUE;
       if(Compare4D(&from4d,&aka->Node)==0)              fromlocalaka=TRUE;
 
-      if(filter_mm->DestNode.Point != 0)
+      if(to4d.Point != 0)
          if(Compare4D(&aka->Node,&toboss)==0 && aka->Node.Point==0) tolocalpoint=TRUE;
 
       if(from4d.Point != 0)
@@ -319,7 +333,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
       if(Compare4D(&cnode->Node,&from4d)==0)   existscfg_fromaddr=TRUE;
       if(Compare4D(&cnode->Node,&fromboss)==0) existscfg_fromboss=TRUE;
 
-      if(Compare4D(&cnode->Node,&filter_mm->DestNode)==0) existscfg_toaddr=TRUE;
+      if(Compare4D(&cnode->Node,&to4d)==0) existscfg_toaddr=TRUE;
       if(Compare4D(&cnode->Node,&toboss)==0)              existscfg_toboss=TRUE;
    }
 
@@ -349,7 +363,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
       return filter_comparenode("FROMADDR",&from4d,operator,data,opn,datan,errpos,errstr);
 
    if(stricmp(var,"TOADDR")==0)
-      return filter_comparenode("TOADDR",&filter_mm->DestNode,operator,data,opn,datan,errpos,errstr);
+      return filter_comparenode("TOADDR",&to4d,operator,data,opn,datan,errpos,errstr);
 
    if(stricmp(var,"FROMNAME")==0)
       return filter_comparestring("FROMNAME",filter_mm->From,operator,data,opn,datan,errpos,errstr);
@@ -430,7 +444,7 @@ int filter_evalfunc(char *str,int *errpos,char **errstr)
 
    if(stricmp(var,"EXISTSNL_TOADDR")==0)
    {
-      res=filter_nllookup(&filter_mm->DestNode);
+      res=filter_nllookup(&to4d);
 
       if(res == -1)
       {
-- 
2.43.0


From 819026dfdcf4b0a37af43970c1dd5c6ab8897a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 046/107] fix: remapping and masquerading read past the end of
 the message text

---
 src/crashmail/filter.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 82f9b37..32a6fe2 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -796,7 +796,7 @@ bool Filter_Remap(struct MemMessage *mm,char *namepat,struct Node4DPat *destpat)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-         if(tmp->Data[d]==13) d++;
+         if(d<tmp->Length && tmp->Data[d]==13) d++;
 
 			skip=FALSE;
 
@@ -911,11 +911,11 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		while(c<tmp->Length)
 	  	{
 			for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-		 	if(tmp->Data[d]==13) d++;
+		 	if(d<tmp->Length && tmp->Data[d]==13) d++;
 
 			skip=FALSE;
 
-			if ((tmp->Data[c+1] == '*') && (d-c > 9)) // Origin
+			if ((d-c > 9) && (tmp->Data[c+1] == '*')) // Origin
 			{
 				char * s = &tmp->Data[c]; size_t len = d-c;
 				if(strncmp(s," * Origin", 9)==0)
-- 
2.43.0


From 7d600c961dc141697dd7e7c4ec51911439cd1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:09 +0000
Subject: [PATCH 047/107] fix: masquerading lost or broke long and unusual
 MSGID, REPLY and Origin lines

---
 src/crashmail/filter.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 32a6fe2..023dc1e 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -859,7 +859,7 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	ExpandNodePat(destpat,&mm->OrigNode,&neworig4d);
 
     if(strcmp(namepat,"*")==0) strcpy(newfrom,mm->From);
-    else                       strcpy(newfrom,namepat);
+    else                       mystrncpy(newfrom,namepat,36);
 	strcpy (mm->From, newfrom);
 
 	LogWrite(4,SYSTEMINFO, "Filter: Masquerade message as %s at %u:%u/%u.%u",
@@ -872,15 +872,17 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 	jbNewList(&mm->TextChunks); // create empty list
 
 	// replace MSGID
+	bool newmsgid = FALSE, newreply = FALSE;
 	char * separator = strchr (mm->MSGID, ' ');
 	if (separator)
 	{
-		char str[80];
-		strncpy (str, separator + 1, 80);
+		char str[100];
+		mystrncpy (str, separator + 1, 80);
 		snprintf (mm->MSGID, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 		// update kludge
-		snprintf(str, 80, "\x01MSGID: %s\x0d",mm->MSGID);
+		snprintf(str, 100, "\x01MSGID: %s\x0d",mm->MSGID);
      	mmAddBuf(&mm->TextChunks, str, strlen(str));
+		newmsgid = TRUE;
 	}	
 
 	// replace REPLY for netmail
@@ -889,12 +891,13 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 		separator = strchr (mm->REPLY, ' ');
 		if (separator)
 		{
-			char str[80];
-			strncpy (str, separator + 1, 80);
+			char str[100];
+			mystrncpy (str, separator + 1, 80);
 			snprintf (mm->REPLY, 80, "%u:%u/%u.%u %s", neworig4d.Zone, neworig4d.Net, neworig4d.Node, neworig4d.Point, str);
 			// update kludge
-			snprintf(str, 80, "\x01REPLY: %s\x0d",mm->REPLY);
+			snprintf(str, 100, "\x01REPLY: %s\x0d",mm->REPLY);
 		 	mmAddBuf(&mm->TextChunks, str, strlen(str));
+			newreply = TRUE;
 		}	
 	}
 
@@ -921,11 +924,12 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 				if(strncmp(s," * Origin", 9)==0)
 				{	
 					char * leftBracket;
-					leftBracket = (char *)memchr (s+9, '(', len-9);
-					if (leftBracket)
+					// address is in the last parentheses of the line
+					for(leftBracket = s+len-1; leftBracket > s+9 && *leftBracket != '('; leftBracket--);
+					if (*leftBracket == '(')
 					{
 						char * rightBracket;
-						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s));
+						rightBracket = (char *)memchr (leftBracket + 1, ')', len-(leftBracket-s)-1);
 						if (rightBracket)
 						{	
 							mmAddBuf(&mm->TextChunks, s, leftBracket-s+1); // before address
@@ -941,9 +945,9 @@ bool Filter_Masquerade(struct MemMessage *mm,char *namepat,struct Node4DPat *des
 			else if (d-c > 6)
 			{
 				// MSGID added adready
-				if(strncmp(&tmp->Data[c],"\x01""MSGID", 6)==0) skip=TRUE;
+				if(newmsgid && strncmp(&tmp->Data[c],"\x01""MSGID", 6)==0) skip=TRUE;
 				// REPLY for netmail added adready
-				if(mm->Area[0] == 0 && strncmp(&tmp->Data[c],"\x01""REPLY", 6)==0) skip=TRUE;
+				if(newreply && strncmp(&tmp->Data[c],"\x01""REPLY", 6)==0) skip=TRUE;
 			}
 			if(d-c > 5) 
 			{
-- 
2.43.0


From 0615e4a6082e45f0a527c6d8deafd86ad032d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:24 +0000
Subject: [PATCH 048/107] fix: bounce texts of 390 characters or more were not
 terminated

---
 src/crashmail/handle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index b81a1aa..dccb22c 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -914,7 +914,7 @@ bool Bounce(struct MemMessage *mm,char *reason,bool headeronly)
    if(config.cfg_Flags & CFG_ADDTID)
       AddTID(tmpmm);
 
-   strncpy(buf,reason,390);
+   mystrncpy(buf,reason,390);
    strcat(buf,"\x0d\x0d");
 
    mmAddLine(tmpmm,buf);
-- 
2.43.0


From 5e4d2f16157e21f1db5f36c83485fb5c31e84475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 049/107] fix: the node 0:0/0 was always found in the nodelist

---
 src/cmnllib/cmnllib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cmnllib/cmnllib.c b/src/cmnllib/cmnllib.c
index 4fd74da..0569321 100644
--- a/src/cmnllib/cmnllib.c
+++ b/src/cmnllib/cmnllib.c
@@ -117,6 +117,8 @@ bool cmnlFindNL(osFile nl,char *dir,struct cmnlIdx *cmnlidx,char *line,uint32_t
 			if(cmnlidx->net   != idx.net)   found=FALSE;
 			if(cmnlidx->node  != idx.node)  found=FALSE;
 			if(cmnlidx->point != idx.point) found=FALSE;
+
+			if(idx.offset == 0xffffffff) found=FALSE; /* End of nodelist */
 		}
 	}
 
-- 
2.43.0


From cd9bc86b09399da12c0cf22533f03c4e034c51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:40 +0000
Subject: [PATCH 050/107] fix: crashlist accepted a nodelist whose base name is
 only a prefix of the configured name

---
 src/tools/crashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index c0bc4f4..6968421 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -91,7 +91,7 @@ void scandirfunc(char *file)
 
 	if(isnodelistending(file))
    {
-   	if(strnicmp(file,findfile,strlen(file)-4)==0)
+   	if(strlen(findfile)==strlen(file)-4 && strnicmp(file,findfile,strlen(file)-4)==0)
       {
 			MakeFullPath(finddir,file,buf,500);
 			
-- 
2.43.0


From f277526a30a363487020d67620cb54900237f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:53 +0000
Subject: [PATCH 051/107] fix: crashlist wrote uninitialised bytes and
 unterminated names into the nodelist index

---
 src/tools/crashlist.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 6968421..3ae9338 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -143,7 +143,7 @@ bool FindList(char *dir,char *file,char *dest)
 void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 {
 	struct idx idx;
-	char buf[500];
+	char buf[500],name[100];
 	osFile nfh;
 	
 	if(!FindList(dir,file,buf))
@@ -157,9 +157,10 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 		return;
 	}
 
-	strcpy(buf,(char *)GetFilePart(buf));
-	printf("Processing nodelist %s...\n",buf);
-	osWrite(ifh,buf,100);
+	memset(name,0,sizeof(name));
+	mystrncpy(name,(char *)GetFilePart(buf),sizeof(name));
+	printf("Processing nodelist %s...\n",name);
+	osWrite(ifh,name,sizeof(name));
 
 	idx.zone=defzone;
 	idx.net=0;
-- 
2.43.0


From ac7a1345c255117146960fd618f7528b02cb11f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:06 +0000
Subject: [PATCH 052/107] fix: crashlist never closed the nodelists

---
 src/tools/crashlist.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 3ae9338..1aaa4d3 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -251,6 +251,8 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 	idx.offset=0xffffffff;
 
 	WriteIdx(ifh,&idx);
+
+	osClose(nfh);
 }
 
 int main(int argc, char **argv)
-- 
2.43.0


From c13ecf3b36aa1a0044b85d3a5daec2a558732305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:29 +0000
Subject: [PATCH 053/107] fix: crashlist took the remainder of an overlong
 nodelist line for an entry

---
 src/tools/crashlist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/crashlist.c b/src/tools/crashlist.c
index 1aaa4d3..cf7d934 100644
--- a/src/tools/crashlist.c
+++ b/src/tools/crashlist.c
@@ -239,6 +239,10 @@ void ProcessList(char *dir,char *file,osFile ifh,uint16_t defzone)
 			WriteIdx(ifh,&idx);
 		}
 
+		/* Skip the rest of lines longer than the buffer */
+
+		while(strchr(buf,'\n')==NULL && osFGets(nfh,buf,500));
+
 		idx.offset=osFTell(nfh);	
 	}
 
-- 
2.43.0


From 0b2f95001e3ec14c256d8dfb894ae2fbb0da673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 054/107] fix: crashgetnode cut nodelist lines after 199
 characters and read before an empty line

---
 src/tools/crashgetnode.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashgetnode.c b/src/tools/crashgetnode.c
index e152805..a8ad104 100644
--- a/src/tools/crashgetnode.c
+++ b/src/tools/crashgetnode.c
@@ -29,13 +29,13 @@ bool nomem,diskfull;
 void strip(char *str)
 {                                                                                  int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) str[c]=0;
+   for(c=strlen(str)-1;c>=0 && str[c] < 33;c--) str[c]=0;
 }
                                                                   
 int main(int argc, char **argv)
 {
 	osFile fh;
-	char line[200],*dir,*buf;
+	char line[500],*dir,*buf;
 	struct Node4D n4d;
 	struct cmnlIdx idx;
 		
@@ -91,7 +91,7 @@ int main(int argc, char **argv)
 	idx.node=n4d.Node;
 	idx.point=n4d.Point;
 	
-	if(!cmnlFindNL(fh,dir,&idx,line,200))
+	if(!cmnlFindNL(fh,dir,&idx,line,500))
 	{
 		cmnlCloseNL(fh);
 		printf("%s\n",cmnlLastError());
-- 
2.43.0


From 9c42d3f425fb90dd43365400cdcbeabb6b91875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 055/107] fix: a FLAGS: LOK line marked received messages in
 JAM areas as local

---
 src/crashmail/mb_jam.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 10a5815..2d446b0 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -359,10 +359,11 @@ struct flag jam_flagarray[] =
   { "IMM", MSG_IMMEDIATE,   0                },
   { "KFS", MSG_KILLFILE,    0                },
   { "TFS", MSG_TRUNCFILE,   0                },
-  { "LOK", MSG_LOCAL,       FLAG_LOCAL       },
+  { "LOK", MSG_LOCKED,      0                },
   { "RRQ", MSG_RECEIPTREQ,  FLAG_RREQ        },
   { "CFM", MSG_CONFIRMREQ,  0                },
   { "FPU", MSG_FPU,         0                },
+  { "",    MSG_LOCAL,       FLAG_LOCAL       },
   { "",    MSG_INTRANSIT,   FLAG_INTRANSIT   },
   { "",    MSG_ORPHAN,      FLAG_ORPHAN      }, 
   { NULL,  0,               0                } };
@@ -372,7 +373,7 @@ uint32_t jam_findflag(char *name)
    int c;
 
    for(c=0;jam_flagarray[c].name;c++)
-      if(stricmp(jam_flagarray[c].name,name)==0) return(jam_flagarray[c].jamflagbit);
+      if(name[0] && stricmp(jam_flagarray[c].name,name)==0) return(jam_flagarray[c].jamflagbit);
 
    return(0);
 }
-- 
2.43.0


From 0ac12ae13057c5fb32384f2afbb6b478da6d5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:41 +0000
Subject: [PATCH 056/107] fix: the FLAGS line of messages exported from JAM
 areas was replaced by an unrelated buffer

---
 src/crashmail/mb_jam.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2d446b0..554ea85 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -959,7 +959,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    if(flagsbuf[0])
    {
       strcat(flagsbuf,"\x0d");
-      mmAddLine(mm,buf);
+      mmAddLine(mm,flagsbuf);
    }
 
    oldattr = mm->Attr;
-- 
2.43.0


From cb687444a2e89b497229842b1498787877d1d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 057/107] fix: long subfields of JAM messages overflowed
 buffers when exporting

---
 src/crashmail/mb_jam.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 554ea85..2289423 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -829,7 +829,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -842,7 +842,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
 
             if(hasaddr)
             {
@@ -862,12 +862,12 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
             mystrncpy(mm->To,buf,36);
             break;
 
@@ -880,7 +880,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
             mystrncpy(mm->Subject,buf,72);
             break;
 
@@ -890,7 +890,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,Field_PS->DatLen+1);
+            else mystrncpy(filesubject,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(filesubject)));
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -923,7 +923,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,Field_PS->DatLen+1);
+            mystrncpy(&flagsbuf[8],Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(flagsbuf)-10)); /* Room for a CR */
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From bb7f36571e505be900125ea4ef747c539e290bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:06 +0000
Subject: [PATCH 058/107] fix: the text buffer of an unreadable JAM message was
 not freed

---
 src/crashmail/mb_jam.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 2289423..e873ea2 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -795,6 +795,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
       {
          LogWrite(1,TOSSINGERR,"Failed to read message #%u in JAM messagebase \"%s\"",num,area->Path);
          JAM_DelSubPacket(SubPacket_PS);
+         osFree(msgtext);
          return(FALSE);
       }
 
-- 
2.43.0


From fb0a37fab0beb0845b5c080b4bacc3ab51dad1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:19 +0000
Subject: [PATCH 059/107] fix: CRCs in JAM headers did not match the stored
 MSGID and REPLY lines when these were long

---
 src/crashmail/mb_jam.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index e873ea2..e22b0c3 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -390,6 +390,7 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    char *msgtext;
    uint32_t msgsize,msgpos;
    int res;
+   bool hasmsgid,hasreply;
 
    /* Get an area to write to */
 
@@ -436,8 +437,11 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    Header_S.DateWritten -= jam_utcoffset;
 
    Header_S.Cost=mm->Cost;
-   Header_S.MsgIdCRC=JAM_Crc32(mm->MSGID,strlen(mm->MSGID));
-   Header_S.ReplyCRC=JAM_Crc32(mm->REPLY,strlen(mm->REPLY));
+   Header_S.MsgIdCRC=JAM_Crc32("",0);
+   Header_S.ReplyCRC=JAM_Crc32("",0);
+
+   hasmsgid=FALSE;
+   hasreply=FALSE;
 
    /* Add header fields */
 
@@ -558,6 +562,8 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
                mystrncpy(buf,&msgtext[linebegin+7],MIN(sizeof(buf),linelen-7));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_MSGID,buf);
+               if(!hasmsgid) Header_S.MsgIdCRC=JAM_Crc32(buf,strlen(buf));
+               hasmsgid=TRUE;
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""REPLY:",7)==0)
@@ -565,6 +571,8 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
                mystrncpy(buf,&msgtext[linebegin+7],MIN(sizeof(buf),linelen-7));
                stripleadtrail(buf);
                jam_addfield(SubPacket_PS,JAMSFLD_REPLYID,buf);
+               if(!hasreply) Header_S.ReplyCRC=JAM_Crc32(buf,strlen(buf));
+               hasreply=TRUE;
 					msgpos=linebegin;
             }
             else if(linelen>=7 && strncmp(&msgtext[linebegin],"\x01""FLAGS:",7)==0)
-- 
2.43.0


From 132380340a5cbab1ac5379b34ecec916308194db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:32 +0000
Subject: [PATCH 060/107] fix: only the first of several attached files was
 exported from JAM areas

---
 src/crashmail/mb_jam.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index e22b0c3..580524c 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -898,8 +898,8 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_ENCLFILE:
-            if(filesubject[0]) LogWrite(1,TOSSINGERR,"Warning: Multiple ENCLOSEDFILE not supported by CrashMail");
-            else mystrncpy(filesubject,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(filesubject)));
+            if(filesubject[0] && strlen(filesubject) < sizeof(filesubject)-1) strcat(filesubject," ");
+            mystrncpy(&filesubject[strlen(filesubject)],Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(filesubject)-strlen(filesubject)));
             break;
 
          case JAMSFLD_ENCLFREQ:
-- 
2.43.0


From 7589869e4681f82057305e461ea680d00432f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:57 +0000
Subject: [PATCH 061/107] fix: dates in JAM areas were an hour off for messages
 from the other side of a daylight saving change

---
 src/crashmail/mb_jam.c | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 580524c..f7c1924 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -39,10 +39,27 @@ struct jbList jam_SentList;
 struct openbase *jam_openbases;
 
 uint32_t jam_lastnum;
-long jam_utcoffset;
 
 int jam_linkmb(struct Area *area,uint32_t oldnum);
 
+/* Difference between UTC and local time at a certain point of time */
+
+long jam_utcoffset(time_t t)
+{
+   struct tm utc,local;
+   long days;
+
+   utc=*gmtime(&t);
+   local=*localtime(&t);
+
+   days=utc.tm_yday-local.tm_yday;
+
+   if(utc.tm_year > local.tm_year) days=1;
+   if(utc.tm_year < local.tm_year) days=-1;
+
+   return ((days*24+utc.tm_hour-local.tm_hour)*60+utc.tm_min-local.tm_min)*60+utc.tm_sec-local.tm_sec;
+}
+
 /* A base without a complete header was never completely created */
 
 bool jam_baseexists(char *path)
@@ -228,9 +245,6 @@ void jam_writehighwater(struct jam_Area *ja)
 
 bool jam_beforefunc(void)
 {
-   time_t t1,t2;
-   struct tm *tp;
-
    jbNewList(&jam_AreaList);
    jbNewList(&jam_SentList);
 
@@ -243,14 +257,6 @@ bool jam_beforefunc(void)
       return(FALSE);
    }
 
-   /* Some timezone tricks */
-
-   t1=time(NULL);
-   tp=gmtime(&t1);
-   tp->tm_isdst=-1;
-   t2=mktime(tp);
-   jam_utcoffset=t2-t1;
-
    jam_lastnum=1;
 
    return(TRUE);
@@ -433,8 +439,8 @@ bool jam_importfunc(struct MemMessage *mm,struct Area *area)
    Header_S.DateWritten = FidoToTime(mm->DateTime);
 
    /* Damned time zones... dates should be in local time in JAM */
-   Header_S.DateProcessed -= jam_utcoffset;
-   Header_S.DateWritten -= jam_utcoffset;
+   Header_S.DateProcessed -= jam_utcoffset(Header_S.DateProcessed);
+   Header_S.DateWritten -= jam_utcoffset(Header_S.DateWritten);
 
    Header_S.Cost=mm->Cost;
    Header_S.MsgIdCRC=JAM_Crc32("",0);
@@ -736,6 +742,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    char flagsbuf[200],filesubject[200];
    uint16_t oldattr;
    struct jam_Sent *js;
+   time_t t;
 
    if(!isrescanning)
       for(js=(struct jam_Sent *)jam_SentList.First;js;js=js->Next)
@@ -946,7 +953,11 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    /* Message header */
 
-   MakeFidoDate(Header_S.DateWritten+jam_utcoffset,mm->DateTime);
+   t=Header_S.DateWritten;
+   t=Header_S.DateWritten+jam_utcoffset(t);
+   t=Header_S.DateWritten+jam_utcoffset(t); /* The first guess may be on the wrong side of a DST change */
+
+   MakeFidoDate(t,mm->DateTime);
    mm->Cost=Header_S.Cost;
 
    for(c=0;jam_flagarray[c].name;c++)
@@ -1110,7 +1121,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 	   js->attr |= MSG_SENT;
 
       js->dateprocessed = time(NULL);
-      js->dateprocessed -= jam_utcoffset;
+      js->dateprocessed -= jam_utcoffset(js->dateprocessed);
    }
 
    mmFree(mm);
-- 
2.43.0


From 65be2ac4b303836ff20a70e14db340ff3b4d1cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 062/107] fix: control lines were inserted into the middle of
 long lines, or not at all, when exporting *.MSG messages

---
 src/crashmail/mb_msg.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/mb_msg.c b/src/crashmail/mb_msg.c
index e162244..e90b907 100644
--- a/src/crashmail/mb_msg.c
+++ b/src/crashmail/mb_msg.c
@@ -240,7 +240,8 @@ bool msg_exportfunc(struct Area *area,bool (*handlefunc)(struct MemMessage *mm))
 bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct MemMessage *mm),bool isrescanning)
 {
    char buf[200],buf2[50];
-   bool kludgeadd;
+   bool kludgeadd,linestart;
+   struct TextChunk *chunk;
    osFile fh;
    struct StoredMsg Msg;
    struct MemMessage *mm;
@@ -315,17 +316,24 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    mm->Cost = Msg.Cost;
 
    kludgeadd=FALSE;
+   linestart=TRUE;
    msg_messageend=FALSE;
    msg_shortread=FALSE;
 
    do
    {
-      msg_ReadCR(buf,200,fh);
+      if(msg_messageend || msg_shortread) buf[0]=0; /* The last line had no CR */
+      else                                msg_ReadCR(buf,200,fh);
 
-      if(buf[0]!=1 && buf[0]!=10 && !kludgeadd)
+      if(!kludgeadd && (buf[0]==0 || (linestart && buf[0]!=1 && buf[0]!=10)))
       {
          kludgeadd=TRUE;
 
+         chunk=(struct TextChunk *)mm->TextChunks.Last;
+
+         if(chunk && chunk->Length && chunk->Data[chunk->Length-1]!=13 && chunk->Data[chunk->Length-1]!=10)
+            mmAddBuf(&mm->TextChunks,"\x0d",1);
+
          if((config.cfg_Flags & CFG_ADDTID) && !isrescanning)
             AddTID(mm);
 
@@ -361,15 +369,19 @@ bool msg_ExportMSGNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
       if(buf[0])
       {
-         if(!mmAddLine(mm,buf))
+         /* Long lines are read in several parts */
+
+         if(!(linestart ? mmAddLine(mm,buf) : mmAddBuf(&mm->TextChunks,buf,(uint32_t)strlen(buf))))
          {
             osClose(fh);
             mmFree(mm);
             return(FALSE);
          }
+
+         linestart=(buf[strlen(buf)-1]==13 || buf[strlen(buf)-1]==10);
       }
 
-   } while(!msg_messageend && !msg_shortread);
+   } while(buf[0]!=0);
 
    if(!osClose(fh))
    {
-- 
2.43.0


From d16cbd27c81adc43e582035feee87c9f76aa012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:30 +0000
Subject: [PATCH 063/107] fix: empty subfields of JAM messages were passed on
 as null pointers when exporting

---
 src/crashmail/mb_jam.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index f7c1924..40aa5ff 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -737,6 +737,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
    s_JamSubPacket*      SubPacket_PS;
    s_JamMsgHeader	Header_S;
    s_JamSubfield* Field_PS;
+   char *fielddata;
    struct Node4D n4d;
    bool hasaddr;
    char flagsbuf[200],filesubject[200];
@@ -842,10 +843,13 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
 
    for(Field_PS=JAM_GetSubfield(SubPacket_PS);Field_PS;Field_PS=JAM_GetSubfield(NULL))
    {
+      fielddata=Field_PS->Buffer;
+      if(!fielddata) fielddata=""; /* Empty field */
+
       switch(Field_PS->LoID)
       {
          case JAMSFLD_OADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
+            mystrncpy(buf,fielddata,MIN(Field_PS->DatLen+1,sizeof(buf)));
 
             if(Parse5D(buf,&n4d,domain))
             {
@@ -858,7 +862,7 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_DADDRESS:
-            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
+            mystrncpy(buf,fielddata,MIN(Field_PS->DatLen+1,sizeof(buf)));
 
             if(hasaddr)
             {
@@ -878,35 +882,35 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_SENDERNAME:
-            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
+            mystrncpy(buf,fielddata,MIN(Field_PS->DatLen+1,sizeof(buf)));
             mystrncpy(mm->From,buf,36);
             break;
 
          case JAMSFLD_RECVRNAME:
-            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
+            mystrncpy(buf,fielddata,MIN(Field_PS->DatLen+1,sizeof(buf)));
             mystrncpy(mm->To,buf,36);
             break;
 
          case JAMSFLD_MSGID:
-            jam_makekludge(mm,"\x01" "MSGID: ",Field_PS->Buffer,Field_PS->DatLen);
+            jam_makekludge(mm,"\x01" "MSGID: ",fielddata,Field_PS->DatLen);
             break;
 
          case JAMSFLD_REPLYID:
-            jam_makekludge(mm,"\x01" "REPLY: ",Field_PS->Buffer,Field_PS->DatLen);
+            jam_makekludge(mm,"\x01" "REPLY: ",fielddata,Field_PS->DatLen);
             break;
 
          case JAMSFLD_SUBJECT:
-            mystrncpy(buf,Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(buf)));
+            mystrncpy(buf,fielddata,MIN(Field_PS->DatLen+1,sizeof(buf)));
             mystrncpy(mm->Subject,buf,72);
             break;
 
          case JAMSFLD_PID:
-            jam_makekludge(mm,"\x01" "PID: ",Field_PS->Buffer,Field_PS->DatLen);
+            jam_makekludge(mm,"\x01" "PID: ",fielddata,Field_PS->DatLen);
             break;
 
          case JAMSFLD_ENCLFILE:
             if(filesubject[0] && strlen(filesubject) < sizeof(filesubject)-1) strcat(filesubject," ");
-            mystrncpy(&filesubject[strlen(filesubject)],Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(filesubject)-strlen(filesubject)));
+            mystrncpy(&filesubject[strlen(filesubject)],fielddata,MIN(Field_PS->DatLen+1,sizeof(filesubject)-strlen(filesubject)));
             break;
 
          case JAMSFLD_ENCLFREQ:
@@ -926,20 +930,20 @@ bool jam_ExportJAMNum(struct Area *area,uint32_t num,bool (*handlefunc)(struct M
             break;
 
          case JAMSFLD_FTSKLUDGE:
-            jam_makekludge(mm,"\x01",Field_PS->Buffer,Field_PS->DatLen);
+            jam_makekludge(mm,"\x01",fielddata,Field_PS->DatLen);
             break;
 
          case JAMSFLD_SEENBY2D:
-            jam_makekludge(mm,"SEEN-BY: ",Field_PS->Buffer,Field_PS->DatLen);
+            jam_makekludge(mm,"SEEN-BY: ",fielddata,Field_PS->DatLen);
             break;
 
          case JAMSFLD_PATH2D:
-            jam_makekludge(mm,"\01" "PATH: ",Field_PS->Buffer,Field_PS->DatLen);
+            jam_makekludge(mm,"\01" "PATH: ",fielddata,Field_PS->DatLen);
             break;
 
          case JAMSFLD_FLAGS:
             strcpy(flagsbuf,"\x01" "FLAGS: ");
-            mystrncpy(&flagsbuf[8],Field_PS->Buffer,MIN(Field_PS->DatLen+1,sizeof(flagsbuf)-10)); /* Room for a CR */
+            mystrncpy(&flagsbuf[8],fielddata,MIN(Field_PS->DatLen+1,sizeof(flagsbuf)-10)); /* Room for a CR */
             /* Don't add until attributes from header has been added */
             break;
       }
-- 
2.43.0


From 85ac69aeba7467d10d77ccafb535e15171027ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:55 +0000
Subject: [PATCH 064/107] fix: quick linking linked all messages without MSGID
 and REPLY to each other

---
 src/crashmail/mb_jam.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 40aa5ff..3fad8a5 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1228,14 +1228,14 @@ bool jam_rescanfunc(struct Area *area,uint32_t max,bool (*handlefunc)(struct Mem
 
 struct Msg
 {
-   unsigned long MsgIdCRC;
-   unsigned long ReplyCRC;
-   unsigned long ReplyTo;
-   unsigned long Reply1st;
-   unsigned long ReplyNext;
-   unsigned long OldReplyTo;
-   unsigned long OldReply1st;
-   unsigned long OldReplyNext;
+   uint32_t MsgIdCRC;
+   uint32_t ReplyCRC;
+   uint32_t ReplyTo;
+   uint32_t Reply1st;
+   uint32_t ReplyNext;
+   uint32_t OldReplyTo;
+   uint32_t OldReply1st;
+   uint32_t OldReplyNext;
 };
 
 int jam_CompareMsgIdReply(s_JamBase *Base_PS,struct Msg *msgs,uint32_t msgidmsg,uint32_t replymsg)
-- 
2.43.0


From 3184470c36269ae45481975b6019d6fa81811151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:08 +0000
Subject: [PATCH 065/107] fix: messages were linked as replies to themselves or
 to their own replies

---
 src/crashmail/mb_jam.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 3fad8a5..3b493cd 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1308,6 +1308,20 @@ void jam_setreply(struct Msg *msgs,uint32_t nummsgs,uint32_t base,uint32_t num,u
    if(msgs[dest].ReplyTo)
       return; /* Already linked */
 
+   /* A message cannot be a reply to itself or to one of its own replies */
+
+   n=num;
+   times=0;
+
+   while(n != dest && n >= 0 && n < nummsgs && msgs[n].ReplyTo && times <= nummsgs)
+   {
+      n=msgs[n].ReplyTo-base;
+      times++;
+   }
+
+   if(n == dest)
+      return;
+
    msgs[dest].ReplyTo=num+base;
 
    if(msgs[num].Reply1st == 0)
-- 
2.43.0


From f648a1d6c9b02a53951cd6cd677dadb303b5c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:21 +0000
Subject: [PATCH 066/107] fix: a JAM base stayed locked when a header could not
 be read while linking

---
 src/crashmail/mb_jam.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/mb_jam.c b/src/crashmail/mb_jam.c
index 3b493cd..2f73bfc 100644
--- a/src/crashmail/mb_jam.c
+++ b/src/crashmail/mb_jam.c
@@ -1468,8 +1468,9 @@ int jam_linkmb(struct Area *area,uint32_t oldnum)
             Header_S.ReplyNext=msgs[c].ReplyNext;
 
             JAM_ChangeMsgHeader(ja->Base_PS,c,&Header_S);
-            JAM_UnlockMB(ja->Base_PS);
          }
+
+         JAM_UnlockMB(ja->Base_PS);
       }
 
    osFree(msgs);
-- 
2.43.0


From cd8a187b90a26c355e43b1451632f83407a30c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:57 +0000
Subject: [PATCH 067/107] fix: crashmaint applied KEEPDAYS and KEEPNUM of
 default and pass-through areas to the area before them

---
 src/tools/crashmaint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index c5ddf0d..4b46582 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -895,6 +895,8 @@ bool ReadConfig(char *file)
          jbstrcpy(tag,cfgbuf,80,&jbcpos); 
          jbstrcpy(aka,cfgbuf,80,&jbcpos);
 
+         LastArea=NULL; /* KEEPDAYS and KEEPNUM belong to this area only */
+
          if(stricmp(tag,"DEFAULT")!=0 && strnicmp(tag,"DEFAULT_",8)!=0)
          {
 				if(jbstrcpy(mb,cfgbuf,20,&jbcpos))
-- 
2.43.0


From 6d99aa198577d3054e01b9a02ad3ee23a0d60197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:10 +0000
Subject: [PATCH 068/107] fix: crashmaint deleted messages dated in the future

---
 src/tools/crashmaint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 4b46582..841e623 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -317,7 +317,7 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
       {
-         if(today - msg->Day > area->KeepDays && msg->Num!=0)
+         if(msg->Day + area->KeepDays < today && msg->Num!=0)
          {
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
@@ -572,7 +572,7 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 				if(day == 0)
 					day=Header_S.DateWritten / (24*60*60);
 
-			   if(today-day > area->KeepDays && !(Header_S.Attribute & MSG_DELETED))
+			   if(day + area->KeepDays < today && !(Header_S.Attribute & MSG_DELETED))
 				{
 					/* Not already deleted and too old*/
 
-- 
2.43.0


From ad4844153a70880cc173eaeef38edc306b753e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:10 +0000
Subject: [PATCH 069/107] fix: messages were skipped by scanning when
 crashmaint renumbered an area whose last scanned message was gone

---
 src/tools/crashmaint.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 841e623..75fc0e6 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -286,9 +286,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          sprintf(buf2,"%u.msg",msg->Num);
          MakeFullPath(area->Path,buf2,buf,200);
 
-         if(msg->Num == highwater)
-            highwater=0;
-
          if(verbose)
             printf(" Deleting message #%u by number\n",msg->Num);
 
@@ -322,9 +319,6 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
             sprintf(buf2,"%u.msg",msg->Num);
             MakeFullPath(area->Path,buf2,buf,200);
 
-            if(msg->Num == highwater)
-               highwater=0;
-
             if(verbose)
                printf(" Deleting message #%u by date\n",msg->Num);
 
@@ -348,6 +342,14 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
       printf(" %u messages deleted by date, %u messages left\n",del,num);
    }
 
+   /* Move the highwater mark to the last message before it that still exists */
+
+   highwater=0;
+
+   for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+      if(msg->Num!=0 && msg->Num <= oldhighwater)
+         highwater=msg->Num;
+
    if(pack)
    {
       num=2;
-- 
2.43.0


From 12773dccdc1c9c3fcead93ec026c9b679b95f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:27 +0000
Subject: [PATCH 070/107] fix: crashmaint did not update reply links when
 renumbering *.MSG areas

---
 src/tools/crashmaint.c | 73 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 75fc0e6..879a6b0 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <signal.h>
 #include <errno.h>
+#include <utime.h>
 
 #include <jamlib/jam.h>
 
@@ -204,6 +205,68 @@ void scanfunc(char *str)
    msg->Day=day;
 }
 
+uint32_t NewNumber(uint32_t num)
+{
+   struct Msg *msg;
+
+   for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+      if(msg->Num == num && num != 0) return(msg->NewNum);
+
+   return(0);
+}
+
+/* Replies are linked by message number */
+
+void UpdateLinks(char *file)
+{
+   struct StoredMsg StoredMsg;
+   uint32_t replyto,nextreply;
+   struct osFileEntry *fe;
+   struct utimbuf ut;
+   bool changed;
+   osFile fh;
+
+   changed=FALSE;
+
+   if(!(fe=osGetFileEntry(file)))
+      return;
+
+   if(!(fh=osOpen(file,MODE_READWRITE)))
+   {
+      osFree(fe);
+      return;
+   }
+
+   if(osRead(fh,&StoredMsg,sizeof(struct StoredMsg))==sizeof(struct StoredMsg))
+   {
+      replyto=NewNumber(StoredMsg.ReplyTo);
+      nextreply=NewNumber(StoredMsg.NextReply);
+
+      if(StoredMsg.ReplyTo != replyto || StoredMsg.NextReply != nextreply)
+      {
+         StoredMsg.ReplyTo=replyto;
+         StoredMsg.NextReply=nextreply;
+
+         osSeek(fh,0,OFFSET_BEGINNING);
+         osWrite(fh,&StoredMsg,sizeof(struct StoredMsg));
+         changed=TRUE;
+      }
+   }
+
+   osClose(fh);
+
+   if(changed)
+   {
+      /* KEEPDAYS goes by the date of the file */
+
+      ut.actime=fe->Date;
+      ut.modtime=fe->Date;
+      utime(file,&ut);
+   }
+
+   osFree(fe);
+}
+
 bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 {
    uint32_t today,num,del,highwater,oldhighwater;
@@ -368,6 +431,16 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
          }
       }
  
+      if(!ctrlc)
+         for(msg=(struct Msg *)MsgList.First;msg;msg=msg->Next)
+            if(msg->Num!=0)
+            {
+               sprintf(buf2,"%u.msg",msg->Num);
+               MakeFullPath(area->Path,buf2,buf,200);
+
+               UpdateLinks(buf);
+            }
+
       for(msg=(struct Msg *)MsgList.First;msg && !ctrlc;msg=msg->Next)
          if(msg->Num!=0 && msg->Num!=msg->NewNum)
          {
-- 
2.43.0


From 61c4fec0c89fe88ac350bf83b9fbcc771bb5b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:40 +0000
Subject: [PATCH 071/107] fix: crashmaint took files such as 12old.msg for
 message 12

---
 src/tools/crashmaint.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 879a6b0..24da38e 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -188,7 +188,18 @@ void scanfunc(char *str)
    if(!(fe=osGetFileEntry(buf)))
       return;
 
-   num=atol(str);   
+   num=atol(str);
+
+   /* Other files, such as "12old.msg", are not messages */
+
+   sprintf(buf,"%u.msg",num);
+
+   if(stricmp(buf,str)!=0)
+   {
+      osFree(fe);
+      return;
+   }
+
    day=fe->Date / (24*60*60);
 
    osFree(fe);
-- 
2.43.0


From bf633ecf837dab8845ee8a97443039610073f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:52 +0000
Subject: [PATCH 072/107] fix: links to removed messages were left in JAM bases
 packed by crashmaint

---
 src/tools/crashmaint.c | 45 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/tools/crashmaint.c b/src/tools/crashmaint.c
index 24da38e..2181e9c 100644
--- a/src/tools/crashmaint.c
+++ b/src/tools/crashmaint.c
@@ -523,6 +523,43 @@ bool ProcessAreaMSG(struct Area *area,bool maint, bool pack, bool verbose)
 
 long jam_utcoffset = 0xbaadf00d;
 
+/* Returns the first message in a chain of replies that has not been deleted */
+
+uint32_t LivingReply(s_JamBase *Base_PS,uint32_t basenum,uint32_t total,uint32_t msgnum)
+{
+   s_JamMsgHeader Header_S;
+   uint32_t c;
+
+   for(c=0;c<total;c++)
+   {
+      if(msgnum < basenum || msgnum-basenum >= total)
+         return(0);
+
+      if(JAM_ReadMsgHeader(Base_PS,msgnum-basenum,&Header_S,NULL))
+         return(0);
+
+      if(!(Header_S.Attribute & MSG_DELETED))
+         return(msgnum);
+
+      msgnum=Header_S.ReplyNext;
+   }
+
+   return(0);
+}
+
+bool IsLiving(s_JamBase *Base_PS,uint32_t basenum,uint32_t total,uint32_t msgnum)
+{
+   s_JamMsgHeader Header_S;
+
+   if(msgnum < basenum || msgnum-basenum >= total)
+      return(FALSE);
+
+   if(JAM_ReadMsgHeader(Base_PS,msgnum-basenum,&Header_S,NULL))
+      return(FALSE);
+
+   return(!(Header_S.Attribute & MSG_DELETED));
+}
+
 bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 {
    uint32_t today,active,basenum,total,del,num,day;
@@ -833,6 +870,14 @@ bool ProcessAreaJAM(struct Area *area,bool maint, bool pack, bool verbose)
 						}
 			      }
 
+					/* Do not refer to messages that are removed */
+
+					if(!IsLiving(Base_PS,basenum,total,Header_S.ReplyTo))
+						Header_S.ReplyTo=0;
+
+					Header_S.Reply1st=LivingReply(Base_PS,basenum,total,Header_S.Reply1st);
+					Header_S.ReplyNext=LivingReply(Base_PS,basenum,total,Header_S.ReplyNext);
+
 					/* Write new message */
 
 				   res=JAM_AddMessage(NewBase_PS,&Header_S,SubPacket_PS,msgtext,Header_S.TxtLen);
-- 
2.43.0


From c59d032e348c41c7ae66a0979804f71d8d400f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:09 +0000
Subject: [PATCH 073/107] fix: received netmails were counted twice in the
 statistics

---
 src/crashmail/handle.c | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index dccb22c..90e8257 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -1142,42 +1142,21 @@ bool HandleNetmail(struct MemMessage *mm)
 {
    struct Area       *tmparea;
    struct Aka        *aka;
-   struct ConfigNode *cnode,*pktcnode;
+   struct ConfigNode *cnode;
    struct ImportNode *inode;
    struct Route      *tmproute;
 	struct Node4D     n4d,Dest4D;
    struct PatternNode *patternnode;
    struct AreaFixName *areafixname;
-   struct TextChunk *tmpchunk,*chunk;
+   struct TextChunk *chunk;
    bool istext;
    char buf[400],buf2[200],buf3[200],subjtemp[80];
    uint32_t c,d,jbcpos;
    time_t t;
    struct tm *tp;
-   uint32_t size;
 	uint8_t oldtype;
    bool headeronly;
 
-   /* Find orignode */
-
-   for(pktcnode=(struct ConfigNode *)config.CNodeList.First;pktcnode;pktcnode=pktcnode->Next)
-      if(Compare4D(&mm->PktOrig,&pktcnode->Node)==0) break;
-
-   /* Calculate size */
-
-   size=0;
-
-   for(tmpchunk=(struct TextChunk *)mm->TextChunks.First;tmpchunk;tmpchunk=tmpchunk->Next)
-      size+=tmpchunk->Length;
-
-   /* Statistics */
-
-   if((mm->Flags & MMFLAG_TOSSED) && pktcnode)
-   {
-      pktcnode->GotNetmails++;
-      pktcnode->GotNetmailBytes+=size;
-   }
-
    /* Set zones if they are zero */
 
    if(mm->DestNode.Zone == 0)
-- 
2.43.0


From 67cadf0f43b2dcc6cbeb56dff6d14151605ccfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:22 +0000
Subject: [PATCH 074/107] fix: crashstats showed all sizes in whole megabytes

---
 src/tools/crashstats.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashstats.c b/src/tools/crashstats.c
index a41f807..d1cc784 100644
--- a/src/tools/crashstats.c
+++ b/src/tools/crashstats.c
@@ -274,9 +274,9 @@ bool SortNodes(struct jbList *list)
 char *unit(uint32_t i)
 {
    static char buf[40];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%d MB",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%d KB",i/1024);
-   else sprintf(buf,"%d bytes",i);
+   if (i>10000000) sprintf(buf,"%u MB",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%u KB",i/1024);
+   else sprintf(buf,"%u bytes",i);
    return buf;
 }
 
-- 
2.43.0


From 1aba3472e5729da11c311d20028be305bcab50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:35 +0000
Subject: [PATCH 075/107] fix: crashlistout showed all sizes in whole megabytes

---
 src/tools/crashlistout.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 119e5ae..d0b9c40 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -179,8 +179,8 @@ int Compare4DPat(struct Node4DPat *nodepat,struct Node4D *node)
 char *unit(uint32_t i)
 {
    static char buf[20];
-   if ((i>10000000)||(i<-10000000)) sprintf(buf,"%uM",i/(1024*1024));
-   else if ((i>10000)||(i<-10000)) sprintf(buf,"%uK",i/1024);
+   if (i>10000000) sprintf(buf,"%uM",i/(1024*1024));
+   else if (i>10000) sprintf(buf,"%uK",i/1024);
    else sprintf(buf,"%u",i);
    return buf;
 }
-- 
2.43.0


From 9b3eb4f344a86a56ffef766215cbceac8ee88b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:01 +0000
Subject: [PATCH 076/107] fix: crashwrite put the tear line in the last line of
 a text without a final newline

---
 src/tools/crashwrite.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index dd148e0..37784fc 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -109,7 +109,7 @@ int main(int argc, char **argv)
 	uint32_t pktnum,c,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200],readbuf[100];
+	char pktname[30],fullname[200],readbuf[100],last;
 	int i;
 	
 	from4d.Zone=0;
@@ -330,15 +330,25 @@ int main(int argc, char **argv)
 			exit(OS_EXIT_ERROR);
       }
 
+      last=0x0d;
+
       while(osFGets(ifh,readbuf,100))
       {
 			for(i=0;readbuf[i];i++)
 				if(readbuf[i] == '\n') readbuf[i]=0x0d;
 
+         if(i > 0)
+            last=readbuf[i-1];
+
          osFPrintf(ofh,"%s",readbuf);
       }
 
 		osClose(ifh);
+
+      /* What follows must not end up in the last line of the text */
+
+      if(last != 0x0d)
+         osFPrintf(ofh,"\x0d");
 	}
 	
    if(args[ARG_AREA].data)
-- 
2.43.0


From ceda5bf5478025f73fa718c78dd272746b611aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:14 +0000
Subject: [PATCH 077/107] fix: crashwrite left a damaged packet and reported
 success when the disk was full

---
 src/tools/crashwrite.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 37784fc..3710208 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -361,7 +361,15 @@ int main(int argc, char **argv)
    osWrite(ofh,"",1);
    osWrite(ofh,"",1);
 
-   osClose(ofh);
+   if(!osClose(ofh))
+   {
+      uint32_t err=osError();
+      printf("Failed to write packet %s\n",fullname);
+      printf("Error: %s\n",osErrorMsg(err));
+      osDelete(fullname);
+      osEnd();
+      exit(OS_EXIT_ERROR);
+   }
 
 	osEnd();
 
-- 
2.43.0


From 9d71dcea507234f511a89347b2a0379a95d669bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:27 +0000
Subject: [PATCH 078/107] fix: crashlistout read outside the buffer at empty
 lines in flow files

---
 src/tools/crashlistout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index d0b9c40..911f9ff 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -210,7 +210,7 @@ void strip(char *str)
 {
    int c;
 
-   for(c=strlen(str)-1;str[c] < 33 && c>=0;c--) 
+   for(c=strlen(str)-1;c>=0 && (unsigned char)str[c] < 33;c--)
 		str[c]=0;
 }
 
-- 
2.43.0


From e20efc9672d5ee5b019b67094634bd049f9c1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:40 +0000
Subject: [PATCH 079/107] fix: overlapping strings were copied with strcpy()

---
 src/tools/crashexport.c  | 2 +-
 src/tools/crashlistout.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 5abe393..380cebe 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -311,7 +311,7 @@ int main(int argc, char **argv)
          while(jbstrcpy(buf,cfgbuf,100,&jbcpos))
          {
             if(buf[0]=='!' || buf[0]=='%' || buf[0]=='@')
-               strcpy(buf,&buf[1]);
+               memmove(buf,&buf[1],strlen(buf));
 
             if(Parse4DTemplate(buf,&tmp4d,&tpl4d))
             {
diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index 911f9ff..adce8b8 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -269,7 +269,7 @@ char *PrintFlowSize(struct fileentry *fe)
       if(line[0])
       {
          if(line[0] == '#' || line[0] == '^' || line[0] == '-')
-            strcpy(line,&line[1]);
+            memmove(line,&line[1],strlen(line));
       
          if(stricmp(GetFilePart(line),line) == 0)
          {
@@ -330,7 +330,7 @@ void DisplayFlowContents(struct fileentry *fe)
             if(line[0] == '-')                   todo="(To be deleted)";
 
             if(line[0] == '#' || line[0] == '^' || line[0] == '-')
-               strcpy(line,&line[1]);
+               memmove(line,&line[1],strlen(line));
       
             if(stricmp(GetFilePart(line),line) == 0)
             {
-- 
2.43.0


From 2c2a65cde4517b1ccc2cb1964d8fa555aeda5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:53 +0000
Subject: [PATCH 080/107] fix: crashlistout did not include packets in the
 total

---
 src/tools/crashlistout.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index adce8b8..be9cd45 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -437,6 +437,9 @@ void DisplayPkt(struct fileentry *fe)
 
    sprintf(buf,"%s/1",unit(fe->size));
 
+   TotalFiles++;
+   TotalBytes+=fe->size;
+
    printf("%-8.8s %-17.17s %-16.16s %7.7s   %s\n",
       type_names[fe->type],PrintNode(&fe->Node),PrintDate(fe->date),buf,fe->file);
 
-- 
2.43.0


From 587b2a104834251ec8bd79c8ca096f193052ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 081/107] fix: a packet could be tossed while crashwrite was
 still writing it

---
 src/tools/crashwrite.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 3710208..48c569e 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -109,7 +109,7 @@ int main(int argc, char **argv)
 	uint32_t pktnum,c,serial;
 	uint16_t attr;
 	char fromname[36],toname[36],subject[72],datetime[20],origin[80];
-	char pktname[30],fullname[200],readbuf[100],last;
+	char pktname[30],fullname[200],tmpname[200],readbuf[100],last;
 	int i;
 	
 	from4d.Zone=0;
@@ -269,9 +269,14 @@ int main(int argc, char **argv)
 		serial++;
       sprintf(pktname,"%08x.pkt",pktnum);
       MakeFullPath(args[ARG_DIR].data,pktname,fullname,200);
-   } while(osExists(fullname));
 
-   if(!(ofh=osOpen(fullname,MODE_NEWFILE)))
+      /* The packet must not be tossed before it is complete */
+
+      sprintf(pktname,"%08x.tmp",pktnum);
+      MakeFullPath(args[ARG_DIR].data,pktname,tmpname,200);
+   } while(osExists(fullname) || osExists(tmpname));
+
+   if(!(ofh=osOpen(tmpname,MODE_NEWFILE)))
    {
 		uint32_t err=osError();
       printf("Unable to create packet %s\n",fullname);
@@ -326,7 +331,7 @@ int main(int argc, char **argv)
       	printf("Unable to open \"%s\" for reading\n",(char *)args[ARG_TEXT].data);
 			printf("Error: %s\n",osErrorMsg(err));		
 			osClose(ofh);
-			osDelete(fullname);
+			osDelete(tmpname);
 			exit(OS_EXIT_ERROR);
       }
 
@@ -361,12 +366,12 @@ int main(int argc, char **argv)
    osWrite(ofh,"",1);
    osWrite(ofh,"",1);
 
-   if(!osClose(ofh))
+   if(!osClose(ofh) || !osRename(tmpname,fullname))
    {
       uint32_t err=osError();
       printf("Failed to write packet %s\n",fullname);
       printf("Error: %s\n",osErrorMsg(err));
-      osDelete(fullname);
+      osDelete(tmpname);
       osEnd();
       exit(OS_EXIT_ERROR);
    }
-- 
2.43.0


From 88d4be990be5eef20d8e501653007ff21f62967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:09 +0000
Subject: [PATCH 082/107] fix: crashlistout compared patterns with more
 characters than the number beyond its end

---
 src/tools/crashlistout.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/crashlistout.c b/src/tools/crashlistout.c
index be9cd45..f963ccc 100644
--- a/src/tools/crashlistout.c
+++ b/src/tools/crashlistout.c
@@ -154,6 +154,7 @@ int NodeCompare(char *pat,uint16_t num)
    {
       if(pat[c]=='*') return(0);
       if(pat[c]!=buf[c] && pat[c]!='?') return(1);
+      if(buf[c]==0) return(1);
    }
 
    if(buf[c]!=0)
-- 
2.43.0


From 0fcd48384493c5a8a785c7d1e0a500efdd0cfbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:01 +0000
Subject: [PATCH 083/107] fix: packers and other commands that were killed were
 treated as successful

---
 src/oslib_linux/osmisc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oslib_linux/osmisc.c b/src/oslib_linux/osmisc.c
index 15b0989..13f6be2 100644
--- a/src/oslib_linux/osmisc.c
+++ b/src/oslib_linux/osmisc.c
@@ -46,6 +46,11 @@ int osExecute(char *cmd)
 	
    res=system(cmd);
 
+   /* The command was not run or did not finish */
+
+   if(res == -1 || !WIFEXITED(res))
+      return(255);
+
    return WEXITSTATUS(res);
 }
 
-- 
2.43.0


From de0b4666b188ae2bf56bc1c1a4ae041a5103ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:59 +0000
Subject: [PATCH 084/107] fix: long pack and unpack commands were cut off or
 overflowed the buffer

---
 src/crashmail/misc.c     |  4 ++--
 src/crashmail/outbound.c | 10 +++++-----
 src/crashmail/toss.c     |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 97d4946..23a9fad 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -23,10 +23,10 @@ void ExpandPacker(char *cmd,char *dest,uint32_t destsize,char *arc,char *file)
       }
       else if(cmd[c]=='%' && cmd[c+1]!=0)
       {
-         dest[d++]=cmd[c+1];
+         if(d<destsize-1) dest[d++]=cmd[c+1];
          c++;
       }
-      else dest[d++]=cmd[c];
+      else if(d<destsize-1) dest[d++]=cmd[c];
    }
    dest[d]=0;
 }
diff --git a/src/crashmail/outbound.c b/src/crashmail/outbound.c
index 9ef08c2..c1569bd 100644
--- a/src/crashmail/outbound.c
+++ b/src/crashmail/outbound.c
@@ -665,7 +665,7 @@ bool appendpkt(char *file,char *newfile)
 
 bool PackFile(char *file)
 {
-   char basename[200],arcname[200],pktname[200],tmpname[210],buf[200],buf2[200];
+   char basename[200],arcname[200],pktname[200],tmpname[210],buf[200],buf2[200],cmd[500];
    uint32_t jbcpos;
    int c,res;
    struct Node4D n4d;
@@ -768,8 +768,8 @@ bool PackFile(char *file)
 
          if(config.cfg_BeforePack[0])
          {
-            ExpandPacker(config.cfg_BeforePack,buf,200,arcname,pktname);
-            res=osExecute(buf);
+            ExpandPacker(config.cfg_BeforePack,cmd,500,arcname,pktname);
+            res=osExecute(cmd);
 
             if(res != 0)
             {
@@ -780,8 +780,8 @@ bool PackFile(char *file)
             }
          }
 
-         ExpandPacker(cnode->Packer->Packer,buf,200,arcname,pktname);
-         res=osExecute(buf);
+         ExpandPacker(cnode->Packer->Packer,cmd,500,arcname,pktname);
+         res=osExecute(cmd);
 
          osDelete(pktname);
 
diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index 7eafcbc..f4844f7 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -81,7 +81,7 @@ void LogTossResults(void)
 bool TossBundle(char *file,struct osFileEntry *fe)
 {
    struct Packer *tmppacker;
-   char buf[200],buf2[100];
+   char buf[200],buf2[500];
    struct jbList FEList;
    struct osFileEntry *pktfe,*safedel;
    int arcres;
@@ -104,7 +104,7 @@ bool TossBundle(char *file,struct osFileEntry *fe)
    LogWrite(2,TOSSINGINFO,"Unarchiving %s using %s",file,tmppacker->Name);
    printf("\n");
 
-   ExpandPacker(tmppacker->Unpacker,buf2,100,file,"");
+   ExpandPacker(tmppacker->Unpacker,buf2,500,file,"");
 
    arcres=osChDirExecute(config.cfg_TempDir,buf2);
    printf("\n");
-- 
2.43.0


From 1d7f97b5718a64b4ce8c8571d3d04fd012297fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:11 +0000
Subject: [PATCH 085/107] fix: short bundles were recognized by old contents of
 the buffer

---
 src/crashmail/toss.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index f4844f7..cf7e9e8 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -31,7 +31,7 @@ bool Compare(char *str,char *recog)
 struct Packer *DetectPacker(char *file)
 {
    osFile fh;
-   char buf[40];
+   char buf[80];
    struct Packer *tmppacker;
 
    if(!(fh=osOpen(file,MODE_OLDFILE)))
@@ -42,6 +42,8 @@ struct Packer *DetectPacker(char *file)
       return(NULL);
    }
 
+   memset(buf,0,sizeof(buf));
+
    osRead(fh,buf,40);
    osClose(fh);
 
-- 
2.43.0


From e603b6a0256d166f50202931733514d87d205beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 086/107] fix: names of bad files were cut off when the name of
 the inbound directory was long

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 23a9fad..7d517de 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -281,7 +281,7 @@ void stripleadtrail(char *str)
 
 void BadFile(char *filename,char *comment)
 {
-   char destname[100],numbuf[10];
+   char destname[220],numbuf[20];
    uint32_t num;
 
    LogWrite(3,TOSSINGERR,"Renaming %s to .bad",filename);
@@ -290,7 +290,7 @@ void BadFile(char *filename,char *comment)
 
    do
    {
-      MakeFullPath(config.cfg_Inbound,GetFilePart(filename),destname,90);
+      MakeFullPath(config.cfg_Inbound,GetFilePart(filename),destname,200);
       strcat(destname,".bad");
 
       if(num != 0)
-- 
2.43.0


From 2df01316b08824c06bf7c2d44fdef097ce83d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:23 +0000
Subject: [PATCH 087/107] fix: tossed files were not deleted when the name of
 the inbound directory was long

---
 src/oslib/osdir.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oslib/osdir.h b/src/oslib/osdir.h
index ba6bccb..4b9a967 100644
--- a/src/oslib/osdir.h
+++ b/src/oslib/osdir.h
@@ -8,7 +8,7 @@
 struct osFileEntry
 {
    struct osFileEntry *Next;
-   char Name[100];
+   char Name[200];
    time_t Date;
    uint32_t Size;
 };
-- 
2.43.0


From 2adf0c802d383e364ff69103b59890f278ad5ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:36 +0000
Subject: [PATCH 088/107] fix: packets left in the temporary directory by an
 interrupted run were tossed twice

---
 src/crashmail/toss.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/crashmail/toss.c b/src/crashmail/toss.c
index cf7e9e8..5b5b56c 100644
--- a/src/crashmail/toss.c
+++ b/src/crashmail/toss.c
@@ -80,6 +80,43 @@ void LogTossResults(void)
    printf("\n");
 }
 
+/* Packets in the temporary directory have been left there by an interrupted
+   run. The bundles they came from are still in the inbound directory. */
+
+bool DeleteOldTempPkts(char *file)
+{
+   struct jbList FEList;
+   struct osFileEntry *pktfe;
+   char buf[200];
+
+   if(!osReadDir(config.cfg_TempDir,&FEList,IsPkt))
+   {
+      uint32_t err=osError();
+      LogWrite(1,SYSTEMERR,"Failed to read directory \"%s\"",config.cfg_TempDir);
+      LogWrite(1,SYSTEMERR,"Error: %s",osErrorMsg(err));
+      return(FALSE);
+   }
+
+   for(pktfe=(struct osFileEntry *)FEList.First;pktfe;pktfe=pktfe->Next)
+   {
+      /* If you have your tempdir in Inbound, this is a mailpacket that has
+         not been unpacked from a bundle */
+
+      mystrncpy(buf,file,200);
+      mystrncpy(GetFilePart(buf),pktfe->Name,200-(GetFilePart(buf)-buf));
+
+      if(!osExists(buf))
+      {
+         MakeFullPath(config.cfg_TempDir,pktfe->Name,buf,200);
+         osDelete(buf);
+      }
+   }
+
+   jbFreeList(&FEList);
+
+   return(TRUE);
+}
+
 bool TossBundle(char *file,struct osFileEntry *fe)
 {
    struct Packer *tmppacker;
@@ -102,6 +139,9 @@ bool TossBundle(char *file,struct osFileEntry *fe)
       return(TRUE);
    }
 
+   if(!DeleteOldTempPkts(file))
+      return(FALSE);
+
    printf("\n");
    LogWrite(2,TOSSINGINFO,"Unarchiving %s using %s",file,tmppacker->Name);
    printf("\n");
-- 
2.43.0


From 5eef5a6dc7280e3d42b31978c744531bc609ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:54 +0000
Subject: [PATCH 089/107] fix: bundles with names ending with & were deleted
 without being tossed

---
 src/crashmail/misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index 7d517de..a35a614 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -188,6 +188,10 @@ bool IsArc(char *file)
    for(c=0;c<8;c++)
       if((file[c]<'0' || file[c]>'9') && ((tolower(file[c]) < 'a') || (tolower(file[c]) > 'z'))) return(FALSE);
 
+   /* The name is used in commands */
+
+   if((file[11]<'0' || file[11]>'9') && ((tolower(file[11]) < 'a') || (tolower(file[11]) > 'z'))) return(FALSE);
+
    strncpy(ext,&file[9],2);
    ext[2]=0;
 
-- 
2.43.0


From 0780babd866359eacc38e281d28e61d3b9617586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:36 +0000
Subject: [PATCH 090/107] fix: V7+ nodelists could not be read on 64-bit
 systems

---
 src/crashmail/nl_v7p.c | 44 +++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/crashmail/nl_v7p.c b/src/crashmail/nl_v7p.c
index 407d4fb..12e55b1 100644
--- a/src/crashmail/nl_v7p.c
+++ b/src/crashmail/nl_v7p.c
@@ -13,21 +13,21 @@
 
 struct v7p_ndxcontrol
 {
-   long indexstart;
-   long rootstart;
-   long lastblock;
-   long firstleaf;
-   long lastleaf;
-   long freelist;
+   int32_t indexstart;
+   int32_t rootstart;
+   int32_t lastblock;
+   int32_t firstleaf;
+   int32_t lastleaf;
+   int32_t freelist;
    uint16_t levels;
    uint16_t xor;
 };
 
 struct v7p_ndxindex
 {
-   long rectype;
-   long prev;
-   long next;
+   int32_t rectype;
+   int32_t prev;
+   int32_t next;
    short keycount;
    uint16_t keystart;
 };
@@ -36,15 +36,15 @@ struct v7p_ndxindexkey
 {
    uint16_t offset;
    uint16_t len;
-   long value;
-   long lower;
+   int32_t value;
+   int32_t lower;
 };
 
 struct v7p_ndxleaf
 {
-   long rectype;
-   long prev;
-   long next;
+   int32_t rectype;
+   int32_t prev;
+   int32_t next;
    short keycount;
    uint16_t keystart;
 };
@@ -53,7 +53,7 @@ struct v7p_ndxleafkey
 {
    uint16_t offset;
    uint16_t len;
-   long value;
+   int32_t value;
 };
 
 struct v7p_datheader
@@ -62,12 +62,12 @@ struct v7p_datheader
    short CallCost,MsgFee,NodeFlags;
 
    char ModemType;
-   char Phone_len;
-   char Password_len;
-   char Bname_len;
-   char Sname_len;
-   char Cname_len;
-   char pack_len;
+   uint8_t Phone_len;
+   uint8_t Password_len;
+   uint8_t Bname_len;
+   uint8_t Sname_len;
+   uint8_t Cname_len;
+   uint8_t pack_len;
    char BaudRate;
 };
 
@@ -108,7 +108,7 @@ int v7p_ndxcompare(char *d1,char *d2,int len)
 bool v7p_findoffset(struct Node4D *node,uint32_t *offset)
 {
    int i,res;
-   long recnum;
+   int32_t recnum;
    struct v7p_ndxindex *v7p_ndxindex;
    struct v7p_ndxindexkey *v7p_ndxindexkey;
    struct v7p_ndxleaf *v7p_ndxleaf;
-- 
2.43.0


From 2e37952d4061aa8dc2551e635c2de182ce45831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:49 +0000
Subject: [PATCH 091/107] fix: hubs and regions in V7+ nodelists were read as
 signed characters

---
 src/crashmail/nl_v7p.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/nl_v7p.c b/src/crashmail/nl_v7p.c
index 12e55b1..615ef64 100644
--- a/src/crashmail/nl_v7p.c
+++ b/src/crashmail/nl_v7p.c
@@ -179,7 +179,7 @@ bool v7p_findoffset(struct Node4D *node,uint32_t *offset)
    return(TRUE);
 }
 
-uint32_t v7p_unpack(char *dest,char *pack,uint32_t size)
+uint32_t v7p_unpack(char *dest,unsigned char *pack,uint32_t size)
 {
    uint32_t c,d;
    uint16_t w;
@@ -209,8 +209,9 @@ uint32_t v7p_unpack(char *dest,char *pack,uint32_t size)
 bool v7p_gethubregion(uint32_t datoffset,uint32_t *hub,uint32_t *region)
 {
    uint32_t dtpoffset,sum;
-   char *junk,*unpacked;
-   int sz,d,c;
+   unsigned char *junk;
+   char *unpacked;
+   uint32_t sz,d,c;
 
    osSeek(v7p_datfh,datoffset,OFFSET_BEGINNING);
 
@@ -262,7 +263,7 @@ bool v7p_gethubregion(uint32_t datoffset,uint32_t *hub,uint32_t *region)
 
    sum = v7p_datheader.Bname_len + v7p_datheader.Sname_len + v7p_datheader.Cname_len;
 
-   if(d-sum < 8)
+   if(d < sum+8)
    {
       /* not v7+ */
       osFree(junk);
-- 
2.43.0


From aefde29971e35d4437398fb4b378386069888457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 092/107] fix: BEFORETOSS commands with a long inbound path
 were cut off

---
 src/crashmail/pkt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 2ed9158..8d30543 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -86,7 +86,7 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
    struct Aka *tmpaka;
    struct ConfigNode *tmpcnode;
    uint32_t msgnum,msgoffset;
-   char buf[200];
+   char buf[200],cmd[500];
    uint8_t PktHeader[SIZE_PKTHEADER];
    uint8_t PktMsgHeader[SIZE_PKTMSGHEADER];
    struct Node4D PktOrig,PktDest;
@@ -98,8 +98,8 @@ bool ReadPkt(char *pkt,struct osFileEntry *fe,bool bundled,bool (*handlefunc)(st
 
    if(config.cfg_BeforeToss[0])
    {
-      ExpandPacker(config.cfg_BeforeToss,buf,200,"",pkt);
-      res=osExecute(buf);
+      ExpandPacker(config.cfg_BeforeToss,cmd,500,"",pkt);
+      res=osExecute(cmd);
 
       if(res != 0)
       {
-- 
2.43.0


From 1814e1b41c813b1898629b96bfaab0a0b7bc5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:11 +0000
Subject: [PATCH 093/107] fix: packets could not be created with long
 CREATEPKTDIR names

---
 src/crashmail/pkt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/pkt.c b/src/crashmail/pkt.c
index 8d30543..bc3b55f 100644
--- a/src/crashmail/pkt.c
+++ b/src/crashmail/pkt.c
@@ -592,7 +592,7 @@ void WaitPktNumber(void)
 
 struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D *orig,uint16_t type)
 {
-   char buf[100],buf2[100];
+   char buf[200],buf2[100];
    struct Pkt *pkt;
    uint32_t num;
    time_t t;
@@ -617,7 +617,7 @@ struct Pkt *CreatePkt(struct Node4D *dest,struct ConfigNode *node,struct Node4D
       num = (t<<8) + serial;
       sprintf(buf2,"%08x.newpkt",num);
       
-      MakeFullPath(config.cfg_PacketCreate,buf2,buf,100);
+      MakeFullPath(config.cfg_PacketCreate,buf2,buf,200);
    } while(osExists(buf));
 
    if(!(pkt=(struct Pkt *)osAllocCleared(sizeof(struct Pkt))))
-- 
2.43.0


From 306b7eeddb784af0d78c89dde838f0b1493ca150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:50 +0000
Subject: [PATCH 094/107] fix: leading 8-bit characters of area descriptions
 were dropped when auto-adding

---
 src/crashmail/handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 90e8257..67b8d08 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -54,7 +54,7 @@ bool GetDescription(char *area,struct ConfigNode *node,char *desc)
          {
             while(osFGets(fh,buf,199))
             {
-               for(c=0;buf[c]>32;c++);
+               for(c=0;(unsigned char)buf[c]>32;c++);
 
                if(buf[c]!=0)
                {
@@ -63,7 +63,7 @@ bool GetDescription(char *area,struct ConfigNode *node,char *desc)
                   if(stricmp(buf,area)==0)
                   {
                      c++;
-                     while(buf[c]<=32 && buf[c]!=0) c++;
+                     while((unsigned char)buf[c]<=32 && buf[c]!=0) c++;
 
                      if(buf[c]!=0)
                      {
-- 
2.43.0


From 8e4164a243b05feb503c6afee48c6ba2427ca1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:24 +0000
Subject: [PATCH 095/107] fix: text lines filling a whole text chunk were read
 past its end in netmail

---
 src/crashmail/handle.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 67b8d08..7c78b1b 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -808,7 +808,7 @@ bool IsLoopMail(struct MemMessage *mm)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-         if(tmp->Data[d]==13) d++;
+         if(d<tmp->Length) d++;
 
          if(strncmp(&tmp->Data[c],"\x01Via",4)==0)
          {
@@ -1261,8 +1261,8 @@ bool HandleNetmail(struct MemMessage *mm)
                if(chunk->Data[c]!=1)
                   istext=TRUE;
 
-               while(chunk->Data[c]!=13 && c<chunk->Length) c++;
-               if(chunk->Data[c]==13) c++;
+               while(c<chunk->Length && chunk->Data[c]!=13) c++;
+               if(c<chunk->Length) c++;
             }
       }
 
@@ -1442,7 +1442,7 @@ bool HandleNetmail(struct MemMessage *mm)
                   while(c<tmp->Length)
                   {
                      for(d=c;d<tmp->Length && tmp->Data[d]!=13;d++);
-                     if(tmp->Data[d]==13) d++;
+                     if(d<tmp->Length) d++;
 
                      if(tmp->Data[c]==1)
                      {
-- 
2.43.0


From 339bf90ee87f7f179b66cf81e998b24e0256dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:01 +0000
Subject: [PATCH 096/107] fix: do not run EXECUTE filter command when the
 message file could not be written

---
 src/crashmail/filter.c | 15 ++++++++++++---
 src/crashmail/misc.c   |  6 ++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/crashmail/filter.c b/src/crashmail/filter.c
index 023dc1e..0503f85 100644
--- a/src/crashmail/filter.c
+++ b/src/crashmail/filter.c
@@ -669,9 +669,18 @@ bool Filter_Execute(struct MemMessage *mm,char *cmd)
       origbuf,
       destbuf);
 
-   if(rfc1) WriteRFC(mm,rfcbuf1,FALSE);
-	if(rfc2) WriteRFC(mm,rfcbuf2,TRUE);
-   if(msg)  WriteMSG(mm,msgbuf);
+   if((rfc1 && !WriteRFC(mm,rfcbuf1,FALSE)) ||
+      (rfc2 && !WriteRFC(mm,rfcbuf2,TRUE)) ||
+      (msg && !WriteMSG(mm,msgbuf)))
+   {
+      LogWrite(1,SYSTEMERR,"Filter: Could not write message for external command, exiting...");
+
+      if(rfc1) osDelete(rfcbuf1);
+      if(rfc2) osDelete(rfcbuf2);
+      if(msg) osDelete(msgbuf);
+
+      return(FALSE);
+   }
 
    LogWrite(4,SYSTEMINFO,"Filter: Executing external command \"%s\"",buf);
 
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index a35a614..ab1d79a 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -833,7 +833,8 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       }
    }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
@@ -947,7 +948,8 @@ bool WriteMSG(struct MemMessage *mm,char *file)
    if(!osPutChar(fh,0))
 		{ ioerror=TRUE; ioerrornum=osError(); }
 
-   osClose(fh);
+   if(!osClose(fh))
+		{ ioerror=TRUE; ioerrornum=osError(); }
 
    if(ioerror)
       return(FALSE);
-- 
2.43.0


From 643ff684ee47f65d76bca8d00fe06c2123341262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:43 +0000
Subject: [PATCH 097/107] fix: use no data buffered before a JAM message base
 was locked

---
 src/jamlib/mbase.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jamlib/mbase.c b/src/jamlib/mbase.c
index 664f0af..7ab0af5 100644
--- a/src/jamlib/mbase.c
+++ b/src/jamlib/mbase.c
@@ -528,8 +528,15 @@ int jam_Lock( s_JamBase* Base_PS, int DoLock_I )
         return JAM_LOCK_FAILED;
     }
 
-    if ( DoLock_I )
+    if ( DoLock_I ) {
+	/* Another program may have changed the message base before we got the
+	   lock. Seek to the end of the files so that nothing that was buffered
+	   before is used. */
+	fseek( Base_PS->HdrFile_PS, 0, SEEK_END );
+	fseek( Base_PS->TxtFile_PS, 0, SEEK_END );
+	fseek( Base_PS->IdxFile_PS, 0, SEEK_END );
 	Base_PS->Locked_I = 1;
+    }
     else
 	Base_PS->Locked_I = 0;
 
-- 
2.43.0


From fd2be7042637e10ddb210a3e8afd26df4cc9441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:01 +0000
Subject: [PATCH 098/107] fix: a DOMAIN longer than its field overran the aka
 entry

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 5216af1..478cb00 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -160,7 +160,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!(jbstrcpy(LastAka->Domain,cfgbuf,200,&jbcpos)))
+         if(!(jbstrcpy(LastAka->Domain,cfgbuf,20,&jbcpos)))
          {
             strcpy(cfgerr,"Missing argument");
             osClose(cfgfh);
-- 
2.43.0


From 75833457cdeede1dcf945c581ebde5eb492d4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:14 +0000
Subject: [PATCH 099/107] fix: an empty group in GROUPNAME wrote outside the
 table of group names

---
 src/crashmail/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 478cb00..8241152 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -176,7 +176,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(!CorrectFlags(buf2))
+         if(buf2[0]==0 || !CorrectFlags(buf2))
          {
             sprintf(cfgerr,"Invalid group \"%s\"",buf2);
             osClose(cfgfh);
-- 
2.43.0


From 041226149ed4090d7efd8e8e145c1427c0c6d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:27 +0000
Subject: [PATCH 100/107] fix: long group lists of AREAFIXINFO overran the node
 entry

---
 src/crashmail/config.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index 8241152..f16bf7c 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -341,7 +341,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
-         if(jbstrcpy(LastCNode->Groups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->Groups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->Groups))
             {
@@ -351,7 +351,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->ReadOnlyGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->ReadOnlyGroups))
             {
@@ -361,7 +361,7 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             }
          }
 
-         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,70,&jbcpos))
+         if(jbstrcpy(LastCNode->AddGroups,cfgbuf,30,&jbcpos))
          {
             if(!CorrectFlags(LastCNode->AddGroups))
             {
-- 
2.43.0


From 87b3c3f07ac861d069b942960dba73347816a66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 101/107] fix: a negative or enormous JAM_MAXOPEN made the
 tosser read outside its table of open bases

---
 src/crashmail/config.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crashmail/config.c b/src/crashmail/config.c
index f16bf7c..d04bbfc 100644
--- a/src/crashmail/config.c
+++ b/src/crashmail/config.c
@@ -1812,6 +1812,13 @@ bool ReadConfig(char *filename,struct Config *cfg,short *seconderr,uint32_t *cfg
             return(FALSE);
          }
 
+         if(atoi(buf2)<0 || atoi(buf2)>10000)
+         {
+            strcpy(cfgerr,"JAM_MAXOPEN out of range");
+            osClose(cfgfh);
+            return(FALSE);
+         }
+
          cfg->cfg_jam_MaxOpen=atoi(buf2);
       }
 #endif
-- 
2.43.0


From 267bb3a6e3cd8094609214fd8fae7ccdcd5ec0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:53 +0000
Subject: [PATCH 102/107] fix: address patterns with a missing part used
 uninitialised memory

---
 src/crashmail/node4dpat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/node4dpat.c b/src/crashmail/node4dpat.c
index d27a0fe..b73dba2 100644
--- a/src/crashmail/node4dpat.c
+++ b/src/crashmail/node4dpat.c
@@ -3,7 +3,7 @@
 bool rawParse4DPat(char *buf, struct Node4DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotZone=FALSE,GotNet=FALSE,GotNode=FALSE;
 
    strcpy(node->Zone,"*");
@@ -22,6 +22,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Zone,temp);
          GotZone=TRUE;
 			tempc=0;
+			temp[0]=0;
 	   }
 		else if(buf[c]=='/')
 		{
@@ -29,6 +30,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if(buf[c]=='.')
 		{
@@ -37,6 +39,7 @@ bool rawParse4DPat(char *buf, struct Node4DPat *node)
          node->Point[0]=0;
          GotNode=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
@@ -315,7 +318,7 @@ bool Check4DPatNodelist(struct Node4DPat *pat)
 bool Parse2DPat(char *buf, struct Node2DPat *node)
 {
    uint32_t c=0,tempc=0;
-   char temp[10];
+   char temp[10]="";
    bool GotNet=FALSE;
 
    strcpy(node->Net,"*");
@@ -332,6 +335,7 @@ bool Parse2DPat(char *buf, struct Node2DPat *node)
          strcpy(node->Net,temp);
          GotNet=TRUE;
 			tempc=0;
+			temp[0]=0;
 		}
 		else if((buf[c]>='0' && buf[c]<='9') || buf[c]=='*' || buf[c]=='?')
 		{
-- 
2.43.0


From b5a9d8d9c68dbf26db1015236d1240fdfd45a12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:06 +0000
Subject: [PATCH 103/107] fix: crashexport cut the links of an area after about
 980 characters and could write past the buffer

---
 src/tools/crashexport.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashexport.c b/src/tools/crashexport.c
index 380cebe..8dca9dd 100644
--- a/src/tools/crashexport.c
+++ b/src/tools/crashexport.c
@@ -29,7 +29,7 @@ char cfgbuf[4000];
 #define AREATYPE_BAD       4
 #define AREATYPE_LOCAL     5
 
-char tagname[100],desc[100],msgbase[10],path[100],export[1000],aka[50];
+char tagname[100],desc[100],msgbase[10],path[100],export[20000],aka[50];
 char group,areatype;
 bool unconfirmed;
 
@@ -320,7 +320,7 @@ int main(int argc, char **argv)
 				
 					Print4D(&tmp4d,buf);
 					
-					if(strlen(export) < sizeof(export)-20)
+					if(strlen(export) < sizeof(export)-30)
 					{
 						if(export[0]) strcat(export," ");
       		      strcat(export,buf);
-- 
2.43.0


From d42535c957ef8d11c9c2e388db1bb45cd8bdbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:17 +0000
Subject: [PATCH 104/107] fix: two crashwrite runs in the same second could
 overwrite each other's packet

---
 src/tools/crashwrite.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tools/crashwrite.c b/src/tools/crashwrite.c
index 48c569e..77e7006 100644
--- a/src/tools/crashwrite.c
+++ b/src/tools/crashwrite.c
@@ -274,9 +274,23 @@ int main(int argc, char **argv)
 
       sprintf(pktname,"%08x.tmp",pktnum);
       MakeFullPath(args[ARG_DIR].data,pktname,tmpname,200);
-   } while(osExists(fullname) || osExists(tmpname));
 
-   if(!(ofh=osOpen(tmpname,MODE_NEWFILE)))
+      /* Another crashwrite may be looking for a free number as well */
+
+      ofh=NULL;
+
+      if(!osExists(fullname))
+      {
+         if((ofh=osOpen(tmpname,MODE_EXCLUSIVE)) && osExists(fullname))
+         {
+            osClose(ofh);
+            osDelete(tmpname);
+            ofh=NULL;
+         }
+      }
+   } while(!ofh && serial < 1000);
+
+   if(!ofh)
    {
 		uint32_t err=osError();
       printf("Unable to create packet %s\n",fullname);
-- 
2.43.0


From 4c1d71c1b91821363c123d7f0bca261859614b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:49 +0000
Subject: [PATCH 105/107] fix: control lines of more than 78 characters
 appeared in the text of the files made for %r and %R of EXECUTE

---
 src/crashmail/misc.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index ab1d79a..bb97e8c 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -767,19 +767,20 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
       while(c<tmp->Length)
       {
          for(d=c;d<tmp->Length && tmp->Data[d]!=13 && tmp->Data[d]!=10;d++);
-         if(tmp->Data[d]==13 || tmp->Data[d]==10) d++;
 
-         if(tmp->Data[c]==1 && d-c-2!=0)
+         if(tmp->Data[c]==1 && d-c>1)
          {
 				if(!osPuts(fh,"X-Fido-"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
-				if(!osWrite(fh,&tmp->Data[c+1],d-c-2))
+				if(!osWrite(fh,&tmp->Data[c+1],d-c-1))
 					{ ioerror=TRUE; ioerrornum=osError(); }
 
             if(!osPuts(fh,"\n"))
 					{ ioerror=TRUE; ioerrornum=osError(); }
          }
+
+         if(d<tmp->Length) d++;
          c=d;
       }
    }
@@ -800,7 +801,19 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
          lastspace=0;
          c=0;
 
-         while(tmp->Data[d+c]==10) d++;
+         while(d<tmp->Length && tmp->Data[d]==10) d++;
+
+         if(d==tmp->Length)
+            break;
+
+         if(tmp->Data[d]==1)
+         {
+            /* Skip kludge, however long it is */
+
+            while(d<tmp->Length && tmp->Data[d]!=13) d++;
+            if(d<tmp->Length) d++;
+            continue;
+         }
 
          while(c<78 && d+c<tmp->Length && tmp->Data[d+c]!=13)
          {
@@ -818,18 +831,15 @@ bool WriteRFC(struct MemMessage *mm,char *name,bool rfcaddr)
          {
             strncpy(buffer,&tmp->Data[d],c);
             buffer[c]=0;
-            if(tmp->Data[d+c]==13) c++;
             d+=c;
+            if(d<tmp->Length && tmp->Data[d]==13) d++;
          }
 
-         if(buffer[0]!=1)
-         {
-            if(!osPuts(fh,buffer))
-					{ ioerror=TRUE; ioerrornum=osError(); }
+         if(!osPuts(fh,buffer))
+				{ ioerror=TRUE; ioerrornum=osError(); }
 
-            if(!osPutChar(fh,'\n'))
-					{ ioerror=TRUE; ioerrornum=osError(); }
-         }
+         if(!osPutChar(fh,'\n'))
+				{ ioerror=TRUE; ioerrornum=osError(); }
       }
    }
 
-- 
2.43.0


From 65e89a118af6f5c0df81d6b1de0c347822c517fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:34 +0000
Subject: [PATCH 106/107] fix: an Origin line without an address took one from
 the line or message read before

---
 src/crashmail/misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index bb97e8c..dd3cc1d 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -608,12 +608,12 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
 
    pos++;
 
-   while(origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
+   while(origin[pos]!=0 && origin[pos]!=13 && (origin[pos]<'0' || origin[pos]>'9')) pos++;
       /* Skip (FidoNet ... ) */
 
    e=0;
 
-   while(origin[pos]!=')' && e<49)
+   while(origin[pos]!=0 && origin[pos]!=')' && e<49)
       addr[e++]=origin[pos++];
 
    addr[e]=0;
-- 
2.43.0


From d7ef8fcda51c3c9fb448f8ce6f6d888407fb9153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:50 +0000
Subject: [PATCH 107/107] fix: the rest of a long line of an area list was
 taken as another area; 8-bit area names in such lists were cut

---
 src/crashmail/areafix.c | 10 +++++-----
 src/crashmail/handle.c  |  2 +-
 src/crashmail/misc.c    | 15 +++++++++++++++
 src/crashmail/misc.h    |  1 +
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/crashmail/areafix.c b/src/crashmail/areafix.c
index 8c351a9..7f54b8b 100644
--- a/src/crashmail/areafix.c
+++ b/src/crashmail/areafix.c
@@ -1002,18 +1002,18 @@ bool AddForwardList(struct Arealist *arealist)
       return(TRUE);
    }
 
-   while(osFGets(fh,buf,199))
+   while(ReadListLine(fh,buf,199))
    {
       desc[0]=0;
 
-      for(c=0;buf[c]>32;c++);
+      for(c=0;(unsigned char)buf[c]>32;c++);
 
       if(buf[c]!=0)
       {
          buf[c]=0;
 
          c++;
-         while(buf[c]<=32 && buf[c]!=0) c++;
+         while((unsigned char)buf[c]<=32 && buf[c]!=0) c++;
 
          if(buf[c]!=0)
          {
@@ -1638,9 +1638,9 @@ struct Arealist *FindForward(char *tagname,char *flags)
       {
          if((fh=osOpen(arealist->AreaFile,MODE_OLDFILE)))
          {
-            while(osFGets(fh,buf,199))
+            while(ReadListLine(fh,buf,199))
             {
-               for(c=0;buf[c]>32;c++);
+               for(c=0;(unsigned char)buf[c]>32;c++);
                buf[c]=0;
 
                if(stricmp(buf,tagname)==0)
diff --git a/src/crashmail/handle.c b/src/crashmail/handle.c
index 7c78b1b..e08ef3f 100644
--- a/src/crashmail/handle.c
+++ b/src/crashmail/handle.c
@@ -52,7 +52,7 @@ bool GetDescription(char *area,struct ConfigNode *node,char *desc)
       {
          if((fh=osOpen(arealist->AreaFile,MODE_OLDFILE)))
          {
-            while(osFGets(fh,buf,199))
+            while(ReadListLine(fh,buf,199))
             {
                for(c=0;(unsigned char)buf[c]>32;c++);
 
diff --git a/src/crashmail/misc.c b/src/crashmail/misc.c
index dd3cc1d..5c20239 100644
--- a/src/crashmail/misc.c
+++ b/src/crashmail/misc.c
@@ -621,6 +621,21 @@ bool ExtractAddress(char *origin, struct Node4D *n4d)
    return Parse5D(addr,n4d,domain);
 }
 
+bool ReadListLine(osFile fh,char *buf,uint32_t max)
+{
+   char skip[100];
+
+   if(!osFGets(fh,buf,max))
+      return(FALSE);
+
+   /* What does not fit is not another line */
+
+   if(!strchr(buf,10))
+      while(osFGets(fh,skip,100) && !strchr(skip,10));
+
+   return(TRUE);
+}
+
 unsigned long hextodec(char *hex)
 {
    char *hextab="0123456789abcdef";
diff --git a/src/crashmail/misc.h b/src/crashmail/misc.h
index 9f68c4a..07e4e63 100644
--- a/src/crashmail/misc.h
+++ b/src/crashmail/misc.h
@@ -41,6 +41,7 @@ bool MakeNetmailKludges(struct MemMessage *mm);
 time_t FidoToTime(char *date);
 bool Parse5D(char *buf, struct Node4D *n4d, char *domain);
 bool ExtractAddress(char *origin, struct Node4D *n4d);
+bool ReadListLine(osFile fh,char *buf,uint32_t max);
 
 unsigned long hextodec(char *hex);
 
-- 
2.43.0

