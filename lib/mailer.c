/* A mailer session for the given nodes, as far as the outbound is concerned: mailer SENTDIR BASENAME...
   takes BASENAME.bsy exclusively, copies and then deletes (or truncates) what is queued for the node, releases the busy file. */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static int seq;
static int copy(const char *f,const char *sent,const char *b){ char o[400],buf[65536]; const char *n=strrchr(b,'/'); n=n?n+1:b;
   int i=open(f,O_RDONLY); if(i<0) return 0; ssize_t l=read(i,buf,sizeof buf); close(i); if(l<0) return 0;
   const char *fn=strrchr(f,'/'); fn=fn?fn+1:f;
   snprintf(o,400,"%s/%s.%d.%d.%s",sent,n,(int)getpid(),seq++,fn); int q=open(o,O_WRONLY|O_CREAT|O_TRUNC,0666); if(write(q,buf,l)!=l) exit(3); close(q); return 1; }
int main(int c,char **v){
   for(int a=2;a<c;a++){ char p[400]; snprintf(p,400,"%s.bsy",v[a]); int fd=open(p,O_CREAT|O_EXCL|O_WRONLY,0666); if(fd<0) continue; close(fd);
      const char *fl="ohdcf"; 
      for(const char *x=fl;*x;x++){ snprintf(p,400,"%s.%cut",v[a],*x); if(copy(p,v[1],v[a])) unlink(p); }
      for(const char *x=fl;*x;x++){ snprintf(p,400,"%s.%clo",v[a],*x); char buf[65536]; int i=open(p,O_RDONLY); if(i<0) continue; ssize_t l=read(i,buf,sizeof buf-1); close(i); if(l<0) l=0; buf[l]=0;
         for(char *s=strtok(buf,"\r\n");s;s=strtok(NULL,"\r\n")){ char k=strchr("^#-~",*s)?*s++:0; if(k=='~') continue; if(copy(s,v[1],v[a])){ if(k=='^') unlink(s); if(k=='#') truncate(s,0); } }
         unlink(p); }
      snprintf(p,400,"%s.bsy",v[a]); unlink(p); }
   return 0; }
