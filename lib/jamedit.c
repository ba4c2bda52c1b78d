/* Another program working on a JAM base by the JAM rules (lock byte 0 of the .jhr file, change, unlock):
   jamedit BASE add TEXT ATTR | attr NUM BITS | del NUM | hold X (until the end of standard input)
   exit 0 done, 3 base locked by somebody else, 4 no usable base, 5 error */
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int op(const char *b,const char *e){ char p[400]; snprintf(p,400,"%s%s",b,e); return open(p,O_RDWR); }
static uint32_t g(const unsigned char *p){ return p[0]|p[1]<<8|p[2]<<16|(uint32_t)p[3]<<24; }
static void s(unsigned char *p,uint32_t v){ p[0]=v; p[1]=v>>8; p[2]=v>>16; p[3]=v>>24; }
static uint32_t crc(const char *t){ uint32_t c=0xffffffff; for(;*t;t++){ unsigned char x=*t; if(x>='A'&&x<='Z') x+=32; c^=x; for(int i=0;i<8;i++) c=c&1?c>>1^0xedb88320:c>>1; } return c; }
static size_t sub(unsigned char *p,int id,const char *t){ p[0]=id; p[1]=id>>8; p[2]=p[3]=0; s(p+4,strlen(t)); memcpy(p+8,t,strlen(t)); return 8+strlen(t); }
static void lk(int fd,int ty){ struct flock f; memset(&f,0,sizeof f); f.l_type=ty; f.l_whence=SEEK_SET; f.l_start=0; f.l_len=1; if(fcntl(fd,F_SETLK,&f)<0) exit(errno==EAGAIN||errno==EACCES?3:5); }
int main(int c,char **v){
   if(c<4) return 5;
   int h=op(v[1],".jhr"),t=op(v[1],".jdt"),x=op(v[1],".jdx"); if(h<0||t<0||x<0) return 4;
   lk(h,F_WRLCK);
   if(!strcmp(v[2],"hold")){ char q; if(write(1,"L",1)!=1) return 5; while(read(0,&q,1)>0); return 0; }
   unsigned char b[1024],m[2048]; if(pread(h,b,1024,0)!=1024||memcmp(b,"JAM",4)) return 4;
   off_t hl=lseek(h,0,SEEK_END),tl=lseek(t,0,SEEK_END),xl=lseek(x,0,SEEK_END); if(xl%8) return 5;
   if(!strcmp(v[2],"add")){
      memset(m,0,sizeof m); memcpy(m,"JAM",4); m[4]=1; size_t n=76; n+=sub(m+n,2,"Ed Itor"); n+=sub(m+n,3,"Some Body"); n+=sub(m+n,6,v[3]); n+=sub(m+n,0,"1:1/1"); 
      s(m+8,n-76); s(m+16,-1); s(m+20,-1); s(m+36,1704110400); s(m+44,1704110400); s(m+48,g(b+20)+xl/8); s(m+52,strtoul(v[4],0,0)); s(m+60,tl); char tx[500]; int l=snprintf(tx,500,"BEGIN-%s  END-%s\r",v[3],v[3]); s(m+64,l); s(m+68,-1);
      unsigned char i[8]; s(i,crc("Some Body")); s(i+4,hl);
      if(pwrite(t,tx,l,tl)!=l||pwrite(h,m,n,hl)!=(ssize_t)n||pwrite(x,i,8,xl)!=8) return 5; s(b+12,g(b+12)+1);
   } else {
      uint32_t num=strtoul(v[3],0,0)-g(b+20); unsigned char i[8]; if(pread(x,i,8,num*8)!=8) return 4; off_t o=g(i+4); if(pread(h,m,76,o)!=76) return 4;
      uint32_t a=g(m+52); if(!strcmp(v[2],"del")){ if(a&0x80000000) return 4; s(m+52,a|0x80000000); s(b+12,g(b+12)-1); } else s(m+52,a|strtoul(v[4],0,0));
      if(pwrite(h,m,76,o)!=76) return 5; }
   s(b+8,g(b+8)+1); if(pwrite(h,b,1024,0)!=1024) return 5;
   lk(h,F_UNLCK); return 0; }
