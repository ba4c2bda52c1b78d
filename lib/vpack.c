/* trivial archiver: vpack a ARC FILE... appends; vpack x ARC extracts into cwd. Like zip, adding a member that is already
   there replaces it. Exit status 0/1.
   vpack d ARC extracts too, with the file times taken from the names (hex), and members named !exit N or !kill N end it there;
   vpack l LOG ... appends its arguments to LOG. */
#include <signal.h>
#include <unistd.h>
#include <utime.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static unsigned char *slurp(const char*n,size_t*l){FILE*f=fopen(n,"rb"); if(!f) return 0; size_t c=1<<16,k; unsigned char*b=malloc(c); *l=0; while((k=fread(b+*l,1,c-*l,f))>0){*l+=k; if(*l==c) b=realloc(b,c*=2);} fclose(f); return b;}
static const char*basen(const char*p){const char*s=strrchr(p,'/'); return s?s+1:p;}
int main(int c,char**v){
  if(c<3) return 2;
  if(v[1][0]=='l'){ FILE*f=fopen(v[2],"a"); if(!f) return 2; for(int i=3;i<c;i++) fprintf(f,"%s\n",v[i]); fprintf(f,"\f"); fclose(f); return 0; }
  size_t al=0; unsigned char*a=slurp(v[2],&al); int dated=v[1][0]=='d';
  if(v[1][0]=='x'||dated){
    if(!a||al<4||memcmp(a,"VPK1",4)) return 1; size_t p=4;
    while(p<al){ uint16_t n; if(p+2>al) return 1; memcpy(&n,a+p,2); char nm[300]; if(n>255||p+2+n+4>al) return 1; memcpy(nm,a+p+2,n); nm[n]=0; p+=2+n; uint32_t l; memcpy(&l,a+p,4); p+=4; if(p+l>al) return 1;
      if(strchr(nm,'/')) return 1;
      if(dated&&!strncmp(nm,"!exit ",6)) return atoi(nm+6);
      if(dated&&!strncmp(nm,"!kill ",6)){ kill(getpid(),atoi(nm+6)); return 99; }
      FILE*f=fopen(nm,"wb"); if(!f) return 1; if(fwrite(a+p,1,l,f)!=l) return 1; if(fclose(f)) return 1; p+=l;
      if(dated){ struct utimbuf u; u.actime=u.modtime=1718400000+strtoul(nm,0,16)%4096; utime(nm,&u); } }
    return 0; }
  /* add: build new archive in memory, write to temp, rename (as zip does) */
  size_t oc=16+al; for(int i=3;i<c;i++){size_t l; unsigned char*b=slurp(v[i],&l); if(!b) return 1; oc+=l+300; free(b);} 
  unsigned char*o=malloc(oc); memcpy(o,"VPK1",4); size_t ol=4;
  if(a&&al){ if(al<4||memcmp(a,"VPK1",4)) return 1; size_t p=4; while(p<al){ uint16_t n; uint32_t l; memcpy(&n,a+p,2); memcpy(&l,a+p+2+n,4); size_t rec=2+n+4+l; if(p+rec>al) return 1; int rep=0; for(int i=3;i<c;i++){const char*bn=basen(v[i]); if(strlen(bn)==n&&!memcmp(bn,a+p+2,n)) rep=1;} if(!rep){memcpy(o+ol,a+p,rec); ol+=rec;} p+=rec; } }
  for(int i=3;i<c;i++){ size_t l; unsigned char*b=slurp(v[i],&l); if(!b) return 1; const char*bn=basen(v[i]); uint16_t n=strlen(bn); uint32_t ll=l; memcpy(o+ol,&n,2); ol+=2; memcpy(o+ol,bn,n); ol+=n; memcpy(o+ol,&ll,4); ol+=4; memcpy(o+ol,b,l); ol+=l; }
  char t[400]; snprintf(t,400,"%s.vpt",v[2]); FILE*f=fopen(t,"wb"); if(!f) return 1; int bad=fwrite(o,1,ol,f)!=ol; if(fclose(f)) bad=1; if(bad){remove(t);return 1;}
  if(rename(t,v[2])){remove(t);return 1;} return 0; }
