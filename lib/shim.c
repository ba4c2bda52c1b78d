/* LD_PRELOAD shim: owns time, sleeping and directory order.
   CM_TIME  : virtual epoch seconds at process start
   CM_DIRORDER : "asc" (default) or "desc"
   Virtual time advances by n on sleep(n), and by one second every CM_TICK (default 20000) time queries,
   so that busy-waiting for the next second terminates. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long long base=-1; static long calls=0, tick=20000;
static void init(void){ if(base<0){ char*e=getenv("CM_TIME"); base=e?atoll(e):1000000000LL; e=getenv("CM_TICK"); if(e) tick=atol(e);} }
static long long now(void){ init(); if(++calls>=tick){calls=0; base++;} return base; }
time_t time(time_t *t){ time_t r=(time_t)now(); if(t)*t=r; return r; }
int gettimeofday(struct timeval *tv, void *tz){ (void)tz; if(tv){tv->tv_sec=now(); tv->tv_usec=0;} return 0; }
int clock_gettime(clockid_t c, struct timespec *ts){
   static int (*real)(clockid_t,struct timespec*); 
   if(c==CLOCK_REALTIME || c==CLOCK_REALTIME_COARSE){ ts->tv_sec=now(); ts->tv_nsec=0; return 0; }
   if(!real) real=dlsym(RTLD_NEXT,"clock_gettime");
   return real(c,ts);
}
unsigned sleep(unsigned n){ init(); base+=n; return 0; }
int usleep(useconds_t n){ init(); base+= n>=1000000? n/1000000 : (n?1:0); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b){ init(); base+=a->tv_sec+(a->tv_nsec?1:0); if(b) memset(b,0,sizeof *b); return 0; }

struct D { DIR *d; struct dirent **e; int n,pos,err; struct D *next; };
static struct D *list;
static int cmp(const void*a,const void*b){
   static int desc=-1; if(desc<0){ char*e=getenv("CM_DIRORDER"); desc=(e&&!strcmp(e,"desc")); }
   int r=strcmp((*(struct dirent**)a)->d_name,(*(struct dirent**)b)->d_name); return desc?-r:r; }
DIR *opendir(const char *name){
   static DIR *(*ro)(const char*); static struct dirent *(*rr)(DIR*);
   if(!ro){ ro=dlsym(RTLD_NEXT,"opendir"); rr=dlsym(RTLD_NEXT,"readdir"); }
   DIR *d=ro(name); if(!d) return d;
   struct D *x=calloc(1,sizeof *x); x->d=d; struct dirent *e; int cap=0;
   while((errno=0,e=rr(d))){ if(x->n==cap){cap=cap?cap*2:32; x->e=realloc(x->e,cap*sizeof *x->e);} 
      struct dirent *c=malloc(sizeof *c); memcpy(c,e,e->d_reclen<sizeof *c?e->d_reclen:sizeof *c); x->e[x->n++]=c; }
   x->err=errno; qsort(x->e,x->n,sizeof *x->e,cmp); x->next=list; list=x; errno=0; return d; }
struct dirent *readdir(DIR *d){ for(struct D*x=list;x;x=x->next) if(x->d==d) { if(x->pos<x->n) return x->e[x->pos++]; if(x->err) errno=x->err; return NULL; } return NULL; }
int closedir(DIR *d){ static int (*rc)(DIR*); if(!rc) rc=dlsym(RTLD_NEXT,"closedir");
   for(struct D**p=&list;*p;p=&(*p)->next) if((*p)->d==d){ struct D*x=*p; *p=x->next; for(int i=0;i<x->n;i++) free(x->e[i]); free(x->e); free(x); break; }
   return rc(d); }
/* temporary files of the EXECUTE filter stay in the working directory */
char *tmpnam(char *s){ static int n; static char b[32]; char t[20]; if(!s) s=b; do snprintf(t,sizeof t,"tn%06d.tmp",n++); while(access(t,F_OK)==0); return strcpy(s,t); }
