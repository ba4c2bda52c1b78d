/* System-call supervisor (x86-64, ptrace): runs one or more processes and numbers their file-system events under ROOT.
   sup ROOT LOG CLASSES MODE [args] -- cmd... [ -- cmd... ]
   CLASSES: subset of "mordcs"  m=mutating (creating/truncating open, write, rename, unlink, mkdir, rmdir, truncate, link, utime, chmod, fork)
            o=other opens  r=reads  d=directory reads c=close s=stat/access
   MODE: count
         kill N          SIGKILL at entry of event N (the event does not happen)
         torn N B        event N (a write) transfers only B bytes, then SIGKILL
         fail N E        event N fails with errno E
         full N E        from event N on every creating open/write/mkdir/ftruncate fails with E
         short N B E     event N (a write) transfers only B bytes, the next write fails with E
         sig N S         signal S is delivered before event N
         sched P:C,P:C.. process P runs C events (C=-1: to its end) ; afterwards the processes finish in order
   LOG gets one line per event: number, process, name, path [path2], result; last lines "exit P status". */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
static char root[PATH_MAX]; static size_t rootlen; static const char *classes; static FILE *lg;
struct P { pid_t pid; int alive, status, nev, insys; char name[16],p1[PATH_MAX],p2[PATH_MAX]; int isev, inject, mod; long fake; char last[PATH_MAX]; int rep; } ps[8]; static int np;
static int total=0; static int mode=0; static long argN,argB,argE; static int nextfail=0;
enum {COUNT,KILL,TORN,FAIL,FULL,SHORT,SIG,SCHED};
static void rdstr(pid_t pid,unsigned long a,char *out){
   size_t n=0; out[0]=0; if(!a) return;
   while(n<PATH_MAX-8){ errno=0; long w=ptrace(PTRACE_PEEKDATA,pid,a+n,0); if(errno) break; memcpy(out+n,&w,8); for(int i=0;i<8;i++) if(!out[n+i]) return; n+=8; }
   out[n]=0; }
static void fdpath(pid_t pid,int fd,char *out){ char l[64]; snprintf(l,64,"/proc/%d/fd/%d",pid,fd); ssize_t n=readlink(l,out,PATH_MAX-1); out[n>0?n:0]=0; }
static void absol(pid_t pid,int dfd,char *p){
   if(p[0]=='/'||!p[0]) return; char d[PATH_MAX],r[PATH_MAX*2]; 
   if(dfd==AT_FDCWD){ char l[64]; snprintf(l,64,"/proc/%d/cwd",pid); ssize_t n=readlink(l,d,PATH_MAX-1); d[n>0?n:0]=0; } else fdpath(pid,dfd,d);
   snprintf(r,sizeof r,"%s/%s",d,p); snprintf(p,PATH_MAX,"%s",r); }
static int in(const char *p){ return strncmp(p,root,rootlen)==0; }
static int has(char c){ return strchr(classes,c)!=NULL; }
#define W_WRITE 1
#define W_CREATE 2
static int kind;
/* is this syscall an event? fills name, paths */
static int classify(struct P *p,struct user_regs_struct *r){
   pid_t pid=p->pid; long n=r->orig_rax; char c='m'; p->p1[0]=p->p2[0]=0; kind=0; int flags;
   switch(n){
   case SYS_open: case SYS_openat: case SYS_creat: {
      int dfd=n==SYS_openat?(int)r->rdi:AT_FDCWD; rdstr(pid,n==SYS_openat?r->rsi:r->rdi,p->p1); absol(pid,dfd,p->p1);
      flags=n==SYS_openat?(int)r->rdx:n==SYS_open?(int)r->rsi:(O_CREAT|O_TRUNC|O_WRONLY);
      strcpy(p->name,flags&O_TRUNC?"trunc":flags&O_CREAT?"creat":"open"); if(flags&O_DIRECTORY) return in(p->p1)&&has('d');
      if(flags&(O_CREAT|O_TRUNC)) kind=W_CREATE; else c='o'; break; }
   case SYS_write: case SYS_pwrite64: case SYS_writev: strcpy(p->name,"write"); fdpath(pid,(int)r->rdi,p->p1); kind=W_WRITE; break;
   case SYS_read: case SYS_pread64: case SYS_readv: strcpy(p->name,"read"); fdpath(pid,(int)r->rdi,p->p1); c='r'; break;
   case SYS_close: strcpy(p->name,"close"); fdpath(pid,(int)r->rdi,p->p1); c='c'; break;
   case SYS_getdents64: strcpy(p->name,"getdents"); fdpath(pid,(int)r->rdi,p->p1); c='d'; break;
   case SYS_rename: strcpy(p->name,"rename"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); rdstr(pid,r->rsi,p->p2); absol(pid,AT_FDCWD,p->p2); break;
   case SYS_renameat: case SYS_renameat2: strcpy(p->name,"rename"); rdstr(pid,r->rsi,p->p1); absol(pid,(int)r->rdi,p->p1); rdstr(pid,r->r10,p->p2); absol(pid,(int)r->rdx,p->p2); break;
   case SYS_link: strcpy(p->name,"link"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); rdstr(pid,r->rsi,p->p2); absol(pid,AT_FDCWD,p->p2); kind=W_CREATE; break;
   case SYS_linkat: strcpy(p->name,"link"); rdstr(pid,r->rsi,p->p1); absol(pid,(int)r->rdi,p->p1); rdstr(pid,r->r10,p->p2); absol(pid,(int)r->rdx,p->p2); kind=W_CREATE; break;
   case SYS_unlink: strcpy(p->name,"unlink"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); break;
   case SYS_unlinkat: strcpy(p->name,"unlink"); rdstr(pid,r->rsi,p->p1); absol(pid,(int)r->rdi,p->p1); break;
   case SYS_rmdir: strcpy(p->name,"rmdir"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); break;
   case SYS_mkdir: strcpy(p->name,"mkdir"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); kind=W_CREATE; break;
   case SYS_mkdirat: strcpy(p->name,"mkdir"); rdstr(pid,r->rsi,p->p1); absol(pid,(int)r->rdi,p->p1); kind=W_CREATE; break;
   case SYS_truncate: strcpy(p->name,"truncate"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); break;
   case SYS_ftruncate: strcpy(p->name,"truncate"); fdpath(pid,(int)r->rdi,p->p1); break;
   case SYS_symlink: strcpy(p->name,"symlink"); rdstr(pid,r->rsi,p->p1); absol(pid,AT_FDCWD,p->p1); kind=W_CREATE; break;
   case SYS_chmod: case SYS_utime: case SYS_utimes: strcpy(p->name,"meta"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); break;
   case SYS_utimensat: strcpy(p->name,"meta"); rdstr(pid,r->rsi,p->p1); absol(pid,(int)r->rdi,p->p1); break;
   case SYS_fsync: case SYS_fdatasync: strcpy(p->name,"fsync"); fdpath(pid,(int)r->rdi,p->p1); break;
   case SYS_stat: case SYS_lstat: case SYS_access: strcpy(p->name,"stat"); rdstr(pid,r->rdi,p->p1); absol(pid,AT_FDCWD,p->p1); c='s'; break;
   case SYS_newfstatat: case SYS_faccessat: case SYS_faccessat2: case SYS_statx: strcpy(p->name,"stat"); rdstr(pid,r->rsi,p->p1); if(!p->p1[0]) return 0; absol(pid,(int)r->rdi,p->p1); c='s'; break;
   case SYS_fcntl: if((int)r->rsi!=F_SETLK && (int)r->rsi!=F_SETLKW && (int)r->rsi!=37 && (int)r->rsi!=38) return 0; { long w=ptrace(PTRACE_PEEKDATA,pid,r->rdx,0); strcpy(p->name,(short)w==F_UNLCK?"unlock":"lock"); } fdpath(pid,(int)r->rdi,p->p1); break;
   case SYS_flock: strcpy(p->name,"lock"); fdpath(pid,(int)r->rdi,p->p1); break;
   case SYS_fork: case SYS_vfork: case SYS_clone: case 435: strcpy(p->name,"fork"); snprintf(p->p1,PATH_MAX,"%s/",root); return has('m');
   case SYS_wait4: strcpy(p->name,"waited"); snprintf(p->p1,PATH_MAX,"%s/",root); return 0;
   default: return 0; }
   if(!in(p->p1) && !in(p->p2)) return 0;
   return has(c); }
static void finish(struct P *p,int st){ p->alive=0; p->status=st; fprintf(lg,"exit %d %d\n",(int)(p-ps),WIFEXITED(st)?WEXITSTATUS(st):-WTERMSIG(st)); }
/* run p until its next event is about to happen (stopped at entry) or it ends; returns 1 if stopped at an event */
static int toevent(struct P *p){
   int sig=0;
   if(p->insys==2) return 1;
   for(;;){
      if(ptrace(PTRACE_SYSCALL,p->pid,0,sig)<0){ int st; if(waitpid(p->pid,&st,__WALL)==p->pid) finish(p,st); else finish(p,0); return 0; }
      sig=0; int st; if(waitpid(p->pid,&st,__WALL)<0){ finish(p,0); return 0; }
      if(WIFEXITED(st)||WIFSIGNALED(st)){ finish(p,st); return 0; }
      if(!WIFSTOPPED(st)) continue;
      int s=WSTOPSIG(st);
      if(s==(SIGTRAP|0x80)){
         struct user_regs_struct r; ptrace(PTRACE_GETREGS,p->pid,0,&r);
         if(!p->insys){ p->insys=1; p->isev=classify(p,&r); if(p->isev){ p->insys=2; return 1; } }
         else p->insys=0;
      } else if(s==SIGTRAP) { if((st>>16)==0) sig=0; }
      else sig=s; } }
/* let the event at which p is stopped happen (or apply the fault). returns 0 if the process was killed */
static int doevent(struct P *p){
   struct user_regs_struct r; long n=++total; p->nev++; int st; long sig=0;
   ptrace(PTRACE_GETREGS,p->pid,0,&r); struct user_regs_struct o=r;
   int k=0; { char n0[16],a[8]; (void)a; strcpy(n0,p->name); k=!strcmp(n0,"write")?W_WRITE:(!strcmp(n0,"trunc")||!strcmp(n0,"creat")||!strcmp(n0,"mkdir")||!strcmp(n0,"link")||!strcmp(n0,"symlink"))?W_CREATE:0; }
   if(mode==KILL && n==argN){ fprintf(lg,"%ld %d %s %s %s KILLED\n",n,(int)(p-ps),p->name,p->p1+rootlen,p->p2[0]?p->p2+rootlen:""); kill(p->pid,SIGKILL); waitpid(p->pid,&st,__WALL); finish(p,st); return 0; }
   int inj=0; long err=0;
   if(mode==FAIL && n==argN){ inj=1; err=argE; }
   if(mode==FULL && n>=argN && (k==W_WRITE || k==W_CREATE)){ int exist= k==W_CREATE && strcmp(p->name,"mkdir") && access(p->p1,F_OK)==0; if(!exist){ inj=1; err=argE; } }
   if(nextfail && k==W_WRITE){ inj=1; err=argE; nextfail=0; }
   if((mode==SHORT||mode==TORN) && n==argN && k==W_WRITE && (long)r.rdx>argB && r.orig_rax!=SYS_writev){ r.rdx=argB; ptrace(PTRACE_SETREGS,p->pid,0,&r); if(mode==SHORT) nextfail=1; }
   if(mode==SIG && n==argN) kill(p->pid,(int)argE);
   if(inj){ r.orig_rax=-1; ptrace(PTRACE_SETREGS,p->pid,0,&r); }
   for(;;){
      if(ptrace(PTRACE_SYSCALL,p->pid,0,sig)<0 || waitpid(p->pid,&st,__WALL)<0){ finish(p,0); return 0; }
      sig=0;
      if(WIFEXITED(st)||WIFSIGNALED(st)){ finish(p,st); return 0; }
      if(WIFSTOPPED(st)&&WSTOPSIG(st)==(SIGTRAP|0x80)) break;
      if(WIFSTOPPED(st)&&WSTOPSIG(st)!=SIGTRAP) sig=WSTOPSIG(st); }
   p->insys=0;
   struct user_regs_struct x; ptrace(PTRACE_GETREGS,p->pid,0,&x);
   if(inj){ x.rax=-err; ptrace(PTRACE_SETREGS,p->pid,0,&x); }
   if(r.rdx!=o.rdx){ x.rdx=o.rdx; ptrace(PTRACE_SETREGS,p->pid,0,&x); }
   fprintf(lg,"%ld %d %s %s %s %ld%s\n",n,(int)(p-ps),p->name,p->p1+rootlen,p->p2[0]?p->p2+rootlen:"-",(long)x.rax,inj?" INJECTED":"");
   size_t ln=strlen(p->p1); if(ln>5 && !inj && !strcmp(p->p1+ln-5,".busy") && !strcmp(p->p1,p->last)) p->rep++; else if(!inj) p->rep=0;
   strcpy(p->last,p->p1);
   if(mode==TORN && n==argN){ kill(p->pid,SIGKILL); waitpid(p->pid,&st,__WALL); finish(p,st); return 0; }
   return 1; }
int main(int argc,char **argv){
   if(argc<6) return 98;
   if(!realpath(argv[1],root)) return 98; rootlen=strlen(root); lg=fopen(argv[2],"we"); if(!lg) return 98; classes=argv[3];
   int i=4; const char *m=argv[i++]; char *sched=NULL;
   if(!strcmp(m,"count")) mode=COUNT;
   else if(!strcmp(m,"kill")) mode=KILL,argN=atol(argv[i++]);
   else if(!strcmp(m,"torn")) mode=TORN,argN=atol(argv[i]),argB=atol(argv[i+1]),i+=2;
   else if(!strcmp(m,"fail")) mode=FAIL,argN=atol(argv[i]),argE=atol(argv[i+1]),i+=2;
   else if(!strcmp(m,"full")) mode=FULL,argN=atol(argv[i]),argE=atol(argv[i+1]),i+=2;
   else if(!strcmp(m,"sig")) mode=SIG,argN=atol(argv[i]),argE=atol(argv[i+1]),i+=2;
   else if(!strcmp(m,"short")) mode=SHORT,argN=atol(argv[i]),argB=atol(argv[i+1]),argE=atol(argv[i+2]),i+=3;
   else if(!strcmp(m,"sched")) mode=SCHED,sched=argv[i++];
   else return 98;
   while(i<argc){
      if(strcmp(argv[i],"--")) return 98;
      char **cmd=&argv[++i]; while(i<argc && strcmp(argv[i],"--")) i++;
      int more=i<argc; if(more) argv[i]=NULL;
      struct P *p=&ps[np++]; p->pid=fork();
      if(p->pid==0){ char e[16]; if(np>1){ char b[PATH_MAX]; snprintf(b,PATH_MAX,"%s.out",argv[2]); int f=open(b,O_WRONLY|O_CREAT|O_TRUNC,0666); dup2(f,1); dup2(f,2); (void)e; }
         ptrace(PTRACE_TRACEME,0,0,0); raise(SIGSTOP); execv(cmd[0],cmd); _exit(127); }
      p->alive=1; int st; waitpid(p->pid,&st,__WALL); ptrace(PTRACE_SETOPTIONS,p->pid,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_EXITKILL|PTRACE_O_TRACEEXEC);
      if(more) argv[i]="--"; }
   /* a process that keeps asking for the same lock file waits: the others go on */
#define WAITING(p) ((p)->rep>=6)
   if(sched){ char *s=sched; while(s&&*s){ int q=atoi(s); char *c=strchr(s,':'); long cnt=c?atol(c+1):-1; struct P *p=&ps[q]; p->rep=0;
         while(p->alive && cnt!=0 && !WAITING(p)){ if(!toevent(p)) break; doevent(p); if(cnt>0) cnt--; }
         fprintf(lg,"switch %d %d\n",q,p->nev);
         s=strchr(s,','); if(s) s++; } }
   for(;;){ int alive=0,ended=0;
      for(int q=0;q<np;q++){ struct P *p=&ps[q]; if(!p->alive) continue; p->rep=0; 
         while(p->alive && !WAITING(p)){ if(!toevent(p)) break; doevent(p); }
         if(p->alive) alive++; else ended++; }
      if(!alive) break;
      if(!ended){ fprintf(lg,"waiting\n"); for(int q=0;q<np;q++) if(ps[q].alive){ kill(ps[q].pid,SIGKILL); int st; waitpid(ps[q].pid,&st,__WALL); finish(&ps[q],st); } break; } }
   fclose(lg); int st=ps[0].status; return WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); }
