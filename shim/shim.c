/* Preloaded into the real rsh binary.  Turns the process into a fork server ("zygote") whose
 * children run the real main() with *every* system call (except private memory management)
 * forwarded to a controller over shared memory, so that nothing the shell does reaches the
 * real machine and the controller decides every outcome.  See DESIGN.md. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <linux/futex.h>
#include <sched.h>

#define NSLOT 96
#define DATASZ (256*1024)
#define CAP 65536u

struct slot {
  volatile uint32_t state;   /* 0 idle, 1 request posted, 2 reply posted */
  uint32_t kind;             /* request kind, see RQ_ */
  uint64_t nr, a[6];
  uint32_t dlen, pad;
  /* reply */
  uint32_t rkind;            /* RP_ */
  uint32_t yield_after;
  int64_t ret;
  uint64_t x0, x1, x2, x3, x4, x5;
  uint32_t npoke, pad2;
  char fill[4096-144];
};
struct shm {
  volatile uint32_t zcmd;     /* bumped by the controller to start a run */
  volatile uint32_t zack;     /* bumped by the zygote */
  uint32_t argc, envc;        /* blob of NUL terminated strings follows */
  int32_t  cpid; uint32_t ready;
  uint32_t quit; uint32_t pad;
  char blob[65536-32];
  struct slot slots[NSLOT];
  char data[NSLOT][DATASZ];
};
_Static_assert(sizeof(struct slot)==4096,"slot");

enum { RQ_SYS=1, RQ_PEEKED, RQ_SIGRET, RQ_CHILD, RQ_YIELD, RQ_UNSAFE };
enum { RP_RET=1, RP_PEEK, RP_SIG, RP_EXIT, RP_FORK };

static struct shm *S;
static struct slot *me;
static char *mydata;
static uint32_t yield_ctr;
static int in_malloc_sig, unsafe_told;

/* ---- raw system calls from a page of their own, which the filter lets through ---- */
__asm__(
".pushsection .dstsys,\"ax\",@progbits\n"
".balign 4096\n"
".globl dst_sys_start\n.hidden dst_sys_start\ndst_sys_start:\n"
".globl dst_raw\n.hidden dst_raw\n"
"dst_raw:\n"
"  mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n"
"  syscall\n  ret\n"
".globl dst_restorer\n.hidden dst_restorer\n"
"dst_restorer:\n  mov $15,%eax\n  syscall\n"
".balign 4096\n"
".globl dst_sys_end\n.hidden dst_sys_end\ndst_sys_end:\n"
".popsection\n");
extern long dst_raw(long,long,long,long,long,long,long);
extern char dst_sys_start[], dst_sys_end[], dst_restorer[];
#define RAW(n,a,b,c,d,e,f) dst_raw((long)(n),(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))

static void die(int c){ for(;;) RAW(SYS_exit_group,c,0,0,0,0,0); }

static void post_and_wait(uint32_t kind){
  me->kind = kind;
  __atomic_store_n(&me->state,1,__ATOMIC_SEQ_CST);
  RAW(SYS_futex,&me->state,FUTEX_WAKE,1,0,0,0);
  while (__atomic_load_n(&me->state,__ATOMIC_SEQ_CST)==1)
    RAW(SYS_futex,&me->state,FUTEX_WAIT,1,0,0,0);
}

/* ---- argument marshalling ---- */
enum { M_NONE, M_PATH, M_BUF, M_FIX, M_IOV, M_IOVR, M_ARGV, M_MUL8 };
struct mdesc { short nr; struct { unsigned char t,arg,x; } it[3]; };
static const struct mdesc mt[] = {
  {SYS_write,{{M_BUF,1,2}}}, {SYS_pwrite64,{{M_BUF,1,2}}}, {SYS_sendto,{{M_BUF,1,2}}},
  {SYS_open,{{M_PATH,0}}}, {SYS_openat,{{M_PATH,1}}}, {SYS_stat,{{M_PATH,0}}}, {SYS_lstat,{{M_PATH,0}}},
  {SYS_access,{{M_PATH,0}}}, {SYS_faccessat,{{M_PATH,1}}}, {439,{{M_PATH,1}}},
  {SYS_execve,{{M_PATH,0},{M_ARGV,1},{M_ARGV,2}}},
  {SYS_chdir,{{M_PATH,0}}}, {SYS_mkdir,{{M_PATH,0}}}, {SYS_rmdir,{{M_PATH,0}}}, {SYS_creat,{{M_PATH,0}}},
  {SYS_unlink,{{M_PATH,0}}}, {SYS_readlink,{{M_PATH,0}}}, {SYS_rename,{{M_PATH,0},{M_PATH,1}}},
  {SYS_truncate,{{M_PATH,0}}}, {SYS_chmod,{{M_PATH,0}}}, {SYS_chown,{{M_PATH,0}}}, {SYS_fchownat,{{M_PATH,1}}}, {SYS_fchmodat,{{M_PATH,1}}},
  {SYS_newfstatat,{{M_PATH,1}}}, {332,{{M_PATH,1}}}, {SYS_mkdirat,{{M_PATH,1}}}, {SYS_unlinkat,{{M_PATH,1}}},
  {SYS_renameat,{{M_PATH,1},{M_PATH,3}}}, {316,{{M_PATH,1},{M_PATH,3}}}, {SYS_readlinkat,{{M_PATH,1}}},
  {SYS_link,{{M_PATH,0},{M_PATH,1}}}, {SYS_symlink,{{M_PATH,0},{M_PATH,1}}},
  {SYS_mknod,{{M_PATH,0}}}, {SYS_mknodat,{{M_PATH,1}}},
  {SYS_poll,{{M_MUL8,0,1}}}, {SYS_ppoll,{{M_MUL8,0,1},{M_FIX,2,16},{M_FIX,3,8}}},
  {SYS_rt_sigaction,{{M_FIX,1,32}}}, {SYS_rt_sigprocmask,{{M_FIX,1,8}}}, {SYS_rt_sigsuspend,{{M_FIX,0,8}}},
  {SYS_rt_sigtimedwait,{{M_FIX,0,8},{M_FIX,2,16}}},
  {SYS_nanosleep,{{M_FIX,0,16}}}, {SYS_clock_nanosleep,{{M_FIX,2,16}}},
  {SYS_writev,{{M_IOV,1,2}}}, {SYS_pwritev,{{M_IOV,1,2}}}, {SYS_readv,{{M_IOVR,1,2}}}, {SYS_preadv,{{M_IOVR,1,2}}},
  {SYS_futex,{{M_FIX,0,4},{M_FIX,3,16}}},
  {SYS_select,{{M_FIX,1,128},{M_FIX,2,128},{M_FIX,4,16}}},
  {SYS_pselect6,{{M_FIX,1,128},{M_FIX,2,128},{M_FIX,4,16}}},
  {SYS_prlimit64,{{M_FIX,2,16}}}, {SYS_setrlimit,{{M_FIX,1,16}}}, {SYS_setitimer,{{M_FIX,1,32}}},
  {0}
};
static uint32_t off;
static void put32(uint32_t v){ if(off+4<=DATASZ){ memcpy(mydata+off,&v,4); off+=4; } }
static void putb(const void*p,uint32_t n){ if(off+n<=DATASZ){ memcpy(mydata+off,p,n); } off=(off+n+3)&~3u; }
static void putstr(const char*p){ if(!p){ put32(0xffffffffu); return; } uint32_t n=strlen(p); put32(n); putb(p,n); }
static void marshal(long nr){
  off=0;
  for (const struct mdesc*m=mt; m->nr; m++){
    if (m->nr!=nr) continue;
    for (int i=0;i<3 && m->it[i].t;i++){
      uint64_t v=me->a[m->it[i].arg]; uint32_t n;
      switch(m->it[i].t){
      case M_PATH: putstr((const char*)v); break;
      case M_BUF: n = me->a[m->it[i].x]>CAP?CAP:(uint32_t)me->a[m->it[i].x]; put32(n); putb((void*)v,n); break;
      case M_FIX: if(!v) put32(0xffffffffu); else { put32(m->it[i].x); putb((void*)v,m->it[i].x);} break;
      case M_MUL8: n=me->a[m->it[i].x]*8; if(n>4096)n=4096; put32(n); putb((void*)v,n); break;
      case M_IOVR: n=me->a[m->it[i].x]; if(n>64)n=64; put32(n*16); putb((void*)v,n*16); break;
      case M_IOV: { uint64_t*iv=(uint64_t*)v; n=me->a[m->it[i].x]; if(n>1024)n=1024; uint32_t p0=off; put32(0); uint32_t tot=0;
          for(uint32_t k=0;k<n && tot<CAP;k++){ uint32_t l=iv[2*k+1]>CAP-tot?CAP-tot:(uint32_t)iv[2*k+1]; if(off+l<=DATASZ) memcpy(mydata+off,(void*)iv[2*k],l); off+=l; tot+=l; }
          memcpy(mydata+p0,&tot,4); off=(off+3)&~3u; break; }
      case M_ARGV: { char**av=(char**)v; uint32_t p0=off; put32(0); uint32_t c=0; if(av) for(;av[c];c++) putstr(av[c]); memcpy(mydata+p0,&c,4); break; }
      }
    }
    break;
  }
  if (nr==SYS_ioctl){
    uint64_t rq=me->a[1];
    if (rq>=0x5402&&rq<=0x5404){ put32(36); putb((void*)me->a[2],36); }
    else if (rq==0x5410||rq==0x5421){ put32(4); putb((void*)me->a[2],4); }
  }
  me->dlen=off;
}

static long rpc(long nr,const long*a,ucontext_t*uc,uint32_t kind){
  me->nr=nr; for(int i=0;i<6;i++) me->a[i]=a?a[i]:0;
  if (kind==RQ_SYS) marshal(nr); else me->dlen=0;
  int was_yield = kind==RQ_YIELD;
  post_and_wait(kind);
  for(;;){
    switch(me->rkind){
    case RP_RET: {
      uint32_t o=0;
      for(uint32_t i=0;i<me->npoke;i++){
        uint64_t ad; uint32_t l; memcpy(&ad,mydata+o,8); memcpy(&l,mydata+o+8,4); o+=12;
        memcpy((void*)ad,mydata+o,l); o+=l;
      }
      yield_ctr=me->yield_after;
      return me->ret; }
    case RP_PEEK: {
      uint64_t l=me->x1; if(l>CAP)l=CAP; memcpy(mydata,(void*)me->x0,l); me->dlen=l;
      post_and_wait(RQ_PEEKED); break; }
    case RP_SIG: {
      int sig=(int)me->x1; yield_ctr=me->yield_after;
      void *h=(void*)me->x0; uint64_t flags=me->x2;
      if (was_yield) in_malloc_sig++;
      if (flags & SA_SIGINFO){ siginfo_t si; memset(&si,0,sizeof si); si.si_signo=sig; si.si_code=(int)me->x3; si.si_pid=(int)me->x4; ((void(*)(int,siginfo_t*,void*))h)(sig,&si,uc); }
      else ((void(*)(int))h)(sig);
      if (was_yield) in_malloc_sig--;
      me->nr=sig; me->dlen=0; yield_ctr=0;
      post_and_wait(RQ_SIGRET); break; }
    case RP_EXIT: die((int)me->ret); break;
    case RP_FORK: {
      uint64_t ns=me->x0; long pid=me->ret; uint64_t ctid=me->x1, ptid=me->x2, nsp=me->x3;
      uint32_t ya=me->yield_after;
      uint32_t ty=me->pad2;
      long r=RAW(SYS_clone,CLONE_PARENT,0,0,0,0,0);
      if (r==0){
        RAW(SYS_prctl,1/*PDEATHSIG*/,9,0,0,0,0);
        me=&S->slots[ns]; mydata=S->data[ns];
        if(ctid) *(int*)ctid=(int)pid;
        if(nsp && uc) uc->uc_mcontext.gregs[REG_RSP]=nsp;
        (void)ty;
        me->nr=(uint64_t)RAW(SYS_getpid,0,0,0,0,0,0); me->dlen=0;
        post_and_wait(RQ_CHILD);
        yield_ctr=me->yield_after;
        return 0;
      }
      if (r<0) die(97);
      if(ptid) *(int*)ptid=(int)pid;
      (void)ya; yield_ctr=0;
      /* tell the controller the real pid; it answers with RP_RET */
      me->nr=(uint64_t)r; me->dlen=0; post_and_wait(RQ_PEEKED);
      break; }
    default: die(98);
    }
  }
}

static void on_sigsys(int s,siginfo_t*si,void*ucv){
  ucontext_t*uc=ucv; greg_t*g=uc->uc_mcontext.gregs;
  long a[6]={g[REG_RDI],g[REG_RSI],g[REG_RDX],g[REG_R10],g[REG_R8],g[REG_R9]};
  long nr=si->si_syscall;
  (void)s;
  g[REG_RAX]=rpc(nr,a,uc,RQ_SYS);
}

/* ---- interposed libc entry points ---- */
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t,size_t);
extern void *__libc_realloc(void*,size_t); extern void __libc_free(void*);
static void my_yield(void){
  if (__builtin_expect(in_malloc_sig,0) && me && !unsafe_told){ unsafe_told=1; rpc(0,0,0,RQ_UNSAFE); }
  if (__builtin_expect(yield_ctr!=0,0) && --yield_ctr==0 && me) rpc(0,0,0,RQ_YIELD);
}
void *malloc(size_t n){ my_yield(); return __libc_malloc(n); }
void *calloc(size_t n,size_t m){ my_yield(); return __libc_calloc(n,m); }
void *realloc(void*p,size_t n){ my_yield(); return __libc_realloc(p,n); }
void free(void*p){ my_yield(); __libc_free(p); }

static long c2(long nr,long a,long b){ long v[6]={a,b,0,0,0,0}; return me?rpc(nr,v,0,RQ_SYS):RAW(nr,a,b,0,0,0,0); }
int clock_gettime(clockid_t c,struct timespec*t){ return (int)c2(SYS_clock_gettime,c,(long)t); }
int gettimeofday(struct timeval*restrict t,void*restrict z){ (void)z; struct timespec x; c2(SYS_clock_gettime,0,(long)&x); if(t){t->tv_sec=x.tv_sec;t->tv_usec=x.tv_nsec/1000;} return 0; }
time_t time(time_t*p){ struct timespec x; c2(SYS_clock_gettime,0,(long)&x); if(p)*p=x.tv_sec; return x.tv_sec; }

/* ---- fork server ---- */
static void install(void){
  uint64_t lo=(uint64_t)dst_sys_start, hi=(uint64_t)dst_sys_end;
  struct { uint64_t h,f,r,m; } sa={(uint64_t)on_sigsys, SA_SIGINFO|SA_NODEFER|0x04000000, (uint64_t)dst_restorer, 0};
  if (RAW(SYS_rt_sigaction,SIGSYS,&sa,0,8,0,0)) die(90);
#define LDW(o) BPF_STMT(BPF_LD|BPF_W|BPF_ABS,(o))
#define ALLOW BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_ALLOW)
#define JEQ(k,t,f) BPF_JUMP(BPF_JMP|BPF_JEQ|BPF_K,(k),(t),(f))
  static struct sock_filter f[64]; int n=0;
  /* instruction pointer inside the stub page? (the stub lies within one 4 GiB window) */
  if ((lo>>32)!=((hi-1)>>32)) die(91);
  f[n++]=(struct sock_filter)LDW(12);
  f[n++]=(struct sock_filter)JEQ((uint32_t)(lo>>32),0,4);
  f[n++]=(struct sock_filter)LDW(8);
  f[n++]=(struct sock_filter)BPF_JUMP(BPF_JMP|BPF_JGE|BPF_K,(uint32_t)lo,0,2);
  f[n++]=(struct sock_filter)BPF_JUMP(BPF_JMP|BPF_JGE|BPF_K,(uint32_t)hi,1,0);
  f[n++]=(struct sock_filter)ALLOW;
  f[n++]=(struct sock_filter)LDW(0);
  static const int ok[]={SYS_munmap,SYS_mprotect,SYS_mremap,SYS_madvise,SYS_brk,SYS_rt_sigreturn,SYS_set_robust_list,334/*rseq*/,SYS_arch_prctl,SYS_membarrier,SYS_sched_getaffinity,SYS_sched_yield};
  for (unsigned i=0;i<sizeof ok/sizeof*ok;i++){ f[n++]=(struct sock_filter)JEQ(ok[i],0,1); f[n++]=(struct sock_filter)ALLOW; }
  f[n++]=(struct sock_filter)JEQ(SYS_mmap,0,3);
  f[n++]=(struct sock_filter)LDW(16+8*3);
  f[n++]=(struct sock_filter)BPF_JUMP(BPF_JMP|BPF_JSET|BPF_K,MAP_ANONYMOUS,0,1);
  f[n++]=(struct sock_filter)ALLOW;
  f[n++]=(struct sock_filter)BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_TRAP);
  struct sock_fprog p={n,f};
  if (RAW(SYS_prctl,38,1,0,0,0,0)) die(92);
  if (RAW(SYS_seccomp,SECCOMP_SET_MODE_FILTER,0,&p,0,0,0)) die(93);
}

typedef int (*main_t)(int,char**,char**);
typedef int (*lsm_t)(main_t,int,char**,void(*)(void),void(*)(void),void(*)(void),void*);
extern void *dlsym(void*,const char*);
extern char **environ;
static char *vec[2048];

int __libc_start_main(main_t m,int argc,char**argv,void(*init)(void),void(*fini)(void),void(*rtld)(void),void*se){
  lsm_t real=(lsm_t)dlsym((void*)-1L,"__libc_start_main");
  long fd=-1; char **ev=environ;
  for(char**e=ev;e&&*e;e++) if(!strncmp(*e,"DST_SHM_FD=",11)){ fd=0; for(char*c=*e+11;*c;c++) fd=fd*10+(*c-'0'); }
  if (fd<0) return real(m,argc,argv,init,fini,rtld,se);
  long ad=RAW(SYS_mmap,0,sizeof(struct shm),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
  if (ad<0&&ad>-4096) die(94);
  S=(struct shm*)ad;
  RAW(SYS_close,fd,0,0,0,0,0);
  /* a signal mask left over from the launcher must not matter */
  uint64_t none=0; RAW(SYS_rt_sigprocmask,SIG_SETMASK,&none,0,8,0,0);
  install();
  uint32_t seen=0;
  S->ready=1; RAW(SYS_futex,&S->ready,FUTEX_WAKE,1,0,0,0);
  for(;;){
    while(S->zcmd==seen) RAW(SYS_futex,&S->zcmd,FUTEX_WAIT,seen,0,0,0);
    seen=S->zcmd;
    if (S->quit) die(0);
    long r=RAW(SYS_clone,CLONE_PARENT,0,0,0,0,0);
    if (r==0) break;
    S->cpid=(int)r;
    __atomic_store_n(&S->zack,seen,__ATOMIC_SEQ_CST);
    RAW(SYS_futex,&S->zack,FUTEX_WAKE,1,0,0,0);
  }
  RAW(SYS_prctl,1,9,0,0,0,0);
  uint32_t c=S->argc,e=S->envc; static char blob[sizeof S->blob]; memcpy(blob,S->blob,sizeof blob);
  char*p=blob; uint32_t i=0;
  for(;i<c;i++){ vec[i]=p; p+=strlen(p)+1; }
  vec[i++]=0; char**envv=vec+i;
  for(uint32_t k=0;k<e;k++){ vec[i++]=p; p+=strlen(p)+1; }
  vec[i++]=0; vec[i]=0; vec[i+1]=0;
  environ=envv;
  me=&S->slots[0]; mydata=S->data[0];
  me->nr=0; me->dlen=0; post_and_wait(RQ_CHILD); yield_ctr=me->yield_after;
  return real(m,(int)c,vec,init,fini,rtld,se);
}
