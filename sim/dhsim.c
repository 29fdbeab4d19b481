/*
 * dhsim -- deterministic simulator for dieharder.
 *
 * All of dieharder's and libdieharder's object code runs unmodified inside
 * one process; every libc / GSL entry point through which the outside world
 * (files, pipes, devices, clock, entropy, heap, process exit) reaches it is
 * redirected (objcopy --redefine-sym, see build.py) to the sim_* functions
 * below, which implement a small simulated kernel.  A run is a pure function
 * of (code, plan text).  Nothing here reads a real clock or real randomness.
 *
 * Server protocol (stdin/stdout of this process, both length prefixed):
 *   request : "<len>\n" + plan text
 *   reply   : "<len>\n" + result text/blobs
 * Each plan runs in a forked child, so runs cannot influence each other.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <malloc.h>
#include <limits.h>
#include <getopt.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/random.h>
#include <sys/personality.h>
#include <stddef.h>
#include <time.h>
#include <gsl/gsl_rng.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/utsname.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

/* ------------------------------------------------------------------ repo */
typedef struct {
  char *name, *sname, *description;
  unsigned int psamples_std, tsamples_std, nkps;
  int (*test)();
  void *targs;
} SimDtest;   /* layout checked against the repo's Dtest in simrepo.c */

extern int dh_main(int, char **);
/* implemented in simrepo.c, which includes the repo's own headers */
void simrepo_parse(int argc, char **argv);
void simrepo_choose(void);
void simrepo_test(int n);
void simrepo_all(void);
int  simrepo_set(const char *name, const char *val);
void simrepo_rngset(unsigned long s);
unsigned long simrepo_draw(void);
double simrepo_uniform(void);
unsigned simrepo_bits(unsigned n); void simrepo_wbits(unsigned n,unsigned *r);
unsigned simrepo_uint(void);
void simrepo_resetbits(void);
int simrepo_have_rng(void);
unsigned long simrepo_rngmax(void);
unsigned long simrepo_random_seed(void);
unsigned long simrepo_seedvar(void);
unsigned simrepo_sbits(unsigned,unsigned); void simrepo_install_types(const gsl_rng_type *scripted);
void simrepo_scale_tests(double ts, double ps, unsigned ts_cap);
void simrepo_lib(int argc, char **argv); void simrepo_drop_test(int n);
long simrepo_rtot(void); long simrepo_rewinds(void);

/* ------------------------------------------------------- result region */
#define OUTCAP   (24u<<20)
#define ERRCAP   (1u<<20)
#define NOTECAP  (4u<<20)
#define LOGCAP   (1u<<20)
enum { K_NONE=0, K_EXIT, K_SIGNAL, K_BUDGET, K_UNMODELLED };
typedef struct {
  int kind; int code; char why[160];
  uint64_t outlen, errlen, notelen, loglen;      /* stored */
  uint64_t outtotal, errtotal, outhash;
  uint64_t steps, draws, events, trace, clock_us_start; int64_t clock_us;
  uint64_t simtime_us, scrpos, scrmax;
  uint64_t live_alloc, live_bytes, nmalloc;
  int open_fds, max_fds;
  int flush_failed;
  char out[OUTCAP]; char err[ERRCAP]; char note[NOTECAP]; char log[LOGCAP];
} Shared;
static Shared *S;

static uint64_t fnv(uint64_t h, const void *p, size_t n){
  const unsigned char *c=p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ULL;} return h; }
static uint64_t mix64(uint64_t z){
  z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
/* random-access splitmix */
static uint64_t smx(uint64_t seed, uint64_t i){ return mix64(seed + (i+1)*0x9e3779b97f4a7c15ULL); }

/* ----------------------------------------------------------- streams */
static unsigned char *abuf(size_t n); static unsigned char *agrow(unsigned char *o,size_t ol,size_t n);
typedef struct {
  int kind;              /* 'h' bytes, 's' splitmix, 'c' const, 'n' counter, 'p' periodic, 'l' low-entropy */
  uint64_t seed, period; uint32_t word, step;
  int inf; uint64_t len; /* bytes */
  unsigned char *buf; size_t cap;      /* kind 'h' and writable files */
} Stream;
static uint32_t stream_word(const Stream *s, uint64_t i){
  switch(s->kind){
    case 's': return (uint32_t)(smx(s->seed,i)>>32);
    case 'c': return s->word;
    case 'n': return (uint32_t)(s->word + s->step*(uint32_t)i);
    case 'p': return (uint32_t)(smx(s->seed,i%s->period)>>32);
    case 'l': { uint64_t z=smx(s->seed,i); /* sparse/biased words */
                return (uint32_t)(z>>32)&(uint32_t)z&(uint32_t)smx(s->seed^77,i); }
    case 'H': { uint64_t z=smx(s->seed,i); return (uint32_t)(z>>32)|(uint32_t)z|(uint32_t)smx(s->seed^77,i); }
    case 'e': { /* random words mixed with words of unusual shape */
                static const uint32_t sp[8]={0,1,0xffffffffu,0x80000000u,0x7fffffffu,10,0x0a0d0a23u,0x000000ffu};
                uint64_t z=smx(s->seed,i); return (z&7)==0 ? sp[(z>>3)&7] : (uint32_t)(z>>32); }
    case 'a': return (i&1)? s->step : s->word;
    case 'v': { uint32_t x=s->word+s->step*(uint32_t)i, r=0; for(int k=0;k<32;k++) r|=((x>>k)&1u)<<(31-k); return r; } /* bits of a counter reversed: evenly spread */
    case 'q': return (uint32_t)(s->word*(uint32_t)i*(uint32_t)i + s->step*(uint32_t)i + (uint32_t)s->seed); /* quadratic */
    case 'b': return ((uint32_t)(smx(s->seed,i)>>32) & s->word) | (s->step & ~s->word);           /* only some bits vary */
    case 'r': return (uint32_t)(smx(s->seed,i/s->period)>>32);                                    /* every word repeated */
    case 'm': { /* segments of different character */
                uint64_t z=smx(s->seed^0x5555,i/s->period);
                switch(z&7){ case 0: return 0; case 1: return 0xffffffffu; case 2: return (uint32_t)(z>>32); case 3: return (uint32_t)i*(uint32_t)(z>>32);
                  case 4: return (uint32_t)(smx(s->seed,i%(1+((z>>8)&63)))>>32); default: return (uint32_t)(smx(s->seed,i)>>32); } }
    case 'z': { uint64_t z=smx(s->seed,i); return (z&15)<s->period ? s->word : (uint32_t)(z>>32); }   /* one word again and again, others between */
    case 'x': { /* prefix of splitmix words then constant */
                return i<s->period ? (uint32_t)(smx(s->seed,i)>>32) : s->word; }
  }
  return 0;
}
static size_t stream_read(const Stream *s, uint64_t off, unsigned char *dst, size_t n){
  if(!s->inf){ if(off>=s->len) return 0; if(n>s->len-off) n=(size_t)(s->len-off); }
  if(s->kind=='h'){ memcpy(dst,s->buf+off,n); return n; }
  size_t k=0;
  while(k<n){
    uint64_t i=(off+k)/4; unsigned b=(off+k)%4;
    uint32_t w=stream_word(s,i);
    for(;b<4&&k<n;b++,k++) dst[k]=(unsigned char)(w>>(8*b));
  }
  return n;
}
static void stream_materialise(Stream *s){
  if(s->kind=='h') return;
  size_t n=s->inf?0:(size_t)s->len; unsigned char *b=abuf(n?n:1);
  stream_read(s,0,b,n); s->buf=b; s->cap=n; s->len=n; s->inf=0; s->kind='h';
}
static void sb_add(Stream *o,const char *fmt,...){
  char t[256]; va_list ap; va_start(ap,fmt); int n=vsnprintf(t,sizeof t,fmt,ap); va_end(ap);
  if(o->len+n>o->cap){ o->cap=(o->len+n)*2+4096; o->buf=agrow(o->buf,o->len,o->cap); }
  memcpy(o->buf+o->len,t,n); o->len+=n;
}
/* spec grammar: see DESIGN.md
 *   h:<hex>  s:<seed>:<n>  c:<word>:<n>  n:<start>:<step>:<n>  p:<seed>:<period>:<n>
 *   l:<seed>:<n>  H:<seed>:<n>  a:<w0>:<w1>:<n>  x:<seed>:<k>:<word>:<n>
 *   q:<a>:<b>:<c>:<n> (a i^2 + b i + c)  b:<seed>:<mask>:<word>:<n>  r:<seed>:<times>:<n>  m:<seed>:<segment>:<n>
 *   A:<type>:<count>:<numbit>:<wordspec>   ASCII generator file (count -1: true count)
 *   T:<hex>  same as h (kept apart for readability);  n == inf allowed for raw words
 *   +<trim> suffix "~<bytes>" trims the final byte length
 */
static uint64_t pn(const char *s,int *inf){ if(!strncmp(s,"inf",3)){*inf=1;return 0;} *inf=0; return strtoull(s,0,0); }
static int hexd(char c){ return c>='a'?c-'a'+10:c>='A'?c-'A'+10:c-'0'; }
static void parse_stream(const char *spec, Stream *s){
  memset(s,0,sizeof *s);
  char *d=strdup(spec); char *trim=strchr(d,'~'); if(trim){*trim=0;trim++;}
  int inf=0; uint64_t n=0; char k=d[0]; char *p=d+2;
  if(k=='A'){
    char ty=p[0]; char *q=strchr(p,':')+1; long cnt=strtol(q,0,0); q=strchr(q,':')+1; int nb=atoi(q); q=strchr(q,':')+1;
    Stream w; parse_stream(q,&w); uint64_t m=w.len/4; memset(s,0,sizeof *s); s->kind='h';
    sb_add(s,"#==== simulated file ====\n# comment line\ntype: %c\ncount: %ld\nnumbit: %d\n",ty,cnt<0?(long)m:cnt,nb);
    for(uint64_t i=0;i<m;i++){ unsigned char b4[4]; stream_read(&w,i*4,b4,4);
      uint32_t v=b4[0]|b4[1]<<8|b4[2]<<16|(uint32_t)b4[3]<<24;
      switch(ty){
        case 'x': sb_add(s,"%x\n",v); break;
        case 'X': sb_add(s,"%X\n",v); break;
        case 'o': sb_add(s,"%o\n",v); break;
        case 'b': { char t[40]; for(int j=0;j<nb;j++) t[j]='0'+((v>>(nb-1-j))&1); t[nb]=0; sb_add(s,"%s\n",t); break; }
        case 'f': case 'F': case 'e': case 'E': case 'g': sb_add(s,"%.12f\n",((double)v+0.5)/4294967296.0); break;
        default: sb_add(s,"%10u\n",v);
      } }
  } else if(k=='h'||k=='T'){
    size_t L=strlen(p)/2; s->kind='h'; s->buf=abuf(L+1); s->cap=L; s->len=L;
    for(size_t i=0;i<L;i++) s->buf[i]=(hexd(p[2*i])<<4)|hexd(p[2*i+1]);
  } else {
    s->kind=k; char *f[6]; int nf=0; char *sv2; for(char *t=strtok_r(p,":",&sv2);t&&nf<6;t=strtok_r(0,":",&sv2)) f[nf++]=t;
    switch(k){
      case 's': case 'e': case 'l': case 'H': s->seed=strtoull(f[0],0,0); n=pn(f[1],&inf); break;
      case 'c': s->word=strtoul(f[0],0,0); n=pn(f[1],&inf); break;
      case 'v':
      case 'n': s->word=strtoul(f[0],0,0); s->step=strtoul(f[1],0,0); n=pn(f[2],&inf); break;
      case 'a': s->word=strtoul(f[0],0,0); s->step=strtoul(f[1],0,0); n=pn(f[2],&inf); break;
      case 'q': s->word=strtoul(f[0],0,0); s->step=strtoul(f[1],0,0); s->seed=strtoull(f[2],0,0); n=pn(f[3],&inf); break;
      case 'b': s->seed=strtoull(f[0],0,0); s->word=strtoul(f[1],0,0); s->step=strtoul(f[2],0,0); n=pn(f[3],&inf); break;
      case 'r': case 'm': case 'p': s->seed=strtoull(f[0],0,0); s->period=strtoull(f[1],0,0); n=pn(f[2],&inf); break;
      case 'z':
      case 'x': s->seed=strtoull(f[0],0,0); s->period=strtoull(f[1],0,0); s->word=strtoul(f[2],0,0); n=pn(f[3],&inf); break;
    }
    s->inf=inf; s->len=n*4;
  }
  if(trim){ long t=atol(trim); if(!s->inf && s->len>=(uint64_t)t) s->len-=t; }
  free(d);
}

/* --------------------------------------------------------------- kernel */
#define MAXN 64
#define MAXFD 4096
#define MAXFAULT 256
enum { OP_OPEN,OP_READ,OP_WRITE,OP_CLOSE,OP_STAT,OP_SEEK,OP_MALLOC,OP_CLOCK,OP_NOPS };
static const char *opname[]={"open","read","write","close","stat","seek","malloc","clock"};
typedef struct Node {
  char path[1100]; char kind;  /* r regular, d directory, p fifo/pipe, c char dev, x missing */
  Stream s; uint64_t nth[OP_NOPS]; uint64_t rbytes,wbytes; uint64_t opens_w,opens_r;
  uint64_t pipe_off; int chunk_max; uint64_t chunk_seed; int64_t lat_us; uint64_t lat_seed;
  int ro; int seeded; int dev; int modified;
} Node;
#define nodes (X->nodes_)
#define nnodes (X->nnodes_)
typedef struct { int used; Node *n; uint64_t off; int fl; FILE *fp; } Fd;
static Fd fds[MAXFD]; static int fdlimit=1024;
typedef struct { char res[1100]; int op; uint64_t nth; char eff[32]; long arg; long count; uint64_t fired; } Fault;
#define faults (X->faults_)
#define nfaults (X->nfaults_)
/* second shared region: readable by the server after the child is gone */
typedef struct { Node nodes_[MAXN]; int nnodes_; Fault faults_[MAXFAULT]; int nfaults_; uint64_t arena_used; } Shared2;
static Shared2 *X; static unsigned char *arena; static const size_t ARENA=512u<<20;
static unsigned char *abuf(size_t n){ n=(n+63)&~(size_t)63; if(X->arena_used+n>ARENA) _exit(8); unsigned char *p=arena+X->arena_used; X->arena_used+=n; return p; }
static unsigned char *agrow(unsigned char *o,size_t ol,size_t n){ unsigned char *p=abuf(n); if(o&&ol) memcpy(p,o,ol); return p; }
static int64_t now_us=1700000000LL*1000000; static int64_t draw_cost_ns=100; static int64_t ns_acc;
static int64_t clock_call_cost_us=0;
static uint64_t max_steps=50000000ULL,max_draws=200000000ULL;
static uint64_t disk_free=~0ULL; static int sigpipe_ignored=0;
static int logging=0; static int in_sim=0;
static int in_repo=0;
static uint64_t heap_nth; static int tiny_std=0; static double kts=1,kps=1; static unsigned ktscap=0;
static int clock_frozen=0; static int kskip[32],nkskip;
static int junk=-1; static int shift_=0; /* moves stack and heap addresses, as ASLR would */
static Stream scripted; static uint64_t scripted_pos; static int have_scripted=0; static int scripted_eof_loop=1;
static int asan_report=0;

static int unmodelled_n=0;

static void finish(int kind,int code,const char *why){
  S->kind=kind; S->code=code; snprintf(S->why,sizeof S->why,"%s",why?why:"");
  S->clock_us=now_us; int c=0; for(int i=0;i<MAXFD;i++) if(fds[i].used) c++; S->open_fds=c;
  _exit(0);
}
void sim_nomodel(void){ finish(K_UNMODELLED,8,"interface"); }
static void logev(const char *fmt,...){
  if(!logging) return;
  char t[256]; va_list ap; va_start(ap,fmt); int n=vsnprintf(t,sizeof t,fmt,ap); va_end(ap);
  if(n>255)n=255; if(S->loglen+n+1<LOGCAP){ memcpy(S->log+S->loglen,t,n); S->loglen+=n; S->log[S->loglen++]='\n'; }
}
static void note(const char *fmt,...){
  char t[2048]; va_list ap; va_start(ap,fmt); int n=vsnprintf(t,sizeof t,fmt,ap); va_end(ap);
  if(n>2047)n=2047; if(S->notelen+n+1<NOTECAP){ memcpy(S->note+S->notelen,t,n); S->notelen+=n; S->note[S->notelen++]='\n'; }
}
static void event(const char *res,int op,uint64_t nth,int64_t ret,int err){
  S->events++;
  uint64_t h=S->trace; h=fnv(h,res,strlen(res)); h=fnv(h,&op,sizeof op); h=fnv(h,&nth,sizeof nth);
  h=fnv(h,&ret,sizeof ret); h=fnv(h,&err,sizeof err); S->trace=h;
  logev("t=%lld %s %s #%llu -> %lld%s%s",(long long)(now_us),res,opname[op],(unsigned long long)nth,(long long)ret,
        err?" errno=":"",err?strerrorname_np(err):"");
  if(++S->steps>max_steps) finish(K_BUDGET,1,"steps");
}
static Fault *fault(Node *n,int op,uint64_t nth){
  for(int i=0;i<nfaults;i++){ Fault *f=&faults[i];
    if(f->op!=op||strcmp(f->res,n->path)) continue;
    if(nth>=f->nth && (f->count<0 || nth<f->nth+(uint64_t)f->count)){ f->fired++; if(!strcmp(f->eff,"kill")) finish(K_BUDGET,10,"kill"); return f; } }
  return 0;
}
static int errno_by_name(const char *e){
  static const struct{const char*n;int v;} T[]={{"EIO",EIO},{"ENOSPC",ENOSPC},{"EPIPE",EPIPE},{"ENOENT",ENOENT},{"EACCES",EACCES},
   {"EMFILE",EMFILE},{"ENFILE",ENFILE},{"EINTR",EINTR},{"EAGAIN",EAGAIN},{"ENOMEM",ENOMEM},{"EDQUOT",EDQUOT},{"EFBIG",EFBIG},
   {"EISDIR",EISDIR},{"ESPIPE",ESPIPE},{"EBADF",EBADF},{"EROFS",EROFS},{"ELOOP",ELOOP},{"EOVERFLOW",EOVERFLOW},{"ENXIO",ENXIO},{"ECONNRESET",ECONNRESET},
   {"ETIMEDOUT",ETIMEDOUT},{"ESTALE",ESTALE},{"ENODEV",ENODEV},{"EPERM",EPERM},{"ENAMETOOLONG",ENAMETOOLONG},{"EINVAL",EINVAL},{"ENOTDIR",ENOTDIR},{"EBUSY",EBUSY},{0,0}};
  for(int i=0;T[i].n;i++) if(!strcmp(T[i].n,e)) return T[i].v;
  return 0;
}
static Node heapnode,clocknode;
static Node *find(const char *path){
  for(int i=0;i<nnodes;i++) if(!strcmp(nodes[i].path,path)) return &nodes[i];
  return 0;
}
static Node *mknode(const char *path,char kind){
  Node *n=find(path); if(!n){ if(nnodes>=MAXN) finish(K_UNMODELLED,2,"too many nodes"); n=&nodes[nnodes++]; memset(n,0,sizeof *n); }
  snprintf(n->path,sizeof n->path,"%s",path); n->kind=kind; n->seeded=1; return n;
}
static void tick_io(Node *n){
  if(n->lat_us>0){ int64_t d=(int64_t)(smx(n->lat_seed,n->nth[OP_READ]+n->nth[OP_WRITE]*7919)%(uint64_t)(n->lat_us+1)); now_us+=d; S->simtime_us+=d; }
}
static int k_open(const char *path,int flags){
  Node *n=find(path); int want_w=(flags&O_ACCMODE)!=O_RDONLY;
  if(!n){ n=mknode(path,'x'); n->seeded=0; }
  uint64_t nth=++n->nth[OP_OPEN]; int err=0; int fd=-1;
  Fault *f=fault(n,OP_OPEN,nth);
  if(f) err=errno_by_name(f->eff);
  else if(n->kind=='x'){
    if(flags&O_CREAT){ if(strrchr(path,'/')&&strrchr(path,'/')!=path){ /* parent must exist */
          char par[1100]; snprintf(par,sizeof par,"%s",path); *strrchr(par,'/')=0; Node *pn_=find(par);
          if(!pn_||pn_->kind!='d') err=ENOENT; }
      if(!err){ n->kind='r'; n->s.kind='h'; n->s.buf=abuf(4096); n->s.cap=4096; n->s.len=0; n->modified=1; } }
    else err=ENOENT;
  } else if((flags&O_CREAT)&&(flags&O_EXCL)) err=EEXIST;
  else if(n->kind=='d'&&want_w) err=EISDIR;
  else if(n->ro&&want_w) err=EACCES;
  if(!err){ int c=0; for(int i=0;i<MAXFD;i++){ if(!fds[i].used){ if(fd<0) fd=i; } else c++; }
    if(fd<0||fd>=fdlimit){ err=EMFILE; fd=-1; }
    else { fds[fd].used=1; fds[fd].n=n; fds[fd].off=0; fds[fd].fl=flags; fds[fd].fp=0; c++; if(c>S->max_fds)S->max_fds=c;
      if(want_w){ n->opens_w++; } else n->opens_r++;
      if((flags&O_TRUNC)&&want_w&&n->kind=='r'){ stream_materialise(&n->s); n->s.len=0; n->modified=1; } } }
  event(n->path,OP_OPEN,nth,err?-1:(int64_t)flags,err); /* fd number deliberately not traced */
  if(err){ errno=err; return -1; }
  return fd;
}
static int64_t k_read(int fd,void *buf,size_t sz){
  if(fd<0||fd>=MAXFD||!fds[fd].used||(fds[fd].fl&O_ACCMODE)==O_WRONLY){ errno=EBADF; return -1; }
  Node *n=fds[fd].n; uint64_t nth=++n->nth[OP_READ]; int err=0; int64_t r=0; tick_io(n);
  Fault *f=fault(n,OP_READ,nth); size_t lim=sz; int eof=0;
  if(n->kind=='d') err=EISDIR;
  else if(f){ int e=errno_by_name(f->eff);
    if(e) err=e;
    else if(!strcmp(f->eff,"short")) lim=(size_t)(f->arg<1?1:f->arg);
    else if(!strcmp(f->eff,"eof")) eof=1;
    else if(!strcmp(f->eff,"truncate")){ stream_materialise(&n->s); if(n->s.len>(uint64_t)f->arg) n->s.len=f->arg; }
    else if(!strcmp(f->eff,"delay")){ now_us+=f->arg; S->simtime_us+=f->arg; }
  }
  if(!err&&!eof){
    if(lim>sz) lim=sz;
    if(n->chunk_max>0){ size_t c=1+(size_t)(smx(n->chunk_seed,nth)%(uint64_t)n->chunk_max); if(c<lim) lim=c; }
    uint64_t off=(n->kind=='p'||n->kind=='c')?n->pipe_off:fds[fd].off;
    r=(int64_t)stream_read(&n->s,off,buf,lim);
    if(n->kind=='p'||n->kind=='c') n->pipe_off+=r; else fds[fd].off+=r;
    n->rbytes+=r;
  }
  event(n->path,OP_READ,nth,err?-1:r,err);
  if(err){ errno=err; return -1; }
  return r;
}
static void sig_die(const char *w){ finish(K_SIGNAL,SIGPIPE,w); }
static int64_t k_write(int fd,const void *buf,size_t sz){
  if(fd<0||fd>=MAXFD||!fds[fd].used||(fds[fd].fl&O_ACCMODE)==O_RDONLY){ errno=EBADF; return -1; }
  Node *n=fds[fd].n; uint64_t nth=++n->nth[OP_WRITE]; int err=0; int64_t r=(int64_t)sz; tick_io(n);
  Fault *f=fault(n,OP_WRITE,nth);
  if(f){ int e=errno_by_name(f->eff);
    if(e) err=e; else if(!strcmp(f->eff,"short")){ long a=f->arg<1?1:f->arg; if(r>a) r=a; }
    else if(!strcmp(f->eff,"delay")){ now_us+=f->arg; S->simtime_us+=f->arg; } }
  if(!err&&n->chunk_max>0&&n->kind!='t'){ int64_t c=1+(int64_t)(smx(n->chunk_seed,nth)%(uint64_t)n->chunk_max); if(c<r) r=c; }
  if(!err&&n->kind=='r'){ if(disk_free==0) err=ENOSPC; else if((uint64_t)r>disk_free) r=(int64_t)disk_free; }
  if(!err&&!strcmp(n->path,"stdout")&&n->dev==2){ if(disk_free==0) err=ENOSPC; else if((uint64_t)r>disk_free) r=(int64_t)disk_free; }
  if(!err){
    if(n->kind=='r'||(n->dev==2)) if(disk_free!=~0ULL) disk_free-=r;
    if(n->kind=='r'){ Fd *d=&fds[fd]; stream_materialise(&n->s); if(d->fl&O_APPEND) d->off=n->s.len;
      if(d->off+r>n->s.cap){ n->s.cap=(d->off+r)*2+4096; n->s.buf=agrow(n->s.buf,n->s.len,n->s.cap); }
      if(d->off>n->s.len) memset(n->s.buf+n->s.len,0,d->off-n->s.len);
      memcpy(n->s.buf+d->off,buf,r); d->off+=r; if(d->off>n->s.len) n->s.len=d->off; n->modified=1;
      if(n->s.len>(1ull<<30)) finish(K_BUDGET,4,"file size");
    } else if(!strcmp(n->path,"stdout")){
      uint64_t room=OUTCAP-S->outlen; uint64_t c=(uint64_t)r<room?(uint64_t)r:room; memcpy(S->out+S->outlen,buf,c); S->outlen+=c; S->outtotal+=r; S->outhash=fnv(S->outhash,buf,r);
    } else if(!strcmp(n->path,"stderr")){
      uint64_t room=ERRCAP-S->errlen; uint64_t c=(uint64_t)r<room?(uint64_t)r:room; memcpy(S->err+S->errlen,buf,c); S->errlen+=c; S->errtotal+=r;
    }
    n->wbytes+=r;
  }
  event(n->path,OP_WRITE,nth,err?-1:r,err);
  if(err==EPIPE){ struct sigaction sa; sigaction(SIGPIPE,0,&sa); if(sa.sa_handler==SIG_DFL) sig_die("SIGPIPE"); }
  if(err){ errno=err; return -1; }
  return r;
}
static int k_close(int fd){
  if(fd<0||fd>=MAXFD||!fds[fd].used){ errno=EBADF; return -1; }
  Node *n=fds[fd].n; uint64_t nth=++n->nth[OP_CLOSE]; int err=0; Fault *f=fault(n,OP_CLOSE,nth); if(f) err=errno_by_name(f->eff);
  fds[fd].used=0; event(n->path,OP_CLOSE,nth,err?-1:0,err);
  if(err){ errno=err; return -1; }
  return 0;
}
static int64_t k_lseek(int fd,int64_t off,int wh){
  if(fd<0||fd>=MAXFD||!fds[fd].used){ errno=EBADF; return -1; }
  Node *n=fds[fd].n; uint64_t nth=++n->nth[OP_SEEK]; int err=0; Fault *f=fault(n,OP_SEEK,nth);
  int64_t p=0;
  if(f&&errno_by_name(f->eff)) err=errno_by_name(f->eff);
  else if(n->kind=='p'||n->kind=='t') err=ESPIPE;
  else if(n->kind=='c') p=0;
  else { p= wh==SEEK_SET?off: wh==SEEK_CUR?(int64_t)fds[fd].off+off:(int64_t)n->s.len+off; if(p<0) err=EINVAL; else fds[fd].off=p; }
  event(n->path,OP_SEEK,nth,err?-1:p,err);
  if(err){ errno=err; return -1; }
  return p;
}
static int k_stat(Node *n,struct stat *st){
  uint64_t nth=++n->nth[OP_STAT]; int err=0; Fault *f=fault(n,OP_STAT,nth);
  if(f&&errno_by_name(f->eff)) err=errno_by_name(f->eff); else if(n->kind=='x') err=ENOENT;
  if(!err){ memset(st,0,sizeof *st);
    st->st_mode=0644|(n->kind=='r'?S_IFREG:n->kind=='d'?S_IFDIR:n->kind=='p'?S_IFIFO:n->kind=='t'?S_IFIFO:S_IFCHR);
    st->st_nlink=1; st->st_ino=1+(n-nodes); st->st_size=(n->kind=='r')?(off_t)n->s.len:0; st->st_blksize=4096;
    if(f&&!strcmp(f->eff,"size")) st->st_size=f->arg; }
  event(n->path,OP_STAT,nth,err?-1:(int64_t)st->st_size,err);
  if(err){ errno=err; return -1; }
  return 0;
}

/* ---------------------------------------------------------- stdio glue */
typedef struct { int fd; } Ck;
static ssize_t ck_read(void *c,char *b,size_t n){ return (ssize_t)k_read(((Ck*)c)->fd,b,n); }
static ssize_t ck_write(void *c,const char *b,size_t n){ /* as _IO_new_file_write: loop until done or error */
  size_t d=0; while(d<n){ int64_t r=k_write(((Ck*)c)->fd,b+d,n-d); if(r<0) break; d+=(size_t)r; }
  return (ssize_t)d;
}
static int ck_seek(void *c,off64_t *o,int w){ int64_t r=k_lseek(((Ck*)c)->fd,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void *c){ int r=k_close(((Ck*)c)->fd); free(c); return r; }
static FILE *mkfile(int fd,const char *mode){
  Ck *c=malloc(sizeof *c); c->fd=fd; cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close};
  char m[8]; int j=0; for(const char *p=mode;*p&&j<6;p++) if(*p=='r'||*p=='w'||*p=='a'||*p=='+') m[j++]=*p; m[j]=0;
  FILE *f=fopencookie(c,m,io); fds[fd].fp=f; return f;
}
static int mode2fl(const char *m){
  int plus=strchr(m,'+')!=0,fl=0;
  if(m[0]=='r') fl=plus?O_RDWR:O_RDONLY; else if(m[0]=='w') fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; else if(m[0]=='a') fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; else return -1;
  if(strchr(m,'x')) fl|=O_EXCL; return fl;
}
FILE *sim_fopen(const char *p,const char *m){ int fl=mode2fl(m); if(fl<0){errno=EINVAL;return 0;} int fd=k_open(p,fl); if(fd<0) return 0; return mkfile(fd,m); }
FILE *sim_fdopen(int fd,const char *m){ if(fd<0||fd>=MAXFD||!fds[fd].used){errno=EBADF;return 0;} if(fd==0&&fds[0].fp) return fds[0].fp; if(fd==1&&fds[1].fp) return fds[1].fp; if(fd==2&&fds[2].fp) return fds[2].fp; return mkfile(fd,m); }
int sim_fileno(FILE *f){ for(int i=0;i<MAXFD;i++) if(fds[i].used&&fds[i].fp==f) return i; errno=EBADF; return -1; }
FILE *sim_freopen(const char *p,const char *m,FILE *f){ (void)p;(void)m;(void)f; finish(K_UNMODELLED,3,"freopen"); return 0; }
int sim_open(const char *p,int fl,...){ return k_open(p,fl); }
int sim_openat(int d,const char *p,int fl,...){ (void)d; return k_open(p,fl); }
int sim_open_2(const char *p,int fl){ return k_open(p,fl); }
int sim_creat(const char *p,mode_t m){ (void)m; return k_open(p,O_WRONLY|O_CREAT|O_TRUNC); }
ssize_t sim_read(int fd,void *b,size_t n){ return (ssize_t)k_read(fd,b,n); }
ssize_t sim_read_chk(int fd,void *b,size_t n,size_t bl){ if(n>bl) abort(); return (ssize_t)k_read(fd,b,n); }
ssize_t sim_pread(int fd,void *b,size_t n,off_t o){ int64_t sv=k_lseek(fd,0,SEEK_CUR); if(sv<0||k_lseek(fd,o,SEEK_SET)<0) return -1; ssize_t r=(ssize_t)k_read(fd,b,n); k_lseek(fd,sv,SEEK_SET); return r; }
ssize_t sim_write(int fd,const void *b,size_t n){ return (ssize_t)k_write(fd,b,n); }
int sim_close(int fd){ return k_close(fd); }
off_t sim_lseek(int fd,off_t o,int w){ return (off_t)k_lseek(fd,o,w); }
static Node *path_node(const char *p){ Node *n=find(p); if(!n){ n=mknode(p,'x'); n->seeded=0; } return n; }
int sim_stat(const char *p,struct stat *st){ return k_stat(path_node(p),st); }
int sim_fstat(int fd,struct stat *st){ if(fd<0||fd>=MAXFD||!fds[fd].used){errno=EBADF;return -1;} return k_stat(fds[fd].n,st); }
int sim_fstatat(int d,const char *p,struct stat *st,int fl){ (void)d;(void)fl; return sim_stat(p,st); }
int sim_access(const char *p,int m){ (void)m; struct stat st; return sim_stat(p,&st); }
int sim_isatty(int fd){ (void)fd; errno=ENOTTY; return 0; }
int sim_fsync(int fd){ (void)fd; return 0; }
int sim_unlink(const char *p){ Node *n=find(p); if(!n||n->kind=='x'){errno=ENOENT;return -1;} n->kind='x'; n->modified=2; event(n->path,OP_WRITE,++n->nth[OP_WRITE],-99,0); return 0; }
int sim_remove(const char *p){ return sim_unlink(p); }
int sim_rename(const char *a,const char *b){ Node *n=find(a); if(!n||n->kind=='x'){errno=ENOENT;return -1;} Node *m=path_node(b); m->kind=n->kind; m->s=n->s; m->modified=1; n->kind='x'; n->modified=2; event(n->path,OP_WRITE,++n->nth[OP_WRITE],-98,0); return 0; }
int sim_truncate(const char *p,off_t l){ Node *n=find(p); if(!n||n->kind!='r'){errno=ENOENT;return -1;} stream_materialise(&n->s); if(n->s.len>(uint64_t)l) n->s.len=l; n->modified=1; return 0; }
int sim_ftruncate(int fd,off_t l){ if(fd<0||fd>=MAXFD||!fds[fd].used){errno=EBADF;return -1;} return sim_truncate(fds[fd].n->path,l); }
int sim_mkdir(const char *p,mode_t m){ (void)m; Node *n=path_node(p); if(n->kind!='x'){errno=EEXIST;return -1;} n->kind='d'; n->modified=1; return 0; }
void *sim_mmap(void *a,size_t n,int pr,int fl,int fd,off_t off){
  if(fd<0||(fl&MAP_ANONYMOUS)) return mmap(a,n,pr,fl,fd,off);
  if(fd>=MAXFD||!fds[fd].used){errno=EBADF;return MAP_FAILED;}
  char *m=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(m==MAP_FAILED) return m;
  stream_read(&fds[fd].n->s,off,(unsigned char*)m,n); fds[fd].n->rbytes+=n; return m; }
int sim_system(const char *c){ (void)c; finish(K_UNMODELLED,5,"system"); return -1; }
FILE *sim_popen(const char *c,const char *m){ (void)c;(void)m; finish(K_UNMODELLED,6,"popen"); return 0; }
FILE *sim_tmpfile(void){ finish(K_UNMODELLED,7,"tmpfile"); return 0; }

/* ------------------------------------------------------ clock / entropy */
static int64_t rd_clock(void){
  uint64_t nth=++clocknode.nth[OP_CLOCK];
  now_us+=clock_call_cost_us; S->simtime_us+=clock_call_cost_us;
  Fault *f=fault(&clocknode,OP_CLOCK,nth);
  if(f&&!strcmp(f->eff,"jump")) now_us+=f->arg;
  /* Trace the value handed out: clock reads are part of the environment. */
  event("clock",OP_CLOCK,nth,now_us,0); return now_us;
}
int sim_gettimeofday(struct timeval *tv,void *tz){ (void)tz; int64_t t=rd_clock();
  int64_t s=t/1000000,u=t%1000000; if(u<0){u+=1000000;s--;} if(tv){ tv->tv_sec=s; tv->tv_usec=u; } return 0; }
/* processor time: the simulated machine is shared, the process gets 37 % of it */
static int64_t cpu_us(void){ return (rd_clock()-(int64_t)S->clock_us_start)*37/100; }
int sim_clock_gettime(clockid_t c,struct timespec *ts){ int64_t t=(c==CLOCK_PROCESS_CPUTIME_ID||c==CLOCK_THREAD_CPUTIME_ID)?cpu_us():rd_clock(); int64_t s=t/1000000,u=t%1000000; if(u<0){u+=1000000;s--;} ts->tv_sec=s; ts->tv_nsec=u*1000; return 0; }
time_t sim_time(time_t *p){ int64_t t=rd_clock()/1000000; if(p)*p=t; return t; }
clock_t sim_clock(void){ return (clock_t)cpu_us(); }
clock_t sim_times(struct tms *b){ int64_t c=cpu_us()/10000; memset(b,0,sizeof *b); b->tms_utime=c; return (clock_t)(rd_clock()/10000); }
int sim_getrusage(int w,struct rusage *u){ (void)w; int64_t c=cpu_us(); memset(u,0,sizeof *u); u->ru_utime.tv_sec=c/1000000; u->ru_utime.tv_usec=c%1000000; u->ru_maxrss=4000; return 0; }
unsigned sim_sleep(unsigned s){ now_us+=(int64_t)s*1000000; S->simtime_us+=(uint64_t)s*1000000; return 0; }
int sim_usleep(unsigned u){ now_us+=u; S->simtime_us+=u; return 0; }
int sim_nanosleep(const struct timespec *a,struct timespec *b){ (void)b; int64_t u=a->tv_sec*1000000LL+a->tv_nsec/1000; now_us+=u; S->simtime_us+=u; return 0; }
ssize_t sim_getrandom(void *b,size_t n,unsigned fl){ (void)fl; int fd=k_open("/dev/urandom",O_RDONLY); if(fd<0) return -1; ssize_t r=(ssize_t)k_read(fd,b,n); int e=errno; k_close(fd); errno=e; return r; }
int sim_getentropy(void *b,size_t n){ return sim_getrandom(b,n,0)==(ssize_t)n?0:-1; }
static int sim_pid=4242;
pid_t sim_getpid(void){ return sim_pid; }
pid_t sim_getppid(void){ return sim_pid-1; }
uid_t sim_getuid(void){ return 1000+sim_pid%7; }
uid_t sim_geteuid(void){ return 1000+sim_pid%7; }
long sim_gethostid(void){ return 0x1000+sim_pid%13; }
int sim_gethostname(char *b,size_t n){ snprintf(b,n,"host%d",sim_pid%13); return 0; }
int sim_uname(struct utsname *u){ memset(u,0,sizeof *u); strcpy(u->sysname,"Linux"); snprintf(u->nodename,60,"host%d",sim_pid%13); strcpy(u->release,"6.1"); strcpy(u->machine,"x86_64"); return 0; }
/* a variable the plan does not set has the value of its `anyenv` line, if it has one */
static char *anyenv;
char *sim_getenv(const char *k){ char *v=getenv(k); if(!strncmp(k,"DHSIM",5)||!strncmp(k,"GLIBC",5)) v=0; return v?v:anyenv; }

/* ---------------------------------------------------------------- heap */
typedef struct { void *p; size_t n; } Al;
static Al *at; static size_t atcap,atn;
static size_t atlive;
static void at_put(void *p,size_t n){
  if((atn+1)*2>atcap){ size_t oc=atcap; Al *o=at; atcap=oc?(atlive*4>oc?oc*2:oc):65536; at=mmap(0,atcap*sizeof *at,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); atn=0; atlive=0; for(size_t i=0;i<oc;i++) if(o[i].p&&o[i].p!=(void*)-1) at_put(o[i].p,o[i].n); if(o) munmap(o,oc*sizeof *o); }
  size_t h=mix64((uint64_t)p)%atcap; while(at[h].p&&at[h].p!=(void*)-1) h=(h+1)%atcap; if(!at[h].p) atn++; at[h].p=p; at[h].n=n; atlive++;
}
static int at_del(void *p,size_t *n){
  if(!atcap) return 0; size_t h=mix64((uint64_t)p)%atcap; while(at[h].p){ if(at[h].p==p){ *n=at[h].n; at[h].p=(void*)-1; atlive--; return 1; } h=(h+1)%atcap; } return 0;
}
static int heap_fail(size_t n){
  uint64_t nth=++heapnode.nth[OP_MALLOC]; S->nmalloc=nth; if(++S->steps>max_steps) finish(K_BUDGET,1,"steps");
  Fault *f=nfaults?fault(&heapnode,OP_MALLOC,nth):0; if(f){ event("heap",OP_MALLOC,nth,-1,ENOMEM); errno=ENOMEM; return 1; } (void)n; return 0;
}
static void *track(void *p,size_t n){ if(p){ at_put(p,n); S->live_alloc++; S->live_bytes+=n; } return p; }
void *sim_malloc(size_t n){ if(heap_fail(n)) return 0; void *p=malloc(n); if(p&&junk>=0) memset(p,junk,n); return track(p,n); }
void *sim_calloc(size_t a,size_t b){ if(heap_fail(a*b)) return 0; return track(calloc(a,b),a*b); }
void sim_free(void *p){ size_t n; if(p&&at_del(p,&n)){ S->live_alloc--; S->live_bytes-=n; } free(p); }
void *sim_realloc(void *p,size_t n){ if(heap_fail(n)) return 0; size_t o=0; int had=p?at_del(p,&o):0; void *q=realloc(p,n); if(!q){ if(had) at_put(p,o); return 0; } if(had){ S->live_alloc--; S->live_bytes-=o; } if(junk>=0&&n>o&&(had||!p)) memset((char*)q+o,junk,n-o); return track(q,n); }
void *sim_reallocarray(void *p,size_t a,size_t b){ return sim_realloc(p,a*b); }
char *sim_strdup(const char *s){ size_t n=strlen(s)+1; char *p=sim_malloc(n); if(p) memcpy(p,s,n); return p; }
char *sim_strndup(const char *s,size_t m){ size_t n=strnlen(s,m); char *p=sim_malloc(n+1); if(p){ memcpy(p,s,n); p[n]=0; } return p; }

/* -------------------------------------------------------------- GSL seam */
static inline void on_draw(void){
  S->draws++; ns_acc+=draw_cost_ns; if(ns_acc>=1000){ int64_t u=ns_acc/1000; ns_acc-=u*1000; now_us+=u; S->simtime_us+=u; }
  if(S->draws>max_draws) finish(K_BUDGET,2,"draws");
}
/* a generator made of others draws from them inside a draw: one draw for the program */
static int draw_depth;
#define DRAW(T,call) do{ T v; if(!draw_depth) on_draw(); draw_depth++; v=call; draw_depth--; return v; }while(0)
unsigned long sim_gsl_rng_get(const gsl_rng *r){ DRAW(unsigned long,gsl_rng_get(r)); }
double sim_gsl_rng_uniform(const gsl_rng *r){ DRAW(double,gsl_rng_uniform(r)); }
double sim_gsl_rng_uniform_pos(const gsl_rng *r){ DRAW(double,gsl_rng_uniform_pos(r)); }
unsigned long sim_gsl_rng_uniform_int(const gsl_rng *r,unsigned long n){ DRAW(unsigned long,gsl_rng_uniform_int(r,n)); }

/* scripted generator (dh_rng_types[600]): plays a stream from memory, cyclically */
static unsigned long scr_get(void *v){ (void)v; unsigned char b[4]; if(!scripted.inf&&scripted_pos*4+4>scripted.len){ if(!scripted_eof_loop) finish(K_BUDGET,9,"scripted eof"); scripted_pos=0; }
  stream_read(&scripted,scripted_pos*4,b,4); scripted_pos++; S->scrpos++; if(scripted_pos>S->scrmax) S->scrmax=scripted_pos; return b[0]|b[1]<<8|b[2]<<16|(uint32_t)b[3]<<24; }
/* width w < 32: each word gives its top w bits; pack msb/lsb: these w bit pieces joined into 32 bit words, first bit on top / at the bottom */
static int scripted_w=32,scripted_pack=0; static uint64_t scr_acc; static int scr_accn;
static unsigned long scr_get32(void *v){
  if(!scripted_pack) return (uint32_t)scr_get(v)>>(32-scripted_w);
  while(scr_accn<32){ uint64_t w=(uint32_t)scr_get(v)>>(32-scripted_w); if(scripted_pack==1) scr_acc=scr_acc<<scripted_w|w; else scr_acc|=w<<scr_accn; scr_accn+=scripted_w; }
  scr_accn-=32; uint32_t r; if(scripted_pack==1){ r=scr_acc>>scr_accn; scr_acc&=(1ULL<<scr_accn)-1; } else { r=scr_acc; scr_acc>>=32; } return r; }
static double scr_dbl(void *v){ return scr_get32(v)/(double)UINT_MAX; }
static int scripted_rewind=0;
static void scr_set(void *v,unsigned long s){ (void)v;(void)s; if(scripted_rewind) scripted_pos=0; scr_acc=0; scr_accn=0; }
static gsl_rng_type scr_type={"sim_scripted",UINT_MAX,0,8,scr_set,scr_get32,scr_dbl};
extern void dieharder_rng_types(void); extern void dieharder_test_types(void);
void sim_dieharder_rng_types(void){ dieharder_rng_types(); if(have_scripted) simrepo_install_types(&scr_type); }
void sim_dieharder_test_types(void){ dieharder_test_types(); if(tiny_std){ simrepo_scale_tests(kts,kps,ktscap); for(int i=0;i<nkskip;i++) simrepo_drop_test(kskip[i]); } }

/* ------------------------------------------------------------- process */
static int exiting=0;
void sim_exit(int code){
  if(!exiting){ exiting=1;
    /* glibc's exit() flushes every stream and ignores failures; atexit
       handlers registered by the program run first (see sim_atexit) */
    extern void sim_run_atexit(void); sim_run_atexit();
    fflush(NULL);
  }
  finish(K_EXIT,code&255,"exit");
}
void sim__exit(int code){ finish(K_EXIT,code&255,"_exit"); }
static void (*aex[64])(void); static int naex;
int sim_atexit(void (*f)(void)){ if(naex<64) aex[naex++]=f; return 0; }
void sim_run_atexit(void){ while(naex>0) aex[--naex](); }
void sim_assert_fail(const char *e,const char *f,unsigned l,const char *fn){ fprintf(stderr,"assert %s %s:%u %s\n",e,f,l,fn?fn:""); fflush(stderr); finish(K_SIGNAL,SIGABRT,"assert"); }

/* ------------------------------------------------------------- plan */
#define MAXARG 128
static char *argv_[MAXARG+1]; static int argc_;
typedef struct { char *a[24]; int n; } Op;
static Op ops[4096]; static int nops; static int mode_ui=0; static long cpu_limit=20;
static char *wantfiles[16]; static int nwant;
static char *envs[64]; static int nenv;

static char *unesc(char *s){ char *o=s,*p=s; while(*p){ if(*p=='%'&&p[1]&&p[2]){ unsigned v; sscanf(p+1,"%2x",&v); *o++=v; p+=3; } else *o++=*p++; } *o=0; return s; }
static void parse_plan(char *t){
  char *svl; for(char *ln=strtok_r(t,"\n",&svl);ln;ln=strtok_r(0,"\n",&svl)){
    char *f[32]; int n=0; char *sv; for(char *q=strtok_r(ln," ",&sv);q&&n<32;q=strtok_r(0," ",&sv)) f[n++]=q;
    if(!n) continue;
    for(int i=1;i<n;i++) unesc(f[i]);
    char *k=f[0];
    if(!strcmp(k,"mode")) mode_ui=!strcmp(f[1],"ui");
    else if(!strcmp(k,"arg")){ if(argc_<MAXARG) argv_[argc_++]=n>1?f[1]:(char*)""; }
    else if(!strcmp(k,"op")){ if(nops>=4096) continue; Op *o=&ops[nops++]; for(int i=1;i<n&&i<24;i++) o->a[o->n++]=f[i]; }
    else if(!strcmp(k,"node")){ /* node path kind spec [ro] */ Node *d=mknode(f[1],f[2][0]); if(n>3&&strcmp(f[3],"-")) parse_stream(f[3],&d->s); else { d->s.kind='h'; d->s.buf=abuf(1); } if(n>4&&!strcmp(f[4],"ro")) d->ro=1; }
    else if(!strcmp(k,"chunk")){ Node *d=find(f[1]); if(d){ d->chunk_max=atoi(f[2]); d->chunk_seed=strtoull(f[3],0,0);} }
    else if(!strcmp(k,"latency")){ Node *d=find(f[1]); if(d){ d->lat_us=atoll(f[2]); d->lat_seed=strtoull(f[3],0,0);} }
    else if(!strcmp(k,"fault")){ /* fault res op nth effect arg count */ if(nfaults<MAXFAULT){ Fault *x=&faults[nfaults++]; snprintf(x->res,sizeof x->res,"%s",f[1]);
        x->op=-1; for(int i=0;i<OP_NOPS;i++) if(!strcmp(opname[i],f[2])) x->op=i; x->nth=strtoull(f[3],0,0); snprintf(x->eff,sizeof x->eff,"%s",f[4]); x->arg=n>5?atol(f[5]):0; x->count=n>6?atol(f[6]):1; } }
    else if(!strcmp(k,"clock")){ now_us=atoll(f[1]); if(n>2) draw_cost_ns=atoll(f[2]); if(n>3) clock_call_cost_us=atoll(f[3]); }
    else if(!strcmp(k,"junk")) junk=atoi(f[1]);
    else if(!strcmp(k,"pid")) sim_pid=atoi(f[1]);
    else if(!strcmp(k,"shift")) shift_=atoi(f[1]);
    else if(!strcmp(k,"fdlimit")) fdlimit=atoi(f[1]);
    else if(!strcmp(k,"disk")) disk_free=strtoull(f[1],0,0);
    else if(!strcmp(k,"stdoutdisk")) find("stdout")->dev=2;
    else if(!strcmp(k,"sigpipe")) sigpipe_ignored=!strcmp(f[1],"ignore");
    else if(!strcmp(k,"steps")) max_steps=strtoull(f[1],0,0);
    else if(!strcmp(k,"draws")) max_draws=strtoull(f[1],0,0);
    else if(!strcmp(k,"cpu")) cpu_limit=atol(f[1]);
    else if(!strcmp(k,"log")) logging=atoi(f[1]);
    else if(!strcmp(k,"std")){ tiny_std=1; kts=atof(f[1]); kps=atof(f[2]); if(n>3) ktscap=atoi(f[3]); for(int i=4;i<n&&nkskip<32;i++) kskip[nkskip++]=atoi(f[i]); }
    else if(!strcmp(k,"script")){ have_scripted=1; parse_stream(f[1],&scripted); for(int i=2;i<n;i++){ if(!strcmp(f[i],"rewind")) scripted_rewind=1; else if(!strncmp(f[i],"w=",2)) scripted_w=atoi(f[i]+2); else if(!strcmp(f[i],"msb")) scripted_pack=1; else if(!strcmp(f[i],"lsb")) scripted_pack=2; }
      if(!scripted_pack) scr_type.max=0xffffffffUL>>(32-scripted_w); }
    else if(!strcmp(k,"want")){ if(nwant<16) wantfiles[nwant++]=f[1]; }
    else if(!strcmp(k,"anyenv")) anyenv=n>1?f[1]:"";
    else if(!strcmp(k,"env")){ if(nenv<64) envs[nenv++]=f[1]; }
    else fprintf(stderr,"dhsim: unknown plan line %s\n",k);
  }
}
static __attribute__((noinline)) void paint_stack(int v){ volatile unsigned char b[160*1024]; memset((void*)b,v,sizeof b); __asm__ volatile(""::"r"(b):"memory"); }
static __attribute__((noinline)) void paint_deep(int v){ volatile unsigned char b[2600*1024]; memset((void*)b,v,sizeof b); __asm__ volatile(""::"r"(b):"memory"); }
static const char *pesc(const char *p){ static char o[3400]; int j=0; for(;*p&&j<3390;p++){ unsigned char c=*p; if(c<=' '||c=='%'||c>126||c=='=') j+=snprintf(o+j,4,"%%%02x",c); else o[j++]=c; } o[j]=0; return o; }

/* ui operations */
static void do_mark(const char *l){
  int c=0; for(int i=0;i<MAXFD;i++) if(fds[i].used) c++;
  fflush(stdout);
  note("mark %s heap=%llu live=%llu bytes=%llu fds=%d out=%llu draws=%llu clock=%lld scr=%llu",l,(unsigned long long)(SIM_ASAN?0:mallinfo2().uordblks),(unsigned long long)S->live_alloc,(unsigned long long)S->live_bytes,c,(unsigned long long)S->outtotal,(unsigned long long)S->draws,(long long)now_us,(unsigned long long)S->scrpos);
}
static void run_ops(void){
  for(int i=0;i<nops;i++){ Op *o=&ops[i]; char *k=o->a[0];
    if(!strcmp(k,"parse")){ optind=1; simrepo_parse(argc_,argv_); }
    else if(!strcmp(k,"parsel")){ /* parsel a b c : fresh argv */ char *v[26]; int m=0; v[m++]="dieharder"; for(int j=1;j<o->n;j++) v[m++]=o->a[j]; v[m]=0; optind=0; simrepo_parse(m,v); }
    else if(!strcmp(k,"choose")) simrepo_choose();
    else if(!strcmp(k,"test")) simrepo_test(atoi(o->a[1]));
    else if(!strcmp(k,"all")) simrepo_all();
    else if(!strcmp(k,"set")){ if(simrepo_set(o->a[1],o->a[2])) note("badset %s",o->a[1]); }
    else if(!strcmp(k,"rngset")) simrepo_rngset(strtoul(o->a[1],0,0));
    else if(!strcmp(k,"draw")){ /* draw n : note words */ long n=atol(o->a[1]); uint64_t h=1469598103934665603ULL; char t[1600]; int L=0; for(long j=0;j<n;j++){ unsigned long w=simrepo_draw(); h=fnv(h,&w,8); if(j<64) L+=snprintf(t+L,sizeof t-L," %lx",w);} t[L]=0; note("draw %ld %016llx%s",n,(unsigned long long)h,t); }
    else if(!strcmp(k,"uni")){ long n=atol(o->a[1]); double mn=1e300,mx=-1e300; uint64_t h=1469598103934665603ULL; for(long j=0;j<n;j++){ double d=simrepo_uniform(); h=fnv(h,&d,8); if(d<mn)mn=d; if(d>mx)mx=d; if(!(d>=0&&d<=1)) { note("badunit %.17g",d); break; } } note("uni %ld %016llx %.17g %.17g",n,(unsigned long long)h,mn,mx); }
    else if(!strcmp(k,"ulist")){ long n=atol(o->a[1]); char t[1900]; int L=0; for(long j=0;j<n;j++){ double d=simrepo_uniform(); if(j<64) L+=snprintf(t+L,sizeof t-L," %.14g",d);} t[L]=0; note("ulist %ld%s",n,t); }
    else if(!strcmp(k,"bits")){ /* bits w n */ unsigned w=atoi(o->a[1]); long n=atol(o->a[2]); char t[1900]; int L=0; for(long j=0;j<n;j++){ if(w>32){ unsigned q[4]={~0u,~0u,~0u,~0u}; simrepo_wbits(w,q); if(L<1800) L+=snprintf(t+L,sizeof t-L," %08x%08x%08x%08x",q[0],q[1],q[2],q[3]); continue; } unsigned v=simrepo_bits(w); if(L<1800) L+=snprintf(t+L,sizeof t-L," %x",v);} t[L]=0; note("bits %u %ld%s",w,n,t); }
    else if(!strcmp(k,"uint")){ long n=atol(o->a[1]); char t[1900]; int L=0; for(long j=0;j<n;j++){ unsigned v=simrepo_uint(); if(L<1800) L+=snprintf(t+L,sizeof t-L," %x",v);} t[L]=0; note("uint %ld%s",n,t); }
    else if(!strcmp(k,"sbits")){ /* sbits w n nomask */ unsigned w=atoi(o->a[1]); long n=atol(o->a[2]); char t[1900]; int L=0; for(long j=0;j<n;j++){ unsigned v=simrepo_sbits(w,o->n>3?atoi(o->a[3]):0); if(L<1800) L+=snprintf(t+L,sizeof t-L," %x",v);} t[L]=0; note("sbits %u %ld%s",w,n,t); }
    else if(!strcmp(k,"resetbits")) simrepo_resetbits();
    else if(!strcmp(k,"rseed")) note("rseed %lu",simrepo_random_seed());
    else if(!strcmp(k,"seedvar")) note("seedvar %lu",simrepo_seedvar());
    else if(!strcmp(k,"rmax")) note("rmax %lu",simrepo_rngmax());
    else if(!strcmp(k,"rtot")) note("rtot %ld %ld",simrepo_rtot(),simrepo_rewinds());
    else if(!strcmp(k,"mark")) do_mark(o->n>1?o->a[1]:"-");
    else if(!strcmp(k,"lib")) simrepo_lib(o->n-1,o->a+1);
    else if(!strcmp(k,"jump")) now_us+=atoll(o->a[1]);
    else if(!strcmp(k,"cost")) draw_cost_ns=atoll(o->a[1]);
    else note("badop %s",k);
  }
}
static void on_crash(int sig){ S->kind=K_SIGNAL; S->code=sig; _exit(0); }
static void on_cpu(int sig){ (void)sig; S->kind=K_BUDGET; S->code=3; strcpy(S->why,"cpu"); _exit(0); }
void sim_note(const char *s){ note("%s",s); }
#if SIM_ASAN
const char *__asan_default_options(void){ return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:handle_abort=0:detect_odr_violation=0:malloc_context_size=6:symbolize=0:max_free_fill_size=4096"; }
extern void __asan_set_death_callback(void (*)(void)); extern void __asan_set_error_report_callback(void (*)(const char*));
static void as_rep(const char *r){ size_t n=strlen(r); if(n>3000)n=3000; if(S->notelen+n+8<NOTECAP){ memcpy(S->note+S->notelen,"asan\n",5); S->notelen+=5; memcpy(S->note+S->notelen,r,n); S->notelen+=n; S->note[S->notelen++]='\n'; } }
static void as_die(void){ S->kind=K_SIGNAL; S->code=77; strcpy(S->why,"asan"); }
#endif
static void child(char *plan){
  mknode("stdin",'p'); mknode("stdout",'t'); mknode("stderr",'t');
  { Node *u=mknode("/dev/urandom",'c'); parse_stream("s:4242:inf",&u->s); u=mknode("/dev/random",'c'); parse_stream("s:2424:inf",&u->s); }
  mknode("/dev",'d');
  strcpy(heapnode.path,"heap"); strcpy(clocknode.path,"clock");
  argv_[argc_++]="dieharder";
  S->trace=1469598103934665603ULL; S->outhash=1469598103934665603ULL;
  parse_plan(plan);
  S->clock_us_start=now_us;
  if(find("stdin")->s.kind==0){ find("stdin")->s.kind='h'; find("stdin")->s.buf=abuf(1); }
  for(int i=0;i<3;i++){ fds[i].used=1; fds[i].n=&nodes[i]; fds[i].fl=i?O_WRONLY:O_RDONLY; }
  S->max_fds=3;
  FILE *fi=mkfile(0,"r"),*fo=mkfile(1,"w"),*fe=mkfile(2,"w"); setvbuf(fe,0,_IONBF,0);
  int realerr=dup(2); (void)realerr;
  if(!SIM_ASAN){ int dn=open("/dev/null",O_RDWR); dup2(dn,0); dup2(dn,1); dup2(dn,2); close(dn); }
  else { int dn=open("/dev/null",O_RDWR); dup2(dn,0); dup2(dn,1); dup2(dn,2); close(dn); }
  stdin=fi; stdout=fo; stderr=fe;
  signal(SIGPIPE,sigpipe_ignored?SIG_IGN:SIG_DFL);
  static char altst[65536]; stack_t ss={.ss_sp=altst,.ss_size=sizeof altst}; if(!SIM_ASAN) sigaltstack(&ss,0);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_crash; sa.sa_flags=SA_ONSTACK;
  if(!SIM_ASAN){ sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); }
  sigaction(SIGFPE,&sa,0); sigaction(SIGILL,&sa,0); sigaction(SIGABRT,&sa,0);
  sa.sa_handler=on_cpu; sigaction(SIGXCPU,&sa,0);
  struct rlimit rl={cpu_limit,cpu_limit+5}; setrlimit(RLIMIT_CPU,&rl);
#if SIM_ASAN
  __asan_set_error_report_callback(as_rep); __asan_set_death_callback(as_die);
#endif
  if(junk>=0) mallopt(M_PERTURB,junk?junk:0);
  for(int i=0;i<nenv;i++) putenv(envs[i]);
  argv_[argc_]=0;
  if(junk>=0) paint_deep(junk); else paint_stack(0);
  if(shift_>0){ volatile char *a=__builtin_alloca((size_t)(shift_&0xffff)*16+16); a[0]=1; __asm__ volatile(""::"r"(a):"memory"); static void *keep; keep=malloc((size_t)shift_*16+32); (void)keep; }
  if(mode_ui){ run_ops(); sim_exit(0); }
  else { int r=dh_main(argc_,argv_); sim_exit(r); }
}
/* --------------------------------------------------------------- server */
static int rdall(char *b,size_t n){ size_t k=0; while(k<n){ ssize_t r=read(0,b+k,n-k); if(r<=0) return -1; k+=r; } return 0; }
static void wrall(int fd,const void *b,size_t n){ const char *c=b; while(n){ ssize_t r=write(fd,c,n); if(r<=0) exit(3); c+=r; n-=r; } }
int main(int ac,char **av){
  (void)ac;
  if(!getenv("DHSIM_NOASLR")){ setenv("DHSIM_NOASLR","1",1); setenv("GLIBC_TUNABLES","glibc.malloc.tcache_count=0",1); int pe=personality(0xffffffff); if(pe>=0&&personality(pe|ADDR_NO_RANDOMIZE)>=0) execv("/proc/self/exe",av); }
  S=mmap(0,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  X=mmap(0,sizeof *X,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  arena=mmap(0,ARENA,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  for(;;){
    char ch; char hd[32]; int h=0;
    for(;;){ ssize_t r=read(0,&ch,1); if(r<=0) return 0; if(ch=='\n') break; if(h<30) hd[h++]=ch; }
    hd[h]=0; size_t L=strtoull(hd,0,10); char *plan=malloc(L+1); if(rdall(plan,L)) return 0; plan[L]=0;
    memset(S,0,offsetof(Shared,out));
    if(X->arena_used>(16u<<20)) madvise(arena,ARENA,MADV_REMOVE);
    memset(X,0,sizeof *X);
    int pf[2]; if(pipe(pf)) return 4;
    pid_t p=fork();
    if(p==0){ close(pf[0]); child(plan); _exit(9); }
    close(pf[1]); close(pf[0]); free(plan);
    int st; waitpid(p,&st,0);
    if(S->kind==K_NONE){ if(WIFSIGNALED(st)){ S->kind=WTERMSIG(st)==SIGKILL?K_BUDGET:K_SIGNAL; S->code=WTERMSIG(st); if(WTERMSIG(st)==SIGKILL) strcpy(S->why,"killed"); } else { S->kind=K_SIGNAL; S->code=1000+WEXITSTATUS(st); strcpy(S->why,"unexpected exit"); } }
    static const char *kn[]={"none","exit","signal","budget","unmodelled"};
    static char hdr[1<<18]; size_t n=0;
#define H(...) n+=snprintf(hdr+n,sizeof hdr-n,__VA_ARGS__)
#define U(x) (unsigned long long)(x)
    H("kind=%s\ncode=%d\nwhy=%s\noutlen=%llu\nerrlen=%llu\nnotelen=%llu\nloglen=%llu\nouttotal=%llu\nerrtotal=%llu\nouthash=%016llx\n",kn[S->kind],S->code,S->why,U(S->outlen),U(S->errlen),U(S->notelen),U(S->loglen),U(S->outtotal),U(S->errtotal),U(S->outhash));
    H("scrpos=%llu\nscrmax=%llu\nsteps=%llu\ndraws=%llu\nevents=%llu\ntrace=%016llx\nclock=%lld\nsimtime=%llu\nlive=%llu\nlivebytes=%llu\nnmalloc=%llu\nfds=%d\nmaxfds=%d\n",U(S->scrpos),U(S->scrmax),U(S->steps),U(S->draws),U(S->events),U(S->trace),(long long)S->clock_us,U(S->simtime_us),U(S->live_alloc),U(S->live_bytes),U(S->nmalloc),S->open_fds,S->max_fds);
    size_t wlen[MAXN]; unsigned char *wbuf[MAXN]; int nw=0;
    for(int i=0;i<nnodes&&n<sizeof hdr-4096;i++){ Node *d=&nodes[i]; size_t bl=0; uint64_t hh=0;
      if(d->kind=='r'&&d->s.kind=='h'&&d->modified){ bl=d->s.len; hh=fnv(1469598103934665603ULL,d->s.buf,bl); wlen[nw]=bl<(64u<<20)?bl:0; wbuf[nw++]=d->s.buf; bl=wlen[nw-1]; }
      H("node=%s %c open=%llu read=%llu write=%llu close=%llu stat=%llu seek=%llu rbytes=%llu wbytes=%llu or=%llu ow=%llu mod=%d seeded=%d blob=%zu hash=%016llx\n",pesc(d->path),d->kind?d->kind:'?',U(d->nth[0]),U(d->nth[1]),U(d->nth[2]),U(d->nth[3]),U(d->nth[4]),U(d->nth[5]),U(d->rbytes),U(d->wbytes),U(d->opens_r),U(d->opens_w),d->modified,d->seeded,bl,U(hh)); }
    for(int i=0;i<nfaults&&n<sizeof hdr-4096;i++) H("fault=%d %llu\n",i,U(faults[i].fired));
    H("\n");
    size_t tot=n+S->outlen+S->errlen+S->notelen+S->loglen; for(int i=0;i<nw;i++) tot+=wlen[i];
    char lh[32]; int ln=snprintf(lh,sizeof lh,"%zu\n",tot);
    wrall(1,lh,ln); wrall(1,hdr,n); wrall(1,S->out,S->outlen); wrall(1,S->err,S->errlen); wrall(1,S->note,S->notelen); wrall(1,S->log,S->loglen);
    for(int i=0;i<nw;i++) wrall(1,wbuf[i],wlen[i]);
  }
}
