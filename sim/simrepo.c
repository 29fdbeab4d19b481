/* The part of the simulator that speaks dieharder's own (public) interface:
 * the UI loop documented in dieharder.c, driven operation by operation. */
#include "dieharder.h"
#include <limits.h>
extern void sim_note(const char *s);
extern void sim_dieharder_rng_types(void); extern void sim_dieharder_test_types(void);
extern void set_globals(); extern void parsecl(int,char**); extern void choose_rng(); extern int execute_test(int); extern void run_all_tests();
extern unsigned long sim_gsl_rng_get(const gsl_rng *); extern double sim_gsl_rng_uniform(const gsl_rng *);
void get_rand_bits(void *result,unsigned int rsize,unsigned int nbits,gsl_rng *r);
unsigned int get_uint_rand(gsl_rng *r);
void reset_bit_buffers();
unsigned long int random_seed();

#ifndef SIMREPO_MIN
void simrepo_drop_test(int n){ if(n>=0&&n<MAXTESTS) dh_test_types[n]=0; }
void simrepo_parse(int argc,char **argv){ set_globals(); parsecl(argc,argv); sim_dieharder_rng_types(); sim_dieharder_test_types(); }
void simrepo_choose(void){ choose_rng(); }
void simrepo_test(int n){ dtest_num=n; if(strategy) reset_bit_buffers(); execute_test(n); } /* as run_all_tests.c does */
void simrepo_all(void){ run_all_tests(); }
int simrepo_set(const char *k,const char *v){
  long i=strtol(v,0,0); double d=strtod(v,0);
  if(!strcmp(k,"ntuple")) ntuple=i; else if(!strcmp(k,"psamples")) psamples=i; else if(!strcmp(k,"tsamples")) tsamples=i;
  else if(!strcmp(k,"Seed")) Seed=i; else if(!strcmp(k,"strategy")) strategy=i; else if(!strcmp(k,"Xtrategy")) Xtrategy=i;
  else if(!strcmp(k,"Xoff")) Xoff=i; else if(!strcmp(k,"Xstep")) Xstep=i; else if(!strcmp(k,"Xfail")) Xfail=d; else if(!strcmp(k,"Xweak")) Xweak=d;
  else if(!strcmp(k,"generator")){ gnumbs[0]=i; generator=i; gnames[0][0]=0; gvcount=1; }
  else if(!strcmp(k,"addgen")){ gnumbs[gvcount]=i; gnames[gvcount][0]=0; gvcount++; }
  else if(!strcmp(k,"filename")){ strncpy(filename,v,K-1); fromfile=1; }
  else if(!strcmp(k,"all")) all=i; else if(!strcmp(k,"ks_test")) ks_test=i; else if(!strcmp(k,"tflag")) tflag=i;
  else if(!strcmp(k,"multiply_p")) multiply_p=d; else if(!strcmp(k,"overlap")) overlap=i;
  else return 1;
  return 0;
}
int simrepo_have_rng(void){ return rng!=0; }
void simrepo_rngset(unsigned long s){ gsl_rng_set(rng,s); }
unsigned long simrepo_draw(void){ return sim_gsl_rng_get(rng); }
double simrepo_uniform(void){ return sim_gsl_rng_uniform(rng); }
unsigned simrepo_bits(unsigned n){ unsigned r=0; get_rand_bits(&r,sizeof(unsigned),n,rng); return r; }
void simrepo_wbits(unsigned n,unsigned *r){ get_rand_bits(r,4*sizeof(unsigned),n,rng); }
unsigned simrepo_uint(void){ return get_uint_rand(rng); }
#ifdef SIMREPO_STATIC
/* the field function each test compiles into itself: one more copy of it here */
#define gsl_rng_get(r) sim_gsl_rng_get(r)
#include "static_get_bits.c"
#undef gsl_rng_get
unsigned simrepo_sbits(unsigned n,unsigned nomask){ return get_rand_bits_uint(n,nomask?0:n>=32?0xffffffffu:(1u<<n)-1,rng); }
#else
extern void sim_nomodel(void);
unsigned simrepo_sbits(unsigned n,unsigned nomask){ sim_nomodel(); return 0; }
#endif
void simrepo_resetbits(void){ reset_bit_buffers(); }
unsigned long simrepo_rngmax(void){ return gsl_rng_max(rng); }
unsigned long simrepo_random_seed(void){ return random_seed(); }
unsigned long simrepo_seedvar(void){ return seed; }
long simrepo_rtot(void){ return (long)file_input_get_rtot(rng); }
long simrepo_rewinds(void){ return (long)file_input_get_rewind_cnt(rng); }
void simrepo_install_types(const gsl_rng_type *t){ dh_rng_types[600]=t; }
void simrepo_scale_tests(double ts,double ps,unsigned cap){
  for(int i=0;i<MAXTESTS;i++) if(dh_test_types[i]){ Dtest *d=dh_test_types[i];
    unsigned t=d->tsamples_std*ts; if(t<1&&d->tsamples_std) t=1; if(cap&&t>cap) t=cap; d->tsamples_std=t;
    unsigned p=d->psamples_std*ps; if(p<1) p=1; d->psamples_std=p; } }
void simrepo_lib(int argc,char **argv){ (void)argc;(void)argv; sim_note("lib: no such operation"); }
#else
/* The interface below the command line is not the one we know: command line
 * runs still work, operation by operation runs end "unmodelled" (no verdict). */
extern void sim_nomodel(void);
void simrepo_parse(int c,char **v){ sim_nomodel(); } void simrepo_choose(void){ sim_nomodel(); } void simrepo_test(int n){ sim_nomodel(); } void simrepo_all(void){ sim_nomodel(); }
int simrepo_set(const char *k,const char *v){ sim_nomodel(); return 0; } int simrepo_have_rng(void){ return 0; } void simrepo_rngset(unsigned long s){ sim_nomodel(); }
unsigned long simrepo_draw(void){ sim_nomodel(); return 0; } double simrepo_uniform(void){ sim_nomodel(); return 0; } unsigned simrepo_bits(unsigned n){ sim_nomodel(); return 0; } void simrepo_wbits(unsigned n,unsigned *r){ sim_nomodel(); }
unsigned simrepo_uint(void){ sim_nomodel(); return 0; } unsigned simrepo_sbits(unsigned n,unsigned m){ sim_nomodel(); return 0; } void simrepo_resetbits(void){ sim_nomodel(); } unsigned long simrepo_rngmax(void){ sim_nomodel(); return 0; }
unsigned long simrepo_random_seed(void){ sim_nomodel(); return 0; } unsigned long simrepo_seedvar(void){ sim_nomodel(); return 0; }
long simrepo_rtot(void){ sim_nomodel(); return 0; } long simrepo_rewinds(void){ sim_nomodel(); return 0; }
void simrepo_install_types(const gsl_rng_type *t){ dh_rng_types[600]=t; } void simrepo_lib(int c,char **v){ sim_nomodel(); }
void simrepo_scale_tests(double ts,double ps,unsigned cap){ sim_nomodel(); } void simrepo_drop_test(int n){}
#endif
