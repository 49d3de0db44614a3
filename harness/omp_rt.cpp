// Model of the OpenMP runtime that clang's generated code calls, on top of rk_spawn/rk_join/rk_barrier (the engine's threads, or
// native_omp.cpp in a replay). The real code, its pragmas included, is compiled by clang -fopenmp; only the runtime library is a model.
#include "omp_rt.h"
#include <cstdint>
#include <pthread.h>
namespace {
enum{ MAXT=8, MAXLOOP=512 };
int pushed=0, deflt=2;
struct Loop{ uint64_t taken; };
struct Team{ int n; char barrier; Loop loop[MAXLOOP]; int singles[MAXLOOP]; };
Team*team=nullptr; // team of the running parallel region (regions are not nested)
struct Per{ int tid; unsigned loops, singles; int64_t lb,ub,st,chunk; bool sgn; };
Per per[64]; // by thread id
struct Arg{ int tid; void*micro; void**a; };
typedef void(*Micro)(int*,int*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
void run(Arg&x){ int g=x.tid, b=0; Per&p=per[rk_self()]; p.tid=x.tid; p.loops=0; p.singles=0; void**a=x.a; ((Micro)x.micro)(&g,&b,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]); }
void worker(void*p){ run(*(Arg*)p); }
Per&me(){ return per[rk_self()]; }
pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER;
}
extern "C" {
int omp_get_num_procs(void){ return deflt; } int omp_get_max_threads(void){ return deflt; } int omp_get_num_threads(void){ return team?team->n:1; }
int omp_get_thread_num(void){ return team?me().tid:0; } int omp_in_parallel(void){ return team&&team->n>1; } void omp_set_num_threads(int n){ deflt=n; } void omp_set_dynamic(int){} double omp_get_wtime(void){ return 0; }
void rk_omp_procs(int n){ deflt=n; }
void __kmpc_push_num_threads(void*,int,int n){ pushed=n; }
int __kmpc_global_thread_num(void*){ return team?me().tid:0; }
void __kmpc_barrier(void*,int){ if(team&&team->n>1) rk_barrier(&team->barrier,team->n); }
int __kmpc_cancel_barrier(void*l,int g){ __kmpc_barrier(l,g); return 0; }
void __kmpc_fork_call(void*,int,void*micro,void*a0,void*a1,void*a2,void*a3,void*a4,void*a5,void*a6,void*a7,void*a8,void*a9){
	void*a[10]={a0,a1,a2,a3,a4,a5,a6,a7,a8,a9}; int n=pushed>0?pushed:deflt; pushed=0; if(n>MAXT) n=MAXT; // the runtime may give fewer threads than asked for
	Team*outer=team; Team*t=new Team(); t->n=outer?1:n; Per keep=me(); team=t;
	Arg x[MAXT]; int id[MAXT]; for(int i=0;i<t->n;++i){ x[i].tid=i; x[i].micro=micro; x[i].a=a; }
	for(int i=1;i<t->n;++i) id[i]=rk_spawn(worker,&x[i]);
	run(x[0]); for(int i=1;i<t->n;++i) rk_join(id[i]);
	team=outer; me()=keep; delete t; }
void __kmpc_serialized_parallel(void*,int){} void __kmpc_end_serialized_parallel(void*,int){}
// static schedules
#define STATIC(NAME,T,S) void NAME(void*,int,int kind,int*last,T*lb,T*ub,S*st,S incr,S chunk){ \
	int n=team?team->n:1, me_=team?me().tid:0; kind&=~(1<<29|1<<30); T L=*lb,U=*ub; if(incr>0? U<L : L<U){ *last=0; return; } \
	uint64_t trips= incr>0? (uint64_t)(U-L)/(uint64_t)incr+1 : (uint64_t)(L-U)/(uint64_t)(-incr)+1; \
	if(kind==33){ if(chunk<1) chunk=1; *st=(S)(n*chunk*incr); *lb=(T)(L+(T)(me_*chunk*incr)); *ub=(T)(*lb+(T)((chunk-1)*incr)); *last= (trips-1)/chunk%n==(uint64_t)me_; return; } \
	uint64_t q=trips/n, r=trips%n, from=me_*q+((uint64_t)me_<r?me_:r), cnt=q+((uint64_t)me_<r); *st=(S)(incr*(S)trips); \
	if(!cnt){ *last=0; if(incr>0){ *lb=U; *ub=U; *lb=(T)(U+1); if(*lb<U){ *lb=U; *ub=(T)(U-1); } } else { *lb=U; *ub=(T)(U+1); } return; } \
	*lb=(T)(L+(T)from*(T)incr); *ub=(T)(*lb+(T)(cnt-1)*(T)incr); *last= from+cnt==trips; }
STATIC(__kmpc_for_static_init_4,int32_t,int32_t) STATIC(__kmpc_for_static_init_4u,uint32_t,int32_t) STATIC(__kmpc_for_static_init_8,int64_t,int64_t) STATIC(__kmpc_for_static_init_8u,uint64_t,int64_t)
void __kmpc_for_static_fini(void*,int){}
// dynamic schedules: chunks are handed out in order, to whoever asks
static void dinit(int64_t lb,int64_t ub,int64_t st,int64_t chunk,bool sgn){ Per&p=me(); p.lb=lb; p.ub=ub; p.st=st; p.chunk=chunk<1?1:chunk; p.sgn=sgn; ++p.loops; }
static bool dnext(int*last,int64_t&lb,int64_t&ub,int64_t&st){ Per&p=me(); bool none= p.st>0? (p.sgn? p.ub<p.lb : (uint64_t)p.ub<(uint64_t)p.lb) : (p.sgn? p.lb<p.ub : (uint64_t)p.lb<(uint64_t)p.ub); if(none) return false;
	uint64_t trips= p.st>0? (uint64_t)(p.ub-p.lb)/(uint64_t)p.st+1 : (uint64_t)(p.lb-p.ub)/(uint64_t)(-p.st)+1;
	uint64_t k; if(team){ k=rk_take(&team->loop[(p.loops-1)%MAXLOOP].taken); rk_point(); } else k=p.loops++ -1;
	uint64_t from=k*(uint64_t)p.chunk; if(from>=trips) return false; uint64_t to=from+p.chunk; if(to>trips) to=trips;
	lb=p.lb+(int64_t)from*p.st; ub=p.lb+(int64_t)(to-1)*p.st; st=p.st; *last= to==trips; return true; }
#define DYN(SUF,T,S,SG) void __kmpc_dispatch_init_##SUF(void*,int,int,T lb,T ub,S st,S chunk){ dinit((int64_t)lb,(int64_t)ub,st,chunk,SG); } \
	int __kmpc_dispatch_next_##SUF(void*,int,int*last,T*lb,T*ub,S*st){ int64_t l,u,s; if(!dnext(last,l,u,s)) return 0; *lb=(T)l; *ub=(T)u; *st=(S)s; return 1; } \
	void __kmpc_dispatch_fini_##SUF(void*,int){}
DYN(4,int32_t,int32_t,true) DYN(4u,uint32_t,int32_t,false) DYN(8,int64_t,int64_t,true) DYN(8u,uint64_t,int64_t,false)
void __kmpc_dispatch_deinit(void*,int){}
int __kmpc_single(void*,int){ if(!team||team->n==1) return 1; Per&p=me(); int k=p.singles++%MAXLOOP; return __sync_fetch_and_add(&team->singles[k],1)==0; } void __kmpc_end_single(void*,int){}
int __kmpc_master(void*,int){ return !team||me().tid==0; } void __kmpc_end_master(void*,int){} int __kmpc_masked(void*,int,int f){ return !team||me().tid==f; } void __kmpc_end_masked(void*,int){}
void __kmpc_critical(void*,int,void*){ rk_lock(&crit); } void __kmpc_critical_with_hint(void*,int,void*,unsigned){ rk_lock(&crit); } void __kmpc_end_critical(void*,int,void*){ rk_unlock(&crit); }
int __kmpc_reduce_nowait(void*,int,int,size_t,void*,void*,void*){ return 2; } int __kmpc_reduce(void*,int,int,size_t,void*,void*,void*){ return 2; } void __kmpc_end_reduce(void*,int,void*){} void __kmpc_end_reduce_nowait(void*,int,void*){} void __kmpc_flush(void*){}
void omp_init_lock(omp_lock_t*){} void omp_destroy_lock(omp_lock_t*){} void omp_set_lock(omp_lock_t*){ rk_lock(&crit); } void omp_unset_lock(omp_lock_t*){ rk_unlock(&crit); }
}
