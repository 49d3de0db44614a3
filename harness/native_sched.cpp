// Replay runtime for schedules: pthread operations of the replayed program follow the recorded order of visible operations
// (one thread number per operation). When the recording is used up, the threads run freely.
#include <pthread.h>
#include <dlfcn.h>
#include <sched.h>
#include <time.h>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <atomic>
#include <cerrno>
namespace {
struct Rec{ std::vector<int> s; Rec(){ if(const char*f=getenv("RK_SCHEDULE")) if(FILE*p=fopen(f,"r")){ int x; while(fscanf(p,"%d",&x)==1) s.push_back(x); fclose(p); } } };
Rec&rec(){ static Rec r; return r; }
std::atomic<size_t> pos(0); std::atomic<bool> freerun(false); std::atomic<int> nthreads(1);
__thread int self=0;
double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
bool over(){ return freerun||pos>=rec().s.size(); }
void turn(){ double t0=now(); while(!over()&&rec().s[pos]!=self){ sched_yield(); if(now()-t0>10){ fprintf(stderr,"RK: replay left the recorded schedule at %zu\n",(size_t)pos); freerun=true; } } }
void done(){ if(!over()) ++pos; }
struct W{ pthread_cond_t*c; std::atomic<int> st; }; // st: 0 idle, 1 waiting, 2 notified
W wait_[64];
pthread_mutex_t big=PTHREAD_MUTEX_INITIALIZER;
template<class F> F real(const char*n){ return (F)dlsym(RTLD_NEXT,n); }
}
#define REAL(name,...) static const auto r=real<__VA_ARGS__>(#name)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t*m){ REAL(pthread_mutex_lock,int(*)(pthread_mutex_t*)); turn(); int x=r(m); done(); return x; }
int pthread_mutex_trylock(pthread_mutex_t*m){ REAL(pthread_mutex_trylock,int(*)(pthread_mutex_t*)); turn(); int x=r(m); done(); return x; }
int pthread_mutex_unlock(pthread_mutex_t*m){ REAL(pthread_mutex_unlock,int(*)(pthread_mutex_t*)); turn(); int x=r(m); done(); return x; }
int pthread_cond_wait(pthread_cond_t*c, pthread_mutex_t*m){
	static auto l=real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); static auto u=real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock");
	turn(); W&w=wait_[self]; w.c=c; w.st=1; u(m); done();
	for(;;){ if(w.st==2&&(over()||rec().s[pos]==self)) break; if(!over()&&rec().s[pos]==self) break; /* spurious wakeup in the recording */ sched_yield(); }
	w.st=0; l(m); done(); return 0; }
static void wake(pthread_cond_t*c, bool all){ turn(); for(int i=0;i<64;++i) if(wait_[i].st==1&&wait_[i].c==c){ wait_[i].st=2; if(!all) break; } done(); }
int pthread_cond_signal(pthread_cond_t*c){ wake(c,false); return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ wake(c,true); return 0; }
struct Start{ void*(*f)(void*); void*a; int id; };
static void*start(void*p){ Start s=*(Start*)p; delete (Start*)p; self=s.id; return s.f(s.a); }
int pthread_create(pthread_t*t,const pthread_attr_t*at,void*(*f)(void*),void*a){ REAL(pthread_create,int(*)(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*)); turn(); int id=nthreads++; int x=r(t,at,start,new Start{f,a,id}); done(); return x; }
int pthread_join(pthread_t t,void**v){ REAL(pthread_join,int(*)(pthread_t,void**)); int x=r(t,v); turn(); done(); return x; }
}
