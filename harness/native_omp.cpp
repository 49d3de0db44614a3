// Replay of a recorded schedule: exactly one thread runs at a time, and the thread that performs the next visible operation is the recorded one.
// With RK_FREERUN (thread sanitizer build) the threads run freely.
#include "omp_rt.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <atomic>
#include <thread>
#include <chrono>
namespace {
struct Rec{ std::vector<int> s; Rec(){ if(const char*f=getenv("RK_SCHEDULE")) if(FILE*p=fopen(f,"r")){ int x; while(fscanf(p,"%d",&x)==1) s.push_back(x); fclose(p); } } };
Rec&rec(){ static Rec r; return r; }
pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c=PTHREAD_COND_INITIALIZER;
int owner=0; size_t pos=0; bool freerun=false; __thread int self=0; int nthreads=1; pthread_t th[64];
struct Start{ void(*f)(void*); void*a; int id; };
#ifdef RK_FREERUN
std::atomic<int> arrived(0), gen(0);
void*start(void*p){ Start s=*(Start*)p; delete (Start*)p; self=s.id; s.f(s.a); return nullptr; }
}
extern "C" {
int rk_spawn(void(*f)(void*),void*a){ int id=nthreads++; pthread_create(&th[id],0,start,new Start{f,a,id}); return id; }
void rk_join(int id){ pthread_join(th[id],0); }
void rk_barrier(void*,uint64_t n){ int g=gen; if(++arrived==(int)n){ arrived=0; ++gen; } else while(gen==g) std::this_thread::yield(); }
void rk_point(){} void rk_before_cas(){}
uint64_t rk_take(uint64_t*p){ uint64_t r=__atomic_fetch_add(p,1,__ATOMIC_RELAXED); std::this_thread::sleep_for(std::chrono::milliseconds(2)); return r; }
void rk_lock(pthread_mutex_t*m){ pthread_mutex_lock(m); } void rk_unlock(pthread_mutex_t*m){ pthread_mutex_unlock(m); }
int rk_self(){ return self; }
}
#else
void next(){ if(!freerun){ if(pos>=rec().s.size()) freerun=true; else owner=rec().s[pos]; } pthread_cond_broadcast(&c); } // called with m held
void mine(){ while(!freerun&&owner!=self) pthread_cond_wait(&c,&m); }
void visible(){ pthread_mutex_lock(&m); if(nthreads>1){ next(); mine(); if(!freerun) ++pos; } pthread_mutex_unlock(&m); }
void*start(void*p){ Start s=*(Start*)p; delete (Start*)p; self=s.id; pthread_mutex_lock(&m); mine(); pthread_mutex_unlock(&m); s.f(s.a); pthread_mutex_lock(&m); next(); pthread_mutex_unlock(&m); return nullptr; }
std::vector<std::pair<void*,int> > waiting; int released[64]; // by thread: barrier generations
}
extern "C" {
int rk_spawn(void(*f)(void*),void*a){ pthread_mutex_lock(&m); int id=nthreads++; pthread_mutex_unlock(&m); pthread_create(&th[id],0,start,new Start{f,a,id}); return id; }
void rk_join(int id){ visible(); pthread_join(th[id],0); }
void rk_barrier(void*b,uint64_t n){ visible(); pthread_mutex_lock(&m); uint64_t k=1; for(auto&w:waiting) if(w.first==b) ++k;
	if(k==n){ std::vector<std::pair<void*,int> > o; for(auto&w:waiting){ if(w.first==b) released[w.second]=1; else o.push_back(w); } waiting.swap(o); released[self]=1; pthread_cond_broadcast(&c); } else waiting.push_back(std::make_pair(b,self));
	next(); while(!released[self]||(!freerun&&owner!=self)) pthread_cond_wait(&c,&m); released[self]=0; if(!freerun) ++pos; pthread_mutex_unlock(&m); }
void rk_point(){ visible(); } void rk_before_cas(){ visible(); }
uint64_t rk_take(uint64_t*p){ visible(); return __sync_fetch_and_add(p,1); }
void rk_lock(pthread_mutex_t*x){ visible(); pthread_mutex_lock(x); } void rk_unlock(pthread_mutex_t*x){ visible(); pthread_mutex_unlock(x); }
int rk_self(){ return self; }
}
#endif
