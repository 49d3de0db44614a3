// C18: IDSetMinQueue against a set of ids.
#include "rk.h"
#include <routingkit/id_set_queue.h>
using namespace RoutingKit;
struct Ref { unsigned n; bool in[2048]; unsigned mn; Ref(unsigned n):n(n){ for(unsigned i=0;i<n;++i) in[i]=false; } unsigned min()const{ for(unsigned i=0;i<n;++i) if(in[i]) return i; return invalid_id; } };
static void check(const IDSetMinQueue&q, const Ref&r, bool all=true){
	unsigned m = r.min();
	rk_assert(q.peek()==m, "peek is the smallest contained id");
	rk_assert(q.empty()==(m==invalid_id), "empty iff nothing is contained");
	rk_assert(q.id_count()==r.n, "id_count is the capacity");
	if(all) for(unsigned i=0;i<r.n;++i) rk_assert(q.contains(i)==r.in[i], "contains reports membership");
}
static void pop(IDSetMinQueue&q, Ref&r){ unsigned m=r.min(); rk_assert(q.pop()==m, "pop returns the smallest contained id"); r.in[m]=false; }
#ifndef HIST
#define HIST 4
#endif
#ifndef NMAX
#define NMAX 5
#endif
RK_ENTRY(history){
	unsigned n = rk_choose("n",0,1,NMAX);
	IDSetMinQueue q(n); Ref r(n); check(q,r);
	for(unsigned k=0;k<HIST;++k){
		switch(rk_choose("op",k,0,2)){
			case 0: { unsigned id=rk_choose("id",k,0,n-1); q.push(id); r.in[id]=true; rk_reach("push"); break; }
			case 1: rk_assume(r.min()!=invalid_id); pop(q,r); rk_reach("pop"); break;
			case 2: q.clear(); for(unsigned i=0;i<n;++i) r.in[i]=false; rk_reach("clear"); break;
		}
		check(q,r);
	}
	while(r.min()!=invalid_id) pop(q,r);
	check(q,r); rk_reach("end");
}
// every subset of every capacity, then one operation, then drain
RK_ENTRY(subset){
	unsigned n = rk_choose("n",0,0,SUBMAX);
	IDSetMinQueue q(n); Ref r(n);
	for(unsigned i=0;i<n;++i) if(rk_choose("in",i,0,1)){ unsigned id=(i*5+2)%n; if(n%5==0) id=n-1-i; q.push(id); r.in[id]=true; }
	check(q,r);
	if(n){ switch(rk_choose("op",0,0,1)){ case 0: { unsigned id=rk_choose("id",0,0,n-1); q.push(id); r.in[id]=true; break; } case 1: if(r.min()!=invalid_id) pop(q,r); break; } }
	check(q,r);
	IDSetMinQueue c(q); Ref rc=r; while(rc.min()!=invalid_id){ pop(c,rc); check(c,rc); }
	check(q,r); c=std::move(q); check(c,r); c.clear(); for(unsigned i=0;i<n;++i) r.in[i]=false; check(c,r);
	rk_reach("end");
}
// capacities around powers of two, up to three arbitrary ids
static unsigned pick(const char*nm,unsigned k,unsigned n){ unsigned c[]={0,n/2-1,n/2,n-2,n-1}; return c[rk_choose(nm,k,0,4)]; }
RK_ENTRY(large){
	static const unsigned sz[]={7,8,9,16,17,33,64,65,127,128,129,1000,1024,1025};
	unsigned n = sz[rk_choose("size",0,0,sizeof(sz)/sizeof(sz[0])-1)];
	IDSetMinQueue q(n); Ref r(n);
	unsigned id[3]; for(unsigned k=0;k<3;++k){ id[k]= k<2&&n<18? rk_sym("id",k,0,n-1): pick("pid",k,n); q.push(id[k]); }
	unsigned lo=rk_min(id[0],rk_min(id[1],id[2])); rk_assert(q.peek()==lo,"peek is the smallest contained id");
	for(unsigned k=0;k<3;++k) rk_assert(q.contains(id[k]),"pushed id is contained");
	unsigned other= n<18?rk_sym("other",0,0,n-1): pick("pother",0,n); if(other!=id[0]&&other!=id[1]&&other!=id[2]) rk_assert(!q.contains(other),"other ids are not contained");
	rk_assert(q.pop()==lo,"pop returns the smallest contained id");
	unsigned next=invalid_id; for(unsigned k=0;k<3;++k) next=rk_ite((id[k]>lo)&(id[k]<next),id[k],next);
	rk_assert(q.peek()==next,"peek after pop is the next larger id");
	rk_assert(!q.contains(lo),"popped id is not contained");
	q.push(lo); rk_assert(q.peek()==lo,"id may be pushed again");
	q.clear(); rk_assert(q.empty()&&q.peek()==invalid_id&&!q.contains(lo),"empty after clear");
	q.push(other); rk_assert(q.pop()==other&&q.empty(),"usable after clear");
	rk_reach("end");
}

RK_ENTRY(big){ // many ids in large sets, pops in between, one arbitrary id
	static const unsigned sz[]={20,64,65,200,257,1025}; unsigned n=sz[rk_choose("n",0,0,5)]; IDSetMinQueue q(n); Ref r(n); unsigned x=n, every=rk_choose("every",0,1,4);
	for(unsigned i=0;i<60;++i){ x=x*1664525u+1013904223u; unsigned id=(x>>16)%n; q.push(id); r.in[id]=true; if(i%every==1) pop(q,r); rk_assert(q.peek()==r.min(),"peek is the smallest contained id"); }
	unsigned c=0; for(unsigned i=0;i<n;++i) c+=r.in[i]; check(q,r); 
	unsigned id=rk_choose("id",0,0,6)*(n-1)/6; q.push(id); r.in[id]=true; check(q,r);
	if(rk_choose("swap",0,0,1)){ IDSetMinQueue e(q); q=IDSetMinQueue(n); Ref z(n); check(q,z); q=std::move(e); }
	while(r.min()!=invalid_id){ pop(q,r); rk_assert(q.peek()==r.min(),"peek is the smallest contained id"); } check(q,r);
	for(unsigned i=0;i<n;++i){ q.push(n-1-i); } for(unsigned i=0;i<n;++i) rk_assert(q.pop()==i,"pop returns the smallest contained id"); rk_assert(q.empty(),"empty at the end"); rk_reach("end");
}
