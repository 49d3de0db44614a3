// C17: MinIDQueue against an abstract map from ids to keys.
#include "rk.h"
#include <routingkit/id_queue.h>
#include <vector>
using namespace RoutingKit;

struct Ref {
	unsigned n; bool in[128]; unsigned key[128]; unsigned cnt;
	explicit Ref(unsigned n):n(n),cnt(0){ for(unsigned i=0;i<128;++i){ in[i]=false; key[i]=0; } }
};
static void check_state(MinIDQueue&q, Ref&r){
	rk_assert(q.size() == r.cnt, "size() is the number of contained elements");
	rk_assert(q.empty() == (r.cnt == 0), "empty() iff no elements");
	rk_assert(q.id_count() == r.n, "id_count() is the constructor argument");
	for(unsigned i=0;i<r.n;++i){
		rk_assert(q.contains_id(i) == r.in[i], "contains_id reports membership");
		if(r.in[i]) rk_assert(q.get_key(i) == r.key[i], "get_key is the current key of the element");
	}
	if(r.cnt){
		IDKeyPair p = q.peek();
		rk_assert(p.id < r.n, "peek id in range");
		unsigned id = rk_concretize(p.id);
		rk_assert(r.in[id] && r.key[id] == p.key, "peek returns a contained element with its key");
		bool ok = true; for(unsigned i=0;i<r.n;++i) if(r.in[i]) ok &= p.key <= r.key[i];
		rk_assert(ok, "peek returns a smallest key");
	}
}
static void do_pop(MinIDQueue&q, Ref&r){
	IDKeyPair p = q.pop();
	rk_assert(p.id < r.n, "popped id in range");
	unsigned id = rk_concretize(p.id);
	rk_assert(r.in[id], "pop returns a contained element");
	rk_assert(p.key == r.key[id], "pop returns the key of the element");
	bool ok = true; for(unsigned i=0;i<r.n;++i) if(r.in[i]) ok &= p.key <= r.key[i];
	rk_assert(ok, "pop returns a smallest key");
	r.in[id]=false; --r.cnt;
}
static void do_op(MinIDQueue&q, Ref&r, unsigned k){
	unsigned op = rk_choose("op",k,0,4);
	unsigned id = 0; unsigned key = 0;
	if(op <= 2){ id = rk_choose("id",k,0,r.n-1); key = rk_sym("key",k,0,0xffffffffu); }
	switch(op){
		case 0: rk_assume(!r.in[id]); q.push({id,key}); r.in[id]=true; r.key[id]=key; ++r.cnt; rk_reach("push"); break;
		case 1: { rk_assume(r.in[id]); bool b = q.decrease_key({id,key}); rk_assert(b == (key < r.key[id]), "decrease_key returns whether the key became smaller"); r.key[id]=rk_min(key,r.key[id]); rk_reach("decrease"); break; }
		case 2: { rk_assume(r.in[id]); bool b = q.increase_key({id,key}); rk_assert(b == (key > r.key[id]), "increase_key returns whether the key became larger"); r.key[id]=rk_ite(key>r.key[id],key,r.key[id]); rk_reach("increase"); break; }
		case 3: rk_assume(r.cnt>0); do_pop(q,r); rk_reach("pop"); break;
		case 4: q.clear(); for(unsigned i=0;i<r.n;++i) r.in[i]=false; r.cnt=0; rk_reach("clear"); break;
	}
}
// every history of HIST operations over 3 ids
#ifndef HIST
#define HIST 4
#endif
RK_ENTRY(history){
	MinIDQueue q(3); Ref r(3);
	check_state(q,r);
	for(unsigned k=0;k<HIST;++k){ do_op(q,r,k); check_state(q,r); }
	while(r.cnt) do_pop(q,r);
	check_state(q,r);
	rk_reach("end");
}
// arbitrary valid heap of every size up to NMAX (keys arbitrary subject to the 4-ary heap order, which push preserves), then one arbitrary operation, then drain
#ifndef NMAX
#define NMAX 6
#endif
#ifndef NMIN
#define NMIN 1
#endif
#ifndef DRAIN
#define DRAIN 2
#endif
RK_ENTRY(step){
	unsigned n = rk_choose("n",0,NMIN,NMAX);
	unsigned total = n+1;
	MinIDQueue q(total); Ref r(total);
	for(unsigned i=0;i<n;++i){
		unsigned id = n-1-i; // ids are not the positions
		unsigned key = rk_sym("init",i,0,0xffffffffu);
		if(i) rk_assume(r.key[n-1-(i-1)/4] <= key);
		r.in[id]=true; r.key[id]=key; ++r.cnt; q.push({id,key});
	}
	do_op(q,r,0);
	check_state(q,r);
	for(unsigned k=0;k<DRAIN && r.cnt;++k) do_pop(q,r);
	check_state(q,r);
	rk_reach("end");
}
// swap, copy and move keep both queues intact
RK_ENTRY(copy){
	MinIDQueue a(3), b(2); Ref ra(3), rb(2);
	for(unsigned i=0;i<3;++i) if(rk_choose("ina",i,0,1)){ unsigned k=rk_sym("ka",i,0,0xffffffffu); a.push({i,k}); ra.in[i]=true; ra.key[i]=k; ++ra.cnt; }
	for(unsigned i=0;i<2;++i) if(rk_choose("inb",i,0,1)){ unsigned k=rk_sym("kb",i,0,0xffffffffu); b.push({i,k}); rb.in[i]=true; rb.key[i]=k; ++rb.cnt; }
	swap(a,b); check_state(a,rb); check_state(b,ra);
	MinIDQueue c(b); while(ra.cnt){ do_pop(c,ra); check_state(c,ra); } 
	MinIDQueue e(std::move(a)); check_state(e,rb);
	MinIDQueue d; rk_assert(d.empty() && d.size()==0 && d.id_count()==0, "default constructed queue is empty");
	d = std::move(e); check_state(d,rb);
	rk_reach("end");
}

// larger heaps: fixed pseudo-random keys, two operations with arbitrary keys, then drained completely
RK_ENTRY(big){
	static const unsigned sz[]={5,17,21,22,40,85,86}; unsigned n=sz[rk_choose("n",0,0,6)]; MinIDQueue q(n+2); Ref r(n+2); unsigned x=n;
	for(unsigned i=0;i<n;++i){ x=x*1664525u+1013904223u; unsigned id=(i*13+5)%n; if(n%13==0) id=n-1-i; unsigned key=(x>>16)%50*2; if(r.in[id]) continue; q.push({id,key}); r.in[id]=true; r.key[id]=key; ++r.cnt; }
	unsigned pops=rk_choose("pops",0,0,2); if(pops==2) pops=n/2; for(unsigned i=0;i<pops;++i) do_pop(q,r);
	for(unsigned k=0;k<2;++k){
		unsigned op=rk_choose("op",k,0,3), pos=rk_choose("id",k,0,3), id=0; unsigned cnt=0; unsigned want= pos==0?0: pos==1? r.cnt/3: pos==2? r.cnt/2: r.cnt-1; // some contained id
		for(unsigned i=0;i<r.n;++i) if(r.in[i]){ if(cnt==want) id=i; ++cnt; }
		unsigned key=k==0?rk_sym("key",k,0,120):rk_choose("ckey",0,0,2)*33+1;
		if(op==0){ rk_assume(pos==0); q.push({n+k,key}); r.in[n+k]=true; r.key[n+k]=key; ++r.cnt; }
		else if(op==1){ bool b=q.decrease_key({id,key}); rk_assert(b==(key<r.key[id]),"decrease_key returns whether the key became smaller"); r.key[id]=rk_min(key,r.key[id]); }
		else if(op==2){ bool b=q.increase_key({id,key}); rk_assert(b==(key>r.key[id]),"increase_key returns whether the key became larger"); r.key[id]=rk_ite(key>r.key[id],key,r.key[id]); }
		else { rk_assume(pos==0); do_pop(q,r); }
	}
	check_state(q,r); while(r.cnt) do_pop(q,r); check_state(q,r); rk_reach("end");
}
