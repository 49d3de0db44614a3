// C36: timestamped flags behave like a set of ids with constant-time clearing, however often they are cleared.
#include "rk.h"
#include <algorithm>
#include <vector>
#include <routingkit/timestamp_flag.h>
using namespace RoutingKit;
#ifndef NN
#define NN 3
#endif
#ifndef OPS
#define OPS 3
#endif
struct Ref{ TimestampFlags f; std::vector<unsigned> r; };
static void same(const Ref&x){ for(unsigned i=0;i<x.r.size();++i) rk_assert(x.f.is_set(i)==(x.r[i]!=0),"a flag is set iff it was set after the last time it or all were reset"); }
static void clear(Ref&x){ x.f.reset_all(); for(auto&b:x.r) b=0; }
static void op(Ref&x,unsigned k){
	unsigned n=x.r.size(), o=rk_choose("op",k,0,2*n+1);
	if(o<n){ x.f.set(o); x.r[o]=1; } else if(o<2*n){ x.f.reset_one(o-n); x.r[o-n]=0; } else if(o==2*n) clear(x); else { TimestampFlags c(x.f); x.f=TimestampFlags(1); x.f=c; }
	same(x);
}
// arbitrary contents through a symbolic pattern
static void fill(Ref&x,const char*nm){ unsigned m=rk_choose(nm,0,0,(1u<<x.r.size())-1); for(unsigned i=0;i<x.r.size();++i) if(m>>i&1){ x.f.set(i); x.r[i]=1; } same(x); }
RK_ENTRY(ops){ unsigned n=rk_choose("n",0,0,NN); Ref x; x.f=TimestampFlags(n); x.r.assign(n,0); same(x); for(unsigned k=0;k<OPS;++k) op(x,k); rk_reach("end"); }
// flags set at arbitrary moments of more than two rounds of a 16 bit counter; checked against every moment they could come back at
RK_ENTRY(wrap){
	static const unsigned at[]={0,1,2,65534,65535,65536,65537,131070}; unsigned n=2; Ref x; x.f=TimestampFlags(n); x.r.assign(n,0);
	unsigned t0=at[rk_choose("at",0,0,7)], id=rk_choose("id",0,0,1), how=rk_choose("how",0,0,2); bool ok=true;
	for(unsigned t=0;t<=66000+t0;++t){
		if(t==t0){ x.f.set(id); x.r[id]=1; if(how==1){ x.f.reset_one(id); x.r[id]=0; } if(how==2) x.f.reset_one(1-id); same(x); }
		x.f.reset_all(); x.r[id]=0; ok= ok && !x.f.is_set(0) && !x.f.is_set(1);
	}
	rk_assert(ok,"no flag comes back however often all are reset"); fill(x,"m"); op(x,0); op(x,1); rk_reach("end");
}
// operations right around the moment at which a 16 bit counter starts over
RK_ENTRY(around){ Ref x; x.f=TimestampFlags(NN); x.r.assign(NN,0); fill(x,"m"); unsigned k=rk_choose("resets",0,65530,65540)+65535*rk_choose("round",0,0,1); for(unsigned t=0;t<k;++t) x.f.reset_all(); x.r.assign(NN,0); same(x); op(x,0); op(x,1); clear(x); same(x); op(x,2); rk_reach("end"); }
RK_ENTRY(word){ // many ids, arbitrary sets: the id is arbitrary
	unsigned n=64; TimestampFlags f(n); unsigned a=rk_sym("a",0,0,n-1), b=rk_sym("b",0,0,n-1), c=rk_sym("c",0,0,n-1), q=rk_sym("q",0,0,n-1);
	f.set(a); f.set(b); rk_assert(f.is_set(q)==(q==a||q==b),"exactly the set flags are set"); f.reset_one(c); rk_assert(f.is_set(q)==((q==a||q==b)&&q!=c),"a single flag is reset"); f.reset_all(); rk_assert(!f.is_set(q),"all flags are reset"); f.set(c); rk_assert(f.is_set(q)==(q==c),"flags can be set again"); rk_reach("end"); }
