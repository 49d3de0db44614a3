// C21: BitVector against arrays of words with an independent bit-level meaning.
#include "rk.h"
#include <routingkit/bit_vector.h>
#include <vector>
using namespace RoutingKit;
typedef std::vector<uint64_t> W;
#ifdef WIDE
static const unsigned SZ[]={0,700,2048,2049,4096,5000,8191,20000};
#else
static const unsigned SZ[]={0,1,63,64,65,448,511,512,513,1000,1023,1024,1025,1536};
#endif
static const unsigned NSZ=sizeof(SZ)/sizeof(SZ[0]);
static unsigned words(unsigned n){ return (n+511)/512*8; }
static uint64_t mask(unsigned n,unsigned i){ if(64*(uint64_t)i>=n) return 0; unsigned r=n-64*i; return r>=64? ~0ull: ((1ull<<r)-1); } // bits of word i below n
struct R { unsigned n; W w; };  // reference: every word, bits beyond n zero
static R content(unsigned n, const char*name){ R r; r.n=n; r.w.assign(words(n),0); for(unsigned i=0;i<r.w.size();++i){ uint64_t m=mask(n,i);
#ifdef WIDE
	if(m&&!(i==0||i==words(n)/2||mask(n,i+1)==0)){ r.w[i]=(0x9e3779b97f4a7c15ull*(i+1+name[0]))&m; continue; }
#endif
	if(m) r.w[i]=rk_sym64(name,i,0,~0ull)&m; } return r; }
static BitVector make(const R&r){ BitVector v(r.n); for(unsigned i=0;i<r.w.size();++i) v.data()[i]=r.w[i]; return v; }
static void check(const BitVector&v,const R&r,const char*l){
	rk_assert(v.size()==r.n,"size"); rk_assert(v.empty()==(r.n==0),"empty iff size 0"); bool ok=true;
	for(unsigned i=0;i<r.w.size();++i){ ok&=(v.data()[i]&mask(r.n,i))==r.w[i]; rk_assert((v.data()[i]&~mask(r.n,i))==0,"bits beyond the size stay zero"); }
	rk_assert(ok,l);
}
static unsigned size(const char*nm="size"){ return SZ[rk_choose(nm,0,0,NSZ-1)]; }
static R resized(const R&r,unsigned n,bool v){ R x; x.n=n; x.w.assign(words(n),0); for(unsigned i=0;i<x.w.size();++i){ uint64_t old=i<r.w.size()?r.w[i]:0; x.w[i]=((old) | (v? ~mask(r.n,i):0)) & mask(n,i); } return x; }
RK_ENTRY(construct){
	unsigned n=size(); bool b=rk_choose("v",0,0,1); R r; r.n=n; r.w.assign(words(n),0); for(unsigned i=0;i<r.w.size();++i) r.w[i]=b?mask(n,i):0;
	BitVector v(n,b); check(v,r,"constructed with the given value");
	if(!b){ BitVector d(n); check(d,r,"constructed with false by default"); }
	BitVector u(n,BitVector::uninitialized); rk_assert(u.size()==n,"size"); u.set_all(b); check(u,r,"set_all(value)");
	if(b) u.set_all(); else u.reset_all(); check(u,r,"set_all / reset_all");
	rk_assert(v.uint512_count()==(n+511)/512,"uint512_count");
	BitVector m=make_bit_vector(n<70?n:70,[&](uint64_t x){ return x%3==1; }); for(unsigned i=0;i<m.size();++i) rk_assert(m.is_set(i)==(i%3==1),"make_bit_vector"); rk_assert(m.population_count()==(m.size()+1)/3,"make_bit_vector");
	BitVector e; rk_assert(e.empty()&&e.size()==0&&e.population_count()==0&&!e.is_any_set(),"default constructed vector is empty");
	rk_reach("end");
}
RK_ENTRY(query){
	unsigned n=size(); R r=content(n,"a"); BitVector v=make(r);
	bool all=true, any=false; uint64_t c=0; for(unsigned i=0;i<r.w.size();++i){ all&=r.w[i]==mask(n,i); any|=r.w[i]!=0; c+=__builtin_popcountll(r.w[i]); }
	switch(rk_choose("f",0,0,3)){
		case 0: rk_assert(v.are_all_set()==all,"are_all_set iff every bit is set"); break;
		case 1: rk_assert(v.is_any_set()==any,"is_any_set iff some bit is set"); break;
		case 2: rk_assert(v.population_count()==c&&v.count_true()==c&&v.count_false()==n-c,"bit counts"); break;
		case 3: if(n){ unsigned x=rk_sym("x",0,0,n-1); uint64_t w=0; for(unsigned i=0;i<r.w.size();++i) w|= i==x/64? r.w[i]:0; rk_assert(v.is_set(x)==((w>>(x%64))&1),"is_set reads the bit"); } break;
	}
	check(v,r,"queries change nothing"); rk_reach("end");
}
// one bit operation at every position of every 512-bit block boundary region
RK_ENTRY(single){
	unsigned n=size(); if(n==0){ rk_reach("end"); return; } R r=content(n,"a"); BitVector v=make(r);
	static const unsigned pos[]={0,1,31,32,62,63,64,65,127,128,447,448,510,511,512,513,1022,1023,1024,1535}; unsigned x=pos[rk_choose("x",0,0,sizeof(pos)/sizeof(pos[0])-1)]; if(x>=n) x=n-1; bool b=rk_choose("b",0,0,1);
	uint64_t bit=1ull<<(x%64); uint64_t&w=r.w[x/64];
	switch(rk_choose("f",0,0,4)){
		case 0: v.set(x); w|=bit; break; case 1: v.reset(x); w&=~bit; break; case 2: v.toggle(x); w^=bit; break;
		case 3: v.set(x,b); w=(w&~bit)|(b?bit:0); break; case 4: v.set_if(x,b); w|=b?bit:0; break;
	}
	check(v,r,"single-bit operation changes exactly this bit"); rk_assert(v.is_set(x)==((w&bit)!=0),"is_set reads the bit"); rk_reach("end");
}
RK_ENTRY(whole){
	unsigned n=size(); R a=content(n,"a"), b=content(n,"b"), r=a; BitVector v=make(a), u=make(b);
	unsigned f=rk_choose("f",0,0,7);
	for(unsigned i=0;i<r.w.size();++i) switch(f%4){ case 0: r.w[i]=a.w[i]|b.w[i]; break; case 1: r.w[i]=a.w[i]&b.w[i]; break; case 2: r.w[i]=a.w[i]^b.w[i]; break; case 3: r.w[i]=~a.w[i]&mask(n,i); break; }
	switch(f){
		case 0: v|=u; check(v,r,"|= combines bitwise"); break; case 1: v&=u; check(v,r,"&= combines bitwise"); break; case 2: v^=u; check(v,r,"^= combines bitwise"); break;
		case 3: v.inplace_not(); check(v,r,"inplace_not flips every bit"); break;
		case 4: check(v|u,r,"| combines bitwise"); check(BitVector(v)|u,r,"| combines bitwise"); check(v|BitVector(u),r,"| combines bitwise"); check(BitVector(v)|BitVector(u),r,"| combines bitwise"); break;
		case 5: check(v&u,r,"& combines bitwise"); check(BitVector(v)&u,r,"& combines bitwise"); check(v&BitVector(u),r,"& combines bitwise"); check(BitVector(v)&BitVector(u),r,"& combines bitwise"); break;
		case 6: check(v^u,r,"^ combines bitwise"); check(BitVector(v)^u,r,"^ combines bitwise"); check(v^BitVector(u),r,"^ combines bitwise"); check(BitVector(v)^BitVector(u),r,"^ combines bitwise"); break;
		case 7: check(~v,r,"~ flips every bit"); check(v,a,"~ changes nothing"); break;
	}
	check(u,b,"right operand is unchanged"); rk_reach("end");
}
RK_ENTRY(resize){
	unsigned n=size(), m=SZ[rk_choose("to",0,0,NSZ-1)]; R a=content(n,"a"); BitVector v=make(a);
	switch(rk_choose("pre",0,0,2)){ case 1: { BitVector c(v); v=c; break; } case 2: { BitVector c(std::move(v)); v=std::move(c); break; } }
	unsigned f=rk_choose("f",0,0,2);
	if(f<2){ v.resize(m,f==1); check(v,resized(a,m,f==1),"resize keeps old bits and fills new ones with the value"); }
	else { v.resize(m,BitVector::uninitialized); rk_assert(v.size()==m,"size"); for(unsigned i=0;i<words(m);++i){ rk_assert((v.data()[i]&mask(n,i)&mask(m,i))==((i<a.w.size()?a.w[i]:0)&mask(m,i)),"resize keeps old bits"); rk_assert((v.data()[i]&~mask(m,i))==0,"bits beyond the size stay zero"); } }
	rk_reach("end");
}
RK_ENTRY(grow){
	unsigned n=size(); R a=content(n,"a"); BitVector v=make(a);
	static const unsigned xs[]={0,1,2,62,63,64,100,510,511,512,513,1023,1024,1500}; unsigned x=xs[rk_choose("x",0,0,sizeof(xs)/sizeof(xs[0])-1)]; unsigned f=rk_choose("f",0,0,2);
	if(f<2) v.make_large_enough_for(x,f==1); else v.make_large_enough_for(x,BitVector::uninitialized);
	rk_assert(v.size()>x,"large enough"); rk_assert(v.size()>=n,"does not shrink"); if(x<n) rk_assert(v.size()==n,"keeps its size when large enough");
	unsigned m=v.size(); R e=resized(a,m,f==1); if(f<2) check(v,e,"growing keeps old bits and fills new ones with the value"); else for(unsigned i=0;i<words(n);++i) rk_assert((v.data()[i]&mask(n,i))==a.w[i],"growing keeps old bits");
	rk_reach("end");
}
RK_ENTRY(copy){
	unsigned n=size(), m=SZ[rk_choose("other",0,0,NSZ-1)]; R a=content(n,"a"), b=content(m,"b"); BitVector v=make(a), u=make(b);
	BitVector c(v); check(c,a,"copy"); check(v,a,"copied vector is unchanged");
	if(n){ c.toggle(n-1); check(v,a,"copies are independent"); c.toggle(n-1); }
	BitVector d(std::move(c)); check(d,a,"move"); 
	v.swap(u); check(v,b,"swap"); check(u,a,"swap");
	v=u; check(v,a,"assignment"); check(u,a,"assigned vector is unchanged"); v=v; check(v,a,"self assignment"); d=std::move(u); check(d,a,"move assignment");
	rk_reach("end");
}
// two or three operations in a row from an arbitrary start
RK_ENTRY(history){
	unsigned n=size(); R r=content(n,"a"); BitVector v=make(r);
	for(unsigned k=0;k<HIST;++k) switch(rk_choose("op",k,0,4)){
		case 0: { unsigned m=SZ[rk_choose("to",k,0,NSZ-1)]; bool b=rk_choose("b",k,0,1); v.resize(m,b); r=resized(r,m,b); break; }
		case 1: v.inplace_not(); for(unsigned i=0;i<r.w.size();++i) r.w[i]=~r.w[i]&mask(r.n,i); break;
		case 2: v=BitVector(v); break;
		case 3: v.set_all(); for(unsigned i=0;i<r.w.size();++i) r.w[i]=mask(r.n,i); break;
		case 4: if(r.n){ v.set(r.n-1); r.w[(r.n-1)/64]|=1ull<<((r.n-1)%64); } break;
	}
	check(v,r,"operations in a row"); 
	bool all=true, any=false; for(unsigned i=0;i<r.w.size();++i){ all&=r.w[i]==mask(r.n,i); any|=r.w[i]!=0; }
	rk_assert(v.are_all_set()==all,"are_all_set iff every bit is set"); rk_assert(v.is_any_set()==any,"is_any_set iff some bit is set");
	rk_reach("end");
}
RK_ENTRY(order){
	unsigned n=size(), m= rk_choose("same",0,0,1)? n: SZ[rk_choose("other",0,0,NSZ-1)]; R a=content(n,"a"), b=content(m,"b"); BitVector v=make(a), u=make(b);
	bool eq=n==m; if(eq) for(unsigned i=0;i<a.w.size();++i) eq&=a.w[i]==b.w[i];
	rk_assert((v==u)==eq&&(v!=u)==!eq,"equal iff same size and bits");
	bool l=v<u, g=u<v; rk_assert(!(l&&g)&&(l||g)==!eq,"exactly one of <, ==, > holds"); if(n!=m) rk_assert(l==(n<m),"shorter vectors are smaller");
	rk_assert((v>u)==g&&(v<=u)==!g&&(v>=u)==!l,"comparison operators agree");
	rk_reach("end");
}
RK_ENTRY(transitive){
	unsigned n=SZ[rk_choose("size",0,1,5)]; R a=content(n,"a"), b=content(n,"b"), c=content(n,"c"); BitVector v=make(a), u=make(b), w=make(c);
	if(v<u&&u<w) rk_assert(v<w,"ordering is transitive"); rk_reach("end");
}
