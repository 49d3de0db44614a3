// C22: id mappers against counting.
#include "rk.h"
#include <routingkit/id_mapper.h>
#include <routingkit/bit_vector.h>
#include <vector>
using namespace RoutingKit;
typedef std::vector<uint64_t> W;
static bool bit(const W&w,unsigned i){ return (w[i/64]>>(i%64))&1; }
// arbitrary bits, every local and global id
RK_ENTRY(small){
	unsigned n=rk_choose("n",0,0,NMAX), shift=rk_choose("shift",0,0,3); static const unsigned sh[]={0,29,60,507};
	unsigned base=sh[shift], total=base+n; BitVector v(total);
	for(unsigned i=0;i<n;++i) if(rk_choose("bit",i,0,1)) v.set(base+i);
	IDMapper m(v); LocalIDMapper l(v); unsigned c=0;
	rk_assert(m.global_id_count()==total&&l.global_id_count()==total,"global id count");
	for(unsigned i=0;i<total;++i){
		rk_assert(m.is_global_id_mapped(i)==v.is_set(i)&&l.is_global_id_mapped(i)==v.is_set(i),"mapped iff marked");
		if(v.is_set(i)){ rk_assert(m.to_local(i)==c&&m.to_local(i,99)==c&&l.to_local(i)==c&&l.to_local(i,99)==c,"local id is the number of marked ids before"); rk_assert(m.to_global(c)==i,"to_global inverts to_local"); ++c; }
		else rk_assert(m.to_local(i,~0ull)==~0ull&&l.to_local(i,7)==7,"unmarked ids yield the invalid value");
	}
	rk_assert(m.local_id_count()==c&&l.local_id_count()==c,"local id count");
	for(unsigned i=0;i<3;++i){ rk_assert(m.to_local(total+i,~0ull)==~0ull,"out-of-range ids yield the invalid value"); }
	rk_assert(m.to_local(total+1000,5)==5&&m.to_local(~0ull,5)==5,"out-of-range ids yield the invalid value");
	rk_reach("end");
}
RK_ENTRY(empty){ IDMapper m; rk_assert(m.global_id_count()==0&&m.local_id_count()==0&&m.to_local(3,8)==8,"default constructed mapper is empty"); LocalIDMapper l; rk_assert(l.global_id_count()==0&&l.local_id_count()==0&&l.to_local(0,8)==8,"default constructed mapper is empty"); rk_reach("end"); }
// one arbitrary 64-bit word inside a pattern: select inside a word
RK_ENTRY(word){
	unsigned at=rk_choose("at",0,0,2); static const unsigned pos[]={0,3,7}; W w(16,0); for(unsigned i=0;i<16;++i) w[i]=0x8001000000100401ull;
	static const uint64_t M[]={0x8001800180010181ull,0xffull,0xc0000001c0000300ull}; uint64_t mk=M[rk_choose("mask",0,0,2)], fill=rk_choose("fill",0,0,1)?~mk:0; uint64_t x=(rk_sym64("x",0,0,~0ull)&mk)|fill; w[pos[at]]=x; unsigned before=pos[at]*5; unsigned c=__builtin_popcountll(x);
	IDMapper m(1024,&w[0]);
	rk_assert(m.local_id_count()==75+c,"local id count");
	unsigned k=rk_choose("k",0,0,63); rk_assume(k<c);
	uint64_t g=m.to_global(before+k); rk_assert(g/64==pos[at],"to_global finds the right word"); unsigned b=g%64;
	rk_assert((x>>b)&1,"to_global returns a marked id"); rk_assert(__builtin_popcountll(x&((1ull<<b)-1))==k,"to_global returns the id with the right number of marked ids before it");
	rk_reach("end");
}
RK_ENTRY(word_local){
	unsigned at=rk_choose("at",0,0,2); static const unsigned pos[]={0,3,7}; W w(16,0); for(unsigned i=0;i<16;++i) w[i]=0x8001000000100401ull;
	uint64_t x=rk_sym64("x",0,0,~0ull), y=rk_sym64("y",0,0,~0ull); w[pos[at]]=x; w[12]=y; unsigned before=pos[at]*5;
	LocalIDMapper m(1024,&w[0]); unsigned b=rk_choose("b",0,0,63);
	rk_assume((x>>b)&1); unsigned e=before+__builtin_popcountll(x&((1ull<<b)-1)); rk_assert(m.to_local(64*pos[at]+b)==e,"local id is the number of marked ids before"); rk_assert(m.to_local(64*pos[at]+b,~0ull)==e,"local id is the number of marked ids before");
	if((y>>b)&1) rk_assert(m.to_local(12*64+b,9)==14*5-(pos[at]<8?5:0)-10+__builtin_popcountll(x)+__builtin_popcountll(y&((1ull<<b)-1)),"local id counts all earlier blocks"); else rk_assert(m.to_local(12*64+b,9)==9,"unmarked ids yield the invalid value");
	rk_reach("end");
}
// many blocks: dense, sparse, gaps of whole blocks; a few bits arbitrary
RK_ENTRY(blocks){
	static const unsigned sz[]={511,512,513,1024,2600,5120,9000}; unsigned n=sz[rk_choose("size",0,0,6)]; unsigned pat=rk_choose("pat",0,0,6);
	BitVector v(n);
	for(unsigned i=0;i<n;++i){ bool b=false; switch(pat){ case 0: b=true; break; case 1: b=i%2; break; case 2: b=i%7==3; break; case 3: b=i%700==699; break; case 4: b=i<n/2; break; case 5: b=i>=n-300; break; case 6: b=(i/512)%3==0||i%1000==0; break; } v.set(i,b); }
	static const unsigned at[]={0,63,511,512,2047}; for(unsigned k=0;k<5;++k) if(at[k]<n) v.set(at[k],rk_choose("bit",k,0,1)); 
	IDMapper m(v); unsigned c=0;
	for(unsigned i=0;i<n;++i) if(v.is_set(i)){ if(c<3||c%61==0||(c&255)<2||(c&255)==255||i+400>n||i%512<2||i%512==511){ rk_assert(m.to_local(i)==c,"local id is the number of marked ids before"); rk_assert(m.to_global(c)==i,"to_global inverts to_local"); } ++c; }
	rk_assert(m.local_id_count()==c,"local id count"); rk_reach("end");
}
