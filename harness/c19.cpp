// C19: sorting helpers.
#include "rk.h"
#include <routingkit/sort.h>
#include <vector>
using namespace RoutingKit;
typedef std::vector<unsigned> V;
struct E { unsigned k,id; E():k(0),id(0){} E(const E&o):k(o.k),id(o.id){} E(E&&o):k(o.k),id(o.id){ o.gone(); } E&operator=(const E&o){ k=o.k; id=o.id; return *this; } E&operator=(E&&o){ k=o.k; id=o.id; o.gone(); return *this; } void gone(){ k=0xdead; id=0xdead; } }; // elements that are moved from lose their value
static bool operator<(const E&a,const E&b){ return a.k<b.k; }
struct Key { unsigned operator()(const E&e)const{ return e.k; } };
struct Cmp { bool operator()(const E&a,const E&b)const{ return a.k<b.k; } };
struct Greater { bool operator()(const E&a,const E&b)const{ return a.k>b.k; } };
static unsigned ord(bool desc,unsigned k){ return desc?~k:k; }
static void check_sorted(const std::vector<E>&v, const std::vector<E>&r, bool stable, bool desc=false){
	rk_assert(r.size()==v.size(),"sorting keeps the number of elements");
	std::vector<bool> seen(v.size(),false); unsigned prevk=0, previd=0;
	for(unsigned i=0;i<r.size();++i){
		unsigned id=rk_concretize(r[i].id); rk_assert(id<v.size()&&!seen[id],"sorted result has every element once"); seen[id]=true;
		rk_assert(r[i].k==v[id].k,"elements are unchanged");
		unsigned k=ord(desc,r[i].k);
		if(i){ rk_assert(prevk<=k,"result is sorted"); if(stable&&id<previd) rk_assert(prevk!=k,"stable sort keeps the order of equal elements"); }
		prevk=k; previd=id;
	}
}
static void check_perm(const std::vector<E>&v, const V&p, bool stable, bool desc=false){
	rk_assert(p.size()==v.size(),"permutation has the size of the vector");
	std::vector<E> r; for(unsigned i=0;i<p.size();++i){ rk_assert(p[i]<v.size(),"permutation entry in range"); r.push_back(v[rk_concretize(p[i])]); }
	check_sorted(v,r,stable,desc);
}
static void check_inv(const std::vector<E>&v, const V&q, bool stable, bool desc=false){
	rk_assert(q.size()==v.size(),"permutation has the size of the vector");
	V p(q.size(),invalid_id); for(unsigned i=0;i<q.size();++i){ rk_assert(q[i]<v.size(),"permutation entry in range"); unsigned x=rk_concretize(q[i]); rk_assert(p[x]==invalid_id,"inverse permutation has every position once"); p[x]=i; }
	check_perm(v,p,stable,desc);
}
static bool is_ord(const std::vector<E>&v){ bool b=true; for(unsigned i=1;i<v.size();++i) b&=v[i-1].k<=v[i].k; return b; }
static void all_key(const std::vector<E>&v, unsigned kc){
	Key key; std::vector<E> w;
	switch(rk_choose("f",0,0,8)){
		case 0: check_perm(v,compute_sort_permutation_using_key(v,kc,key),false); break;
		case 1: check_perm(v,compute_stable_sort_permutation_using_key(v,kc,key),true); break;
		case 2: check_inv(v,compute_inverse_sort_permutation_using_key(v,kc,key),false); break;
		case 3: check_inv(v,compute_inverse_stable_sort_permutation_using_key(v,kc,key),true); break;
		case 4: check_sorted(v,sort_using_key(v,kc,key),false); break;
		case 5: check_sorted(v,stable_sort_using_key(v,kc,key),true); break;
		case 6: w=v; check_sorted(v,sort_using_key(std::move(w),kc,key),false); break;
		case 7: w=v; check_sorted(v,stable_sort_using_key(std::move(w),kc,key),true); break;
		case 8: rk_assert(is_sorted_using_key(v,kc,key)==is_ord(v),"is_sorted_using_key is exact"); break;
	}
}
static void all_cmp(const std::vector<E>&v){
	Cmp c; Greater gr; std::vector<E> w;
	switch(rk_choose("f",0,0,20)){
		case 0: check_perm(v,compute_sort_permutation_using_comparator(v,c),false); break;
		case 1: check_perm(v,compute_stable_sort_permutation_using_comparator(v,c),true); break;
		case 2: check_inv(v,compute_inverse_sort_permutation_using_comparator(v,c),false); break;
		case 3: check_inv(v,compute_inverse_stable_sort_permutation_using_comparator(v,c),true); break;
		case 4: check_sorted(v,sort_using_comparator(v,c),false); break;
		case 5: check_sorted(v,stable_sort_using_comparator(v,c),true); break;
		case 6: w=v; check_sorted(v,sort_using_comparator(std::move(w),c),false); break;
		case 7: w=v; check_sorted(v,stable_sort_using_comparator(std::move(w),c),true); break;
		case 8: rk_assert(is_sorted_using_comparator(v,c)==is_ord(v),"is_sorted_using_comparator is exact"); break;
		case 9: check_perm(v,compute_sort_permutation_using_less(v),false); break;
		case 10: check_perm(v,compute_stable_sort_permutation_using_less(v),true); break;
		case 11: check_inv(v,compute_inverse_sort_permutation_using_less(v),false); break;
		case 12: check_inv(v,compute_inverse_stable_sort_permutation_using_less(v),true); break;
		case 13: check_sorted(v,sort_using_less(v),false); break;
		case 14: check_sorted(v,stable_sort_using_less(v),true); break;
		case 15: w=v; check_sorted(v,sort_using_less(std::move(w)),false); break;
		case 16: w=v; check_sorted(v,stable_sort_using_less(std::move(w)),true); break;
		case 17: rk_assert(is_sorted_using_less(v)==is_ord(v),"is_sorted_using_less is exact"); break;
		case 18: check_perm(v,compute_stable_sort_permutation_using_comparator(v,gr),true,true); break;
		case 19: check_sorted(v,stable_sort_using_comparator(v,gr),true,true); break;
		case 20: check_inv(v,compute_inverse_stable_sort_permutation_using_comparator(v,gr),true,true); break;
	}
}
#ifndef NMAX
#define NMAX 4
#endif
RK_ENTRY(cmp){
	unsigned n=rk_choose("n",0,0,NMAX); std::vector<E> v(n); for(unsigned i=0;i<n;++i){ v[i].k=rk_sym("k",i,0,0xffffffffu); v[i].id=i; }
	all_cmp(v); rk_reach("end");
}
static unsigned pick(unsigned i,unsigned c){ unsigned x[]={0,c/2,c-2,c-1}; return x[rk_choose("pk",i,0,3)]; }
RK_ENTRY(key){ // number of keys on both sides of 16 times the number of elements
	unsigned n=rk_choose("n",0,0,3);
	static const unsigned kc[]={1,2,3,5,15,16,17,31,32,33,47,48,49,63,64,65,79,80}; unsigned c=kc[rk_choose("kc",0,0,sizeof(kc)/sizeof(kc[0])-1)];
	std::vector<E> v(n); for(unsigned i=0;i<n;++i){ v[i].k= c<=5? rk_sym("k",i,0,c-1): pick(i,c); v[i].id=i; }
	all_key(v,c); rk_reach("end");
}
RK_ENTRY(key0){ // no elements, any number of keys including none
	unsigned c=rk_choose("kc",0,0,40); std::vector<E> v; all_key(v,c); rk_reach("end");
}
// more elements than the insertion-sort limit of the standard library; a few keys arbitrary, many ties
RK_ENTRY(large){
	unsigned n = LARGE; std::vector<E> v(n); for(unsigned i=0;i<n;++i){ v[i].k= 1+(i*7%3==0); v[i].id=i; }
	bool cmp=rk_choose("which",0,0,1);
	for(unsigned i=0;i<FREE;++i) v[(i*11+3)%n].k= i||!cmp? rk_choose("ck",i,0,3): rk_sym("k",i,0,3);
	if(cmp) all_cmp(v); else { static const unsigned kc[]={4,16*LARGE+15,16*LARGE+16,40*LARGE}; all_key(v,kc[rk_choose("kc",0,0,3)]); }
	rk_reach("end");
}
