// C20: permutations, inverse vectors, filters, min/max.
#include "graph.h"
#include <routingkit/permutation.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/filter.h>
#include <routingkit/min_max.h>
#include <random>
using namespace RoutingKit;
struct T { unsigned x; T():x(0){} T(const T&o):x(o.x){} T(T&&o):x(o.x){ o.x=0xdead; } T&operator=(const T&o){ x=o.x; return *this; } T&operator=(T&&o){ unsigned y=o.x; x=y; o.x=0xdead; return *this; } }; // like a string, an element moved onto itself loses its value
static std::vector<T> syms(unsigned n,const char*nm="v"){ std::vector<T> v(n); for(unsigned i=0;i<n;++i) v[i].x=rk_sym(nm,i,0,0xffffffffu); return v; }
RK_ENTRY(recognise){
	unsigned n=rk_choose("n",0,0,4); V p(n); for(unsigned i=0;i<n;++i) p[i]=rk_sym("p",i,0,0xffffffffu);
	bool ok=true; for(unsigned i=0;i<n;++i){ ok&=p[i]<n; for(unsigned j=0;j<i;++j) ok&=p[i]!=p[j]; }
	rk_assert(is_permutation(p)==ok,"is_permutation recognises exactly the permutations"); rk_reach("end");
}
RK_ENTRY(algebra){
	unsigned n=rk_choose("n",0,0,NMAX); V p=any_perm(n,"p"), q=any_perm(n,"q"); std::vector<T> v=syms(n);
	V inv=invert_permutation(p), id=identity_permutation(n);
	rk_assert(inv.size()==n&&id.size()==n,"sizes");
	for(unsigned i=0;i<n;++i){ rk_assert(id[i]==i,"identity permutation"); rk_assert(inv[p[i]]==i&&p[inv[i]]==i,"inverse undoes the permutation"); }
	std::vector<T> a=apply_permutation(p,v), b=apply_inverse_permutation(p,v), w=v;
	std::vector<T> am=apply_permutation(p,std::move(w)); w=v; std::vector<T> bm=apply_inverse_permutation(p,std::move(w));
	rk_assert(a.size()==n&&b.size()==n&&am.size()==n&&bm.size()==n,"sizes");
	for(unsigned i=0;i<n;++i){ rk_assert(a[i].x==v[p[i]].x&&am[i].x==a[i].x,"apply_permutation moves v[p[i]] to i"); rk_assert(b[p[i]].x==v[i].x&&bm[p[i]].x==v[i].x,"apply_inverse_permutation moves v[i] to p[i]"); }
	V lr=chain_permutation_first_left_then_right(p,q), rl=chain_permutation_first_right_then_left(p,q);
	std::vector<T> x=apply_permutation(q,a), y=apply_permutation(lr,v), x2=apply_permutation(p,apply_permutation(q,v)), y2=apply_permutation(rl,v);
	for(unsigned i=0;i<n;++i){ rk_assert(x[i].x==y[i].x,"chaining first left then right equals applying one after the other"); rk_assert(x2[i].x==y2[i].x,"chaining first right then left equals applying one after the other"); }
	rk_reach("end");
}
RK_ENTRY(elements){
	unsigned n=rk_choose("n",0,1,3); V p=any_perm(n,"p"); unsigned m=rk_choose("m",0,0,3); V v(m), u(m);
	for(unsigned i=0;i<m;++i){ unsigned x=rk_sym("v",i,0,n); v[i]=rk_ite(x==n,invalid_id,x); u[i]=rk_sym("u",i,0,n-1); }
	V a=apply_permutation_to_possibly_invalid_elements_of(p,v), b=v; inplace_apply_permutation_to_possibly_invalid_elements_of(p,b);
	V c=apply_permutation_to_elements_of(p,u), d=u; inplace_apply_permutation_to_elements_of(p,d);
	rk_assert(a.size()==m&&b.size()==m&&c.size()==m&&d.size()==m,"sizes");
	for(unsigned i=0;i<m;++i){
		if(v[i]==invalid_id){ rk_assert(a[i]==invalid_id&&b[i]==invalid_id,"invalid ids stay invalid"); }
		else { unsigned e=p[rk_concretize(v[i])]; rk_assert(a[i]==e&&b[i]==e,"valid ids are mapped"); }
		unsigned f=p[rk_concretize(u[i])]; rk_assert(c[i]==f&&d[i]==f,"elements are mapped");
	}
	rk_reach("end");
}
RK_ENTRY(random){ unsigned n=rk_choose("n",0,0,9); std::minstd_rand g(rk_choose("seed",0,1,4)); V p=random_permutation(n,g); rk_assert(p.size()==n&&is_permutation(p),"random_permutation returns a permutation"); rk_reach("end"); }
RK_ENTRY(inverse_vector){
	unsigned k=rk_choose("elements",0,0,4), n= k? rk_choose("n",0,0,4):0; V v(n);
	for(unsigned i=0;i<n;++i){ v[i]=rk_sym("v",i,0,k-1); if(i) rk_assume(v[i-1]<=v[i]); }
	V ix=invert_vector(v,k); rk_assert(ix.size()==k+1,"inverse vector has one entry more than there are elements");
	rk_assert(ix[0]==0&&ix[k]==n,"inverse vector spans the vector");
	for(unsigned e=0;e<=k;++e){ unsigned c=0; for(unsigned i=0;i<n;++i) c+=v[i]<e; rk_assert(ix[e]==c,"inverse vector brackets the positions of each value"); }
	V back=invert_inverse_vector(ix); rk_assert(back.size()==n,"inverting twice keeps the size"); for(unsigned i=0;i<n;++i) rk_assert(back[i]==v[i],"inverting twice restores the vector");
	rk_reach("end");
}
RK_ENTRY(filter){
	static const unsigned sz[]={0,1,2,3,4,5,63,64,65,512,513,600}; unsigned n=sz[rk_choose("n",0,0,11)];
	BitVector f(n); for(unsigned i=0;i<n;++i) if(n<=5? rk_choose("bit",i,0,1)!=0 : (i*i%7<3)) f.set(i);
	if(n>5){ unsigned fl=rk_choose("flip",0,0,3); static const unsigned at[]={0,62,63,511}; if(at[fl]<n) f.toggle(at[fl]); f.toggle(n-1); }
	std::vector<T> v(n); for(unsigned i=0;i<n;++i) v[i].x = (i<6||i+3>n)? rk_sym("v",i,0,0xffffffffu): i*3+1;
	V ek,er; for(unsigned i=0;i<n;++i) (f.is_set(i)?ek:er).push_back(v[i].x);
	std::vector<T> k=keep_element_of_vector_if(f,v), r=remove_element_from_vector_if(f,v), ki=v, ri=v; inplace_keep_element_of_vector_if(f,ki); inplace_remove_element_from_vector_if(f,ri);
	rk_assert(k.size()==ek.size()&&ki.size()==ek.size()&&r.size()==er.size()&&ri.size()==er.size(),"filtered sizes");
	for(unsigned i=0;i<ek.size();++i) rk_assert(k[i].x==ek[i]&&ki[i].x==ek[i],"keep keeps the selected elements in order");
	for(unsigned i=0;i<er.size();++i) rk_assert(r[i].x==er[i]&&ri[i].x==er[i],"remove keeps the other elements in order");
	rk_reach("end");
}
RK_ENTRY(minmax){
	unsigned n=rk_choose("n",0,0,4); V v(n); for(unsigned i=0;i<n;++i) v[i]=rk_sym("v",i,0,0xffffffffu);
	unsigned e=rk_sym("e",0,0,0xffffffffu), y=rk_sym("y",0,0,0xffffffffu);
	unsigned a=e; min_to(a,y); rk_assert(a==rk_min(e,y),"min_to"); a=e; max_to(a,y); rk_assert(a==rk_ite(e>y,e,y),"max_to");
	if(n==0){ rk_assert(min_element_of(v,e)==e&&max_element_of(v,e)==e,"empty value is returned for empty vectors"); rk_reach("end"); return; }
	unsigned pm=first_min_element_position_of(v), px=first_max_element_position_of(v); rk_assert(pm<n&&px<n,"position in range"); pm=rk_concretize(pm); px=rk_concretize(px);
	for(unsigned i=0;i<n;++i){ rk_assert(i<pm? v[i]>v[pm]: v[i]>=v[pm],"first minimum"); rk_assert(i<px? v[i]<v[px]: v[i]<=v[px],"first maximum"); }
	rk_assert(min_element_of(v)==v[pm]&&min_element_of(v,e)==v[pm]&&max_element_of(v)==v[px]&&max_element_of(v,e)==v[px],"element functions agree with positions");
	rk_reach("end");
}

static const unsigned BIGN[]={5,8,16,33,64,65,100,513};
static V fixed_perm(unsigned n,unsigned k){ return big_perm(n,k); }
RK_ENTRY(big){ // long vectors with arbitrary contents, fixed permutations
	unsigned n=BIGN[rk_choose("n",0,0,7)]; V p=fixed_perm(n,rk_choose("p",0,0,1)), q=fixed_perm(n,5); if(rk_choose("id",0,0,1)) for(unsigned i=0;i<n;++i) p[i]=i; 
	std::vector<T> v(n); for(unsigned i=0;i<n;++i) v[i].x= i%8==3||i+1==n? rk_sym("v",i,0,0xffffffffu): i*77;
	V inv=invert_permutation(p), id=identity_permutation(n); rk_assert(inv.size()==n&&id.size()==n&&is_permutation(p)&&is_permutation(inv),"sizes");
	for(unsigned i=0;i<n;++i){ rk_assert(id[i]==i,"identity permutation"); rk_assert(inv[p[i]]==i&&p[inv[i]]==i,"inverse undoes the permutation"); }
	std::vector<T> a=apply_permutation(p,v), b=apply_inverse_permutation(p,v), w=v; std::vector<T> am=apply_permutation(p,std::move(w)); w=v; std::vector<T> bm=apply_inverse_permutation(p,std::move(w)); rk_assert(a.size()==n&&b.size()==n&&am.size()==n&&bm.size()==n,"sizes");
	V lr=chain_permutation_first_left_then_right(p,q), rl=chain_permutation_first_right_then_left(p,q);
	for(unsigned i=0;i<n;++i){ rk_assert(a[i].x==v[p[i]].x&&am[i].x==a[i].x,"apply_permutation moves v[p[i]] to i"); rk_assert(b[p[i]].x==v[i].x&&bm[p[i]].x==v[i].x,"apply_inverse_permutation moves v[i] to p[i]"); rk_assert(lr[i]==p[q[i]]&&rl[i]==q[p[i]],"chaining composes"); }
	V e=p; e.insert(e.end(),q.begin(),q.end()); e.push_back(invalid_id); e.push_back(n-1); V f=apply_permutation_to_possibly_invalid_elements_of(q,e), g=e; inplace_apply_permutation_to_possibly_invalid_elements_of(q,g); V h=apply_permutation_to_elements_of(q,p), k=p; inplace_apply_permutation_to_elements_of(q,k);
	for(unsigned i=0;i<e.size();++i) rk_assert(f[i]==(e[i]==invalid_id?invalid_id:q[e[i]])&&g[i]==f[i],"elements are mapped"); for(unsigned i=0;i<n;++i) rk_assert(h[i]==q[p[i]]&&k[i]==h[i],"elements are mapped");
	rk_reach("end");
}
RK_ENTRY(big_recognise){ // a permutation with one entry replaced by anything
	unsigned n=BIGN[rk_choose("n",0,0,7)]; V p=fixed_perm(n,1); unsigned at=rk_choose("at",0,0,3); at= at==0?0: at==1?n/2: at==2? n-1: n/3; unsigned old=p[at], x=rk_sym("x",0,0,0xffffffffu); rk_assume((x<n+1)|(x>0xfffffff0u)); p[at]=x; 
	rk_assert(is_permutation(p)==(x==old),"is_permutation recognises exactly the permutations"); rk_reach("end");
}
RK_ENTRY(big_inverse){ // long sorted vectors, gaps at the ends and in between, one arbitrary entry
	unsigned n=BIGN[rk_choose("n",0,0,7)], pat=rk_choose("pat",0,0,3); V v(n); for(unsigned i=0;i<n;++i) v[i]= pat==0? i: pat==1? i/3: pat==2? i*3+2: 7+i/16*20; unsigned k=v[n-1]+1+rk_choose("tail",0,0,2)*5; if(pat==1) k+=70;
	unsigned at=rk_choose("at",0,0,2); at= at==0?0: at==1? n/2: n-1; v[at]=rk_sym("v",0,at?v[at-1]:0,at+1<n?v[at+1]:k-1); rk_assume(v[at]<(at?v[at-1]:0)+9);
	V ix=invert_vector(v,k); rk_assert(ix.size()==k+1&&ix[0]==0&&ix[k]==n,"inverse vector spans the vector"); unsigned c=0,diff=0; for(unsigned e=0;e<=k;++e){ c=0; unsigned lo=0; for(unsigned i=0;i<n;++i){ if(i==at) c+=v[i]<e; else lo+=v[i]<e; } diff|=ix[e]^(c+lo); } rk_assert(diff==0,"inverse vector brackets the positions of each value");
	V back=invert_inverse_vector(ix); rk_assert(back.size()==n,"inverting twice keeps the size"); for(unsigned i=0;i<n;++i) rk_assert(back[i]==v[i],"inverting twice restores the vector"); rk_reach("end");
}

typedef std::vector<unsigned> O;
static bool same(const O&a,unsigned x,unsigned y){ return a.size()==2&&a[0]==x&&a[1]==y; }
RK_ENTRY(owning){ // elements that own memory
	unsigned n=rk_choose("n",0,0,4); std::vector<O> v(n); V x(n),y(n); for(unsigned i=0;i<n;++i){ x[i]=rk_sym("x",i,0,0xffffffffu); y[i]=i; v[i]=O{x[i],y[i]}; }
	if(rk_choose("what",0,0,1)){
		BitVector f(n); for(unsigned i=0;i<n;++i) if(rk_choose("bit",i,0,1)) f.set(i); V ek,er; for(unsigned i=0;i<n;++i) (f.is_set(i)?ek:er).push_back(i);
		std::vector<O> k=keep_element_of_vector_if(f,v), r=remove_element_from_vector_if(f,v), ki=v, ri=v, w=v; inplace_keep_element_of_vector_if(f,ki); inplace_remove_element_from_vector_if(f,ri); std::vector<O> km=keep_element_of_vector_if(f,std::move(w)); w=v; std::vector<O> rm=remove_element_from_vector_if(f,std::move(w));
		rk_assert(k.size()==ek.size()&&ki.size()==ek.size()&&km.size()==ek.size()&&r.size()==er.size()&&ri.size()==er.size()&&rm.size()==er.size(),"filtered sizes");
		for(unsigned i=0;i<ek.size();++i) rk_assert(same(k[i],x[ek[i]],ek[i])&&same(ki[i],x[ek[i]],ek[i])&&same(km[i],x[ek[i]],ek[i]),"keep keeps the selected elements in order");
		for(unsigned i=0;i<er.size();++i) rk_assert(same(r[i],x[er[i]],er[i])&&same(ri[i],x[er[i]],er[i])&&same(rm[i],x[er[i]],er[i]),"remove keeps the other elements in order");
	}else{
		V p=any_perm(n,"p"); std::vector<O> a=apply_permutation(p,v), b=apply_inverse_permutation(p,v), w=v; std::vector<O> am=apply_permutation(p,std::move(w)); w=v; std::vector<O> bm=apply_inverse_permutation(p,std::move(w)); rk_assert(a.size()==n&&b.size()==n&&am.size()==n&&bm.size()==n,"sizes");
		for(unsigned i=0;i<n;++i){ rk_assert(same(a[i],x[p[i]],p[i])&&same(am[i],x[p[i]],p[i]),"apply_permutation moves v[p[i]] to i"); rk_assert(same(b[p[i]],x[i],i)&&same(bm[p[i]],x[i],i),"apply_inverse_permutation moves v[i] to p[i]"); }
	}
	for(unsigned i=0;i<n;++i) rk_assert(same(v[i],x[i],y[i]),"the argument is not changed");
	rk_reach("end");
}
