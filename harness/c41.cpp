// C41: check_contraction_hierarchy_for_errors accepts what the library builds and rejects broken hierarchies.
#include "graph.h"
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/customizable_contraction_hierarchy.h>
#include <stdexcept>
using namespace RoutingKit;
typedef ContractionHierarchy CH;
#ifndef WMAX
#define WMAX 7
#endif
static bool rejected(const CH&ch){ try{ check_contraction_hierarchy_for_errors(ch); }catch(std::exception&){ return true; } return false; }
static G input(){
#ifdef ANY
	return any_graph(N,M,WMAX);
#else
#ifdef BLO
	return big_graph(rk_choose("big",0,BLO,BHI),WMAX);
#else
	G g=some_topo(WMAX,0,12); return g;
#endif
#endif
}
RK_ENTRY(accepts){
	G g=input(); V p=g.big?big_perm(g.n,3):V(); if(!g.big) for(unsigned i=0;i<g.n;++i) p.push_back(g.n-1-i);
	unsigned how=rk_choose("how",0,0,2);
	CH ch= how==0?CH::build(g.n,g.tail,g.head,g.w): how==1?CH::build_given_rank(p,g.tail,g.head,g.w): CH::build_given_order(p,g.tail,g.head,g.w);
	rk_assert(!rejected(ch),"a hierarchy built by the library is accepted"); rk_reach("end");
}
#ifdef PERFECT
RK_ENTRY(perfect){
	G g=input(); V p=g.big?big_perm(g.n,3):V(); if(!g.big) for(unsigned i=0;i<g.n;++i) p.push_back(g.n-1-i);
	CustomizableContractionHierarchy cch(p,g.tail,g.head); CustomizableContractionHierarchyMetric m(cch,g.w); CH ch=m.build_contraction_hierarchy_using_perfect_witness_search();
	rk_assert(!rejected(ch),"a hierarchy built by perfect customization is accepted"); rk_reach("end");
}
#endif
// sizes fit (checked separately); everything over contents
static bool side_ok(const CH&c, const CH::Side&s, bool fwd){
	unsigned n=c.rank.size(); unsigned m=s.head.size(); bool ok=s.first_out[0]==0&&s.first_out[n]==m; for(unsigned x=0;x<n;++x) ok&=s.first_out[x]<=s.first_out[x+1]; if(!ok) return false;
	for(unsigned x=0;x<n;++x) for(unsigned a=0;a<m;++a) ok&=!((s.first_out[x]<=a)&(a<s.first_out[x+1]))|((x<s.head[a])&(s.head[a]<n));
	for(unsigned a=0;a<m;++a){
		unsigned f=s.shortcut_first_arc[a], g=s.shortcut_second_arc[a];
		if(s.is_shortcut_an_original_arc.is_set(a)) ok&=(f!=invalid_id)&(g<n);
		else { unsigned fw=0, gw=0; for(unsigned i=0;i<c.backward.head.size();++i) fw=rk_ite(f==i,c.backward.weight[i],fw); for(unsigned i=0;i<c.forward.head.size();++i) gw=rk_ite(g==i,c.forward.weight[i],gw); ok&=(f<c.backward.head.size())&(g<c.forward.head.size())&((fwd?g:f)<a)&(s.weight[a]==fw+gw); }
	}
	return ok;
}
static bool valid(const CH&c){
	unsigned n=c.rank.size(); if(c.order.size()!=n) return false; bool ok=true; for(unsigned i=0;i<n;++i){ bool hit=false; for(unsigned j=0;j<n;++j) hit|=(c.order[i]==j)&(c.rank[j]==i); ok&=hit; }
	for(unsigned k=0;k<2;++k){ const CH::Side&s=k?c.backward:c.forward; unsigned m=s.head.size(); if(s.first_out.size()!=n+1||s.weight.size()!=m||s.shortcut_first_arc.size()!=m||s.shortcut_second_arc.size()!=m||s.is_shortcut_an_original_arc.size()!=m) return false; }
	return ok&side_ok(c,c.forward,true)&side_ok(c,c.backward,false);
}
static CH sample(){
	static const char*T[]={"ab ba bc cb cd dc da ad","ab bc cd de ea ec db","ab ba","ab cb cd ad bd"}; static const unsigned N_[]={4,5,2,4};
	unsigned k=rk_choose("graph",0,0,3); G g=topo(N_[k],T[k],0); for(unsigned i=0;i<g.m();++i) g.w[i]=1+(i*5)%7; V p; for(unsigned i=0;i<g.n;++i) p.push_back(k==1?(i*2)%5:i);
	return CH::build_given_rank(p,g.tail,g.head,g.w);
}
static V&array(CH&c, unsigned k){ switch(k){ case 0: return c.rank; case 1: return c.order; default: break; } CH::Side&s= k<7?c.forward:c.backward; switch((k-2)%5){ case 0: return s.first_out; case 1: return s.head; case 2: return s.weight; case 3: return s.shortcut_first_arc; default: return s.shortcut_second_arc; } }
RK_ENTRY(entry){ // one entry of one array replaced by any value
	CH c=sample(); V&a=array(c,rk_choose("array",0,0,11)); rk_assume(!a.empty()); unsigned i=rk_choose("index",0,0,(unsigned)a.size()-1), old=a[i]; unsigned x=rk_sym("value",0,0,~0u); a[i]=x;
	bool r=rejected(c); rk_assert(r||valid(c),"a broken hierarchy is rejected"); rk_assert(!r||x!=old,"an intact hierarchy is accepted"); if(r) rk_reach("rejected"); rk_reach("end");
}
RK_ENTRY(flag){ // a shortcut marked as original arc and the other way round
	CH c=sample(); CH::Side&s=rk_choose("side",0,0,1)?c.backward:c.forward; rk_assume(s.head.size()>0); unsigned i=rk_choose("index",0,0,(unsigned)s.head.size()-1); if(s.is_shortcut_an_original_arc.is_set(i)) s.is_shortcut_an_original_arc.reset(i); else s.is_shortcut_an_original_arc.set(i);
	bool r=rejected(c); rk_assert(r||valid(c),"a broken hierarchy is rejected"); rk_reach("end");
}
RK_ENTRY(size){ // an array too long or too short
	CH c=sample(); unsigned k=rk_choose("array",0,0,13), d=rk_choose("how",0,0,2);
	if(k<12){ V&a=array(c,k); if(d==0) a.push_back(rk_sym("value",0,0,~0u)); else if(d==1){ rk_assume(!a.empty()); a.pop_back(); } else { rk_assume(!a.empty()); a.clear(); } }
	else { BitVector&b=k==12?c.forward.is_shortcut_an_original_arc:c.backward.is_shortcut_an_original_arc; unsigned n=b.size(); rk_assume(d==0||n>0); b.resize(d==0?n+1:d==1?n-1:0); }
	rk_assert(rejected(c),"arrays whose sizes do not fit are rejected"); rk_reach("end");
}
