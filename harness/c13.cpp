// C13: the parallel customization against the sequential one. The pragmas are compiled by clang; omp_rt.cpp models the OpenMP runtime.
#include "graph.h"
#include <routingkit/customizable_contraction_hierarchy.h>
#ifdef _OPENMP
#include "omp_rt.h"
#else
extern "C" void rk_omp_procs(int){}
#endif
using namespace RoutingKit;
#ifndef WMAX
#define WMAX 7
#endif
#ifndef TLO
#define TLO 0
#endif
#ifndef THI
#define THI (TOPO_COUNT-1)
#endif
#ifndef ORDERS
#define ORDERS 1
#endif
#ifndef CLOSED
#define CLOSED 0
#endif
#ifndef MAXTHREADS
#define MAXTHREADS 3
#endif
#ifndef LEAVES
#define LEAVES 130
#endif
typedef CustomizableContractionHierarchy CCH; typedef CustomizableContractionHierarchyMetric Metric; typedef CustomizableContractionHierarchyParallelization Par;
static void add(G&g, unsigned x, unsigned y, unsigned w){ g.tail.push_back(x); g.head.push_back(y); g.w.push_back(w); }
static void same(const Metric&a, const Metric&b){
	bool ok = a.forward.size()==b.forward.size() && a.backward.size()==b.backward.size(); rk_assert(ok,"sizes");
	unsigned bad=0; for(size_t i=0;i<a.forward.size();++i) bad |= (a.forward[i]^b.forward[i]) | (a.backward[i]^b.backward[i]);
	rk_assert(bad==0,"parallel customization gives the weights of the sequential customization");
}
static void compare(const CCH&cch, const V&w){
	Metric a(cch,w), b(cch,w); a.customize();
	Par p(cch); unsigned n=rk_choose("threads",0,0,MAXTHREADS);
	if(n==0){ rk_omp_procs(1+rk_choose("procs",0,0,1)); p.customize(b); } else p.customize(b,n);
	same(a,b);
#ifdef TWICE
	V w2=w; for(unsigned i=0;i<w2.size();++i) w2[i]=rk_sym("v",i,0,WMAX);
	a.reset(w2); b.reset(w2); a.customize(); p.customize(b,2); same(a,b); // the object is used again
#endif
	rk_reach("end");
}
RK_ENTRY(small){
	G g=some_topo(0,TLO,THI); V o=some_perm(g.n,rk_choose("order",0,0,ORDERS-1)); CCH cch(o,g.tail,g.head,[](const std::string&){},false);
	unsigned closed=rk_choose("closed",0,0,CLOSED?g.m():0); for(unsigned i=0;i<g.m();++i) g.w[i]= closed==i+1? inf_weight : rk_sym("w",i,0,WMAX);
	compare(cch,g.w);
}
RK_ENTRY(chunks){ // many leaves next to two of three hubs: the lowest level consists of several chunks, whose triangles meet at the arc between the hubs
	G g; g.n=LEAVES+3; unsigned a=LEAVES,b=LEAVES+1,c=LEAVES+2;
	for(unsigned i=0;i<LEAVES;++i){ unsigned k = i==0?1:i==LEAVES-1?2:0;
		add(g,a,i, k?rk_sym("w",k,0,WMAX):inf_weight); add(g,i,b, k?k:inf_weight); if(k){ add(g,b,i,rk_sym("w",k+2,0,WMAX)); add(g,i,a,3-k); } }
	add(g,a,b,WMAX); add(g,b,a,WMAX-1); add(g,c,a,1); add(g,b,c,2); add(g,c,b,2*WMAX+1); add(g,a,c,inf_weight);
	V o; for(unsigned i=0;i<g.n;++i) o.push_back(i); CCH cch(o,g.tail,g.head,[](const std::string&){},false);
	compare(cch,g.w);
}
RK_ENTRY(mixed){ // the hubs of the first leaves have lower ranks than some nodes of the lowest level, so levels and ranks are ordered differently
	G g; const unsigned n1=LEAVES, n2=12; unsigned a=n1,b=n1+1,c=n1+2,d=n1+3+n2,e=d+1; g.n=e+1;
	for(unsigned i=0;i<n1;++i){ unsigned k = i==n1/2?1:i==n1-1?2:0; add(g,a,i, k?rk_sym("w",k,0,WMAX):inf_weight); add(g,i,b, k?k:inf_weight); }
	add(g,a,b,WMAX); add(g,c,a,1); add(g,b,c,2); add(g,c,b,2*WMAX+1); add(g,c,d,1); add(g,e,c,1);
	for(unsigned i=0;i<n2;++i){ unsigned x=n1+3+i, k= i==n2-1?3:0; add(g,d,x, k?rk_sym("w",k,0,WMAX):inf_weight); add(g,x,e, k?1:inf_weight); }
	V o; for(unsigned i=0;i<g.n;++i) o.push_back(i); CCH cch(o,g.tail,g.head,[](const std::string&){},false);
	compare(cch,g.w);
}
RK_ENTRY(tiny){ unsigned n=rk_choose("n",0,0,2); V o; for(unsigned i=0;i<n;++i) o.push_back(i); V none; CCH cch(o,none,none,[](const std::string&){},false); compare(cch,V(1)); }
