// C01-C07, C35: contraction hierarchies against Bellman-Ford.
#include "graph.h"
#include <routingkit/contraction_hierarchy.h>
using namespace RoutingKit;
#ifndef N
#define N 3
#endif
#ifndef M
#define M 3
#endif
#ifndef WMAX
#define WMAX 15
#endif
#ifndef ORDERS
#define ORDERS 5
#endif
#ifndef TLO
#define TLO 0
#endif
#ifndef THI
#define THI (TOPO_COUNT-1)
#endif
#ifndef XMAX
#define XMAX inf_weight
#endif
typedef ContractionHierarchy CH; typedef ContractionHierarchyQuery Q;
static const unsigned POPS[] = {500,0,1,2};
static unsigned pops(){
#ifdef POPCHOICES
	return POPS[rk_choose("pop",0,0,POPCHOICES-1)];
#else
	return 500;
#endif
}
static CH build(const G&g){ return CH::build(g.n, g.tail, g.head, g.w, std::function<void(std::string)>(), pops()); }
static G input(){
#ifdef ANY
	return any_graph(N,M,WMAX);
#elif defined(BLO)
	return big_graph(rk_choose("big",0,BLO,BHI),WMAX);
#else
	return some_topo(WMAX,TLO,THI);
#endif
}
static V some_order(const G&g){ unsigned k=rk_choose("order",0,0,ORDERS-1); return g.big?big_perm(g.n,k):some_perm(g.n,k); }
static CH build_given(const G&g){
	V order = some_order(g);
	return CH::build_given_order(order, g.tail, g.head, g.w, std::function<void(std::string)>(), pops());
}
static void check_dist(Q&q, const G&g){
	for(unsigned s=0;s<g.n;++s){
		V d = ref_dist(g,s);
		for(unsigned t=0;t<g.n;++t){
			q.reset(); q.add_source(s); q.add_target(t); q.run();
			rk_assert(q.get_distance() == d[t], "distance is the shortest-path distance");
		}
	}
}
// C01
RK_ENTRY(dist){
	G g = input();
	CH ch = build(g);
	rk_assert(ch.node_count()==g.n, "node count kept");
	Q q(ch);
	unsigned s = pick(g,"s",0); V d = ref_dist(g,s);
	for(unsigned t=0;t<g.n;++t){
		q.reset(); q.add_source(s); q.add_target(t); q.run();
		rk_assert(q.get_distance() == d[t], "distance is the shortest-path distance");
	}
	rk_reach("end");
}
// C02
RK_ENTRY(given){
	G g = input();
#ifdef ALLPERM
	V order = any_perm(g.n);
#else
	V order = some_order(g);
#endif
	V rank(g.n); for(unsigned i=0;i<g.n;++i) rank[order[i]]=i;
	bool byrank = rk_choose("byrank",0,0,1);
	unsigned p = pops();
	CH ch = byrank ? CH::build_given_rank(rank,g.tail,g.head,g.w,std::function<void(std::string)>(),p) : CH::build_given_order(order,g.tail,g.head,g.w,std::function<void(std::string)>(),p);
	bool ok = ch.order.size()==g.n && ch.rank.size()==g.n;
	rk_assert(ok, "order and rank cover all nodes");
	for(unsigned i=0;i<g.n;++i){ rk_assert(ch.order[i]==order[i], "order is the given order"); rk_assert(ch.rank[i]==rank[i], "rank is the given rank"); }
	Q q(ch);
	unsigned s = pick(g,"s",0); V d = ref_dist(g,s);
	for(unsigned t=0;t<g.n;++t){
		q.reset().add_source(s).add_target(t).run();
		rk_assert(q.get_distance() == d[t], "distance is the shortest-path distance");
	}
	rk_reach("end");
}
static void check_path(Q&q, const G&g, unsigned s, unsigned t, unsigned off, unsigned dist){
	V arcs = q.get_arc_path(), nodes = q.get_node_path();
	if(dist == inf_weight){
		rk_assert(arcs.empty() && nodes.empty(), "paths are empty if the target is unreachable");
		rk_reach("unreachable");
	}else{
		rk_assert(nodes.size()==arcs.size()+1, "node path has one node more than the arc path has arcs");
		unsigned len = walk_length(g,s,t,arcs,"arc path is a source-target walk over input arcs");
		rk_assert(len+off==dist, "arc path has the reported length");
		rk_assert(nodes[0]==s, "node path starts at the source");
		for(unsigned i=0;i<arcs.size();++i) rk_assert(nodes[i+1]==g.head[rk_concretize(arcs[i])], "node path follows the arc path");
		rk_reach("path");
	}
}
// C03
RK_ENTRY(path){
	G g = input();
	CH ch = rk_choose("given",0,0,1) ? build_given(g) : build(g);
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	V d = ref_dist(g,s);
	Q q(ch); q.add_source(s).add_target(t).run();
	unsigned dist = q.get_distance();
	rk_assert(dist==d[t], "distance is the shortest-path distance");
	if(dist==inf_weight) check_path(q,g,s,t,0,inf_weight); else check_path(q,g,s,t,0,dist);
	rk_reach("end");
}
// C04: up to 2 sources and 2 targets with offsets; equal nodes allowed
RK_ENTRY(multi){
	G g = input(); CH ch = build_given(g);
#ifdef THREE
	unsigned ns = rk_choose("ns",0,1,2), nt = 3-ns;
#else
	unsigned ns = 2, nt = 2;
#endif
	V S(ns),T(nt),so(ns),to(nt);
	V init(g.n,inf_weight), fin(g.n,inf_weight);
	Q q(ch);
	for(unsigned i=0;i<ns;++i){ S[i]=pick(g,"s",i); so[i]=rk_sym("so",i,0,WMAX); q.add_source(S[i],so[i]); init[S[i]]=rk_min(init[S[i]],so[i]); }
	for(unsigned i=0;i<nt;++i){ T[i]=pick(g,"t",i); to[i]=rk_sym("to",i,0,WMAX); q.add_target(T[i],to[i]); fin[T[i]]=rk_min(fin[T[i]],to[i]); }
	q.run();
	V d = ref_from(g,init);
	unsigned best = inf_weight;
	for(unsigned x=0;x<g.n;++x) best = rk_min(best, rk_ite((d[x]<inf_weight)&(fin[x]<inf_weight), d[x]+fin[x], inf_weight));
	unsigned dist = q.get_distance();
	rk_assert(dist==best, "distance is the minimum over all source/target pairs");
	unsigned us = q.get_used_source(), ut = q.get_used_target();
	if(dist==inf_weight){
		rk_assert(us==invalid_id && ut==invalid_id, "no used source and target if unreachable");
		rk_assert(q.get_arc_path().empty()&&q.get_node_path().empty(), "paths are empty if unreachable");
		rk_reach("unreachable");
	}else{
		us = rk_concretize(us); ut = rk_concretize(ut);
		bool f=false; for(unsigned i=0;i<ns;++i) f|=S[i]==us; rk_assert(f,"used source is one of the sources");
		f=false; for(unsigned i=0;i<nt;++i) f|=T[i]==ut; rk_assert(f,"used target is one of the targets");
		unsigned len = walk_length(g,us,ut,q.get_arc_path(),"arc path leads from the used source to the used target");
		rk_assert(init[us]+len+fin[ut]==dist, "used source and target attain the distance");
		rk_reach("path");
	}
	rk_reach("end");
}
// many sources and targets, nodes repeated
RK_ENTRY(manysrc){
	G g = input(); CH ch = build_given(g);
	Q q(ch); V init(g.n,inf_weight), fin(g.n,inf_weight); unsigned r=rk_choose("seed",0,0,1)*55+g.n;
	unsigned S[7],T[6];
	for(unsigned i=0;i<7;++i){ S[i]=i==6?S[1]:rnd(r)%g.n; unsigned o=i==6?rk_sym("so",i,0,15):rnd(r)%20; q.add_source(S[i],o); init[S[i]]=rk_min(init[S[i]],o); }
	for(unsigned i=0;i<6;++i){ T[i]=i==5?T[0]:rnd(r)%g.n; unsigned o=i==5?rk_sym("to",i,0,15):rnd(r)%20; q.add_target(T[i],o); fin[T[i]]=rk_min(fin[T[i]],o); }
	q.run();
	V d = ref_from(g,init); unsigned best=inf_weight; for(unsigned i=0;i<6;++i) best=rk_min(best,plus(d[T[i]],fin[T[i]]));
	unsigned dist=q.get_distance(); rk_assert(dist==best,"distance is the minimum over all source/target pairs");
	if(dist!=inf_weight){
		unsigned us = rk_concretize(q.get_used_source()), ut = rk_concretize(q.get_used_target());
		unsigned len = walk_length(g,us,ut,q.get_arc_path(),"arc path leads from the used source to the used target");
		rk_assert(init[us]<inf_weight&&fin[ut]<inf_weight,"used source and target are among the added ones");
		rk_assert(init[us]+len+fin[ut]==dist, "used source and target attain the distance");
		rk_reach("path");
	}
	rk_reach("end");
}
// C05
#ifndef PINLEN
#define PINLEN 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
RK_ENTRY(pinned){
	G g = input(); CH ch = build_given(g); Q q(ch);
	bool rev = rk_choose("rev",0,0,1);
	if(rk_choose("used_before",0,0,1)){ q.add_source(0).add_target(g.n-1).run(); q.reset(); }
	unsigned np = g.big? g.n+3 : rk_choose("np",0,0,PINLEN); V P(np);
	if(g.big){ P = big_perm(g.n,7); P.push_back(P[2]); P.push_back(0); P.push_back(P[g.n-1]); } else
	for(unsigned i=0;i<np;++i) P[i]=pick(g,"pin",i);
	if(rev) q.pin_sources(P); else q.pin_targets(P);
	rk_assert((rev?q.get_pinned_source_count():q.get_pinned_target_count())==np, "pinned count");
	for(unsigned r=0;r<ROUNDS;++r){
		if(r){ if(rev) q.reset_target(); else q.reset_source(); }
		unsigned s = pick(g,"s",r);
		V init(g.n,inf_weight); 
		unsigned off = r==0 ? rk_sym("off",0,0,3) : 0; 
		init[s]=off; if(rev) q.add_target(s,off); else q.add_source(s,off);
		unsigned s2=s;
#ifdef TWOSRC
		s2 = pick(g,"s2",r); unsigned o2 = rk_sym("off2",r,0,3); init[s2]=rk_min(init[s2],o2); if(rev) q.add_target(s2,o2); else q.add_source(s2,o2);
#endif
		if(rev) q.run_to_pinned_sources(); else q.run_to_pinned_targets();
		V d = ref_from(g,init,rev);
		V x = rev?q.get_distances_to_sources():q.get_distances_to_targets();
		rk_assert(x.size()==np, "one distance per pinned node");
		for(unsigned i=0;i<np;++i) rk_assert(x[i]==d[P[i]], "pinned distance is the shortest-path distance");
		V buf(np+1,77); if(rev) q.get_distances_to_sources(&buf[0]); else q.get_distances_to_targets(&buf[0]);
		for(unsigned i=0;i<np;++i) rk_assert(buf[i]==x[i], "both distance getters agree");
		rk_assert(buf[np]==77, "getter writes only its own entries");
		if(np){
			V u = rev?q.get_used_targets_to_sources():q.get_used_sources_to_targets();
			for(unsigned i=0;i<np;++i){
				if(x[i]==inf_weight) rk_assert(u[i]==invalid_id, "no used source if unreachable");
				else { unsigned v=rk_concretize(u[i]); rk_assert(v==s||v==s2, "used source is a source"); if(s!=s2){ V dd=ref_dist(g,v,rev); rk_assert(init[v]+dd[P[i]]==x[i], "used source attains the distance"); } }
			}
		}
	}
	rk_reach("end");
}
// C06: arbitrary history of operations, then reset, then compare
static void misc_op(Q&q, unsigned k, const G&g, const CH&ch){
	switch(rk_choose("op",k,0,6)){
		case 0: q.reset(); q.add_source(pick(g,"hs",k)).add_target(pick(g,"ht",k)).run(); rk_reach("run"); break;
		case 1: q.reset(); q.add_source(pick(g,"hs",k)); rk_reach("only source"); break;
		case 2: q.reset(); q.add_target(pick(g,"ht",k),3); rk_reach("only target"); break;
		case 3: { q.reset(); q.pin_targets(V{pick(g,"ht",k),0}); q.add_source(pick(g,"hs",k)).run_to_pinned_targets(); rk_reach("pinned targets"); break; }
		case 4: { q.reset(); q.pin_sources(V{pick(g,"hs",k)}); q.add_target(pick(g,"ht",k)).run_to_pinned_sources(); q.reset_target(); rk_reach("pinned sources"); break; }
		case 5: q.reset(ch); rk_reach("reset onto"); break;
		case 6: q.reset(); q.add_source(0).add_source(g.n-1,1).add_target(0,2).add_target(g.n-1).run(); q.get_node_path(); rk_reach("multi"); break;
	}
}
#ifndef HIST
#define HIST 2
#endif
RK_ENTRY(history){
	G g = input(); CH ch = build_given(g);
	Q q(ch);
	for(unsigned k=0;k<HIST;++k) misc_op(q,k,g,ch);
	q.reset();
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	V d = ref_dist(g,s);
	q.add_source(s).add_target(t).run();
	unsigned dist = q.get_distance();
	rk_assert(dist==d[t], "distance after reset is the shortest-path distance");
	if(dist==inf_weight) check_path(q,g,s,t,0,inf_weight); else check_path(q,g,s,t,0,dist);
	rk_reach("end");
}
RK_ENTRY(history_other){ // reset onto another hierarchy of another size, default constructed start
	G g = input(); CH ch = build_given(g);
	G g2; g2.n = rk_choose("n2",0,1,8); for(unsigned i=0;i+1<g2.n;++i){ g2.tail.push_back(i); g2.head.push_back(i+1); g2.w.push_back(1+i); }
	V o2(g2.n); for(unsigned i=0;i<g2.n;++i) o2[i]=(i*5+1)%g2.n; 
	if(g2.n==5) for(unsigned i=0;i<g2.n;++i) o2[i]=i;
	CH ch2 = CH::build_given_order(o2,g2.tail,g2.head,g2.w);
	Q q; 
	unsigned k = rk_choose("start",0,0,1);
	if(k==0) q.reset(ch2); else q = Q(ch2);
	q.add_source(0).add_target(g2.n-1);
	if(rk_choose("ran",0,0,1)){ q.run(); rk_assert(q.get_distance()==(g2.n-1)*g2.n/2,"chain distance"); }
	q.reset(ch);
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	V d = ref_dist(g,s);
	q.add_source(s).add_target(t).run();
	rk_assert(q.get_distance()==d[t], "distance after reset onto another hierarchy is the shortest-path distance");
	q.reset(ch2); q.add_source(0).add_target(g2.n-1).run(); rk_assert(q.get_distance()==(g2.n-1)*g2.n/2,"chain distance after resetting back");
	rk_reach("end");
}
RK_ENTRY(history_many){ // more than 65536 resets
	G g = topo(3,"ab bc ca",WMAX); V o{1,0,2};
	CH ch = CH::build_given_order(o,g.tail,g.head,g.w);
	Q q(ch); 
	q.add_source(0).add_target(2).run(); 
	unsigned before = rk_choose("resets",0,0,2); // 65534, 65535, 65536 resets in between
	for(unsigned i=0;i<65534+before;++i) q.reset();
	unsigned s = rk_choose("s",0,0,2), t = rk_choose("t",0,0,2);
	V d = ref_dist(g,s);
	q.add_source(s).add_target(t).run();
	rk_assert(q.get_distance()==d[t], "distance after many resets is the shortest-path distance");
	rk_reach("end");
}
// pinned query whose source or target is withdrawn before (or after) a run
RK_ENTRY(abandon){
	G g = input(); CH ch = build_given(g); Q q(ch); bool rev = rk_choose("rev",0,0,1);
	V P(g.n); for(unsigned i=0;i<g.n;++i) P[i]=i;
	if(rev) q.pin_sources(P); else q.pin_targets(P);
	unsigned a = pick(g,"withdrawn",0), b = pick(g,"s",0); bool ran = rk_choose("ran",0,0,1);
	if(rev){ q.add_target(a); if(ran) q.run_to_pinned_sources(); q.reset_target(); q.add_target(b).run_to_pinned_sources(); } else { q.add_source(a); if(ran) q.run_to_pinned_targets(); q.reset_source(); q.add_source(b).run_to_pinned_targets(); }
	V d = ref_dist(g,b,rev), x = rev?q.get_distances_to_sources():q.get_distances_to_targets(); rk_assert(x.size()==g.n,"one distance per pinned node");
	for(unsigned i=0;i<g.n;++i) rk_assert(x[i]==d[i], "pinned distances do not depend on a withdrawn source");
	q.reset(); q.add_source(b).add_target(a).run(); V e = ref_dist(g,b); rk_assert(q.get_distance()==e[a],"distance after a pinned query");
	rk_reach("end");
}
// C07: non-commutative link: concatenation of arc ids (base 8)
struct Cat { uint32_t v; uint32_t len; };
#ifdef BLO
static Cat mk(unsigned a){ Cat c; c.v=a*2654435761u+77; c.len=a*40503u*2+3; return c; } // composition of affine maps
#else
static Cat mk(unsigned a){ Cat c; c.v=a+1; c.len=8; return c; }
#endif
struct CatLink { Cat operator()(Cat a, Cat b)const{ Cat c; c.v=a.v*b.len+b.v; c.len=a.len*b.len; return c; } };
static Cat cat_of(const V&arcs){ Cat r=Cat(); for(unsigned i=0;i<arcs.size();++i){ unsigned a=rk_concretize(arcs[i]); r = i?CatLink()(r,mk(a)):mk(a);} return r; }
RK_ENTRY(extra){
	G g = input(); CH ch = rk_choose("given",0,0,1)? build_given(g): build(g);
	std::vector<Cat> x; std::vector<unsigned> sx;
	for(unsigned i=0;i<g.m();++i){ x.push_back(mk(i)); sx.push_back(g.big? (i==g.sym[0]?rk_sym("x",i,0,XMAX):i*7) : rk_sym("x",i,0,XMAX)); }
	ContractionHierarchyExtraWeight<Cat> ex(ch,x,CatLink());
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	Q q(ch); q.add_source(s).add_target(t).run();
	V arcs = q.get_arc_path();
	Cat want = cat_of(arcs), a = q.get_extra_weight_distance(ex,CatLink()), b = q.get_extra_weight_distance(x,CatLink());
	rk_assert(a.v==want.v&&a.len==want.len, "precomputed extra weight is linked left to right along the path");
	rk_assert(b.v==want.v&&b.len==want.len, "input extra weight is linked left to right along the path");
	unsigned sum=0; for(unsigned i=0;i<arcs.size();++i){ unsigned y=sx[rk_concretize(arcs[i])]; sum = rk_ite(y>=inf_weight-sum,inf_weight,sum+y); }
	rk_assert(q.get_extra_weight_distance(sx,SaturatedWeightAddition())==sum, "saturated sum along the path");
	if(arcs.size()) rk_reach("path");
	rk_reach("end");
}
RK_ENTRY(extra_pinned){
	G g = input(); CH ch = build_given(g);
	std::vector<Cat> x; for(unsigned i=0;i<g.m();++i) x.push_back(mk(i));
	ContractionHierarchyExtraWeight<Cat> ex(ch,x,CatLink());
	bool rev = rk_choose("rev",0,0,1);
	unsigned s = pick(g,"s",0);
	Q q(ch); V all(g.n); for(unsigned i=0;i<g.n;++i) all[i]=i;
	std::vector<Cat> a,b; V dist;
	for(unsigned r=0;r<2;++r){
		unsigned s2 = r? s : (s+1)%g.n;
		if(rev){ if(!r) q.pin_sources(all); else q.reset_target(); q.add_target(s2).run_to_pinned_sources(); }
		else { if(!r) q.pin_targets(all); else q.reset_source(); q.add_source(s2).run_to_pinned_targets(); }
	}
	dist = rev?q.get_distances_to_sources():q.get_distances_to_targets();
	if(rev){ a=q.get_extra_weight_distances_to_sources(ex,CatLink()); b=q.get_extra_weight_distances_to_sources(x,CatLink()); }
	else { a=q.get_extra_weight_distances_to_targets(ex,CatLink()); b=q.get_extra_weight_distances_to_targets(x,CatLink()); }
	for(unsigned i=0;i<g.n;++i){
		rk_assert(a[i].v==b[i].v&&a[i].len==b[i].len, "both extra weight representations agree");
		if(dist[i]==inf_weight || i==s) { rk_assert(a[i].v==0&&a[i].len==0, "no extra weight without arcs"); continue; }
		// decode the linked arcs and check they form a shortest walk
		uint32_t v=rk_concretize(a[i].v); V arcs; while(v){ rk_assert((v&7)!=0,"linked arcs decode"); arcs.insert(arcs.begin(),(v&7)-1); v>>=3; }
		unsigned len = rev? walk_length(g,i,s,arcs,"extra weights linked along a walk") : walk_length(g,s,i,arcs,"extra weights linked along a walk");
		rk_assert(len==dist[i], "extra weights linked along a shortest path");
		rk_reach("path");
	}
	rk_reach("end");
}
RK_ENTRY(saturate){
	SaturatedWeightAddition add;
	unsigned l = rk_sym("l",0,0,inf_weight), r = rk_sym("r",0,0,inf_weight);
	uint64_t sum=(uint64_t)l+r;
	rk_assert(add(l,r)==(sum>=inf_weight?inf_weight:(unsigned)sum), "unsigned saturated addition");
	int a=(int)rk_sym("a",0,0,0xffffffffu), b=(int)rk_sym("b",0,0,0xffffffffu); int64_t s=(int64_t)a+b;
	int64_t want = s>2147483647ll?2147483647ll:(s<-2147483648ll?-2147483648ll:s);
	rk_assert((int64_t)add(a,b)==want, "signed saturated addition");
	rk_reach("end");
}
// C35
RK_ENTRY(copies){
	G g = input(); unsigned s = pick(g,"s",0), t = pick(g,"t",0); V d = ref_dist(g,s);
	CH *orig = new CH(build_given(g)); CH cp(*orig); CH as; as = *orig;
	Q *q = new Q(*orig); q->add_source(s).add_target(t).run();
	Q q2(*q), q3; q3 = *q;
	CH mv(std::move(*orig));
	rk_assert(q2.get_distance()==d[t] && q3.get_distance()==d[t], "copied query answers like the original");
	Q q4(std::move(*q)); delete q;
	rk_assert(q4.get_distance()==d[t], "moved query answers like the original");
	delete orig;
	const CH*c[3]={&cp,&as,&mv};
	for(unsigned i=0;i<3;++i){ Q r(*c[i]); r.add_source(s).add_target(t).run(); rk_assert(r.get_distance()==d[t], "copied or moved hierarchy answers like the original"); if(d[t]<inf_weight) walk_length(g,s,t,r.get_arc_path(),"path on copied hierarchy"); }
	q4.reset(mv); q4.add_source(s).add_target(t).run(); rk_assert(q4.get_distance()==d[t], "moved query reusable"); 
	q2.reset(cp); q2.add_source(t).add_target(t).run(); rk_assert(q2.get_distance()==0, "copied query reusable");
	rk_reach("end");
}
