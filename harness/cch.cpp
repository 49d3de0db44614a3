// C04, C09-C12, C14, C15, C35: customizable contraction hierarchies against Bellman-Ford.
#include "graph.h"
#include <routingkit/customizable_contraction_hierarchy.h>
#include <routingkit/contraction_hierarchy.h>
using namespace RoutingKit;
#ifndef N
#define N 3
#endif
#ifndef M
#define M 3
#endif
#ifndef WMAX
#define WMAX 7
#endif
#ifndef CLOSABLE
#define CLOSABLE 99
#endif
#ifndef TLO
#define TLO 0
#endif
#ifndef THI
#define THI (TOPO_COUNT-1)
#endif
#ifndef ORDERS
#define ORDERS 5
#endif
typedef CustomizableContractionHierarchy CCH; typedef CustomizableContractionHierarchyMetric Metric; typedef CustomizableContractionHierarchyQuery Q;
typedef CustomizableContractionHierarchyPartialCustomization Partial;
static G shape(){
#ifdef ANY
	return any_graph(N,M,0);
#elif defined(BLO)
	return big_graph(rk_choose("big",0,BLO,BHI),0);
#else
	return some_topo(0,TLO,THI);
#endif
}
// weights: 0..WMAX or closed (inf_weight)
static void weights(G&g, const char*name, bool closable=true){
	if(g.big){ for(unsigned i=0;i<g.sym.size();++i){ bool c=closable&&i<CLOSABLE; unsigned x=rk_sym(name,i,0,WMAX+c); g.w[g.sym[i]]=c?rk_ite(x==WMAX+1,inf_weight,x*BIGSCALE):x*BIGSCALE; } return; }
	for(unsigned i=0;i<g.m();++i){ if(closable && i<CLOSABLE){ unsigned x = rk_sym(name,i,0,WMAX+1); g.w[i] = rk_ite(x==WMAX+1, inf_weight, x); } else g.w[i] = rk_sym(name,i,0,WMAX); }
}
static V order_of(const G&g){
#ifdef ALLPERM
	return any_perm(g.n);
#else
	unsigned k=rk_choose("order",0,0,ORDERS-1); return g.big?big_perm(g.n,k):some_perm(g.n,k);
#endif
}
static bool filt(){
#ifdef FILTER
	return FILTER;
#else
	return rk_choose("filter",0,0,1);
#endif
}
static CCH build(const G&g){
	V o = order_of(g);
	return CCH(o, g.tail, g.head, [](const std::string&){}, filt());
}
// C09
RK_ENTRY(dist){
	G g = shape(); CCH cch = build(g);
	rk_assert(cch.node_count()==g.n && cch.input_arc_count()==g.m(), "sizes kept");
	weights(g,"w"); Metric m(cch,g.w); m.customize();
	Q q(m);
	unsigned s = pick(g,"s",0); V d = ref_dist(g,s);
	for(unsigned t=0;t<g.n;++t){
		q.reset(); q.add_source(s); q.add_target(t); q.run();
		rk_assert(q.get_distance() == d[t], "distance is the shortest-path distance");
	}
	rk_reach("end");
}
RK_ENTRY(nolog){ // an empty log function is accepted, as in contraction hierarchies
	G g = shape(); V o = order_of(g);
	CCH cch(o,g.tail,g.head,std::function<void(const std::string&)>(), filt());
	weights(g,"w"); Metric m(cch,g.w); m.customize(); Q q(m); q.add_source(0).add_target(g.n-1).run();
	rk_assert(q.get_distance()==ref_dist(g,0)[g.n-1], "distance is the shortest-path distance");
	rk_reach("end");
}
RK_ENTRY(tiny){ // empty graph, single node, no arcs
	unsigned n = rk_choose("n",0,0,2); V o; for(unsigned i=0;i<n;++i) o.push_back(i);
	V none;
	CCH cch(o,none,none,[](const std::string&){},filt());
	unsigned dummy=0; Metric m(cch,&dummy); m.customize(); Q q(m);
	for(unsigned s=0;s<n;++s) for(unsigned t=0;t<n;++t){ q.reset(); q.add_source(s).add_target(t).run(); rk_assert(q.get_distance()==(s==t?0:inf_weight),"distance without arcs"); rk_assert(q.get_arc_path().empty(),"no arcs on path"); rk_assert(q.get_node_path().size()==(s==t?1u:0u),"path without arcs"); }
	rk_reach("end");
}
static void check_path(Q&q, const G&g, unsigned s, unsigned t, unsigned off, unsigned dist){
	V arcs = q.get_arc_path(), nodes = q.get_node_path();
	if(dist == inf_weight){
		rk_assert(arcs.empty() && nodes.empty(), "paths are empty if the target is unreachable");
		rk_reach("unreachable");
	}else{
		rk_assert(nodes.size()==arcs.size()+1, "node path has one node more than the arc path has arcs");
		unsigned len = walk_length(g,s,t,arcs,"arc path is a source-target walk over input arcs");
		for(unsigned i=0;i<arcs.size();++i) rk_assert(g.w[rk_concretize(arcs[i])]<inf_weight, "no closed arc on the path");
		rk_assert(len+off==dist, "arc path has the reported length");
		rk_assert(nodes[0]==s, "node path starts at the source");
		for(unsigned i=0;i<arcs.size();++i) rk_assert(nodes[i+1]==g.head[rk_concretize(arcs[i])], "node path follows the arc path");
		rk_reach("path");
	}
}
// C10
RK_ENTRY(path){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	V d = ref_dist(g,s);
	Q q(m); q.add_source(s).add_target(t).run();
	unsigned dist = q.get_distance();
	rk_assert(dist==d[t], "distance is the shortest-path distance");
	if(dist==inf_weight) check_path(q,g,s,t,0,inf_weight); else check_path(q,g,s,t,0,dist);
	rk_reach("end");
}
// C04
RK_ENTRY(multi){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
#ifdef THREE
	unsigned ns = rk_choose("ns",0,1,2), nt = 3-ns;
#else
	unsigned ns = 2, nt = 2;
#endif
	V S(ns),T(nt),so(ns),to(nt);
	V init(g.n,inf_weight), fin(g.n,inf_weight);
	Q q(m);
	for(unsigned i=0;i<ns;++i){ S[i]=pick(g,"s",i); so[i]=rk_sym("so",i,0,WMAX); q.add_source(S[i],so[i]); init[S[i]]=rk_min(init[S[i]],so[i]); }
	for(unsigned i=0;i<nt;++i){ T[i]=pick(g,"t",i); to[i]=rk_sym("to",i,0,WMAX); q.add_target(T[i],to[i]); fin[T[i]]=rk_min(fin[T[i]],to[i]); }
	q.run();
	V d = ref_from(g,init);
	unsigned best = inf_weight;
	for(unsigned x=0;x<g.n;++x) best = rk_min(best, rk_ite((d[x]<inf_weight)&(fin[x]<inf_weight), d[x]+fin[x], inf_weight));
	unsigned dist = q.get_distance();
	rk_assert(dist==best, "distance is the minimum over all source/target pairs");
	unsigned us = q.get_used_source(), ut = q.get_used_target();
	if(dist==inf_weight){
		rk_assert(us==invalid_id && ut==invalid_id, "no used source and target if unreachable");
		rk_assert(q.get_arc_path().empty()&&q.get_node_path().empty(), "paths are empty if unreachable");
		rk_reach("unreachable");
	}else{
		us = rk_concretize(us); ut = rk_concretize(ut);
		bool f=false; for(unsigned i=0;i<ns;++i) f|=S[i]==us; rk_assert(f,"used source is one of the sources");
		f=false; for(unsigned i=0;i<nt;++i) f|=T[i]==ut; rk_assert(f,"used target is one of the targets");
		unsigned len = walk_length(g,us,ut,q.get_arc_path(),"arc path leads from the used source to the used target");
		rk_assert(init[us]+len+fin[ut]==dist, "used source and target attain the distance");
		rk_reach("path");
	}
	rk_reach("end");
}
// many sources and targets, nodes repeated
RK_ENTRY(manysrc){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
	Q q(m); V init(g.n,inf_weight), fin(g.n,inf_weight); unsigned r=rk_choose("seed",0,0,1)*55+g.n;
	unsigned S[7],T[6];
	for(unsigned i=0;i<7;++i){ S[i]=i==6?S[1]:rnd(r)%g.n; unsigned o=i==6?rk_sym("so",i,0,15):rnd(r)%20; q.add_source(S[i],o); init[S[i]]=rk_min(init[S[i]],o); }
	for(unsigned i=0;i<6;++i){ T[i]=i==5?T[0]:rnd(r)%g.n; unsigned o=i==5?rk_sym("to",i,0,15):rnd(r)%20; q.add_target(T[i],o); fin[T[i]]=rk_min(fin[T[i]],o); }
	q.run();
	V d = ref_from(g,init); unsigned best=inf_weight; for(unsigned i=0;i<6;++i) best=rk_min(best,plus(d[T[i]],fin[T[i]]));
	unsigned dist=q.get_distance(); rk_assert(dist==best,"distance is the minimum over all source/target pairs");
	if(dist!=inf_weight){
		unsigned us = rk_concretize(q.get_used_source()), ut = rk_concretize(q.get_used_target());
		unsigned len = walk_length(g,us,ut,q.get_arc_path(),"arc path leads from the used source to the used target");
		rk_assert(init[us]<inf_weight&&fin[ut]<inf_weight,"used source and target are among the added ones");
		rk_assert(init[us]+len+fin[ut]==dist, "used source and target attain the distance");
		rk_reach("path");
	}
	rk_reach("end");
}
// C11
#ifndef PINLEN
#define PINLEN 2
#endif
#ifndef PINBEFORE
#define PINBEFORE 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
RK_ENTRY(pinned){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
	Q q(m);
	bool rev = rk_choose("rev",0,0,1);
	switch(rk_choose("used_before",0,0,PINBEFORE)){
		case 1: q.add_source(0).add_target(g.n-1).run(); q.reset(); break;
		case 2: if(rev) q.pin_sources(V{0,g.n-1}).add_target(g.n-1).run_to_pinned_sources(); else q.pin_targets(V{0,g.n-1}).add_source(g.n-1).run_to_pinned_targets(); q.reset(); break;
	}
	unsigned np = g.big? g.n+3 : rk_choose("np",0,0,PINLEN); V P(np);
	if(g.big){ P = big_perm(g.n,7); P.push_back(P[2]); P.push_back(0); P.push_back(P[g.n-1]); } else
	for(unsigned i=0;i<np;++i) P[i]=pick(g,"pin",i);
	if(rev) q.pin_sources(P); else q.pin_targets(P);
	for(unsigned r=0;r<ROUNDS;++r){
		if(r){ if(rev) q.reset_target(); else q.reset_source(); }
		unsigned s = pick(g,"s",r);
		V init(g.n,inf_weight); unsigned off = r==0 ? rk_sym("off",0,0,3) : 0; 
		init[s]=off; if(rev) q.add_target(s,off); else q.add_source(s,off);
#ifdef TWOSRC
		unsigned s2 = pick(g,"s2",r); unsigned o2 = rk_sym("off2",r,0,3); init[s2]=rk_min(init[s2],o2); if(rev) q.add_target(s2,o2); else q.add_source(s2,o2);
#endif
		if(rev) q.run_to_pinned_sources(); else q.run_to_pinned_targets();
		V d = ref_from(g,init,rev);
		V x = rev?q.get_distances_to_sources():q.get_distances_to_targets();
		rk_assert(x.size()==np, "one distance per pinned node");
		for(unsigned i=0;i<np;++i) rk_assert(x[i]==d[P[i]], "pinned distance is the shortest-path distance");
		V buf(np+1,77); if(rev) q.get_distances_to_sources(&buf[0]); else q.get_distances_to_targets(&buf[0]);
		for(unsigned i=0;i<np;++i) rk_assert(buf[i]==x[i], "both distance getters agree");
		rk_assert(buf[np]==77, "getter writes only its own entries");
	}
#ifdef FINALQ
	q.reset(); unsigned s = pick(g,"fs",0); q.add_source(s).add_target(0).run(); rk_assert(q.get_distance()==ref_dist(g,s)[0], "ordinary query after pinned ones");
#endif
	rk_reach("end");
}
// C12
static unsigned changeable(const G&g, unsigned k){ return k==0?g.sym[0]:(k*23+1)%g.m(); }
RK_ENTRY(partial){
	G g = shape(); CCH cch = build(g); weights(g,"w");
	V w = g.w; G h=g;
	Metric m(cch,w); m.customize();
	Partial p(cch);
#ifndef CHANGES
#define CHANGES 2
#endif
#ifndef UPDROUNDS
#define UPDROUNDS 1
#endif
	for(unsigned r=0;r<UPDROUNDS;++r){
		unsigned k = rk_choose("changes",r,0,CHANGES);
		for(unsigned j=0;j<k;++j){
			unsigned a = g.big? changeable(g,rk_choose("changed",2*r+j,0,PICKS)) : rk_choose("changed",2*r+j,0,g.m()-1);
			if(g.big) h.sym.push_back(a);
			unsigned x = rk_sym("nw",2*r+j,0,WMAX+(CLOSABLE>0)); w[a] = rk_ite(x==WMAX+1,inf_weight,x);
			p.update_arc(a);
		}
		bool reset_between = false;
#ifdef RESETS
		reset_between = rk_choose("reset",r,0,1);
#endif
		if(reset_between){ p.reset(cch); for(unsigned a=0;a<g.m();++a) p.update_arc(a); }
		p.customize(m);
		Metric f(cch,w); f.customize();
		for(unsigned a=0;a<cch.cch_arc_count();++a){
			if(g.big){ rk_assert(((m.forward[a]^f.forward[a])|(m.backward[a]^f.backward[a]))==0, "weights equal a full customization"); continue; }
			rk_assert(m.forward[a]==f.forward[a], "forward weights equal a full customization");
			rk_assert(m.backward[a]==f.backward[a], "backward weights equal a full customization");
		}
	}
	h.w=w; unsigned s = pick(g,"s",0); V d=ref_dist(h,s); Q q(m);
	for(unsigned t=0;t<g.n;t+=g.big?5:1){ q.reset(); q.add_source(s).add_target(t).run(); rk_assert(q.get_distance()==d[t], "distance after partial customization"); }
	rk_reach("end");
}
// C14
RK_ENTRY(perfect){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
	ContractionHierarchy ch = m.build_contraction_hierarchy_using_perfect_witness_search();
	rk_assert(ch.node_count()==g.n, "node count kept");
	unsigned s = pick(g,"s",0), t = pick(g,"t",0); V d = ref_dist(g,s);
	ContractionHierarchyQuery q(ch); q.add_source(s).add_target(t).run();
	unsigned dist = q.get_distance();
	rk_assert(dist==d[t], "distance on the perfect hierarchy is the shortest-path distance");
	if(dist==inf_weight){ rk_assert(q.get_arc_path().empty(), "no path if unreachable"); rk_reach("unreachable"); }
	else { rk_assert(walk_length(g,s,t,q.get_arc_path(),"arc path is a source-target walk over input arcs")==dist, "arc path has the reported length"); rk_reach("path"); }
	V nodes = q.get_node_path(); rk_assert(nodes.empty()==(dist==inf_weight), "node path is empty iff unreachable");
	if(!nodes.empty()) rk_assert(nodes.front()==s&&nodes.back()==t, "node path joins source and target");
	// the metric stays usable
	Q c(m); c.add_source(s).add_target(t).run(); rk_assert(c.get_distance()==dist, "metric still answers queries");
	rk_reach("end");
}
// C14: no superfluous arcs, and unweighted search space is valid
RK_ENTRY(perfect_minimal){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
	ContractionHierarchy ch = m.build_contraction_hierarchy_using_perfect_witness_search();
	for(unsigned x=0;x<g.n;++x) for(unsigned dir=0;dir<2;++dir){
		const ContractionHierarchy::Side&sd = dir?ch.backward:ch.forward;
		V d = ref_dist(g,ch.order[x],dir);
		for(unsigned a=sd.first_out[x];a<sd.first_out[x+1];++a){
			unsigned y=rk_concretize(sd.head[a]);
			rk_assert(y>x, "arcs lead upwards");
			rk_assert(sd.weight[a]==d[ch.order[y]], "every arc of the perfect hierarchy has the length of a shortest path");
		}
	}
	rk_reach("end");
}
// C15
static void misc_op(Q&q, unsigned k, const G&g){
	switch(rk_choose("op",k,0,5)){
		case 0: q.reset(); q.add_source(pick(g,"hs",k)).add_target(pick(g,"ht",k)).run(); rk_reach("run"); break;
		case 1: q.reset(); q.add_source(pick(g,"hs",k)); rk_reach("only source"); break;
		case 2: q.reset(); q.add_target(pick(g,"ht",k),3); rk_reach("only target"); break;
		case 3: { q.reset(); q.pin_targets(V{pick(g,"ht",k),0}); q.add_source(pick(g,"hs",k)).run_to_pinned_targets(); rk_reach("pinned targets"); break; }
		case 4: { q.reset(); q.pin_sources(V{pick(g,"hs",k)}); q.add_target(pick(g,"ht",k)).run_to_pinned_sources(); q.reset_target(); rk_reach("pinned sources"); break; }
		case 5: q.reset(); q.add_source(0).add_source(g.n-1,1).add_target(0,2).add_target(g.n-1).run(); q.get_node_path(); rk_reach("multi"); break;
	}
}
#ifndef HIST
#define HIST 2
#endif
RK_ENTRY(history){
	G g = shape(); CCH cch = build(g); weights(g,"w"); Metric m(cch,g.w); m.customize();
	Q q(m);
	for(unsigned k=0;k<HIST;++k) misc_op(q,k,g);
	if(rk_choose("how",0,0,1)) q.reset(m); else q.reset();
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	V d = ref_dist(g,s);
	q.add_source(s).add_target(t).run();
	unsigned dist = q.get_distance();
	rk_assert(dist==d[t], "distance after reset is the shortest-path distance");
	if(dist==inf_weight) check_path(q,g,s,t,0,inf_weight); else check_path(q,g,s,t,0,dist);
	rk_reach("end");
}
// metric resets: other weights, other hierarchy (same or other size), query moved between metrics
RK_ENTRY(metric_reset){
	G g = shape(); CCH cch = build(g);
	G h; h.n = rk_choose("n2",0,2,6); for(unsigned i=0;i+1<h.n;++i){ h.tail.push_back(i); h.head.push_back(i+1); h.w.push_back(0); }
	CCH other(some_perm(h.n,1), h.tail, h.head);
	weights(g,"w"); V w1 = g.w; for(unsigned i=0;i<h.m();++i) h.w[i]=i+1;
	Metric m; 
	bool start_other = rk_choose("start",0,0,1);
	if(start_other) m.reset(other,h.w); else m.reset(cch,w1);
	m.customize();
	Q q(m);
	if(start_other){ q.add_source(0).add_target(h.n-1).run(); rk_assert(q.get_distance()==h.n*(h.n-1)/2,"chain distance"); }
	else { q.add_source(0).add_target(g.n-1).run(); }
	G g2=g; weights(g2,"w2"); V w2=g2.w;
	Metric mb; mb.reset(cch,w1); mb.customize(); 
	switch(rk_choose("how",0,0,2)){
		case 0: m.reset(cch,w2); m.customize(); q.reset(m); break;
		case 1: if(start_other) m.reset(cch,w1); m.customize(); m.reset(w2); m.customize(); q.reset(m); break;
		case 2: q.reset(mb); q.add_source(g.n-1).add_target(0); m.reset(cch,&w2[0]).customize(); q.reset(m); break;
	}
	unsigned s = pick(g,"s",0), t = pick(g,"t",0);
	q.add_source(s).add_target(t).run();
	rk_assert(q.get_distance()==ref_dist(g2,s)[t], "distance under the new metric");
	rk_reach("end");
}
// C35
RK_ENTRY(copies){
	G g = shape(); weights(g,"w"); unsigned s = pick(g,"s",0), t = pick(g,"t",0); V d = ref_dist(g,s);
	CCH*orig = new CCH(build(g));
	unsigned how = rk_choose("how",0,0,3); CCH c;
	if(how==0) c = *orig; else if(how==1) c = std::move(*orig); else if(how==2) c = CCH(*orig); else { CCH tmp(*orig); c = std::move(tmp); }
	delete orig;
	Metric*m0 = new Metric(c,g.w); m0->customize();
	Metric m(*m0); Metric mm(std::move(*m0)); delete m0;
	Partial*p0=new Partial(c); p0->update_arc(0); Partial p(*p0); delete p0; p.customize(m);
	Q*q0 = new Q(m); q0->add_source(s).add_target(t); Q q1(*q0); Q q2(std::move(*q0)); delete q0;
	q1.run(); q2.run();
	rk_assert(q1.get_distance()==d[t] && q2.get_distance()==d[t], "copied and moved queries answer like the original");
	if(d[t]<inf_weight) check_path(q1,g,s,t,0,d[t]);
	Q q3; q3 = q1; q3.reset(mm); q3.add_source(s).add_target(t).run(); rk_assert(q3.get_distance()==d[t], "assigned query answers like the original");
	rk_reach("end");
}
