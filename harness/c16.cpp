// C16: Dijkstra against Bellman-Ford.
#include "graph.h"
#include <algorithm>
#include <routingkit/dijkstra.h>
#include <routingkit/inverse_vector.h>
using namespace RoutingKit;
#ifndef WMAX
#define WMAX 7
#endif
#ifndef CLOSABLE
#define CLOSABLE 1
#endif
static G sorted(const G&g){ G h; h.n=g.n; for(unsigned x=0;x<g.n;++x) for(unsigned a=0;a<g.m();++a) if(g.tail[a]==x){ h.tail.push_back(x); h.head.push_back(g.head[a]); h.w.push_back(g.w[a]); } return h; }
static G shape(){
#ifdef ANY
	G g=any_graph(N,M,0);
#else
#ifdef BLO
	G b=big_graph(rk_choose("big",0,BLO,BHI),WMAX); G g=sorted(b); g.big=true; // the symbolic arcs by their new ids
	for(unsigned i=0;i<b.sym.size();++i){ unsigned pos=0; for(unsigned a=0;a<b.m();++a) if(b.tail[a]<b.tail[b.sym[i]]||(b.tail[a]==b.tail[b.sym[i]]&&a<b.sym[i])) ++pos; g.sym.push_back(pos); }
	if(g.sym.size()>1){ unsigned x=rk_sym("c",0,0,1); g.w[g.sym[1]]=rk_ite(x==1,inf_weight,g.w[g.sym[1]]); }
	for(unsigned a=3;a<g.m();a+=17) if(a!=g.sym[0]&&(g.sym.size()<2||a!=g.sym[1])) g.w[a]=inf_weight;
	return g;
#else
	G g=some_topo(0,TLO,THI);
#endif
#endif
	g=sorted(g);
	for(unsigned i=0;i<g.m();++i){ if(i<CLOSABLE){ unsigned x=rk_sym("w",i,0,WMAX+1); g.w[i]=rk_ite(x==WMAX+1,inf_weight,x);} else g.w[i]=rk_sym("w",i,0,WMAX); }
	return g;
}
// runs to the end, checks settling order, distances, flags and paths
static void full_run(Dijkstra&d, const G&g, const V&init, bool paths){
	V ref=ref_from(g,init); std::vector<bool> settled(g.n,false); unsigned last=0;
	ScalarGetWeight gw(g.w);
	for(unsigned i=0;i<=g.n;++i){
		bool fin=d.is_finished(); if(fin) break;
		rk_assert(i<g.n,"terminates after settling every node once");
		Dijkstra::SettleResult r=d.settle([&](unsigned a,unsigned dep){ rk_assert(dep==ref[g.tail[rk_concretize(a)]],"weight is asked for the arrival time at the tail"); return gw(a,dep); });
		rk_assert(r.node<g.n,"settled node in range"); unsigned x=rk_concretize(r.node);
		rk_assert(!settled[x],"each node is settled at most once"); settled[x]=true;
		rk_assert(r.distance==ref[x],"settled with the shortest distance"); rk_assert(last<=r.distance,"settled in non-decreasing order"); last=r.distance;
		rk_assert(d.was_node_reached(x)&&d.get_distance_to(x)==r.distance,"settled node is reached with its distance");
	}
	for(unsigned x=0;x<g.n;++x){
		rk_assert(settled[x]==(ref[x]<inf_weight),"exactly the reachable nodes are settled");
		rk_assert(d.was_node_reached(x)==settled[x],"was_node_reached iff settled"); rk_assert(d.get_distance_to(x)==ref[x],"final distance is the shortest distance");
		if(paths){
			V a=d.get_arc_path_to(x), p=d.get_node_path_to(x);
			if(!settled[x]) rk_assert(a.empty()&&p.empty(),"no path to unreached nodes");
			else {
				rk_assert(p.size()==a.size()+1,"node path has one node more than the arc path"); rk_assert(p[0]<g.n,"path starts at a node"); unsigned s=rk_concretize(p[0]); rk_assert(init[s]<inf_weight,"path starts at a source");
				unsigned len=walk_length(g,s,x,a,"arc path is a walk to the node"); rk_assert(init[s]+len==ref[x],"path has the shortest length");
				for(unsigned i=0;i<a.size();++i) rk_assert(p[i+1]==g.head[rk_concretize(a[i])],"node path follows the arc path");
			}
		}
	}
}
static V sources(Dijkstra&d,const G&g,unsigned k,unsigned cnt){
	V init(g.n,inf_weight); unsigned s=pick(g,"s",k); unsigned o= cnt>1? rk_sym("o",k,0,3):0; if(cnt>1) d.add_source(s,o); else d.add_source(s); init[s]=o;
	if(cnt>1){ unsigned s2=pick(g,"s2",k); if(s2!=s){ unsigned o2=rk_sym("o2",k,0,3); d.add_source(s2,o2); init[s2]=o2; } }
	return init;
}
RK_ENTRY(run){ G g=shape(); V fo=invert_vector(g.tail,g.n); Dijkstra d(fo,g.tail,g.head); V init=sources(d,g,0,SRC); full_run(d,g,init,true); rk_reach("end"); }
// earlier partial runs on this graph leave no trace
RK_ENTRY(reuse){
	G g=shape(); V fo=invert_vector(g.tail,g.n); Dijkstra d(fo,g.tail,g.head); ScalarGetWeight gw(g.w);
	for(unsigned k=1;k<=2;++k){ sources(d,g,k,1); unsigned steps=rk_choose("steps",k,0,2); for(unsigned i=0;i<steps&&!d.is_finished();++i) d.settle(gw); if(rk_choose("how",k,0,1)) d.reset(); else d.reset(fo,g.tail,g.head); }
	V init=sources(d,g,0,1); full_run(d,g,init,true); rk_reach("end");
}
// reset onto a graph of other (or the same) size, also when the old graph is gone or changed in place
RK_ENTRY(other){
	G g=shape(); V fo=invert_vector(g.tail,g.n);
	G h; h.n=rk_choose("n2",0,1,6); for(unsigned i=0;i+1<h.n;++i){ h.tail.push_back(i); h.head.push_back(i+1); h.w.push_back(i+1); }
	V*f2=new V(invert_vector(h.tail,h.n)); V*t2=new V(h.tail), *h2=new V(h.head);
	unsigned how=rk_choose("how",0,0,2); Dijkstra d; 
	if(how==2){ Dijkstra e; d=std::move(e); } else d=Dijkstra(*f2,*t2,*h2);
	if(how!=2){ d.add_source(0); ScalarGetWeight hw(h.w); unsigned steps=rk_choose("steps",0,0,3); for(unsigned i=0;i<steps&&!d.is_finished();++i) d.settle(hw); }
	if(how==0){ *f2=fo; *t2=g.tail; *h2=g.head; d.reset(*f2,*t2,*h2); } // changed in place
	else { delete f2; delete t2; delete h2; f2=t2=h2=nullptr; d.reset(fo,g.tail,g.head); }
	V init=sources(d,g,0,1); full_run(d,g,init,true); rk_reach("end");
}
// the 16-bit time stamps of the reached flags wrap around
RK_ENTRY(many){
	G g=topo(4,"ab bc cd",3); V fo=invert_vector(g.tail,g.n); Dijkstra d(fo,g.tail,g.head);
	V init(g.n,inf_weight); init[0]=0; d.add_source(0); full_run(d,g,init,false);
	static const unsigned cnt[]={65533,65534,65535,65536,131070}; unsigned c=cnt[rk_choose("resets",0,0,4)]; for(unsigned i=0;i<c;++i) d.reset();
	for(unsigned x=0;x<g.n;++x) rk_assert(!d.was_node_reached(x)&&d.get_distance_to(x)==inf_weight,"nothing is reached after a reset");
	V in2(g.n,inf_weight); in2[1]=0; d.add_source(1); full_run(d,g,in2,true);
	rk_reach("end");
}
