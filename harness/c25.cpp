// C25: graph fragments, components, nested dissection with arbitrary separators.
#include "graph.h"
#include <routingkit/nested_dissection.h>
#include <routingkit/permutation.h>
using namespace RoutingKit;
static G shape(){
#ifdef ANY
	G g; g.n=N; for(unsigned i=0;i<M;++i){ unsigned a=rk_choose("a",i,0,N-1), b=rk_choose("b",i,a,N-1); g.tail.push_back(i%2?b:a); g.head.push_back(i%2?a:b); g.w.push_back(0);} return g;
#else
	return some_topo(0,TLO,THI);
#endif
}
static void check_fragment(const GraphFragment&f){
	unsigned n=f.node_count(), m=f.arc_count(); rk_assert(f.first_out.size()==n+1&&f.head.size()==m&&f.back_arc.size()==m&&f.tail.size()==m,"fragment sizes"); rk_assert(f.first_out[0]==0&&f.first_out[n]==m,"first_out spans the arcs");
	for(unsigned x=0;x<n;++x){ rk_assert(f.first_out[x]<=f.first_out[x+1],"first_out is sorted"); for(unsigned a=f.first_out[x];a<f.first_out[x+1];++a) rk_assert(f.tail[a]==x,"first_out and tail agree"); }
	for(unsigned a=0;a<m;++a){ rk_assert(f.head[a]<n&&f.tail[a]!=f.head[a],"heads in range, no loops"); unsigned b=f.back_arc[a]; rk_assert(b<m,"back arc in range"); rk_assert(f.back_arc[b]==a&&f.tail[b]==f.head[a]&&f.head[b]==f.tail[a]&&b!=a,"back arcs pair opposite arcs"); }
}
static unsigned count(const V&t,const V&h,unsigned x,unsigned y){ unsigned c=0; for(unsigned a=0;a<t.size();++a) c+=t[a]==x&&h[a]==y; return c; }
RK_ENTRY(fragment){
	G g=shape(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); check_fragment(f); rk_assert(f.node_count()==g.n,"node count");
	for(unsigned x=0;x<g.n;++x){ rk_assert(f.global_node_id[x]==x,"global ids"); for(unsigned y=0;y<g.n;++y) if(x!=y) rk_assert(count(f.tail,f.head,x,y)==count(g.tail,g.head,x,y)+count(g.tail,g.head,y,x),"every arc in both directions"); }
	GraphFragment c=f; for(unsigned x=0;x<g.n;++x) c.global_node_id[x]=100+x*7%g.n; 
	std::vector<GraphFragment> P=decompose_graph_fragment_into_connected_components(c);
	V comp(g.n); for(unsigned x=0;x<g.n;++x) comp[x]=x; for(unsigned r=0;r<g.n;++r) for(unsigned a=0;a<g.m();++a){ unsigned l=comp[g.tail[a]]<comp[g.head[a]]?comp[g.tail[a]]:comp[g.head[a]]; comp[g.tail[a]]=comp[g.head[a]]=l; }
	V part(g.n,invalid_id), inv(g.n); for(unsigned x=0;x<g.n;++x) inv[x*7%g.n]=x; unsigned arcs=0;
	for(unsigned i=0;i<P.size();++i){ check_fragment(P[i]); rk_assert(P[i].node_count()>0,"components are not empty"); arcs+=P[i].arc_count(); V id(P[i].node_count()); 
		for(unsigned k=0;k<P[i].node_count();++k){ unsigned q=P[i].global_node_id[k]; rk_assert(q>=100&&q<100+g.n,"global ids kept"); unsigned x=inv[q-100]; rk_assert(part[x]==invalid_id,"every node in one component"); part[x]=i; id[k]=x; }
		for(unsigned k=0;k<P[i].node_count();++k) for(unsigned l=0;l<P[i].node_count();++l) rk_assert(count(P[i].tail,P[i].head,k,l)==count(f.tail,f.head,id[k],id[l]),"arcs of the component are kept"); }
	rk_assert(arcs==f.arc_count(),"no arc is lost");
	for(unsigned x=0;x<g.n;++x) for(unsigned y=0;y<g.n;++y){ rk_assert(part[x]!=invalid_id,"no node is lost"); rk_assert((part[x]==part[y])==(comp[x]==comp[y]),"parts are the connected components"); }
	rk_reach("end");
}
static void check_order(const G&g,const SeparatorDecomposition&d){
	unsigned n=g.n; rk_assert(d.order.size()==n&&is_permutation(d.order),"order is a permutation"); rk_assert(!d.tree.empty(),"tree has a root");
	unsigned k=d.tree.size(); V parent(k,invalid_id), owner(n,invalid_id); std::vector<bool> seen(k,false);
	for(unsigned i=0;i<k;++i){
		const SeparatorDecomposition::Node&t=d.tree[i]; rk_assert(t.first_separator_vertex<=t.last_separator_vertex&&t.last_separator_vertex<=n,"separator range in range");
		for(unsigned p=t.first_separator_vertex;p<t.last_separator_vertex;++p){ rk_assert(owner[p]==invalid_id,"separators do not overlap"); owner[p]=i; }
		for(unsigned c=t.left_child;c!=0;c=d.tree[c].right_sibling){ rk_assert(c<k,"child in range"); rk_assert(!seen[c],"tree nodes have one parent"); seen[c]=true; parent[c]=i; }
	}
	for(unsigned i=1;i<k;++i) rk_assert(seen[i],"tree is connected"); rk_assert(!seen[0]&&d.tree[0].right_sibling==0,"node 0 is the root"); for(unsigned p=0;p<n;++p) rk_assert(owner[p]!=invalid_id,"separators cover all nodes");
	V pos(n); for(unsigned p=0;p<n;++p) pos[d.order[p]]=p;
	for(unsigned a=0;a<g.m();++a){ unsigned p=pos[g.tail[a]], q=pos[g.head[a]]; unsigned u=owner[p], v=owner[q]; bool anc=false; for(unsigned x=u;x!=invalid_id;x=parent[x]) anc|=x==v; for(unsigned x=v;x!=invalid_id;x=parent[x]) anc|=x==u; rk_assert(anc,"no arc between different subtrees"); if(u!=v){ bool up=false; for(unsigned x=u;x!=invalid_id;x=parent[x]) up|=x==v; rk_assert(up? q>p: p>q,"separators come after what they separate"); } }
}
static unsigned calls;
static BitVector any_separator(const GraphFragment&f){
	check_fragment(f); rk_assert(f.node_count()>1,"only parts with several nodes are separated"); BitVector s(f.node_count()); bool any=false; unsigned b=calls; calls+=f.node_count();
	for(unsigned i=0;i<f.node_count();++i){ bool x= (i+1==f.node_count()&&!any)? true: rk_choose("sep",b+i,0,1)!=0; if(x){ s.set(i); any=true; } }
	return s;
}
RK_ENTRY(dissect){
	G g=shape(); calls=0; GraphFragment f=make_graph_fragment(g.n,g.tail,g.head);
	SeparatorDecomposition d=compute_separator_decomposition(f,any_separator); check_order(g,d); rk_reach("end");
}
RK_ENTRY(order){ // order-only function and empty log function
	G g=shape(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); calls=0; std::function<void(const std::string&)> nolog;
	V o=compute_nested_node_dissection_order(f,any_separator,nolog); calls=0; SeparatorDecomposition d=compute_separator_decomposition(f,any_separator); check_order(g,d); rk_assert(o==d.order,"order functions agree"); rk_reach("end");
}
RK_ENTRY(tiny){
	unsigned n=rk_choose("n",0,0,3); V none; G g; g.n=n; GraphFragment f=make_graph_fragment(n,none,none); check_fragment(f);
	std::vector<GraphFragment> P=decompose_graph_fragment_into_connected_components(f); rk_assert(P.size()==n,"isolated nodes are components"); for(unsigned i=0;i<P.size();++i){ check_fragment(P[i]); rk_assert(P[i].node_count()==1,"isolated nodes are components"); }
	calls=0; SeparatorDecomposition d=compute_separator_decomposition(f,any_separator); check_order(g,d);
	std::vector<float> z(n,0); V o=compute_nested_node_dissection_order_using_inertial_flow(n,none,none,z,z); rk_assert(o.size()==n&&is_permutation(o),"order is a permutation"); rk_reach("end");
}
RK_ENTRY(inertial){
	G g=shape(); std::vector<float> lat(g.n),lon(g.n); for(unsigned i=0;i<g.n;++i){ lat[i]=(float)(int)rk_choose("lat",i,0,1); lon[i]=(float)(int)(i*3%4); }
	V o=compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,lat,lon); rk_assert(o.size()==g.n&&is_permutation(o),"order is a permutation"); rk_reach("end");
}

static unsigned style;
static BitVector some_separator(const GraphFragment&f){
	check_fragment(f); unsigned n=f.node_count(); rk_assert(n>1,"only parts with several nodes are separated"); BitVector s(n); unsigned r=style*13+n; bool any=false;
	for(unsigned i=0;i<n;++i) if(style==0? f.global_node_id[i]%5==2: rnd(r)%(style+2)==0){ s.set(i); any=true; } if(!any) s.set(n/2); return s;
}
RK_ENTRY(big){ // larger graphs, an arbitrary further arc, three kinds of separators
	G g=big_graph(rk_choose("big",0,0,4),0); if(rk_choose("extra",0,0,1)){ g.tail.push_back(rk_choose("x",0,0,3)*(g.n-1)/3); g.head.push_back(rk_choose("y",0,0,3)*(g.n-1)/3); g.w.push_back(0); } else { V t,h; for(unsigned a=0;a<g.m();a+=3){ t.push_back(g.tail[a]); h.push_back(g.head[a]); } g.tail=t; g.head=h; g.w.resize(t.size()); }
	GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); check_fragment(f);
	for(unsigned x=0;x<g.n;x+=3) for(unsigned y=0;y<g.n;++y) if(x!=y) rk_assert(count(f.tail,f.head,x,y)==count(g.tail,g.head,x,y)+count(g.tail,g.head,y,x),"every arc in both directions");
	style=rk_choose("style",0,0,2); SeparatorDecomposition d=compute_separator_decomposition(f,some_separator); check_order(g,d);
	V o=compute_nested_node_dissection_order(f,some_separator); rk_assert(o==d.order,"order functions agree");
	std::vector<GraphFragment> P=decompose_graph_fragment_into_connected_components(f); unsigned n=0,m=0; for(auto&p:P){ check_fragment(p); n+=p.node_count(); m+=p.arc_count(); } rk_assert(n==f.node_count()&&m==f.arc_count(),"no node or arc is lost"); rk_reach("end");
}
RK_ENTRY(big_inertial){
	G g=big_graph(rk_choose("big",0,0,4),0); g.tail.push_back(rk_choose("x",0,0,3)*(g.n-1)/3); g.head.push_back(rk_choose("y",0,0,3)*(g.n-1)/3); g.w.push_back(0); std::vector<float> lat(g.n),lon(g.n); unsigned r=9; for(unsigned i=0;i<g.n;++i){ lat[i]=(float)(int)(rnd(r)%20); lon[i]=(float)(int)(i%5); }
	V o=compute_nested_node_dissection_order_using_inertial_flow(g.n,g.tail,g.head,lat,lon); rk_assert(o.size()==g.n&&is_permutation(o),"order is a permutation");
	GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); SeparatorDecomposition d=compute_separator_decomposition(f,[&](const GraphFragment&h){ CutSide c=inertial_flow(h,30,lat,lon); return derive_separator_from_cut(h,c.is_node_on_side); }); check_order(g,d); rk_reach("end");
}
