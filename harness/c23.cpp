// C23: strongly connected components against reachability.
#include "graph.h"
#include <routingkit/strongly_connected_component.h>
using namespace RoutingKit;
static void check(unsigned n, const V&fo, const V&head){
	StronlyConnectedComponentsResult r=compute_strongly_connected_components(fo,head);
	std::vector<std::vector<bool> > reach(n,std::vector<bool>(n,false));
	for(unsigned x=0;x<n;++x){ reach[x][x]=true; for(unsigned a=fo[x];a<fo[x+1];++a) reach[x][rk_concretize(head[a])]=true; }
	for(unsigned k=0;k<n;++k) for(unsigned i=0;i<n;++i) if(reach[i][k]) for(unsigned j=0;j<n;++j) if(reach[k][j]) reach[i][j]=true;
	rk_assert(r.component_of.size()==n,"one component per node"); V size(n+1,0);
	for(unsigned x=0;x<n;++x){ rk_assert(r.component_of[x]<r.component_count,"component id in range"); ++size[r.component_of[x]]; }
	for(unsigned c=0;c<r.component_count;++c) rk_assert(c<n&&size[c]>0,"component ids are dense");
	for(unsigned x=0;x<n;++x) for(unsigned y=0;y<n;++y){
		rk_assert((r.component_of[x]==r.component_of[y])==(reach[x][y]&&reach[y][x]),"same component iff mutually reachable");
		if(reach[x][y]) rk_assert(r.component_of[x]>=r.component_of[y],"component ids are in reverse topological order");
	}
	std::vector<bool> l=compute_largest_strongly_connected_component(fo,head); rk_assert(l.size()==n,"one flag per node");
	if(n){ unsigned best=0; for(unsigned c=0;c<r.component_count;++c) if(size[c]>best) best=size[c]; unsigned cnt=0, comp=invalid_id; for(unsigned x=0;x<n;++x) if(l[x]){ ++cnt; if(comp==invalid_id) comp=r.component_of[x]; rk_assert(comp==r.component_of[x],"largest component is one component"); } rk_assert(cnt==best,"largest component has maximum size"); }
}
RK_ENTRY(any){
	unsigned n=N; V deg(n), fo(1,0), head; unsigned left=M;
	for(unsigned x=0;x<n;++x){ unsigned d= x+1==n? left: rk_choose("deg",x,0,left); left-=d; fo.push_back(fo.back()+d); }
	for(unsigned a=0;a<M;++a) head.push_back(rk_choose("head",a,0,n-1));
	check(n,fo,head); rk_reach("end");
}
RK_ENTRY(outdeg){ // larger graphs: every node has one arbitrary and one fixed arc
	unsigned n=N; V fo(1,0), head; for(unsigned x=0;x<n;++x){ if(x%2==0) head.push_back((x+1)%n); head.push_back(rk_choose("head",x,0,n-1)); fo.push_back(head.size()); }
	check(n,fo,head); rk_reach("end");
}
RK_ENTRY(tiny){ unsigned n=rk_choose("n",0,0,2); V fo(n+1,0), head; check(n,fo,head); rk_reach("end"); }

RK_ENTRY(big){ // larger graphs, three arcs with arbitrary heads
	unsigned kind=rk_choose("big",0,0,5); G g; 
	if(kind==5){ g.n=30; for(unsigned c=0;c<5;++c) for(unsigned i=0;i<6;++i){ g.tail.push_back(6*c+i); g.head.push_back(6*c+(i+1)%6); g.w.push_back(0); if(i==2&&c){ g.tail.push_back(6*c+i); g.head.push_back(6*(c-1)+4); g.w.push_back(0); } } } // chain of cycles
	else g=big_graph(kind,0);
	if(kind==0){ V t,h; for(unsigned a=0;a<g.m();++a) if(g.tail[a]<g.head[a]||a%9==0){ t.push_back(g.tail[a]); h.push_back(g.head[a]); } g.tail=t; g.head=h; }
	for(unsigned k=0;k<3;++k){ unsigned a=(k*17+4)%g.m(); g.head[a]=rk_choose("head",k,0,4)*(g.n-1)/4; }
	V fo(1,0), head; for(unsigned x=0;x<g.n;++x){ for(unsigned a=0;a<g.m();++a) if(g.tail[a]==x) head.push_back(g.head[a]); fo.push_back(head.size()); }
	check(g.n,fo,head); rk_reach("end");
}
