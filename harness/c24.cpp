// C24: flow cuts against all cuts; separators from cuts.
#include "graph.h"
#include <routingkit/nested_dissection.h>
using namespace RoutingKit;
static G shape(){
#ifdef ANY
	G g; g.n=N; for(unsigned i=0;i<M;++i){ unsigned a=rk_choose("a",i,0,N-1), b=rk_choose("b",i,a,N-1); g.tail.push_back(i%2?b:a); g.head.push_back(i%2?a:b); g.w.push_back(0);} return g;
#else
	static const struct { unsigned n; const char*s; } T[]={ {6,"ab ac bd cd de ce ef df"}, {6,"ab bc cd de ef fa ad be cf"}, {6,"ab ab bc bc cd de ef cf ae"}, {7,"ab ac bd cd de ee ef dg fg"}, {6,"ab cd ef bc"}, {8,"ab bc cd ef fg gh ae bf cg dh"}, {7,"ab bc ca cd de ef fd eg"}, {6,"ad bd cd de df ab bc ef"} };
	unsigned t=rk_choose("topo",0,TLO,THI); G g; g.n=T[t].n; for(const char*p=T[t].s;*p;++p){ if(*p==' ') continue; g.tail.push_back(p[0]-'a'); g.head.push_back(p[1]-'a'); g.w.push_back(0); ++p; } return g;
#endif
}
static unsigned crossing(const G&g, unsigned set){ unsigned c=0; for(unsigned a=0;a<g.m();++a) c+= ((set>>g.tail[a])^(set>>g.head[a]))&1; return c; }
static unsigned as_set(const BitVector&v){ unsigned s=0; for(unsigned i=0;i<v.size();++i) if(v.is_set(i)) s|=1u<<i; return s; }
static void check_cut(const G&g,const CutSide&c,unsigned S,unsigned T,unsigned flow){
	rk_assert(c.is_node_on_side.size()==g.n,"one flag per node"); unsigned s=as_set(c.is_node_on_side);
	rk_assert(((s&S)==S&&(s&T)==0)||((s&T)==T&&(s&S)==0),"all sources on one side, all targets on the other");
	rk_assert(crossing(g,s)==flow&&c.cut_size==flow,"cut is crossed by exactly flow many arcs"); unsigned cnt=0; for(unsigned i=0;i<g.n;++i) cnt+=(s>>i)&1; rk_assert(c.node_on_side_count==cnt,"side size");
	CutSide p=c; pick_smaller_side(p); unsigned ps=as_set(p.is_node_on_side); rk_assert(ps==s||ps==((1u<<g.n)-1-s),"smaller side is one of the sides"); unsigned pc=0; for(unsigned i=0;i<g.n;++i) pc+=(ps>>i)&1; rk_assert(p.node_on_side_count==pc&&2*pc<=g.n,"smaller side is the smaller side"); rk_assert(p.cut_size==flow,"cut size kept");
}
static void check_separator(const G&g,const GraphFragment&f,unsigned s){
	BitVector cut(g.n); for(unsigned i=0;i<g.n;++i) if((s>>i)&1) cut.set(i);
	BitVector sep=derive_separator_from_cut(f,cut); rk_assert(sep.size()==g.n,"one flag per node"); unsigned p=as_set(sep);
	for(unsigned a=0;a<g.m();++a){ unsigned x=g.tail[a], y=g.head[a]; if(((s>>x)^(s>>y))&1) rk_assert(((p>>x)|(p>>y))&1,"no arc between the remaining sides"); }
	for(unsigned x=0;x<g.n;++x) if((p>>x)&1){ bool b=false; for(unsigned a=0;a<g.m();++a) b|= (g.tail[a]==x||g.head[a]==x)&&(((s>>g.tail[a])^(s>>g.head[a]))&1); rk_assert(b,"separator nodes are incident to the cut"); }
}
RK_ENTRY(flow){
	G g=shape(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); unsigned S=0,T=0; BitVector is(g.n),it(g.n);
#ifdef ST
	unsigned k=rk_choose("st",0,0,2); S= k==0?1u: k==1? 3u: 5u; T= k==0? 1u<<(g.n-1): k==1? 3u<<(g.n-2): (1u<<(g.n-1))|(1u<<(g.n-3)); T&=~S;
#else
	for(unsigned x=0;x<g.n;++x){ unsigned r=rk_choose("role",x,0,2); if(r==1) S|=1u<<x; if(r==2) T|=1u<<x; } rk_assume(S&&T);
#endif
	for(unsigned x=0;x<g.n;++x){ if((S>>x)&1) is.set(x); if((T>>x)&1) it.set(x); }
	BlockingFlow b(f,is,it); unsigned last=0;
	for(unsigned i=0;;++i){ rk_assert(i<=g.n+2,"blocking flow terminates"); rk_assert(b.get_current_flow_intensity()>=last,"flow never decreases"); last=b.get_current_flow_intensity(); if(b.is_finished()) break; b.advance(); }
	unsigned best=invalid_id; for(unsigned s=0;s<(1u<<g.n);++s) if((s&S)==S&&(s&T)==0){ unsigned c=crossing(g,s); if(c<best) best=c; }
	rk_assert(last==best,"flow is the size of a minimum cut");
	check_cut(g,b.get_source_cut(),S,T,best); check_cut(g,b.get_target_cut(),S,T,best); CutSide bc=b.get_balanced_cut(); check_cut(g,bc,S,T,best);
	rk_assert((as_set(b.get_source_cut().is_node_on_side)&S)==S,"source cut contains the sources"); rk_assert((as_set(b.get_target_cut().is_node_on_side)&T)==T,"target cut contains the targets");
	unsigned sn=b.get_source_cut().node_on_side_count, tn=b.get_target_cut().node_on_side_count; rk_assert(bc.node_on_side_count>=(sn<tn?sn:tn),"balanced cut is not worse than the smaller of source and target cut");
	check_separator(g,f,as_set(bc.is_node_on_side)); b.advance(); rk_assert(b.is_finished()&&b.get_current_flow_intensity()==best,"advancing a finished flow changes nothing"); rk_reach("end");
}
RK_ENTRY(separator){ G g=shape(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); unsigned s=0; for(unsigned i=0;i<g.n;++i) s|=rk_choose("side",i,0,1)<<i; check_separator(g,f,s); rk_reach("end"); }
// inertial flow: arbitrary coordinates
RK_ENTRY(inertial){
	G g=shape(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); std::vector<float> lat(g.n),lon(g.n);
	for(unsigned i=0;i<g.n;++i){ lat[i]=(float)(int)rk_choose("lat",i,0,COORD); lon[i]=(float)(int)(i*i%5); }
	unsigned bal=rk_choose("balance",0,0,3); CutSide c;
	if(bal==3) c=inertial_flow(f,lat,lon); else { static const unsigned B[]={1,25,50}; c=inertial_flow(f,B[bal],lat,lon); }
	unsigned s=as_set(c.is_node_on_side); rk_assert(c.is_node_on_side.size()==g.n&&s!=0&&s!=(1u<<g.n)-1,"both sides are not empty"); rk_assert(crossing(g,s)==c.cut_size,"cut size is the number of crossing arcs");
	unsigned cnt=0; for(unsigned i=0;i<g.n;++i) cnt+=(s>>i)&1; rk_assert(cnt==c.node_on_side_count,"side size");
	if(bal<3){ static const unsigned B[]={1,25,50}; unsigned k=g.n*B[bal]/100; if(k==0) k=1; rk_assert(cnt>=k&&g.n-cnt>=k,"cut keeps the requested balance"); }
	check_separator(g,f,s); rk_reach("end");
}

// larger graphs: reference flow by augmenting paths
static unsigned max_flow(const G&g,unsigned S,unsigned T){
	std::vector<int> f(g.m(),0); unsigned flow=0; // each arc carries -1..1, positive along tail to head
	for(;;){ V pre(g.n,invalid_id), q; std::vector<bool> seen(g.n,false); for(unsigned x=0;x<g.n;++x) if((S>>x)&1){ seen[x]=true; q.push_back(x); } unsigned end=invalid_id;
		for(unsigned i=0;i<q.size()&&end==invalid_id;++i){ unsigned x=q[i]; if((T>>x)&1){ end=x; break; } for(unsigned a=0;a<g.m();++a){ if(g.tail[a]==x&&f[a]<1&&!seen[g.head[a]]){ seen[g.head[a]]=true; pre[g.head[a]]=2*a; q.push_back(g.head[a]); } if(g.head[a]==x&&f[a]>-1&&!seen[g.tail[a]]){ seen[g.tail[a]]=true; pre[g.tail[a]]=2*a+1; q.push_back(g.tail[a]); } } }
		if(end==invalid_id) return flow; for(unsigned x=end;pre[x]!=invalid_id;){ unsigned a=pre[x]/2; if(pre[x]%2==0){ ++f[a]; x=g.tail[a]; } else { --f[a]; x=g.head[a]; } } ++flow; }
}
static G large(){
	unsigned k=rk_choose("graph",0,0,3), r=k*31+7; G g; auto arc=[&](unsigned x,unsigned y){ g.tail.push_back(x); g.head.push_back(y); g.w.push_back(0); };
	if(k==0){ g.n=25; for(unsigned y=0;y<5;++y) for(unsigned x=0;x<5;++x){ unsigned v=5*y+x; if(x<4) arc(v,v+1); if(y<4) arc(v+5,v); } }
	else if(k==1){ g.n=22; for(unsigned i=0;i<45;++i) arc(rnd(r)%22,rnd(r)%22); }
	else if(k==2){ g.n=28; for(unsigned i=0;i+1<28;++i){ arc(i,i+1); if(i%5==0&&i+6<28){ arc(i+6,i); arc(i,i+3); arc(i,i+3); } } }
	else { g.n=24; for(unsigned c=0;c<4;++c) for(unsigned i=0;i<6;++i) for(unsigned j=i+1;j<6;++j) arc(6*c+i,6*c+j); arc(1,7); arc(8,13); arc(9,15); arc(16,20); arc(17,21); arc(18,22); arc(2,23); } // cliques
	for(unsigned i=0;i<2;++i) arc(rk_choose("x",i,0,3)*(g.n-1)/3, rk_choose("y",i,0,3)*(g.n-1)/3); // two arbitrary further arcs
	return g;
}
RK_ENTRY(big){
	G g=large(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); unsigned S=0,T=0,r=rk_choose("st",0,0,3); BitVector is(g.n),it(g.n);
	for(unsigned x=0;x<g.n;++x){ bool a,b; if(r==0){ a=x%5==0; b=x%5==4; } else if(r==1){ a=x<3; b=x+4>=g.n; } else if(r==2){ a=x==5; b=x==g.n-2; } else { a=x<g.n/3; b=x>2*g.n/3; } if(a) S|=1u<<x; if(b&&!a) T|=1u<<x; }
	for(unsigned x=0;x<g.n;++x){ if((S>>x)&1) is.set(x); if((T>>x)&1) it.set(x); }
	BlockingFlow b(f,is,it); unsigned last=0; for(unsigned i=0;;++i){ rk_assert(i<=g.n+2,"blocking flow terminates"); rk_assert(b.get_current_flow_intensity()>=last,"flow never decreases"); last=b.get_current_flow_intensity(); if(b.is_finished()) break; b.advance(); }
	unsigned best=max_flow(g,S,T); rk_assert(last==best,"flow is the size of a minimum cut");
	check_cut(g,b.get_source_cut(),S,T,best); check_cut(g,b.get_target_cut(),S,T,best); CutSide bc=b.get_balanced_cut(); check_cut(g,bc,S,T,best);
	rk_assert((as_set(b.get_source_cut().is_node_on_side)&S)==S,"source cut contains the sources"); rk_assert((as_set(b.get_target_cut().is_node_on_side)&T)==T,"target cut contains the targets");
	unsigned sn=b.get_source_cut().node_on_side_count, tn=b.get_target_cut().node_on_side_count; rk_assert(bc.node_on_side_count>=(sn<tn?sn:tn),"balanced cut is not worse than the smaller of source and target cut");
	check_separator(g,f,as_set(bc.is_node_on_side)); rk_reach("end");
}
RK_ENTRY(big_inertial){
	G g=large(); GraphFragment f=make_graph_fragment(g.n,g.tail,g.head); std::vector<float> lat(g.n),lon(g.n); unsigned r=3; bool same=rk_choose("same",0,0,1); for(unsigned i=0;i<g.n;++i){ lat[i]=same?0:(float)(int)(rnd(r)%9); lon[i]=(float)(int)(same?i%2:i%5); }
	static const unsigned B[]={0,20,30,50}; unsigned bal=B[rk_choose("balance",0,0,3)]; CutSide c= bal? inertial_flow(f,bal,lat,lon): inertial_flow(f,lat,lon);
	unsigned s=as_set(c.is_node_on_side), cnt=0; for(unsigned i=0;i<g.n;++i) cnt+=(s>>i)&1; rk_assert(c.is_node_on_side.size()==g.n&&cnt==c.node_on_side_count&&cnt>0&&cnt<g.n,"both sides are not empty"); rk_assert(crossing(g,s)==c.cut_size,"cut size is the number of crossing arcs");
	if(bal){ unsigned k=g.n*bal/100; rk_assert(cnt>=k&&g.n-cnt>=k,"cut keeps the requested balance"); } check_separator(g,f,s); rk_reach("end");
}
