// C40: the programs that build indices, answer queries and generate queries from files give exact and valid results.
#include "graph.h"
#include "tool.h"
#include <routingkit/geo_dist.h>
#include <routingkit/contraction_hierarchy.h>
using namespace RoutingKit;
extern "C"{ int rk_tool_run_dijkstra(int,char**); int rk_tool_compute_contraction_hierarchy(int,char**); int rk_tool_run_contraction_hierarchy_query(int,char**); int rk_tool_generate_test_queries(int,char**); int rk_tool_generate_random_node_list(int,char**); int rk_tool_generate_constant_vector(int,char**); int rk_tool_generate_random_source_times(int,char**); int rk_tool_generate_dijkstra_rank_test_queries(int,char**); int rk_tool_compute_geographic_distance_weights(int,char**); int rk_tool_compute_nested_dissection_order(int,char**); }
#ifndef TLO
#define TLO 0
#endif
#ifndef THI
#define THI 3
#endif
#ifndef QN
#define QN 3
#endif
static G sorted(const G&g){ G h; h.n=g.n; for(unsigned x=0;x<g.n;++x) for(unsigned a=0;a<g.m();++a) if(g.tail[a]==x){ h.tail.push_back(x); h.head.push_back(g.head[a]); h.w.push_back(g.w[a]); } return h; }
static G store(){
#ifdef BLO
	G g=sorted(big_graph(rk_choose("big",0,BLO,BHI),15));
#else
	G g=sorted(some_topo(0,TLO,THI)); for(unsigned i=0;i<g.m();++i) g.w[i]=rk_sym("w",i,0,15);
#endif
	V fo(1,0); for(unsigned x=0;x<g.n;++x){ unsigned k=fo.back(); for(unsigned a=0;a<g.m();++a) k+=g.tail[a]==x; fo.push_back(k); } save_vector("fo",fo); save_vector("hd",g.head); save_vector("wt",g.w); return g; }
static void check(const G&g,const V&s,const V&t){ rk_assert(exists("di"),"distances are written"); V d=vec("di"); rk_assert(d.size()==s.size(),"one distance per query"); for(unsigned i=0;i<s.size();++i){ V init(g.n,inf_weight); init[s[i]]=0; rk_assert(d[i]==ref_from(g,init)[t[i]],"the shortest distance of every query"); } }
static void queries(const G&g,V&s,V&t){ unsigned q=rk_choose("q",0,0,QN); for(unsigned i=0;i<q;++i){
#ifdef BLO
	s.push_back((i*7+1)%g.n); t.push_back((i*11+g.n/2+rk_choose("t",i,0,2))%g.n);
#else
	s.push_back(i==0?rk_choose("s",i,0,g.n-1):(s[i-1]+1)%g.n); t.push_back(i==0?rk_choose("t",i,0,g.n-1):(t[i-1]+2*i)%g.n);
#endif
	} save_vector("s",s); save_vector("t",t); wipe("di"); }
RK_ENTRY(dijkstra){ G g=store(); V s,t; queries(g,s,t); run(rk_tool_run_dijkstra,{"fo","hd","wt","s","t","di"}); check(g,s,t); rk_reach("end"); }
RK_ENTRY(hierarchy){ G g=store(); V s,t; queries(g,s,t); wipe("ch"); run(rk_tool_compute_contraction_hierarchy,{"fo","hd","wt","ch"}); rk_assert(exists("ch"),"the hierarchy is written"); run(rk_tool_run_contraction_hierarchy_query,{"ch","s","t","di"}); check(g,s,t); rk_reach("end"); }
RK_ENTRY(broken){ // invalid graphs and queries are reported, nothing is written
	V fo,hd,w,s,t; fo={0,1,2,2}; hd={1,2}; w={5,6}; s={0,1}; t={2,2}; unsigned k=rk_choose("bad",0,0,11); bool graph=true;
	switch(k){ case 0: fo.clear(); break; case 1: fo[0]=1; break; case 2: fo[3]=1; break; case 3: fo[1]=3; break; case 4: hd[1]=3; break; case 5: w.pop_back(); break; case 6: w.push_back(3); break; default: graph=false; } switch(k){ case 7: s.pop_back(); break; case 8: t.pop_back(); break; case 9: s[1]=3; break; case 10: t[1]=3; break; case 11: t[0]=0xffffffffu; break; }
	save_vector("fo",fo); save_vector("hd",hd); save_vector("wt",w); save_vector("s",s); save_vector("t",t); wipe("di"); wipe("ch"); run(rk_tool_run_dijkstra,{"fo","hd","wt","s","t","di"}); rk_assert(!exists("di"),"nothing is written for invalid input");
	run(rk_tool_compute_contraction_hierarchy,{"fo","hd","wt","ch"}); rk_assert(exists("ch")==!graph,"a hierarchy is written exactly for valid graphs"); if(!graph){ run(rk_tool_run_contraction_hierarchy_query,{"ch","s","t","di"}); rk_assert(!exists("di"),"nothing is written for invalid queries"); } rk_reach("end"); }
RK_ENTRY(noarcs){ V fo(rk_choose("n",0,2,4),0), none, s, t; save_vector("fo",fo); save_vector("hd",none); save_vector("wt",none); s.push_back(0); t.push_back((unsigned)fo.size()-2); save_vector("s",s); save_vector("t",t); wipe("di"); run(rk_tool_run_dijkstra,{"fo","hd","wt","s","t","di"}); rk_assert(exists("di")&&vec("di").size()==1&&vec("di")[0]==(s[0]==t[0]?0:inf_weight),"a graph without arcs has only trivial paths"); rk_reach("end"); }
RK_ENTRY(generate){
	static const unsigned nc[]={1,2,3,1000,2147483647u}; unsigned n=nc[rk_choose("n",0,0,4)], q=rk_choose("q",0,0,6); Str seed=num(rk_choose("seed",0,0,5));
	run(rk_tool_generate_test_queries,{num(n),num(q),seed,"s","t"}); V s=vec("s"),t=vec("t"); rk_assert(s.size()==q&&t.size()==q,"the number of queries asked for"); for(unsigned i=0;i<q;++i) rk_assert(s[i]<n&&t[i]<n,"queries within the graph");
	run(rk_tool_generate_random_node_list,{num(n),num(q),seed,"l"}); V l=vec("l"); rk_assert(l.size()==q,"the number of nodes asked for"); for(unsigned x:l) rk_assert(x<n,"nodes within the graph");
	save_vector("nodes",V(3)); run(rk_tool_generate_random_node_list,{"nodes",num(q),seed,"l"}); l=vec("l"); rk_assert(l.size()==q,"the number of nodes asked for"); for(unsigned x:l) rk_assert(x<3,"nodes within the graph");
	run(rk_tool_generate_constant_vector,{num(q),num(n),"c"}); rk_assert(vec("c")==V(q,n),"a constant vector");
	save_vector("p",V(1,n)); run(rk_tool_generate_random_source_times,{num(q),seed,"p","st"}); l=vec("st"); rk_assert(l.size()==q,"the number of times asked for"); for(unsigned x:l) rk_assert(x<n,"times within the period"); run(rk_tool_generate_random_source_times,{"nodes",seed,"p","st"}); rk_assert(vec("st").size()==3,"as many times as the vector has elements");
	rk_reach("end"); }
RK_ENTRY(ranks){ // distances and ranks of the generated queries, on a path and a cycle with equal weights but one
	unsigned n=140, k=rk_choose("k",0,0,1); V fo(1,0),hd,w; for(unsigned i=0;i<n;++i){ if(k==0&&i+1==n){} else { hd.push_back((i+1)%n); w.push_back(i==50?rk_sym("w",0,0,9):2); } fo.push_back((unsigned)hd.size()); } save_vector("fo",fo); save_vector("hd",hd); save_vector("wt",w); run(rk_tool_generate_dijkstra_rank_test_queries,{"fo","hd","wt","3",num(rk_choose("seed",0,1,4)),"s","t","r","di"});
	V s=vec("s"),t=vec("t"),r=vec("r"),d=vec("di"); rk_assert(s.size()==t.size()&&s.size()==r.size()&&s.size()==d.size(),"one entry per query"); if(k==1) rk_assert(s.size()==6,"two ranks per source");
	for(unsigned i=0;i<s.size();++i){ rk_assert(s[i]<n&&t[i]<n,"nodes of the graph"); rk_assert(r[i]>5&&r[i]<8,"large ranks"); unsigned x=s[i],y=0,c=1; for(;x!=t[i]&&c<=n;++c){ y+=w[x]; x=(x+1)%n; } rk_assert(c==1u<<r[i],"the rank is the logarithm of the settled nodes"); rk_assert(d[i]==y,"the distance of the query"); } if(!s.empty()) rk_reach("some"); rk_reach("end"); }
RK_ENTRY(geo){ unsigned n=3; V fo={0,2,3,4},hd={1,2,2,0}; static const float c[]={0.f,1.f,-45.f,60.f}; std::vector<float> la(n),lo(n); for(unsigned i=0;i<n;++i){ la[i]=c[rk_choose("a",i,0,3)]; lo[i]=c[rk_choose("b",i,0,3)]*2; } save_vector("fo",fo); save_vector("hd",hd); save_vector("la",la); save_vector("lo",lo); run(rk_tool_compute_geographic_distance_weights,{"fo","hd","la","lo","wt"}); V w=vec("wt"); rk_assert(w.size()==4,"a weight per arc"); for(unsigned x=0;x<n;++x) for(unsigned a=fo[x];a<fo[x+1];++a){ double d=geo_dist(la[x],lo[x],la[hd[a]],lo[hd[a]]); rk_assert(w[a]<=d+1&&w[a]+1>=d,"the distance between the ends in meters"); } rk_reach("end"); }
RK_ENTRY(order){ G g=store(); std::vector<float> la(g.n),lo(g.n); for(unsigned i=0;i<g.n;++i){ la[i]=(float)(i*7%5); lo[i]=(float)(i*3%4); } save_vector("la",la); save_vector("lo",lo); run(rk_tool_compute_nested_dissection_order,{"fo","hd","la","lo","or"}); V o=vec("or"); rk_assert(o.size()==g.n,"every node in the order"); V seen(g.n,0); for(unsigned x:o){ rk_assert(x<g.n&&!seen[x],"every node once"); seen[x]=1; } rk_reach("end"); }
