// C33: routing graphs built from OSM data. The PBF readers are replaced by a data set in memory (their own property is C32).
#include "rk.h"
#include <routingkit/osm_graph_builder.h>
#include <routingkit/osm_simple.h>
#include <routingkit/osm_profile.h>
#include <routingkit/geo_dist.h>
#include <routingkit/id_mapper.h>
#include <routingkit/constants.h>
#include <vector>
#include <string>
#include <algorithm>
using namespace RoutingKit;
#ifndef SEQ
#define SEQ 4
#endif
#ifndef SD
#define SD 2
#endif
#ifndef TLO
#define TLO 0
#define THI 7
#endif
#ifndef NODES
#define NODES 4
#endif
typedef std::vector<std::pair<const char*,const char*>> KV;
struct Node{ uint64_t id; double lat,lon; };
struct Way{ uint64_t id; std::vector<uint64_t> nodes; KV tags; };
struct Rel{ uint64_t id; std::vector<OSMRelationMember> members; KV tags; };
static struct Data{ std::vector<Node> nodes; std::vector<Way> ways; std::vector<Rel> rels; bool waysFirst; int orderedFlag; } D;
static void fill(TagMap&m,const KV&l){ m.build(l.size(),[&](unsigned i){return l[i].first;},[&](unsigned i){return l[i].second;}); }
namespace RoutingKit{
typedef std::function<void(uint64_t,double,double,const TagMap&)> NC; typedef std::function<void(uint64_t,const std::vector<uint64_t>&,const TagMap&)> WC; typedef std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&)> RC;
static void nodes(NC&f){ TagMap t; if(f) for(auto&n:D.nodes) f(n.id,n.lat,n.lon,t); }
static void ways(WC&f){ TagMap t; if(f) for(auto&w:D.ways){ fill(t,w.tags); f(w.id,w.nodes,t); } }
static void rels(RC&f){ TagMap t; if(f) for(auto&r:D.rels){ fill(t,r.tags); f(r.id,r.members,t); } }
void unordered_read_osm_pbf(const std::string&,NC n,WC w,RC r,std::function<void(const std::string&)>){ if(D.waysFirst){ rels(r); ways(w); nodes(n); } else { nodes(n); ways(w); rels(r); } }
void ordered_read_osm_pbf(const std::string&,NC n,WC w,RC r,std::function<void(const std::string&)>,bool flag){ D.orderedFlag=flag; nodes(n); ways(w); rels(r); }
}
// ---------------------------------------------------------------- reference
struct Arc{ unsigned tail,head,way; bool anti; double dist; std::vector<unsigned> geo; }; // geo: indices into D.nodes (~0u: node without position) between tail and head
struct Ref{ std::vector<uint64_t> modelling,routing,rways; std::vector<Arc> arcs; };
static unsigned rank(const std::vector<uint64_t>&v,uint64_t x){ for(unsigned i=0;i<v.size();++i) if(v[i]==x) return i; return invalid_id; }
static unsigned nodeIndex(uint64_t id){ for(unsigned i=0;i<D.nodes.size();++i) if(D.nodes[i].id==id) return i; return ~0u; }
static float lat(unsigned i){ return i==~0u?0.f:(float)D.nodes[i].lat; } static float lon(unsigned i){ return i==~0u?0.f:(float)D.nodes[i].lon; }
template<class Used,class IsNode> static void reference_ids(Ref&r,bool all,Used used,IsNode isnode){
	std::vector<std::pair<uint64_t,unsigned>> cnt; auto add=[&](uint64_t id,unsigned c){ for(auto&x:cnt) if(x.first==id){ x.second+=c; return; } cnt.push_back({id,c}); };
	for(auto&n:D.nodes) if(isnode(n.id)) add(n.id,2);
	for(auto&w:D.ways) if(w.nodes.size()>=2&&used(w)){ r.rways.push_back(w.id); for(auto n:w.nodes) add(n,all?2:1); add(w.nodes.front(),2); add(w.nodes.back(),2); }
	for(auto&x:cnt){ r.modelling.push_back(x.first); if(x.second>=2) r.routing.push_back(x.first); }
	std::sort(r.modelling.begin(),r.modelling.end()); std::sort(r.routing.begin(),r.routing.end()); std::sort(r.rways.begin(),r.rways.end());
}
template<class Dir> static void reference_arcs(Ref&r,Dir dir){
	for(auto&w:D.ways){ unsigned lw=rank(r.rways,w.id); if(lw==invalid_id) continue; unsigned d=dir(w); if(d==3) continue; unsigned last=0; double dist=0; std::vector<unsigned> geo;
		for(unsigned i=1;i<w.nodes.size();++i){ unsigned a=nodeIndex(w.nodes[i-1]),b=nodeIndex(w.nodes[i]); dist+=geo_dist(lat(a),lon(a),lat(b),lon(b));
			unsigned h=rank(r.routing,w.nodes[i]); if(h==invalid_id){ geo.push_back(b); continue; }
			unsigned t=rank(r.routing,w.nodes[last]); if(d==0||d==1) r.arcs.push_back({t,h,lw,false,dist,geo}); if(d==0||d==2){ std::vector<unsigned> g(geo.rbegin(),geo.rend()); r.arcs.push_back({h,t,lw,true,dist,g}); }
			geo.clear(); dist=0; last=i; } }
}
static bool near(unsigned d,double e){ return d<=e+1.001&&d+1.001>=e; }
static OSMWayDirectionCategory cat(unsigned d){ return d==0?OSMWayDirectionCategory::open_in_both:d==1?OSMWayDirectionCategory::only_open_forwards:d==2?OSMWayDirectionCategory::only_open_backwards:OSMWayDirectionCategory::closed; }
static void check_ids(const OSMRoutingIDMapping&m,const Ref&r){
	auto same=[&](const BitVector&b,const std::vector<uint64_t>&l,uint64_t max){ unsigned c=0; for(uint64_t i=0;i<b.size();++i) c+=b.is_set(i); bool ok=c==l.size(); for(auto x:l) ok= ok&&x<b.size()&&b.is_set(x); return ok; };
	rk_assert(same(m.is_routing_way,r.rways,0),"routing ways are the used ways with at least two nodes"); rk_assert(same(m.is_modelling_node,r.modelling,0),"modelling nodes are the nodes of used ways and the requested nodes"); rk_assert(same(m.is_routing_node,r.routing,0),"routing nodes are end points, shared nodes and requested nodes");
}
template<class FO> static bool csr(const FO&first_out,unsigned n,const std::vector<unsigned>&head){ if(first_out.size()!=n+1||first_out[0]!=0||first_out[n]!=head.size()) return false; for(unsigned i=0;i<n;++i){ if(first_out[i]>first_out[i+1]) return false; for(unsigned a=first_out[i];a<first_out[i+1];++a){ if(head[a]>=n) return false; if(a>first_out[i]&&head[a-1]>head[a]) return false; } } return true; }
// pairs arcs of the graph with arcs of the reference; order[a]: reference arc of arc a
static std::vector<unsigned> check_graph(const OSMRoutingGraph&g,const Ref&r,unsigned geometry){
	unsigned n=r.routing.size(),m=r.arcs.size(); rk_assert(g.head.size()==m&&g.way.size()==m&&g.geo_distance.size()==m&&g.is_arc_antiparallel_to_way.size()==m,"one arc per open direction of each stretch"); rk_assert(csr(g.first_out,n,g.head),"arcs are sorted by tail, then by head");
	rk_assert(g.latitude.size()==n&&g.longitude.size()==n,"one position per routing node"); for(unsigned i=0;i<n;++i){ unsigned k=nodeIndex(r.routing[i]); rk_assert(g.latitude[i]==lat(k)&&g.longitude[i]==lon(k),"position of a routing node"); }
	if(geometry) rk_assert(g.first_modelling_node.size()==m+1&&g.first_modelling_node[0]==0&&g.first_modelling_node[m]==g.modelling_node_latitude.size()&&g.modelling_node_latitude.size()==g.modelling_node_longitude.size(),"geometry arrays fit together");
	std::vector<bool> done(m,false); std::vector<unsigned> order; for(unsigned t=0;t<n;++t) for(unsigned a=g.first_out[t];a<g.first_out[t+1];++a){ unsigned f=~0u;
		for(unsigned j=0;j<m&&f==~0u;++j){ const Arc&e=r.arcs[j]; if(done[j]||e.tail!=t||e.head!=g.head[a]||e.way!=g.way[a]||e.anti!=(bool)g.is_arc_antiparallel_to_way[a]||!near(g.geo_distance[a],e.dist)) continue;
			if(geometry){ unsigned b=g.first_modelling_node[a],c=g.first_modelling_node[a+1]; std::vector<unsigned> x=e.geo; if(geometry==2&&x.size()>2) x={x.front(),x.back()}; if(b>c||c-b!=x.size()) continue; bool ok=true; for(unsigned q=0;q<x.size();++q) ok= ok&&g.modelling_node_latitude[b+q]==lat(x[q])&&g.modelling_node_longitude[b+q]==lon(x[q]); if(!ok) continue; }
			f=j; }
		rk_assert(f!=~0u,"every arc is a stretch of a way with its length, direction and geometry"); done[f]=true; order.push_back(f); }
	return order;
}
static const uint64_t NID[]={3,63,64,700,1025,5000};
static void make_nodes(unsigned n){ static const double X[]={8.0,8.25,8.5,8.25,8.75,9.0},Y[]={49.0,49.0,49.125,49.25,49.5,-10.0}; for(unsigned i=0;i<n;++i) D.nodes.push_back({NID[i],Y[i],X[i]}); }
static OSMRoadGeometry geom(unsigned g){ return g==0?OSMRoadGeometry::none:g==1?OSMRoadGeometry::uncompressed:OSMRoadGeometry::first_and_last; }
static std::vector<uint64_t> sequence(const char*name,unsigned lo,unsigned hi,unsigned n){ unsigned l=rk_choose(name,100,lo,hi); std::vector<uint64_t> r; for(unsigned i=0;i<l;++i) r.push_back(NID[rk_choose(name,i,0,n-1)]); return r; }
static void run(unsigned dirs[],unsigned usedmask,unsigned special,bool all,unsigned geometry,bool defaults){
	Ref r; auto used=[&](const Way&w){ return (usedmask>>w.id)&1; }; auto isnode=[&](uint64_t id){ return special!=~0u&&NID[special]==id; };
	reference_ids(r,all,used,isnode); reference_arcs(r,[&](const Way&w){ return defaults?0u:dirs[w.id]; });
	std::function<bool(uint64_t,const TagMap&)> sn; if(special!=~0u) sn=[&](uint64_t id,const TagMap&){ return id==NID[special]; };
	OSMRoutingIDMapping m=load_osm_id_mapping_from_pbf("x",sn,[&](uint64_t id,const TagMap&){ return ((usedmask>>id)&1)!=0; },nullptr,all); check_ids(m,r);
	std::function<OSMWayDirectionCategory(uint64_t,unsigned,const TagMap&)> wc; if(!defaults) wc=[&](uint64_t id,unsigned local,const TagMap&){ rk_assert(local==rank(r.rways,id),"routing way id handed to the callback"); return cat(dirs[id]); };
	OSMRoutingGraph g=load_osm_routing_graph_from_pbf("x",m,wc,nullptr,nullptr,false,geom(geometry)); check_graph(g,r,geometry); rk_assert(g.forbidden_turn_from_arc.empty()&&g.forbidden_turn_to_arc.empty(),"no forbidden turns without restrictions"); rk_reach("end");
}
RK_ENTRY(one){ // one way of arbitrary nodes
	D.waysFirst=rk_choose("waysFirst",0,0,1); make_nodes(NODES-rk_choose("missing",0,0,1)); D.ways.push_back({1,sequence("w",0,SEQ,NODES),KV()});
	unsigned dirs[2]={0,rk_choose("dir",0,0,3)}; unsigned mode=rk_choose("mode",0,0,3); run(dirs,2,mode==1?2:~0u,mode==2,rk_choose("geometry",0,0,2),mode==3);
}
RK_ENTRY(two){
	D.waysFirst=false; make_nodes(NODES); D.ways.push_back({2,sequence("a",3,3,NODES),KV()}); D.ways.push_back({1,sequence("b",2,3,NODES),KV()});
	unsigned dirs[3]={0,rk_choose("dir",1,0,3),rk_choose("dir",2,1,2)}; run(dirs,rk_choose("used",0,2,3)*2,~0u,false,1,false);
}
RK_ENTRY(many){ // longer ways crossing each other
	D.waysFirst=true; make_nodes(6); static const unsigned char S[][6]={{0,1,2,3,4,5},{5,4,3,2,1,0},{0,1,0,1,0,1},{0,0,1,1,2,2},{2,3,4,2,3,4},{5,1,5,2,5,3}};
	for(unsigned w=0;w<3;++w){ unsigned s=rk_choose("s",w,0,5),l=w==0?6:rk_choose("l",w,2,6); Way x; x.id=w==0?70:w; for(unsigned i=0;i<l;++i) x.nodes.push_back(NID[S[s][i]]); D.ways.push_back(x); } 
	Ref r; auto used=[](const Way&){ return true; }; reference_ids(r,false,used,[](uint64_t){ return false; }); reference_arcs(r,[](const Way&w){ return (unsigned)(w.id%3); });
	OSMRoutingIDMapping m=load_osm_id_mapping_from_pbf("x",nullptr,[](uint64_t,const TagMap&){ return true; },nullptr,false); check_ids(m,r);
	OSMRoutingGraph g=load_osm_routing_graph_from_pbf("x",m,[](uint64_t id,unsigned,const TagMap&){ return cat(id%3); },nullptr,nullptr,false,OSMRoadGeometry::uncompressed); check_graph(g,r,1); rk_reach("end");
}
// ---------------------------------------------------------------- turn restrictions
// grid positions: node 10*y+x at (x/8,y/8) degrees
static void grid(uint64_t id){ D.nodes.push_back({id,(double)(id/10)*0.125,(double)(id%10)*0.125}); }
struct RTurn{ bool mandatory; unsigned dir; uint64_t from,via,to; };
static bool fits(unsigned dir,int fx,int fy,int tx,int ty){ int c=fx*ty-fy*tx, d=fx*tx+fy*ty; if(dir==0) return c>0&&d==0; if(dir==1) return c<0&&d==0; if(dir==2) return d>0&&c==0; return d<0&&c==0; }
static uint64_t gid(const Ref&r,const Arc&a,bool last){ if(a.geo.empty()) return last? r.routing[a.tail]:r.routing[a.head]; return D.nodes[last? a.geo.back():a.geo.front()].id; } // neighbour of the head (last) or tail
static void forbid(const OSMRoutingGraph&g,const Ref&r,const std::vector<unsigned>&order,const std::vector<RTurn>&ts,std::vector<std::pair<unsigned,unsigned>>&out){
	unsigned m=order.size(); auto A=[&](unsigned a)->const Arc&{ return r.arcs[order[a]]; };
	for(auto&t:ts){ unsigned f=rank(r.rways,t.from),o=rank(r.rways,t.to); if(f==invalid_id||o==invalid_id) continue; unsigned via=invalid_id;
		if(t.via!=~0ull){ via=rank(r.routing,t.via); if(via==invalid_id) continue; }
		else if(f==o&&t.mandatory){ for(unsigned a=0;a<m;++a) for(unsigned b=0;b<m;++b) if(A(a).way==f&&A(b).way==f&&A(a).head==A(b).tail) for(unsigned c=0;c<m;++c) if(A(c).tail==A(b).tail&&c!=b) out.push_back({a,c}); continue; }
		else { unsigned c=0; for(unsigned v=0;v<r.routing.size();++v){ bool x=false,y=false; for(unsigned a=0;a<m;++a){ x= x||(A(a).way==f&&A(a).head==v); y= y||(A(a).way==o&&A(a).tail==v); } if(x&&y){ via=v; ++c; } } if(c!=1) continue; }
		std::vector<unsigned> F,T; for(unsigned a=0;a<m;++a){ if(A(a).way==f&&A(a).head==via) F.push_back(a); if(A(a).way==o&&A(a).tail==via) T.push_back(a); } if(F.empty()||T.empty()) continue;
		std::vector<std::pair<unsigned,unsigned>> c; uint64_t v=r.routing[via]; for(auto a:F) for(auto b:T){ if(F.size()==1&&T.size()==1){ c.push_back({a,b}); continue; } uint64_t p=gid(r,A(a),true),q=gid(r,A(b),false); if(fits(t.dir,(int)(v%10)-(int)(p%10),(int)(v/10)-(int)(p/10),(int)(q%10)-(int)(v%10),(int)(q/10)-(int)(v/10))) c.push_back({a,b}); }
		if(c.size()!=1) continue; if(!t.mandatory) out.push_back(c[0]); else for(unsigned b=0;b<m;++b) if(A(b).tail==via&&b!=c[0].second) out.push_back({c[0].first,b}); }
	std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end());
}
static OSMTurnDirection td(unsigned d){ return d==0?OSMTurnDirection::left_turn:d==1?OSMTurnDirection::right_turn:d==2?OSMTurnDirection::straight_on:OSMTurnDirection::u_turn; }
static void turns(const std::vector<RTurn>&ts,unsigned dirs[],unsigned geometry,bool log){
	unsigned messages=0; std::function<void(const std::string&)> lg; if(log) lg=[&](const std::string&s){ ++messages; rk_assert(!s.empty(),"message has text"); };
	Ref r; reference_ids(r,false,[](const Way&){ return true; },[](uint64_t){ return false; }); reference_arcs(r,[&](const Way&w){ return dirs[w.id]; }); Rel rel; rel.id=5; D.rels.push_back(rel);
	OSMRoutingIDMapping m=load_osm_id_mapping_from_pbf("x",nullptr,[](uint64_t,const TagMap&){ return true; },lg,false);
	OSMRoutingGraph g=load_osm_routing_graph_from_pbf("x",m,[&](uint64_t id,unsigned,const TagMap&){ return cat(dirs[id]); },[&](uint64_t id,const std::vector<OSMRelationMember>&,const TagMap&,std::function<void(OSMTurnRestriction)> on){ for(auto&t:ts) on({id,t.mandatory?OSMTurnRestrictionCategory::mandatory:OSMTurnRestrictionCategory::prohibitive,td(t.dir),t.from,t.via,t.to}); },lg,false,geom(geometry));
	std::vector<unsigned> order=check_graph(g,r,geometry); std::vector<std::pair<unsigned,unsigned>> e; forbid(g,r,order,ts,e);
	rk_assert(g.forbidden_turn_from_arc.size()==e.size()&&g.forbidden_turn_to_arc.size()==e.size(),"number of forbidden turns"); for(unsigned i=0;i<e.size();++i) rk_assert(g.forbidden_turn_from_arc[i]==e[i].first&&g.forbidden_turn_to_arc[i]==e[i].second,"forbidden turns are those implied by the restrictions, sorted, without duplicates"); if(!e.empty()) rk_reach("forbidden"); rk_reach("end");
}
static const unsigned TOPOS=8;
static unsigned topology(unsigned t){ // number of ways; ids 1,2,3
	for(unsigned y=0;y<4;++y) for(unsigned x=0;x<5;++x) grid(10*y+x+100); // shifted to avoid leading zero rows
	auto w=[&](uint64_t id,std::vector<uint64_t> n){ for(auto&x:n) x+=100; D.ways.push_back({id,n,KV()}); };
	switch(t){
	case 0: w(1,{10,11,12}); w(2,{1,11,21}); return 2; // crossing
	case 1: w(1,{10,11}); w(2,{1,11,21}); return 2; // from-way ends at a passing way
	case 2: w(1,{10,11,12}); w(2,{11,21}); return 2;
	case 3: w(1,{10,11}); w(2,{11,21}); w(3,{11,12}); return 3;
	case 4: w(1,{10,11,12,13}); w(2,{11,21,22,12}); return 2; // ways crossing twice
	case 5: w(1,{20,10,11}); w(2,{11,12,22}); w(3,{1,11}); return 3; // geometry nodes next to the crossing
	case 6: w(1,{10,11,12,22,21,11,1}); w(2,{11,13}); return 2; // way crossing itself
	default: w(1,{10,11}); w(2,{12,13}); w(3,{11,12}); return 3; // ways that do not meet
	}
}
RK_ENTRY(turns){
	unsigned t=rk_choose("topology",0,TLO,THI); unsigned n=topology(t); unsigned dirs[4]; for(unsigned i=1;i<=n;++i) dirs[i]=i==3?0:rk_choose("dir",i,0,2);
	RTurn x; x.mandatory=rk_choose("mandatory",0,0,1); x.dir=rk_choose("turn",0,0,3); uint64_t W[]={1,2,3,9}; x.from=W[rk_choose("from",0,0,n)>=n?3:rk_choose("from",0,0,n)]; x.to=W[rk_choose("to",0,0,n)>=n?3:rk_choose("to",0,0,n)]; uint64_t V[]={~0ull,111,112,120,77}; x.via=V[rk_choose("via",0,0,4)];
	if(x.via==~0ull&&x.from==x.to&&x.mandatory) rk_assume(dirs[1]!=0&&x.from==1&&t!=6); // straight on along a way open in both directions: not specified
	std::vector<RTurn> ts(1,x); unsigned extra=rk_choose("extra",0,0,3); if(extra==3){ ts.insert(ts.begin(),RTurn{false,0,2,~0ull,1}); ts.push_back(RTurn{false,1,1,~0ull,2}); } if(extra==1) ts.push_back(x); if(extra==2){ ts.insert(ts.begin(),RTurn{false,3,2,111,2}); ts.push_back(RTurn{true,0,1,111,2}); }
	turns(ts,dirs,1+extra%2,extra==1&&x.dir<2);
}
// ---------------------------------------------------------------- simple interface
static char SP[4];
RK_ENTRY(simple_car){
	unsigned which=rk_choose("graph",0,0,2); D.orderedFlag=-1; D.waysFirst=false;
	if(which==2){ D.nodes.push_back({1,0.0,0.0}); D.nodes.push_back({2,0.0,5.0}); D.nodes.push_back({3,60.0,170.0}); D.nodes.push_back({4,60.0,170.0009765625}); } // long arcs
	else make_nodes(4);
	unsigned d=rk_choose("digits",0,1,SD); for(unsigned i=0;i<3;++i) SP[i]= i<d? '0'+rk_sym8("digit",i,0,9):0; SP[3]=0; unsigned v=0; for(unsigned i=0;i<d;++i) v=v*10+(SP[i]-'0'); v=rk_ite(v==0,1,v);
	uint64_t a=D.nodes[0].id,b=D.nodes[1].id,c=D.nodes[2].id,e=D.nodes[3].id; static const char*OW[]={"yes","-1","no","reversible"}; unsigned ow=rk_choose("oneway",0,0,3); 
	D.ways.push_back({7,{a,b,c},KV{{"highway","primary"},{"maxspeed",SP},{"oneway",OW[ow]}}}); D.ways.push_back({9,{c,e,a},KV{{"highway","footway"}}}); D.ways.push_back({4,{b,e},KV{{"route","ferry"}}});
	Rel rel; rel.id=3; rel.tags=KV{{"type","restriction"},{"restriction","no_left_turn"}}; rel.members.push_back({OSMIDType::way,7,"from"}); rel.members.push_back({OSMIDType::node,b,"via"}); rel.members.push_back({OSMIDType::way,4,"to"}); D.rels.push_back(rel);
	bool all=rk_choose("all",0,0,1), ord=rk_choose("ordered",0,0,1);
	Ref r; reference_ids(r,all,[](const Way&w){ return w.id!=9; },[](uint64_t){ return false; }); reference_arcs(r,[&](const Way&w){ return w.id==7?(ow==0?1u:ow==1?2u:ow==2?0u:3u):0u; });
	SimpleOSMCarRoutingGraph g=simple_load_osm_car_routing_graph_from_pbf("x",nullptr,all,ord); rk_assert(D.orderedFlag==(int)ord,"the ordered flag reaches the reader");
	unsigned n=r.routing.size(),m=r.arcs.size(); rk_assert(g.head.size()==m&&g.geo_distance.size()==m&&g.travel_time.size()==m&&csr(g.first_out,n,g.head),"arcs of the car graph"); rk_assert(g.latitude.size()==n&&g.longitude.size()==n,"positions of the car graph");
	for(unsigned i=0;i<n;++i){ unsigned k=nodeIndex(r.routing[i]); rk_assert(g.latitude[i]==lat(k)&&g.longitude[i]==lon(k),"position of a routing node"); }
	std::vector<bool> done(m,false); std::vector<unsigned> order; for(unsigned t=0;t<n;++t) for(unsigned x=g.first_out[t];x<g.first_out[t+1];++x){ unsigned f=~0u; for(unsigned j=0;j<m&&f==~0u;++j) if(!done[j]&&r.arcs[j].tail==t&&r.arcs[j].head==g.head[x]&&near(g.geo_distance[x],r.arcs[j].dist)) f=j; rk_assert(f!=~0u,"arc of the car graph"); done[f]=true; order.push_back(f);
		unsigned speed= r.rways[r.arcs[f].way]==7? v:5; uint64_t ms=(uint64_t)g.geo_distance[x]*3600; // milliseconds times km/h
		uint64_t tt=g.travel_time[x]; rk_assert(rk_ite(tt==inf_weight,(uint64_t)inf_weight*speed<=ms,rk_ite(tt*speed<=ms,(tt+1)*speed>ms,0)),"travel time is length over speed, at most infinity"); }
	if(which!=2&&ow!=3){ unsigned cnt=0; for(unsigned i=0;i<g.forbidden_turn_from_arc.size();++i){ ++cnt; const Arc&x=r.arcs[order[g.forbidden_turn_from_arc[i]]],&y=r.arcs[order[g.forbidden_turn_to_arc[i]]]; rk_assert(r.rways[x.way]==7&&r.rways[y.way]==4&&r.routing[x.head]==b&&r.routing[y.tail]==b,"forbidden turn of the restriction"); } rk_assert(cnt<=1,"one forbidden turn"); if(cnt) rk_reach("forbidden"); }
	rk_reach("end");
}

RK_ENTRY(simple_bicycle){
	D.orderedFlag=-1; D.waysFirst=false; make_nodes(5); uint64_t a=NID[0],b=NID[1],c=NID[2],d=NID[3],e=NID[4]; bool all=rk_choose("all",0,0,1), ord=rk_choose("ordered",0,0,1);
	static const char*CW[]={"track","lane","opposite"}; unsigned cw=rk_choose("cycleway",0,0,2);
	D.ways.push_back({70,{a,b,c},KV{{"highway","primary"}}}); D.ways.push_back({9,{c,d,e},KV{{"highway","secondary"},{"cycleway",CW[cw]},{"oneway","yes"}}}); D.ways.push_back({4,{b,d},KV{{"highway","motorway"}}}); D.ways.push_back({5,{e,a},KV{{"highway","cycleway"},{"oneway","-1"}}}); D.ways.push_back({6,{b,e},KV{{"highway","steps"}}});
	Ref r; reference_ids(r,all,[](const Way&w){ return w.id!=4; },[](uint64_t){ return false; }); reference_arcs(r,[&](const Way&w){ return w.id==9?(cw==2?0u:1u):w.id==5?2u:0u; });
	SimpleOSMBicycleRoutingGraph g=simple_load_osm_bicycle_routing_graph_from_pbf("x",nullptr,all,ord); rk_assert(D.orderedFlag==(int)ord,"the ordered flag reaches the reader");
	unsigned n=r.routing.size(),m=r.arcs.size(); rk_assert(g.head.size()==m&&g.geo_distance.size()==m&&g.arc_comfort_level.size()==m&&g.latitude.size()==n&&g.longitude.size()==n&&csr(g.first_out,n,g.head),"arcs of the bicycle graph");
	std::vector<bool> done(m,false); for(unsigned t=0;t<n;++t) for(unsigned x=g.first_out[t];x<g.first_out[t+1];++x){ unsigned f=~0u; for(unsigned j=0;j<m&&f==~0u;++j){ uint64_t w=r.rways[r.arcs[j].way]; unsigned comfort= w==70?0: w==9?(cw==0?3:2): w==5?4:1; if(!done[j]&&r.arcs[j].tail==t&&r.arcs[j].head==g.head[x]&&near(g.geo_distance[x],r.arcs[j].dist)&&g.arc_comfort_level[x]==comfort) f=j; } rk_assert(f!=~0u,"arc of the bicycle graph with its comfort level"); done[f]=true; }
	SimpleOSMPedestrianRoutingGraph p=simple_load_osm_pedestrian_routing_graph_from_pbf("x",nullptr,all,ord); rk_assert(D.orderedFlag==(int)ord,"the ordered flag reaches the reader"); Ref q; reference_ids(q,all,[](const Way&w){ return w.id!=4&&w.id!=70; },[](uint64_t){ return false; }); reference_arcs(q,[](const Way&){ return 0u; });
	n=q.routing.size(),m=q.arcs.size(); rk_assert(p.head.size()==m&&p.geo_distance.size()==m&&p.latitude.size()==n&&p.longitude.size()==n&&csr(p.first_out,n,p.head),"arcs of the pedestrian graph"); done.assign(m,false);
	for(unsigned t=0;t<n;++t){ unsigned k=nodeIndex(q.routing[t]); rk_assert(p.latitude[t]==lat(k)&&p.longitude[t]==lon(k),"position of a routing node"); for(unsigned x=p.first_out[t];x<p.first_out[t+1];++x){ unsigned f=~0u; for(unsigned j=0;j<m&&f==~0u;++j) if(!done[j]&&q.arcs[j].tail==t&&q.arcs[j].head==p.head[x]&&near(p.geo_distance[x],q.arcs[j].dist)) f=j; rk_assert(f!=~0u,"arc of the pedestrian graph"); done[f]=true; } }
	rk_reach("end");
}
