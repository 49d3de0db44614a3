// C30: OSM profiles. Tag values are arbitrary byte strings; the oracle is a table evaluated without branching.
#include "rk.h"
#include <routingkit/osm_profile.h>
#include <routingkit/constants.h>
#include <vector>
#include <string>
#include <string.h>
using namespace RoutingKit;
#ifndef VL
#define VL 20
#endif
#ifndef ML
#define ML 4
#endif
#ifndef MEMBERS
#define MEMBERS 3
#endif
static const unsigned CAP=32;
struct Tags{ // tags with keys in the order they were added
	std::vector<const char*> k,v; TagMap m;
	void add(const char*key,const char*val){ if(val){ k.push_back(key); v.push_back(val); } }
	TagMap&map(){ m.build(k.size(),[&](unsigned i){return k[i];},[&](unsigned i){return v[i];}); return m; }
};
static char*buffer(){ static char pool[16][CAP]; static unsigned n=0; char*b=pool[n++]; memset(b,0,CAP); return b; }
static const char*any(const char*name,unsigned len){ if(!rk_choose(name,1000,0,1)) return nullptr; char*b=buffer(); for(unsigned i=0;i<len;++i) b[i]=rk_sym8(name,i,0,255); return b; } // absent, or every string of up to len bytes
static bool eq(const char*v,const char*lit){ if(!v) return false; unsigned char d=0; for(unsigned i=0;;++i){ d|=(unsigned char)(v[i]^lit[i]); if(!lit[i]) break; } return d==0; }
static bool in(const char*v,const char*const*l){ bool r=false; for(;*l;++l) r=rk_ite(eq(v,*l),1,r); return r; }
#define IN(v,...) ([&]{ static const char*const l[]={__VA_ARGS__,nullptr}; return in(v,l); }())
static bool And(bool a,bool b){ return rk_ite(a,b,0); }
static bool Or(bool a,bool b){ return rk_ite(a,1,b); }
static bool Not(bool a){ return rk_ite(a,0,1); }
static std::function<void(const std::string&)> nolog;

RK_ENTRY(car_used){
	const char*junction=any("junction",2),*route=any("route",6),*ferry=any("ferry",4),*highway=any("highway",VL),*motorcar=any("motorcar",4),*motor_vehicle=any("motor_vehicle",3),*access=any("access",12),*oneway=any("oneway",12),*maxspeed=any("maxspeed",2);
	Tags t; t.add("junction",junction); t.add("route",route); t.add("ferry",ferry); t.add("highway",highway); t.add("motorcar",motorcar); t.add("motor_vehicle",motor_vehicle); t.add("access",access); t.add("oneway",oneway); t.add("maxspeed",maxspeed);
	bool r=is_osm_way_used_by_cars(7,t.map(),nolog);
	bool ferryway=Or(Or(junction!=nullptr,eq(route,"ferry")),eq(ferry,"yes"));
	bool open=IN(highway,"motorway","trunk","primary","secondary","tertiary","unclassified","residential","service","motorway_link","trunk_link","primary_link","secondary_link","tertiary_link","motorway_junction","living_street","track","ferry");
	bool bad=IN(highway,"construction","path","footway","cycleway","bridleway","pedestrian","bus_guideway","raceway","escape","steps","proposed","conveying");
	bool forbidden=Or(Or(eq(motorcar,"no"),eq(motor_vehicle,"no")),And(access!=nullptr,Not(IN(access,"yes","permissive","delivery","designated","destination"))));
	bool other=And(And(Not(Or(open,bad)),Not(eq(highway,"bicycle_road"))),And(Not(IN(oneway,"reversible","alternating")),maxspeed!=nullptr));
	bool e=Or(ferryway,And(highway!=nullptr,And(Not(forbidden),Or(open,Or(And(eq(highway,"bicycle_road"),eq(motorcar,"yes")),other)))));
	rk_assert(r==e,"use of a way by cars"); rk_reach("end");
}
RK_ENTRY(bicycle_used){
	const char*junction=any("junction",2),*route=any("route",6),*ferry=any("ferry",6),*highway=any("highway",VL),*access=any("access",12),*bicycle=any("bicycle",13),*c=any("cycleway",2),*cl=any("left",1),*cr=any("right",1),*cb=any("both",1);
	Tags t; t.add("cycleway:both",cb); t.add("cycleway:left",cl); t.add("cycleway:right",cr); t.add("cycleway",c); t.add("bicycle",bicycle); t.add("access",access); t.add("highway",highway); t.add("ferry",ferry); t.add("route",route); t.add("junction",junction);
	bool r=is_osm_way_used_by_bicycles(7,t.map(),nolog);
	bool first=Or(Or(junction!=nullptr,eq(route,"ferry")),eq(ferry,"ferry"));
	bool closed=Or(Or(eq(highway,"proposed"),And(access!=nullptr,Not(IN(access,"yes","permissive","delivery","designated","destination","agricultural","forestry","public")))),IN(bicycle,"no","use_sidepath"));
	bool road=IN(highway,"secondary","tertiary","unclassified","residential","service","secondary_link","tertiary_link","living_street","track","bicycle_road","primary","primary_link","path","footway","cycleway","bridleway","pedestrian","crossing","escape","steps","ferry");
	bool e=Or(first,And(highway!=nullptr,And(Not(closed),Or(road,c!=nullptr||cl!=nullptr||cr!=nullptr||cb!=nullptr))));
	rk_assert(r==e,"use of a way by bicycles"); rk_reach("end");
}
RK_ENTRY(pedestrian_used){
	const char*junction=any("junction",2),*route=any("route",6),*ferry=any("ferry",6),*highway=any("highway",VL),*access=any("access",12),*pt=any("public_transport",13),*railway=any("railway",16),*crossing=any("crossing",3);
	Tags t; t.add("highway",highway); t.add("junction",junction); t.add("route",route); t.add("ferry",ferry); t.add("access",access); t.add("public_transport",pt); t.add("railway",railway); t.add("crossing",crossing);
	bool r=is_osm_way_used_by_pedestrians(7,t.map(),nolog);
	bool first=Or(Or(junction!=nullptr,eq(route,"ferry")),Or(eq(ferry,"ferry"),Or(IN(pt,"stop_position","platform","stop_area","station"),IN(railway,"halt","platform","subway_entrance","station","tram_stop"))));
	bool closed=Or(eq(crossing,"no"),And(access!=nullptr,Not(IN(access,"yes","permissive","delivery","designated","destination","agricultural","forestry","public"))));
	bool road=IN(highway,"secondary","tertiary","unclassified","residential","service","secondary_link","tertiary_link","living_street","track","bicycle_road","path","footway","cycleway","bridleway","pedestrian","escape","steps","crossing","escalator","elevator","platform","ferry");
	bool e=Or(first,And(highway!=nullptr,And(Not(closed),road)));
	rk_assert(r==e,"use of a way by pedestrians"); rk_reach("end");
}
static unsigned cat(OSMWayDirectionCategory c){ switch(c){ case OSMWayDirectionCategory::open_in_both: return 0; case OSMWayDirectionCategory::only_open_forwards: return 1; case OSMWayDirectionCategory::only_open_backwards: return 2; case OSMWayDirectionCategory::closed: return 3; } return 4; }
RK_ENTRY(car_direction){
	const char*oneway=any("oneway",12),*junction=any("junction",11),*highway=any("highway",14); Tags t; t.add("oneway",oneway); t.add("junction",junction); t.add("highway",highway);
	unsigned r=cat(get_osm_car_direction_category(7,t.map(),nolog));
	unsigned e; if(oneway) e=rk_ite(IN(oneway,"-1","reverse","backward"),2,rk_ite(IN(oneway,"yes","true","1"),1,rk_ite(IN(oneway,"no","false","0"),0,3)));
	else e=rk_ite(Or(eq(junction,"roundabout"),IN(highway,"motorway","motorway_link")),1,0);
	rk_assert(r==e,"directions open for cars"); rk_reach("end");
}
RK_ENTRY(bicycle_direction){
	const char*ob=any("oneway:bicycle",11),*oneway=any("oneway",12),*c=any("cycleway",22),*cb=any("both",1),*cl=any("left",1),*cr=any("right",1);
	Tags t; t.add("oneway",oneway); t.add("oneway:bicycle",ob); t.add("cycleway",c); t.add("cycleway:both",cb); t.add("cycleway:left",cl); t.add("cycleway:right",cr);
	unsigned r=cat(get_osm_bicycle_direction_category(7,t.map(),nolog)); unsigned e;
	if(ob) e=rk_ite(IN(ob,"-1","opposite"),2,rk_ite(IN(ob,"1","yes","true","no_planned"),1,rk_ite(IN(ob,"0","no","false","tolerated","permissive"),0,3)));
	else if(!oneway) e=0;
	else e=rk_ite(Or(IN(oneway,"no","false","0"),Or(IN(c,"opposite","opposite_track","opposite_lane","opposite_share_busway"),cb!=nullptr||(cl!=nullptr&&cr!=nullptr))),0,rk_ite(IN(oneway,"-1","reverse","backward"),2,rk_ite(IN(oneway,"yes","true","1"),1,3)));
	rk_assert(r==e,"directions open for bicycles"); rk_reach("end");
}
RK_ENTRY(comfort){
	const char*highway=any("highway",13),*c=any("cycleway",6),*b=any("bicycle",9); Tags t; t.add("highway",highway); t.add("cycleway",c); t.add("bicycle",b);
	unsigned r=get_osm_way_bicycle_comfort_level(7,t.map(),nolog);
	unsigned e=rk_ite(eq(highway,"cycleway"),4,c? rk_ite(eq(c,"track"),3,2):rk_ite(Or(IN(highway,"primary","primary_link"),eq(b,"dismount")),0,1));
	rk_assert(r==e,"bicycle comfort level"); rk_assert(get_min_bicycle_comfort_level()<=r&&r<=get_max_bicycle_comfort_level(),"comfort level within its range"); rk_reach("end");
}
RK_ENTRY(name){
	static const char*V[]={nullptr,"","A 5","Main Street","a name that is longer than any small string buffer"}; const char*n=V[rk_choose("name",0,0,4)],*f=V[rk_choose("ref",0,0,4)]; Tags t; t.add("ref",f); t.add("name",n);
	std::string e; if(n) e+=n; if(n&&f) e+=";"; if(f) e+=f; rk_assert(get_osm_way_name(7,t.map(),nolog)==e,"way name"); rk_reach("end");
}
static unsigned road_speed(const char*highway,bool junction,const char*route,bool ferry){
	unsigned e=rk_ite(junction,20,rk_ite(Or(eq(route,"ferry"),ferry),5,50));
	static const struct{ const char*n; unsigned s; } T[]={{"motorway",90},{"motorway_link",45},{"trunk",85},{"trunk_link",40},{"primary",65},{"primary_link",30},{"secondary",55},{"secondary_link",25},{"tertiary",40},{"tertiary_link",20},{"unclassified",25},{"residential",25},{"living_street",10},{"service",8},{"track",8},{"ferry",5}};
	for(auto&x:T) e=rk_ite(eq(highway,x.n),x.s,e); return e;
}
RK_ENTRY(speed_class){ // no usable speed limit
	static const char*M[]={nullptr,"unposted","signals","variable","","x","; ","signals;fast"}; const char*maxspeed=M[rk_choose("maxspeed",0,0,7)];
	const char*highway=any("highway",16),*junction=any("junction",1),*route=any("route",6),*ferry=any("ferry",1); Tags t; t.add("maxspeed",maxspeed); t.add("highway",highway); t.add("junction",junction); t.add("route",route); t.add("ferry",ferry);
	unsigned r=get_osm_way_speed(7,t.map(),nolog); rk_assert(r==road_speed(highway,junction!=nullptr,route,ferry!=nullptr),"speed of the road class"); rk_reach("end");
}
static const struct{ const char*n; unsigned s; } SPECIAL[]={{"signals",~0u},{"variable",~0u},{"none",130},{"unlimited",130},{"walk",5},{"foot",5},{"gb:walk",5},{"walking_pace",5},{"schritt",5},{"xx:urban",40},{"urban",40},{"de:living_street",10},{"living_street",10},{"de:rural",100},{"at:rural",100},{"ro:rural",100},{"rural",100},{"ru:rural",90},{"ua:rural",90},{"ru:motorway",110},{"ch:motorway",120},{"at:motorway",130},{"ro:motorway",130},{"de:motorway",130},{"national",100},{"ro:trunk",100},{"dk:rural",80},{"ch:rural",80},{"fr:rural",80},{"it:rural",90},{"hu:rural",90},{"de:zone:30",30},{"de:zone30",30},{"at:zone30",30},{"something",~0u},{"de:urbane",~0u},{"e:urban",~0u},{"-5",~0u}};
static const unsigned SN=sizeof(SPECIAL)/sizeof(SPECIAL[0]);
struct Text{ char b[2200]; unsigned n; Text():n(0){} void c(char x){ b[n++]=x; b[n]=0; } void s(const char*x){ while(*x) c(*x++); } };
// one element of the value; returns the speed, ~0u for none
static unsigned element(Text&x,unsigned i,unsigned maxdigits,bool words){
	unsigned kind=rk_choose("kind",i,0,words?1:0);
	if(kind==1){ unsigned w=rk_choose("word",i,0,SN-1); unsigned up=rk_choose("upper",i,0,1); for(const char*p=SPECIAL[w].n;*p;++p) x.c(up&&*p>='a'&&*p<='z'?*p-'a'+'A':*p); return SPECIAL[w].s; }
	unsigned d=rk_choose("digits",i,1,maxdigits), v=0; for(unsigned j=0;j<d;++j){ unsigned q=rk_sym8("digit",10*i+j,0,9); x.c('0'+q); v=v*10+q; }
	static const char*U[]={"","km/h","kmh","kph","mph","knots","mpg"," KM/H","  Mph"," Knots"," "}; unsigned u=rk_choose("unit",i,0,10); x.s(U[u]);
	if(u==4||u==8) return v*1609/1000; if(u==5||u==9) return v*1852/1000; return v;
}
RK_ENTRY(speed_value){
	Text x; unsigned n=rk_choose("elements",0,1,2), best=~0u; 
	unsigned lead=rk_choose("lead",0,0,1); if(lead) x.c(' ');
	for(unsigned i=0;i<n;++i){ if(i) x.s(rk_choose("separator",i,0,1)?"; ":";"); best=rk_min(best,element(x,i,n==1?ML:1+(i==0),i==0||rk_choose("word2",i,0,1))); }
	Tags t; t.add("highway","track"); t.add("maxspeed",x.b); unsigned r=get_osm_way_speed(7,t.map(),nolog);
	rk_assert(r==rk_ite(best==~0u,8,rk_ite(best==0,1,best)),"smallest parsable speed limit in its unit"); rk_assert(r!=0,"speed is not zero"); rk_reach("end");
}
RK_ENTRY(speed_bytes){ // arbitrary bytes: numbers with garbage, no word fits into ML bytes; only the shape of the result is stated
	const char*m=any("maxspeed",ML); if(!m) return; Tags t; t.add("maxspeed",m); t.add("highway","track"); unsigned r=get_osm_way_speed(7,t.map(),nolog);
	// reference: split at ';', skip leading spaces, leading number
	unsigned best=~0u; unsigned i=0; for(;;){ while(m[i]==' ') ++i; if('0'<=m[i]&&m[i]<='9'){ unsigned v=0; while('0'<=m[i]&&m[i]<='9') v=v*10+(m[i++]-'0'); while(m[i]==' ') ++i; unsigned k=i; char u[4]={0,0,0,0}; for(unsigned j=0;j<4&&m[k]&&m[k]!=';';++j,++k) u[j]= 'A'<=m[k]&&m[k]<='Z'?m[k]-'A'+'a':m[k]; if(u[0]=='m'&&u[1]=='p'&&u[2]=='h'&&u[3]==0) v=v*1609/1000; if(v<best) best=v; } else { char w[6]={0,0,0,0,0,0}; unsigned k=i; for(unsigned j=0;j<6&&m[k]&&m[k]!=';';++j,++k) w[j]='A'<=m[k]&&m[k]<='Z'?m[k]-'A'+'a':m[k]; static const char*W[]={"none","walk","foot","urban","rural"}; static const unsigned V[]={130,5,5,40,100}; for(unsigned q=0;q<5;++q){ bool same=true; for(unsigned j=0;j<6;++j){ same= same&&w[j]==W[q][j]; if(!W[q][j]) break; } if(same){ unsigned v=V[q]; if(v<best) best=v; } } }
		while(m[i]&&m[i]!=';') ++i; if(!m[i]) break; ++i; }
	rk_assert(r==rk_ite(best==~0u,8,rk_ite(best==0,1,best)),"speed of an arbitrary short value"); rk_reach("end");
}
RK_ENTRY(speed_long){ // values around and beyond the size of the internal buffer
	static const unsigned L[]={10,100,1021,1022,1023,1024,1025,1026,2100}; unsigned n=L[rk_choose("len",0,0,8)]; Text x; unsigned what=rk_choose("what",0,0,3);
	for(unsigned i=0;i<n;++i) x.c(what==0?'7':what==1?' ':what==2?';':(i%3==2?';':'9')); Tags t; t.add("maxspeed",x.b); unsigned r=get_osm_way_speed(7,t.map(),nolog); rk_assert(r!=0,"speed is not zero");
	if(what==1||what==2) rk_assert(r==50,"no speed in the value"); if(what==3) rk_assert(r==99||r==9,"smallest speed"); rk_reach("end");
}
RK_ENTRY(logged){ // answers do not depend on logging
	static const char*O[]={nullptr,"yes","-1","no","reversible","what","",}; static const char*M[]={nullptr,"50","0","signals","foo","30 leagues","0;x"}; static const char*Hh[]={nullptr,"primary","foo"}; static const char*J[]={nullptr,"roundabout"};
	Tags t; const char*o=O[rk_choose("oneway",0,0,6)],*m=M[rk_choose("maxspeed",0,0,6)],*h=Hh[rk_choose("highway",0,0,2)],*j=J[rk_choose("junction",0,0,1)]; t.add("oneway",o); t.add("oneway:bicycle",rk_choose("ob",0,0,1)?o:nullptr); t.add("maxspeed",m); t.add("highway",h); t.add("junction",j); t.map();
	unsigned count=0; std::function<void(const std::string&)> log=[&](const std::string&s){ ++count; rk_assert(s.size()>0,"message has text"); };
	rk_assert(get_osm_way_speed(7,t.m,nolog)==get_osm_way_speed(7,t.m,log)&&cat(get_osm_car_direction_category(7,t.m,nolog))==cat(get_osm_car_direction_category(7,t.m,log))&&cat(get_osm_bicycle_direction_category(7,t.m,nolog))==cat(get_osm_bicycle_direction_category(7,t.m,log)),"logging does not change answers");
	rk_assert(is_osm_way_used_by_cars(7,t.m,nolog)==is_osm_way_used_by_cars(7,t.m,log)&&is_osm_way_used_by_bicycles(7,t.m,nolog)==is_osm_way_used_by_bicycles(7,t.m,log)&&is_osm_way_used_by_pedestrians(7,t.m,nolog)==is_osm_way_used_by_pedestrians(7,t.m,log),"logging does not change answers"); rk_reach("end");
}
// ---------------------------------------------------------------- turn restrictions
static OSMIDType ty(unsigned i){ return i==0?OSMIDType::node:i==1?OSMIDType::way:OSMIDType::relation; }
static void decode(const std::vector<OSMRelationMember>&m,Tags&t,std::vector<OSMTurnRestriction>&out,bool log){ decode_osm_car_turn_restrictions(99,m,t.map(),[&](OSMTurnRestriction r){ out.push_back(r); },log?std::function<void(const std::string&)>([](const std::string&){}):nolog); }
RK_ENTRY(restriction_value){
	const char*r=any("restriction",17); Tags t; t.add("restriction",r); std::vector<OSMRelationMember> m; m.push_back({OSMIDType::way,11,"from"}); m.push_back({OSMIDType::node,12,"via"}); m.push_back({OSMIDType::way,13,"to"});
	std::vector<OSMTurnRestriction> o; decode(m,t,o,false);
	static const char*D[]={"left_turn","right_turn","straight_on","u_turn"}; static const OSMTurnDirection E[]={OSMTurnDirection::left_turn,OSMTurnDirection::right_turn,OSMTurnDirection::straight_on,OSMTurnDirection::u_turn};
	unsigned known=0; for(unsigned i=0;i<4;++i) for(unsigned k=0;k<2;++k){ std::string s=std::string(k?"only_":"no_")+D[i]; bool is=eq(r,s.c_str()); known=rk_ite(is,1,known); if(o.size()==1) rk_assert(Or(Not(is),o[0].direction==E[i]&&o[0].category==(k?OSMTurnRestrictionCategory::mandatory:OSMTurnRestrictionCategory::prohibitive)),"kind and direction of the restriction"); }
	rk_assert(o.size()<=1&&(o.size()==1)==(known!=0),"known restrictions and no others are reported"); if(o.size()==1) rk_assert(o[0].osm_relation_id==99&&o[0].from_way==11&&o[0].via_node==12&&o[0].to_way==13,"members of the restriction"); rk_reach("end");
}
RK_ENTRY(restriction_members){
	static const char*R[]={"via","from","to","location_hint","other",""}; static const char*K[]={"no_left_turn","only_straight_on"}; unsigned k=rk_choose("kind",0,0,1); Tags t; t.add("restriction",K[k]);
	unsigned n=rk_choose("members",0,0,MEMBERS); std::vector<OSMRelationMember> m; std::vector<unsigned> role; for(unsigned i=0;i<n;++i){ unsigned r=rk_choose("role",i,0,n<=3?5:2); role.push_back(r); m.push_back({ty(rk_choose("type",i,0,n<=3?2:1)),rk_sym64("id",i,0,~0ull),R[r]}); }
	std::vector<OSMTurnRestriction> o; decode(m,t,o,false);
	unsigned vias=0,via=~0u; std::vector<unsigned> f,g; for(unsigned i=0;i<n;++i){ if(role[i]==0){ ++vias; via=i; } if(role[i]==1&&m[i].type==OSMIDType::way) f.push_back(i); if(role[i]==2&&m[i].type==OSMIDType::way) g.push_back(i); }
	bool ok=vias<=1&&(vias==0||m[via].type==OSMIDType::node)&&!f.empty()&&!g.empty()&&(k==0||(f.size()==1&&g.size()==1));
	rk_assert(o.size()==(ok?f.size()*g.size():0),"one restriction per from/to pair, none if malformed");
	if(ok) for(unsigned i=0;i<f.size();++i) for(unsigned j=0;j<g.size();++j){ OSMTurnRestriction&x=o[i*g.size()+j]; rk_assert(x.osm_relation_id==99&&x.from_way==m[f[i]].id&&x.to_way==m[g[j]].id&&x.via_node==(vias?m[via].id:~0ull)&&x.category==(k?OSMTurnRestrictionCategory::mandatory:OSMTurnRestrictionCategory::prohibitive)&&x.direction==(k?OSMTurnDirection::straight_on:OSMTurnDirection::left_turn),"restriction of a from/to pair"); }
	if(n<=2){ std::vector<OSMTurnRestriction> p; decode(m,t,p,true); rk_assert(p.size()==o.size(),"logging does not change restrictions"); } rk_reach("end");
}
