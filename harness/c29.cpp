// C29: tag maps against a list of pairs.
#include "rk.h"
#include <routingkit/tag_map.h>
#include <vector>
#include <string>
#include <string.h>
using namespace RoutingKit;
typedef std::vector<std::pair<const char*,const char*>> L;
static bool same(const char*a,const char*b){ while(*a&&*a==*b){++a;++b;} return *a==*b; }
static const char*ref(const L&l,const char*k){ for(auto&x:l) if(same(x.first,k)) return x.second; return nullptr; }
static void fill(TagMap&m,const L&l){ m.build(l.size(),[&](unsigned i){return l[i].first;},[&](unsigned i){return l[i].second;}); }
static void content(const TagMap&m,const L&l){
	rk_assert(m.size()==l.size()&&m.empty()==l.empty(),"size is the number of tags");
	std::vector<bool> seen(l.size(),false); unsigned c=0;
	for(auto i=m.begin();i!=m.end();++i){ ++c; bool f=false; for(unsigned j=0;j<l.size();++j) if(!seen[j]&&l[j].first==i->key&&l[j].second==i->value){ seen[j]=true; f=true; break; } rk_assert(f,"iteration yields the pairs of the list"); }
	rk_assert(c==l.size(),"iteration yields every pair once");
}
// colliding and non-colliding keys (same first, middle and last character class), prefixes, empty, non-ASCII
static const char*K[]={"highway","hxgxwxy","","a","A","oneway","on","aha","aHa","axa","\xc3\xa4","\xff","name","name:en","h","maxspeed"};
static const unsigned KN=sizeof(K)/sizeof(K[0]);
static const char*Vv[]={"v0","v1","v2","v3"};
static L some(const char*name,unsigned n){ L l; for(unsigned i=0;i<n;++i) l.push_back({K[rk_choose(name,i,0,KN-1)],Vv[i]}); return l; }
RK_ENTRY(list){
	L l=some("key",rk_choose("n",0,0,CNT)); TagMap m; fill(m,l); content(m,l);
	for(unsigned i=0;i<KN;++i){ std::string copy(K[i]); rk_assert(m[copy.c_str()]==ref(l,K[i]),"lookup returns the value of the first occurrence or nothing"); }
	rk_assert(m["hxghway"]==nullptr&&m["highwaz"]==nullptr&&m["Aha"]==nullptr,"other strings are not found"); rk_reach("end");
}
RK_ENTRY(rebuild){
	TagMap m; L a=some("a",rk_choose("na",0,0,2)), b=some("b",rk_choose("nb",0,0,2)); fill(m,a); unsigned how=rk_choose("how",0,0,3);
	if(how==1){ m.clear(); content(m,L()); for(unsigned i=0;i<KN;++i) rk_assert(m[K[i]]==nullptr,"nothing is found after clear"); }
	if(how==2){ TagMap c(m); content(c,a); fill(m,L()); content(c,a); for(unsigned i=0;i<KN;++i) rk_assert(c[K[i]]==ref(a,K[i]),"copy is independent"); }
	if(how==3){ fill(m,L()); m.clear(); m.clear(); }
	fill(m,b); content(m,b); for(unsigned i=0;i<KN;++i) rk_assert(m[K[i]]==ref(b,K[i]),"no tag of the previous content is left"); rk_reach("end");
}
RK_ENTRY(chars){ // arbitrary characters
	char k[4],q[4]; memset(k,0,4); memset(q,0,4); unsigned n=rk_choose("len",0,1,3), at=rk_choose("at",0,0,2); rk_assume(at<n); static const char C[]={'e','z'};
	for(unsigned i=0;i<n;++i) k[i]=C[(n+i)%2]; k[at]=rk_sym8("k",0,1,255); for(unsigned i=0;i<n;++i) q[i]=k[i]; q[at]=rk_sym8("q",0,1,255); unsigned shorter=rk_choose("shorter",0,0,1); if(shorter) q[n-1]=0;
	L l; l.push_back({"zz","v"}); l.push_back({k,"w"}); TagMap m; fill(m,l);
	const char*r=m[q]; const char*e=same("zz",q)?l[0].second: same(k,q)?l[1].second:nullptr; rk_assert(r==e,"lookup compares whole strings"); if(r) rk_reach("found"); rk_reach("end");
}
RK_ENTRY(many){ // more tags than fit into 16 bit
	static char key[70000][4]; unsigned n=rk_choose("n",0,0,2); n= n==0?65535: n==1?65536:65540;
	for(unsigned i=0;i<n;++i){ key[i][0]='A'+i%50; key[i][1]='0'+(i/50)%70; key[i][2]='!'+(i/3500)%40; key[i][3]=0; }
	static const char*v[2]={"x","y"}; TagMap m; m.build(n,[&](unsigned i){return key[i];},[&](unsigned i){return v[i==n-1||i==5];});
	rk_assert(m.size()==n,"size is the number of tags"); rk_assert(m[key[n-1]]==v[1]&&m[key[5]]==v[1]&&m[key[0]]==v[0]&&m[key[n-2]]==v[0]&&m["qqq"]==nullptr,"lookup in a long list"); rk_reach("end");
}

RK_ENTRY(middle){ // 4..200 tags, an arbitrary one doubled
	static char key[210][6]; static const unsigned C[]={4,5,7,8,9,15,16,17,31,33,64,100,200}; unsigned n=C[rk_choose("n",0,0,12)];
	for(unsigned i=0;i<n;++i){ unsigned j=i; key[i][0]='a'+j%5; key[i][1]='a'+(j/5)%4; key[i][2]='a'+(j/20)%11; key[i][3]=i%3?'x':0; key[i][4]=0; }
	unsigned from=rk_choose("from",0,0,3)*(n-1)/3, to=rk_choose("to",0,0,3)*(n-1)/3; if(to!=from) memcpy(key[to],key[from],6);
	static char val[210][2]; L l; for(unsigned i=0;i<n;++i){ val[i][0]=(char)('0'+i%60); val[i][1]=0; l.push_back({key[i],val[i]}); }
	TagMap m; if(rk_choose("before",0,0,1)){ L b(l); b.resize(3); fill(m,b); } fill(m,l); content(m,l);
	for(unsigned i=0;i<n;++i) rk_assert(m[key[i]]==ref(l,key[i]),"lookup returns the value of the first occurrence or nothing"); rk_assert(!m["aaaq"]&&!m["q"],"other strings are not found"); L s(l); s.resize(2); fill(m,s); content(m,s); for(unsigned i=0;i<n;++i) rk_assert(m[key[i]]==ref(s,key[i]),"no tag of the previous content is left"); rk_reach("end");
}
