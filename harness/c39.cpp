// C39: the conversion programs keep graphs, coordinates and vectors intact and do not write anything for broken input.
#include "tool.h"
#include <limits>
using namespace RoutingKit;
extern "C"{ int rk_tool_convert_road_dimacs_graph(int,char**); int rk_tool_export_road_dimacs_graph(int,char**); int rk_tool_convert_road_dimacs_coordinates(int,char**); int rk_tool_encode_vector(int,char**); int rk_tool_decode_vector(int,char**); int rk_tool_randomly_permute_nodes(int,char**); }
#ifndef NN
#define NN 3
#endif
#ifndef MM
#define MM 3
#endif
struct Arc{ unsigned t,h,w; };
// reference: arcs by tail, then head, ties in file order
static void arrays(unsigned n,const std::vector<Arc>&a,V&fo,V&hd,V&w){ fo.assign(1,0); hd.clear(); w.clear(); for(unsigned t=0;t<n;++t){ for(unsigned h=0;h<n;++h) for(auto&x:a) if(x.t==t&&x.h==h){ hd.push_back(h); w.push_back(x.w); } fo.push_back((unsigned)hd.size()); } }
static Str digits(const char*nm,unsigned i,unsigned&v){ // a number with two arbitrary digits
	char a=(char)('0'+rk_sym8(nm,2*i,0,9)), b=(char)('0'+rk_sym8(nm,2*i+1,0,9)); static const char*const pre[]={"","7","42949672"}; unsigned k=rk_choose("pre",i,0,2); if(k==2) rk_assume(a<'9'||b<='5'); v=(k==0?0:k==1?700:4294967200u)+(unsigned)(a-'0')*10+(unsigned)(b-'0'); Str s(pre[k]); s.push_back(a); s.push_back(b); return s; }
static void gone(){ wipe("fo"); wipe("hd"); wipe("wt"); }
RK_ENTRY(import_graph){
	gone(); unsigned n=rk_choose("n",0,1,NN), m=rk_choose("m",0,0,MM), style=rk_choose("style",0,0,3); std::vector<Arc> a(m); Str f; if(style==1) f="c a comment\n\nc\n"; if(style==2) f="c p sp 9 9\n";
	f+= style==3? "p   sp\t"+num(n)+"  "+num(m)+" \n": "p sp "+num(n)+" "+num(m)+"\n";
	for(unsigned i=0;i<m;++i){ a[i].t=rk_choose("t",i,0,n-1); a[i].h=rk_choose("h",i,0,n-1); Str w; if(i==0) w=digits("w",i,a[i].w); else { a[i].w=rk_sym8("w",10+i,0,9); w.push_back((char)('0'+a[i].w)); }
		f+= style==3? " a\t"+num(a[i].t+1)+"  "+num(a[i].h+1)+" "+w+" ": "a "+num(a[i].t+1)+" "+num(a[i].h+1)+" "+w; if(i+1<m||style!=2) f+="\n"; if(style==1) f+="c a 1 1 5\n\n"; }
	put("in",f); run(rk_tool_convert_road_dimacs_graph,{"in","fo","hd","wt"}); V fo,hd,w; arrays(n,a,fo,hd,w);
	rk_assert(exists("fo")&&exists("hd")&&exists("wt"),"a well-formed file is converted"); rk_assert(vec("fo")==fo,"the index of the arcs"); rk_assert(vec("hd")==hd,"the arcs sorted by tail and head"); rk_assert(same(vec("wt"),w),"every arc with its weight"); rk_reach("end");
}
RK_ENTRY(broken_graph){ gone(); static const char*const bad[]={"","c only a comment\n","\n\n","a 1 2 3\n","p sp 2\n","p sp x 1\na 1 2 3\n","q sp 2 1\na 1 2 3\n","p st 2 1\na 1 2 3\n","p sp 2 1\n","p sp 2 1\na 1 2 3\na 1 2 3\n","p sp 2 1\na 1 2\n","p sp 2 1\nb 1 2 3\n","p sp 2 1\na 0 2 3\n","p sp 2 1\na 1 3 3\n","p sp 2 1\na 3 1 3\n","p sp 2 1\na 1 0 3\n","p sp 2 1\na 1 x 3\n","p sp 2 2\na 1 2 3\n","p sp 0 1\na 1 1 1\n","p sp 2 1\na 1 2 4294967296\n"};
	unsigned k=rk_choose("bad",0,0,sizeof(bad)/sizeof(bad[0])-1); put("in",bad[k]); run(rk_tool_convert_road_dimacs_graph,{"in","fo","hd","wt"}); rk_assert(!exists("fo")&&!exists("hd")&&!exists("wt"),"nothing is written for a broken file"); wipe("in"); run(rk_tool_convert_road_dimacs_graph,{"in","fo","hd","wt"}); rk_assert(!exists("fo"),"nothing is written for a missing file"); rk_reach("end"); }
RK_ENTRY(export_graph){ // exporting and importing gives the same graph
	wipe("gr"); unsigned n=rk_choose("n",0,1,NN), m=rk_choose("m",0,1,MM); std::vector<Arc> a(m); for(unsigned i=0;i<m;++i){ a[i].t=rk_choose("t",i,0,n-1); a[i].h=rk_choose("h",i,0,n-1); static const unsigned big[]={10,99,100,4294967295u}; a[i].w= i==0? rk_sym("w",i,0,9): i==1? big[rk_choose("w",i,0,3)]: 3; }
	V fo,hd,w; arrays(n,a,fo,hd,w); save_vector("fo",fo); save_vector("hd",hd); save_vector("wt",w); run(rk_tool_export_road_dimacs_graph,{"fo","hd","wt","gr"}); rk_assert(exists("gr"),"the graph is exported"); gone();
	run(rk_tool_convert_road_dimacs_graph,{"gr","fo","hd","wt"}); rk_assert(exists("fo")&&vec("fo")==fo&&vec("hd")==hd,"an exported graph is imported with the same arcs"); rk_assert(same(vec("wt"),w),"and the same weights"); rk_reach("end");
}
RK_ENTRY(bad_export){ wipe("gr"); V fo,hd,w; fo={0,1,2}; hd={1,0}; w={5,6}; switch(rk_choose("bad",0,0,4)){ case 0: fo[0]=1; break; case 1: fo[2]=1; break; case 2: hd[0]=2; break; case 3: w.pop_back(); break; case 4: w.push_back(1); break; } save_vector("fo",fo); save_vector("hd",hd); save_vector("wt",w); run(rk_tool_export_road_dimacs_graph,{"fo","hd","wt","gr"}); rk_assert(!exists("gr"),"an invalid graph is not exported"); rk_reach("end"); }
RK_ENTRY(coordinates){
	wipe("lat"); wipe("lon"); unsigned n=rk_choose("n",0,1,3), style=rk_choose("style",0,0,1), bad=rk_choose("bad",0,0,7); static const long long c[]={0,1,-1,-73530767,41085396,180000000,999999}; V node; std::vector<long long> x,y; V order; for(unsigned i=0;i<n;++i) order.push_back(i); for(unsigned i=0;i+1<n;++i) std::swap(order[i],order[rk_choose("o",i,i,n-1)]);
	Str f= style? "c x\n\np aux sp co "+num(n)+"\nc y\n": "p aux sp co "+num(n)+"\n"; std::vector<float> la(n),lo(n);
	for(unsigned i=0;i<n;++i){ unsigned v=order[i]; long long A=c[i==0?rk_choose("a",i,0,6):3], B=c[i==0?rk_choose("b",i,0,6):4]; lo[v]=(float)((double)A/1000000.0); la[v]=(float)((double)B/1000000.0); unsigned id=v+1; if(bad==1&&i==0) id=0; if(bad==2&&i==0) id=n+1; if(bad==3&&i==1) id=order[0]+1; if(bad==4&&i==n-1) break;
		f+="v "+num(id)+" "+(A<0?"-":"")+num(A<0?-A:A)+" "+(B<0?"-":"")+num(B<0?-B:B)+(bad==5?" 1":"")+"\n"; }
	if(bad==6) f+="v 1 2 3\n"; if(bad==7) f="v 1 1 1\n"; put("in",f); run(rk_tool_convert_road_dimacs_coordinates,{"in","lat","lon"}); bool ok=bad==0||(bad==3&&n==1);
	rk_assert(exists("lat")==ok&&exists("lon")==ok,"exactly well-formed files are converted"); if(ok) rk_assert(load_vector<float>("lat")==la&&load_vector<float>("lon")==lo,"every node has its coordinates"); rk_reach("end");
}
RK_ENTRY(no_coordinates){ wipe("lat"); wipe("lon"); static const char*const bad[]={"","c x\n","p aux sp co\n","p aux sp co 1 2\nv 1 1 1\n","p sp co 1\nv 1 1 1\n","p aux sp co 1\nw 1 1 1\n","p aux sp co 1\nv 1 1\n"}; put("in",bad[rk_choose("bad",0,0,6)]); run(rk_tool_convert_road_dimacs_coordinates,{"in","lat","lon"}); rk_assert(!exists("lat")&&!exists("lon"),"nothing is written for a broken file"); rk_reach("end"); }
static Str sdec(long long v){ return v<0? "-"+num(0ull-(unsigned long long)v): num((unsigned long long)v); }
template<class T> static Str dec(T v){ return std::numeric_limits<T>::is_signed? sdec((long long)v): num((unsigned long long)v); }
template<class T> static void numbers(const char*ty){
	unsigned n=rk_choose("n",0,0,3); std::vector<T> v(n); const T c[]={0,1,std::numeric_limits<T>::max(),std::numeric_limits<T>::min(),(T)(std::numeric_limits<T>::max()/2+1),10,99}; for(unsigned i=0;i<n;++i) v[i]=c[rk_choose("v",i,0,6)];
	wipe("out"); save_vector("in",v); run(rk_tool_decode_vector,{ty,"in"}); Str expect; for(T x:v) expect+=dec(x)+"\n"; rk_assert(tool_out==expect,"a decoded vector is one number per line"); tool_in=tool_out; run(rk_tool_encode_vector,{ty,"out"}); rk_assert(exists("out")&&load_vector<T>("out")==v,"encoding a decoded vector restores it");
	if(sizeof(T)<8){ wipe("out"); tool_in=rk_choose("hi",0,0,1)? sdec((long long)std::numeric_limits<T>::max()+1)+"\n": sdec((long long)std::numeric_limits<T>::min()-1)+"\n"; run(rk_tool_encode_vector,{ty,"out"}); rk_assert(!exists("out"),"numbers out of range are rejected"); }
}
RK_ENTRY(vectors){ switch(rk_choose("type",0,0,7)){ case 0: numbers<signed char>("int8"); break; case 1: numbers<unsigned char>("uint8"); break; case 2: numbers<short>("int16"); break; case 3: numbers<unsigned short>("uint16"); break; case 4: numbers<int>("int32"); break; case 5: numbers<unsigned>("uint32"); break; case 6: numbers<long long>("int64"); break; case 7: numbers<unsigned long long>("uint64"); break; } rk_reach("end"); }
#ifndef SLEN
#define SLEN 4
#endif
RK_ENTRY(strings){ unsigned n=rk_choose("n",0,0,2); std::vector<Str> v(n); for(unsigned i=0;i<n;++i){ unsigned l=rk_choose("l",i,0,i==0?SLEN:1); for(unsigned k=0;k<l;++k) v[i].push_back("\\n\na"[rk_choose("c",i*10+k,0,3)]); }
	wipe("out"); save_vector("in",v); run(rk_tool_decode_vector,{"string","in"}); tool_in=tool_out; run(rk_tool_encode_vector,{"string","out"}); rk_assert(exists("out")&&load_vector<Str>("out")==v,"encoding decoded strings restores them"); unsigned lines=0; for(char c:tool_in) lines+=c=='\n'; rk_assert(lines==n,"a decoded string is one line"); rk_reach("end"); }
RK_ENTRY(permute){ // the permuted graph is the input up to names of nodes
	unsigned n=rk_choose("n",0,1,NN), m=rk_choose("m",0,1,MM); std::vector<Arc> a(m); for(unsigned i=0;i<m;++i){ a[i].t=rk_choose("t",i,0,n-1); a[i].h=rk_choose("h",i,0,n-1); a[i].w=rk_sym("w",i,0,0xffffffffu); } V fo,hd,w; arrays(n,a,fo,hd,w); V id(m); for(unsigned i=0;i<m;++i) id[i]=i; // a second weight names the arcs
	save_vector("fo",fo); save_vector("hd",hd); save_vector("wt",w); save_vector("id",id); run(rk_tool_randomly_permute_nodes,{num(rk_choose("seed",0,1,4)),"fo","hd","wt","id"});
	V f2=vec("fo"),h2=vec("hd"),w2=vec("wt"),i2=vec("id"); rk_assert(f2.size()==n+1&&h2.size()==m&&w2.size()==m&&i2.size()==m,"sizes stay"); rk_assert(f2[0]==0&&f2[n]==m,"the index stays valid"); V to(n,~0u),tail(m),seen(m,0),used(n,0); for(unsigned x=0;x<n;++x){ rk_assert(f2[x]<=f2[x+1],"the index stays valid"); for(unsigned k=f2[x];k<f2[x+1]&&k<m;++k) tail[k]=x; }
	V t1; for(unsigned x=0;x<n;++x) for(unsigned k=fo[x];k<fo[x+1];++k) t1.push_back(x);
	for(unsigned k=0;k<m;++k){ rk_assert(i2[k]<m&&!seen[i2[k]],"every arc is kept once"); unsigned o=i2[k]; seen[o]=1; rk_assert(w2[k]==w[o],"every arc keeps its weights"); unsigned p[2]={t1[o],hd[o]}, q[2]={tail[k],h2[k]}; for(unsigned z=0;z<2;++z){ rk_assert(q[z]<n,"nodes stay in range"); if(to[p[z]]==~0u){ rk_assert(!used[q[z]],"different nodes stay different"); used[q[z]]=1; to[p[z]]=q[z]; } rk_assert(to[p[z]]==q[z],"nodes are renamed consistently"); } }
	rk_reach("end"); }
