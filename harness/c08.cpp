// C08: contraction hierarchies survive callbacks, streams and files; damaged headers and cut files are rejected.
#include "graph.h"
#include <routingkit/contraction_hierarchy.h>
#include <routingkit/vector_io.h>
#include <string.h>
#ifndef TLO
#define TLO 2
#define THI 4
#endif
using namespace RoutingKit;
typedef ContractionHierarchy CH; typedef ContractionHierarchyQuery Q;
#ifdef RK_SYMBOLIC
std::vector<RkFile> rk_files;
#endif
typedef std::vector<char> B;
static void put(const char*n, const B&d){ std::ofstream o(n, std::ios::binary); if(!d.empty()) o.write(d.data(), d.size()); }
static B get(const char*n){ std::ifstream i(n, std::ios::binary); i.seekg(0,std::ios::end); B d((size_t)i.tellg()); i.seekg(0,std::ios::beg); if(!d.empty()) i.read(d.data(),d.size()); return d; }
struct Store{ B d; size_t at=0;
	std::function<void(const char*,unsigned long long)> out(){ return [this](const char*p,unsigned long long n){ for(unsigned long long i=0;i<n;++i) d.push_back(p[i]); }; }
	std::function<void(char*,unsigned long long)> in(){ return [this](char*p,unsigned long long n){ if(n>d.size()-at) throw std::runtime_error("end"); if(n) memcpy(p,d.data()+at,n); at+=n; }; } };
static unsigned q;
static V arbv(unsigned n){ V v(n); for(auto&x:v){ x=(q<400)?rk_sym("v",q,0,~0u):q*2654435761u; ++q; } return v; }
static BitVector arbb(unsigned n){ BitVector b(n); for(unsigned i=0;i<(n+63)/64;++i){ uint64_t w=(i<2||i==(n-1)/64)?rk_sym64("b",q++,0,~0ull):(uint64_t)(i+1)*0x9E3779B97F4A7C15ull; unsigned left=n-i*64; if(left<64) w&=((uint64_t)1<<left)-1; b.data()[i]=w; } return b; }
static CH arbitrary(unsigned n, unsigned f, unsigned b){
	CH c; c.rank.resize(n); c.order.resize(n); for(unsigned i=0;i<n;++i){ c.order[i]=(i+1)%n; c.rank[(i+1)%n]=i; }
	CH::Side*s[2]={&c.forward,&c.backward}; unsigned k[2]={f,b};
	for(int i=0;i<2;++i){ s[i]->first_out=arbv(n+1); s[i]->head=arbv(k[i]); s[i]->weight=arbv(k[i]); s[i]->is_shortcut_an_original_arc=arbb(k[i]); s[i]->shortcut_first_arc=arbv(k[i]); s[i]->shortcut_second_arc=arbv(k[i]); }
	return c;
}
static void eqv(const V&a,const V&b,const char*l){ rk_assert(a.size()==b.size(),l); unsigned d=0; for(unsigned i=0;i<a.size();++i) d|=a[i]^b[i]; rk_assert(d==0,l); }
static void same(const CH&a,const CH&b){
	eqv(a.rank,b.rank,"rank is kept"); eqv(a.order,b.order,"order is kept");
	const CH::Side*x[2]={&a.forward,&a.backward},*y[2]={&b.forward,&b.backward};
	for(int i=0;i<2;++i){ eqv(x[i]->first_out,y[i]->first_out,"first_out is kept"); eqv(x[i]->head,y[i]->head,"head is kept"); eqv(x[i]->weight,y[i]->weight,"weight is kept"); eqv(x[i]->shortcut_first_arc,y[i]->shortcut_first_arc,"shortcut_first_arc is kept"); eqv(x[i]->shortcut_second_arc,y[i]->shortcut_second_arc,"shortcut_second_arc is kept");
		const BitVector&u=x[i]->is_shortcut_an_original_arc,&v=y[i]->is_shortcut_an_original_arc; rk_assert(u.size()==v.size(),"arc flags keep their size"); uint64_t d=0; for(unsigned k=0;k<(u.size()+63)/64;++k) d|=u.data()[k]^v.data()[k]; rk_assert(d==0,"arc flags are kept"); }
}
static void trip(const CH&c){
	unsigned way=rk_choose("way",0,0,4);
	if(way==0){ Store s; c.write(s.out()); CH r=CH::read(s.in()); same(c,r); rk_assert(s.at==s.d.size(),"everything written is read"); }
	else if(way==1){ Store s; c.write(s.out()); CH r=CH::read(s.in(),s.d.size()); same(c,r); rk_assert(s.at==s.d.size(),"everything written is read"); }
	else if(way==2){ { std::ofstream o("f",std::ios::binary); c.write((std::ostream&)o); } std::ifstream i("f",std::ios::binary); CH r=CH::read((std::istream&)i); same(c,r); rk_assert((size_t)i.tellg()==get("f").size(),"everything written is read"); }
	else if(way==3){ { std::ofstream o("f",std::ios::binary); c.write((std::ostream&)o); c.write((std::ostream&)o); } size_t z=get("f").size(); std::ifstream i("f",std::ios::binary); CH r=CH::read((std::istream&)i,z/2); same(c,r); CH r2=CH::read((std::istream&)i,z/2); same(c,r2); }
	else { put("f",B(3000,1)); c.save_file("f"); CH r=CH::load_file("f"); same(c,r); }
	rk_reach("end");
}
RK_ENTRY(arrays){ static const unsigned C[]={0,1,2,3}; unsigned n=rk_choose("n",0,0,2), f=C[rk_choose("f",0,0,3)], b=C[rk_choose("b",0,0,3)]; trip(arbitrary(n,f,b)); }
RK_ENTRY(wide){ static const unsigned C[]={0,64,511,512,513,1024,1025}; unsigned f=C[rk_choose("f",0,0,6)], b=C[rk_choose("b",0,0,6)]; trip(arbitrary(1,f,b)); }
RK_ENTRY(built){ // built hierarchies: queries agree
	G g=some_topo(7,TLO,THI); CH c=CH::build(g.n,g.tail,g.head,g.w); c.save_file("f"); CH r=CH::load_file("f"); same(c,r); Q a(c), b(r);
	for(unsigned s=0;s<g.n;++s) for(unsigned t=0;t<g.n;++t){ a.reset().add_source(s).add_target(t).run(); b.reset().add_source(s).add_target(t).run(); rk_assert(a.get_distance()==b.get_distance(),"a loaded hierarchy gives the same distances"); V p=a.get_arc_path(), p2=b.get_arc_path(); eqv(p,p2,"a loaded hierarchy gives the same paths"); }
	rk_reach("end");
}
static bool fails(const B&d, bool with_size, size_t size){
	Store s; s.d=d; bool threw=false; try{ if(with_size) CH::read(s.in(),size); else CH::read(s.in()); }catch(std::exception&){ threw=true; } return threw;
}
RK_ENTRY(magic){ // any other magic number is rejected
	unsigned n=rk_choose("n",0,0,2); CH c=arbitrary(n,1,2); Store s; c.write(s.out()); uint64_t m; memcpy(&m,s.d.data(),8); uint64_t k=rk_sym64("magic",0,0,~0ull); rk_assume(k!=m); memcpy(s.d.data(),&k,8);
	unsigned way=rk_choose("way",0,0,2); bool t; if(way<2) t=fails(s.d,way,s.d.size()); else { put("f",s.d); t=false; try{ CH::load_file("f"); }catch(std::exception&){ t=true; } }
	rk_assert(t,"a wrong magic number is rejected"); rk_reach("end");
}
RK_ENTRY(header){ // counts and announced size arbitrary: accepted iff they fit exactly
	CH c=arbitrary(1,1,0); Store s; c.write(s.out()); rk_assert(s.d.size()>=20,"a file has a header");
	uint32_t n=rk_sym("nodes",0,0,~0u), f=rk_sym("forward",0,0,~0u), b=rk_sym("backward",0,0,~0u);
	memcpy(s.d.data()+8,&n,4); memcpy(s.d.data()+12,&f,4); memcpy(s.d.data()+16,&b,4);
	uint64_t size=rk_choose("announced",0,0,1)?s.d.size():s.d.size()+rk_choose("more",0,0,1)*4-8;
	uint64_t want=24+4*((uint64_t)n+2*((uint64_t)n+1)+4*(uint64_t)f+4*(uint64_t)b)+64*(((uint64_t)f+511)/512)+64*(((uint64_t)b+511)/512);
	if(want!=size){ rk_assert(fails(s.d,true,size),"a file whose size does not match its header is rejected"); rk_reach("rejected"); }
	rk_reach("end");
}
RK_ENTRY(size){ // a correct hierarchy with a wrong announced size
	CH c=arbitrary(rk_choose("n",0,0,2),rk_choose("f",0,0,1),rk_choose("b",0,0,1)); Store s; c.write(s.out()); uint64_t size=rk_sym64("size",0,0,~0ull); bool t=fails(s.d,true,size); rk_assert(t==(size!=s.d.size()),"the announced size has to be the size written"); rk_reach("end");
}
RK_ENTRY(cut){ // truncated data is rejected wherever it is cut
	CH c=arbitrary(2,1,2); Store s; c.write(s.out()); size_t full=s.d.size(), k=rk_choose("cut",0,0,300); rk_assume(k<full); s.d.resize(k); unsigned way=rk_choose("way",0,0,2); bool t;
	if(way==0) t=fails(s.d,false,0); else if(way==1) t=fails(s.d,true,rk_choose("announced",0,0,1)?full:k); else { put("f",s.d); t=false; try{ CH::load_file("f"); }catch(std::exception&){ t=true; } }
	rk_assert(t,"a truncated file is rejected"); rk_reach("end");
}
