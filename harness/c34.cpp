// C34: vectors, strings, bit vectors and single values survive files, streams and callback based storage; unfit files are rejected.
#include "rk.h"
#include <routingkit/vector_io.h>
#include <routingkit/bit_vector.h>
#include <vector>
#include <string>
#include <string.h>
using namespace RoutingKit;
#ifdef RK_SYMBOLIC
std::vector<RkFile> rk_files;
#endif
static void put(const char*n, const std::vector<char>&d){ std::ofstream o(n, std::ios::binary); if(!d.empty()) o.write(d.data(), d.size()); }
static std::vector<char> get(const char*n){ std::ifstream i(n, std::ios::binary); i.seekg(0,std::ios::end); std::vector<char> d((size_t)i.tellg()); i.seekg(0,std::ios::beg); if(!d.empty()) i.read(d.data(),d.size()); return d; }
struct Pod{ unsigned a; unsigned char b, c; unsigned short d; };
static unsigned q;
template<class T> struct Mk{ static T mk(){ return (T)rk_sym64("v",q++,0,~0ull); } static bool eq(const T&a,const T&b){ return a==b; } };
template<> struct Mk<double>{ static double mk(){ uint64_t x=rk_sym64("v",q++,0,~0ull); double d; memcpy(&d,&x,8); return d; } static bool eq(const double&a,const double&b){ return memcmp(&a,&b,8)==0; } };
template<> struct Mk<Pod>{ static Pod mk(){ Pod p; p.a=rk_sym("v",q++,0,~0u); p.b=rk_sym8("v",q++,0,255); p.c=rk_sym8("v",q++,0,255); p.d=(unsigned short)rk_sym("v",q++,0,65535); return p; } static bool eq(const Pod&a,const Pod&b){ return a.a==b.a&&a.b==b.b&&a.c==b.c&&a.d==b.d; } };
template<class T> static bool same(const std::vector<T>&a, const std::vector<T>&b){ if(a.size()!=b.size()) return false; bool r=true; for(unsigned i=0;i<a.size();++i) r=r&Mk<T>::eq(a[i],b[i]); return r; }
template<class T> static std::vector<T> arb(unsigned n){ std::vector<T> v(n); for(unsigned i=0;i<n;++i) v[i]=Mk<T>::mk(); return v; }
// byte storage behind callbacks
struct Store{ std::vector<char> d; size_t at=0;
	std::function<void(const char*,unsigned long long)> out(){ return [this](const char*p,unsigned long long n){ for(unsigned long long i=0;i<n;++i) d.push_back(p[i]); }; }
	std::function<void(char*,unsigned long long)> in(){ return [this](char*p,unsigned long long n){ if(n>d.size()-at) throw std::runtime_error("end"); if(n) memcpy(p,d.data()+at,n); at+=n; }; } };
template<class T> static void trip(){
	unsigned n=rk_choose("n",0,0,VLEN); std::vector<T> v=arb<T>(n), w=arb<T>(rk_choose("m",0,0,1));
	save_vector("f",w); save_vector("f",v); // overwritten
	rk_assert(same(load_vector<T>("f"),v),"a saved vector is loaded unchanged");
	rk_assert(get("f").size()==n*sizeof(T),"a saved vector takes its elements' bytes");
	rk_assert(same(load_vector<T>("f"),v),"loading does not change the file");
	// a stream with several entries
	T x=Mk<T>::mk();
	open_file_for_saving("g",[&](std::ostream&o){ write_vector(o,v); write_value(o,x); write_vector(o,w); });
	open_file_for_loading("g",[&](std::istream&i,unsigned long long s){
		rk_assert(s==(v.size()+1+w.size())*sizeof(T),"the file size is reported");
		rk_assert(same(read_vector<T>(i,v.size()),v),"a vector is read back from a stream"); T y=read_value<T>(i); rk_assert(Mk<T>::eq(x,y),"a value is read back from a stream"); rk_assert(same(read_vector<T>(i,w.size()),w),"a second vector is read back from a stream");
		bool threw=false; try{ read_value<T>(i); }catch(std::exception&){ threw=true; } rk_assert(threw,"reading past the end of a stream throws"); });
	open_file_for_loading("g",[&](std::istream&i,unsigned long long){ bool threw=false; try{ read_vector<T>(i,v.size()+w.size()+2); }catch(std::exception&){ threw=true; } rk_assert(threw,"reading a vector past the end of a stream throws"); });
	Store s; write_vector(s.out(),v); write_value(s.out(),x); write_vector(s.out(),w);
	rk_assert(same(read_vector<T>(s.in(),v.size()),v),"a vector is read back through callbacks"); T y=read_value<T>(s.in()); rk_assert(Mk<T>::eq(x,y),"a value is read back through callbacks"); rk_assert(same(read_vector<T>(s.in(),w.size()),w),"a second vector is read back through callbacks"); rk_assert(s.at==s.d.size(),"everything written is consumed");
	save_value("h",x); T z=load_value<T>("h"); rk_assert(Mk<T>::eq(x,z),"a saved value is loaded unchanged");
	bool threw=false; try{ load_value<T>("f"); }catch(std::exception&){ threw=true; } rk_assert(threw==(n!=1),"a file that holds no or several values is rejected");
	rk_reach("end");
}
RK_ENTRY(pod){ switch(rk_choose("type",0,0,5)){ case 0: trip<unsigned>(); break; case 1: trip<char>(); break; case 2: trip<uint64_t>(); break; case 3: trip<double>(); break; case 4: trip<Pod>(); break; default: trip<unsigned short>(); } }
template<class T> static void length(){
	unsigned n=rk_choose("len",0,0,17); std::vector<char> d(n); for(auto&c:d) c=rk_sym8("b",q++,0,255); put("f",d);
	bool threw=false; std::vector<T> v; try{ v=load_vector<T>("f"); }catch(std::exception&){ threw=true; }
	rk_assert(threw==(n%sizeof(T)!=0),"a file is rejected iff its size is no multiple of the element size");
	if(!threw){ rk_assert(v.size()==n/sizeof(T),"the loaded vector has the file's length"); rk_assert(n==0||memcmp(v.data(),d.data(),n)==0,"the loaded vector has the file's bytes"); }
	rk_reach("end");
}
RK_ENTRY(length){ switch(rk_choose("type",0,0,3)){ case 0: length<unsigned>(); break; case 1: length<unsigned char>(); break; case 2: length<uint64_t>(); break; default: length<unsigned short>(); } }
RK_ENTRY(strings){
	unsigned n=rk_choose("n",0,0,3); std::vector<std::string> v(n);
	for(unsigned i=0;i<n;++i){ unsigned l=rk_choose("l",i,0,i==0?2:1); if(l==2) l=rk_choose("long",i,0,1)?20:2; for(unsigned j=0;j<l;++j) v[i].push_back((char)rk_sym8("c",q++,1,255)); }
	save_vector("f",std::vector<std::string>(rk_choose("old",0,0,1)*2,"previous")); save_vector("f",v); std::vector<std::string> w=load_vector<std::string>("f");
	rk_assert(w.size()==n,"as many strings are loaded as were saved");
	for(unsigned i=0;i<n;++i){ rk_assert(w[i].size()==v[i].size(),"a string keeps its length"); rk_assert(memcmp(w[i].data(),v[i].data(),v[i].size())==0,"a string keeps its characters"); }
	rk_reach("end");
}
static const unsigned SZ[]={0,1,7,8,63,64,65,127,511,512,513,1023,1024,1025,1500};
RK_ENTRY(bits){
	unsigned n=SZ[rk_choose("size",0,0,14)]; BitVector v(n);
	for(unsigned i=0;i<(n+63)/64;++i){ uint64_t w=rk_sym64("w",i,0,~0ull); unsigned left=n-i*64; if(left<64) w&=((uint64_t)1<<left)-1; v.data()[i]=w; }
	save_bit_vector("f",BitVector(rk_choose("old",0,0,1)*600)); save_bit_vector("f",v); BitVector u=load_bit_vector("f");
	rk_assert(u.size()==n,"a bit vector keeps its size");
	uint64_t d=0; for(unsigned i=0;i<(n+63)/64;++i) d|=u.data()[i]^v.data()[i]; rk_assert(d==0,"a bit vector keeps its bits"); rk_assert(u==v,"the loaded bit vector equals the saved one");
	Store s; write_bit_vector(s.out(),v); write_value(s.out(),n); BitVector x=read_bit_vector(s.in(),n); rk_assert(x.size()==n,"a bit vector keeps its size through callbacks"); d=0; for(unsigned i=0;i<(n+63)/64;++i) d|=x.data()[i]^v.data()[i]; rk_assert(d==0,"a bit vector keeps its bits through callbacks"); rk_assert(read_value<unsigned>(s.in())==n,"exactly the bit vector is consumed");
	rk_reach("end");
}
RK_ENTRY(bits_header){
	unsigned blocks=rk_choose("blocks",0,0,2), slack=rk_choose("slack",0,0,2); unsigned len=8+64*blocks; if(slack==1) len-=1; else if(slack==2) len+=3; if(rk_choose("short",0,0,1)) len=rk_choose("len",0,0,7);
	std::vector<char> d(len,0); uint64_t h=rk_sym64("header",0,0,~0ull); for(unsigned i=0;i<8&&i<len;++i) d[i]=(char)(h>>(8*i)); put("f",d);
	bool fits; { uint64_t need=h/512+(h%512!=0); fits=len>=8 && (len-8)%64==0 && need==(len-8)/64; }
	bool threw=false; uint64_t size=0; try{ BitVector v=load_bit_vector("f"); size=v.size(); }catch(std::exception&){ threw=true; }
	rk_assert(threw==!fits,"a bit vector file is rejected iff its header does not match its length");
	if(!threw){ rk_assert(size==h,"a bit vector has the size of its header"); rk_reach("ok"); } else rk_reach("rejected");
	rk_reach("end");
}
template<class F> static bool throws(const F&f){ try{ f(); }catch(std::exception&){ return true; } return false; }
RK_ENTRY(missing){
	unsigned k=rk_choose("op",0,0,9); const char*no=rk_choose("path",0,0,1)?"missing":"missing/f"; bool t=false;
	switch(k){
	case 0: t=throws([&]{ load_vector<unsigned>(no); }); break;
	case 1: t=throws([&]{ load_vector<std::string>(no); }); break;
	case 2: t=throws([&]{ load_bit_vector(no); }); break;
	case 3: t=throws([&]{ load_value<unsigned>(no); }); break;
	case 4: t=throws([&]{ open_file_for_loading(no,[](std::istream&,unsigned long long){}); }); break;
	case 5: t=throws([&]{ save_vector("missing/f",std::vector<unsigned>{1}); }); break;
	case 6: t=throws([&]{ save_vector("missing/f",std::vector<std::string>{"a"}); }); break;
	case 7: t=throws([&]{ save_bit_vector("missing/f",BitVector(5)); }); break;
	case 8: t=throws([&]{ save_value("missing/f",1u); }); break;
	default: t=throws([&]{ open_file_for_saving("missing/f",[](std::ostream&){}); }); }
	rk_assert(t,"a file that cannot be opened is reported"); rk_reach("end");
}

RK_ENTRY(long_vectors){ // long vectors, a few arbitrary elements
	static const unsigned N[]={16,255,256,1000,4096,4097,20000}; unsigned n=N[rk_choose("n",0,0,6)]; std::vector<unsigned> v(n); for(unsigned i=0;i<n;++i) v[i]= i<2||i+2>=n||i==n/2? rk_sym("v",i,0,~0u): i*2654435761u;
	save_vector("f",v); rk_assert(get("f").size()==n*4ull,"a saved vector takes its elements' bytes"); std::vector<unsigned> w=load_vector<unsigned>("f"); rk_assert(w.size()==n,"a saved vector keeps its length"); unsigned d=0; for(unsigned i=0;i<n;++i) d|=w[i]^v[i]; rk_assert(d==0,"a saved vector is loaded unchanged");
	std::vector<std::string> s; for(unsigned i=0;i<n&&i<1000;++i) s.push_back(std::string(i%37,(char)('a'+i%26))); s[n>9?9:0].push_back((char)rk_sym8("c",0,1,255)); s.push_back(std::string(5000,(char)-1)); save_vector("g",s); std::vector<std::string> t=load_vector<std::string>("g"); rk_assert(t.size()==s.size(),"as many strings are loaded as were saved");
	for(unsigned i=0;i<s.size();++i){ rk_assert(t[i].size()==s[i].size(),"a string keeps its length"); rk_assert(memcmp(t[i].data(),s[i].data(),s[i].size())==0,"a string keeps its characters"); }
	rk_reach("end");
}
