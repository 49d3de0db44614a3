// C32: PBF files through the public readers. The file is an in-memory byte array behind open/read/lseek/close; zlib is replaced by a byte-wise transformation.
#include "rk.h"
#include <routingkit/osm_decoder.h>
#include <zlib.h>
#include <stdexcept>
#include <vector>
#include <string>
#include <cstring>
#include <cstdarg>
#include <sys/types.h>
#include <sys/stat.h>
#ifndef RK_SYMBOLIC
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#endif
using namespace RoutingKit;
#ifndef CNT
#define CNT 2
#endif
#ifndef IDLEN
#define IDLEN 3
#endif
#ifndef BYTES
#define BYTES 3
#endif
#ifndef PART
#define PART 0
#endif
#ifndef PARTS
#define PARTS 1
#endif
#ifndef KINDS
#define KINDS 3
#endif
typedef std::vector<unsigned char> B;
static B F; static unsigned FPOS, FCHUNK, FOPEN, FFAIL=~0u, FREADS;
static const int FD=4711;
static ssize_t file_read(void*p,size_t n){ if(FREADS++==FFAIL) return -1; size_t k=F.size()-FPOS; if(k>n) k=n; if(k>FCHUNK) k=FCHUNK; for(size_t i=0;i<k;++i) ((unsigned char*)p)[i]=F[FPOS+i]; FPOS+=k; return k; }
extern "C" {
#ifdef RK_SYMBOLIC
int open(const char*name,int,...){ if(strcmp(name,"x.pbf")) return -1; ++FOPEN; FPOS=0; return FD; }
ssize_t read(int fd,void*p,size_t n){ rk_assert(fd==FD,"reads from the opened file"); return file_read(p,n); }
off_t lseek(int fd,off_t o,int w){ rk_assert(fd==FD&&w==0,"seeks in the opened file"); FPOS=o; return o; }
int close(int){ return 0; }
char*strerror(int) throw() { return (char*)"error"; }
static int ERR; int*__errno_location() throw() { return &ERR; }
#else
int open(const char*name,int f,...){ if(!strcmp(name,"x.pbf")){ ++FOPEN; FPOS=0; return FD; } va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); return syscall(SYS_openat,AT_FDCWD,name,f,m); }
ssize_t read(int fd,void*p,size_t n){ return fd==FD? file_read(p,n):syscall(SYS_read,fd,p,n); }
off_t lseek(int fd,off_t o,int w) throw() { if(fd==FD){ FPOS=o; return o; } return syscall(SYS_lseek,fd,o,w); }
int close(int fd){ return fd==FD?0:syscall(SYS_close,fd); }
#endif
static unsigned ZMODE;
int inflateInit_(z_streamp z,const char*,int){ z->total_out=0; return ZMODE==1?Z_MEM_ERROR:Z_OK; }
int inflate(z_streamp z,int){ if(ZMODE==2) return Z_DATA_ERROR; unsigned n=z->avail_in; bool fits=n<=z->avail_out; if(!fits) n=z->avail_out; for(unsigned i=0;i<n;++i) z->next_out[i]=z->next_in[i]^0x55; z->next_in+=n; z->next_out+=n; z->avail_in-=n; z->avail_out-=n; z->total_out+=n; return fits?Z_STREAM_END:Z_BUF_ERROR; }
int inflateEnd(z_streamp){ return Z_OK; }
}
// ---------------------------------------------------------------- encoder
static void vint(B&b,uint64_t x){ while(x>=128){ b.push_back((x&127)|128); x>>=7; } b.push_back(x); }
static void sint(B&b,int64_t x){ vint(b,((uint64_t)x<<1)^(uint64_t)(x>>63)); }
static uint64_t symv(B&b,const char*n,unsigned i,unsigned len){ uint64_t v=0; for(unsigned k=0;k<len;++k){ unsigned char c=rk_sym8(n,i*10+k,0,k==9?1:127); b.push_back(k+1<len? c|128:c); v|=(uint64_t)c<<(7*k); } return v; }
static int64_t zz(uint64_t v){ return (int64_t)(v>>1)^-(int64_t)(v&1); }
static void app(B&b,const B&c){ b.insert(b.end(),c.begin(),c.end()); }
static void str(B&b,const char*s){ while(*s) b.push_back(*s++); }
static void field(B&b,unsigned id,const B&c){ vint(b,id*8+2); vint(b,c.size()); app(b,c); }
static void field(B&b,unsigned id,const char*s){ B c; str(c,s); field(b,id,c); }
static void num(B&b,unsigned id,uint64_t x){ vint(b,id*8); vint(b,x); }
static bool JUNK; // unknown fields of every wire type in every message
static void junk(B&b){ if(!JUNK) return; num(b,99,300); vint(b,98*8+1); for(int i=0;i<8;++i) b.push_back(i); vint(b,97*8+5); for(int i=0;i<4;++i) b.push_back(255); field(b,96,"junk"); }
static void frame(const char*type,const B&blob){ B h; junk(h); field(h,1,type); num(h,3,blob.size()); F.push_back(0); F.push_back(0); F.push_back(h.size()>>8); F.push_back(h.size()); app(F,h); app(F,blob); }
static B blob(const B&raw,bool zip){ B b; junk(b); if(!zip){ field(b,1,raw); num(b,2,raw.size()); } else { num(b,2,raw.size()); B z=raw; for(auto&c:z) c^=0x55; field(b,3,z); } return b; }
// ---------------------------------------------------------------- expected events
struct Mem{ unsigned type; uint64_t id; unsigned role; };
struct Ev{ unsigned kind; uint64_t id; double lat,lon; std::vector<uint64_t> refs; std::vector<Mem> mem; std::vector<std::pair<unsigned,unsigned>> tags; unsigned tab; };
static std::vector<Ev> E; static std::vector<std::vector<B>> TAB; static unsigned AT; static unsigned THROWAT=~0u;
struct Stop:std::exception{};
static void same(const char*p,const B&s,const char*l){ rk_assert(p!=nullptr,l); unsigned char d=0; for(unsigned i=0;i<s.size();++i) d|=(unsigned char)p[i]^s[i]; d|=(unsigned char)p[s.size()]; rk_assert(d==0,l); }
static const Ev&next(unsigned kind,const TagMap&t){ rk_assert(AT<E.size(),"no object is reported that is not in the file"); const Ev&e=E[AT]; rk_assert(e.kind==kind,"objects are reported in order"); if(AT==THROWAT) throw Stop(); ++AT;
	rk_assert(t.size()==e.tags.size(),"number of tags"); for(auto&x:e.tags){ const B&k=TAB[e.tab][x.first]; std::string key; for(auto c:k) key.push_back((char)c); same(t[key.c_str()],TAB[e.tab][x.second],"tags are those of the object"); } return e; }
static bool close(double a,double b){ return a-b<1e-10&&b-a<1e-10; }
static void on_node(uint64_t id,double lat,double lon,const TagMap&t){ const Ev&e=next(0,t); rk_assert(id==e.id,"id of a node"); rk_assert(close(lat,e.lat)&&close(lon,e.lon),"position of a node"); }
static void on_way(uint64_t id,const std::vector<uint64_t>&r,const TagMap&t){ const Ev&e=next(1,t); rk_assert(id==e.id,"id of a way"); rk_assert(r.size()==e.refs.size(),"number of nodes of a way"); uint64_t d=0; for(unsigned i=0;i<r.size();++i) d|=r[i]^e.refs[i]; rk_assert(d==0,"nodes of a way"); }
static void on_rel(uint64_t id,const std::vector<OSMRelationMember>&m,const TagMap&t){ const Ev&e=next(2,t); rk_assert(id==e.id,"id of a relation"); rk_assert(m.size()==e.mem.size(),"number of members"); for(unsigned i=0;i<m.size();++i){ rk_assert(m[i].id==e.mem[i].id,"id of a member"); rk_assert(m[i].type==(e.mem[i].type==0?OSMIDType::node:e.mem[i].type==1?OSMIDType::way:OSMIDType::relation),"type of a member"); same(m[i].role,TAB[e.tab][e.mem[i].role],"role of a member"); } }
static bool LOG;
// 0: completed, 1: exception
static int decode(unsigned mask=7,int ordered=0,bool flag=false){
	AT=0; std::function<void(uint64_t,double,double,const TagMap&)> n; std::function<void(uint64_t,const std::vector<uint64_t>&,const TagMap&)> w; std::function<void(uint64_t,const std::vector<OSMRelationMember>&,const TagMap&)> r; if(mask&1) n=on_node; if(mask&2) w=on_way; if(mask&4) r=on_rel;
	std::function<void(const std::string&)> lg; if(LOG) lg=[](const std::string&){};
	try{ if(ordered) ordered_read_osm_pbf("x.pbf",n,w,r,lg,flag); else unordered_read_osm_pbf("x.pbf",n,w,r,lg); }catch(Stop&){ return 2; }catch(std::exception&){ return 1; } return 0; }
static void ok(int r){ rk_assert(r==0,"a well-formed file is read without error"); rk_assert(AT==E.size(),"every object of the file is reported"); }
// ---------------------------------------------------------------- primitive blocks
struct Block{ std::vector<B> groups; B cur; int gran=-1; bool off=false; int64_t latoff=0,lonoff=0; unsigned tab; bool tableLast=false; };
static unsigned table(std::vector<const char*> s){ std::vector<B> t; for(auto x:s){ B b; str(b,x); t.push_back(b); } TAB.push_back(t); return TAB.size()-1; }
static B encode(const Block&k){ B b,t; for(auto&x:TAB[k.tab]) field(t,1,x); junk(b); if(!k.tableLast) field(b,1,t); for(auto&g:k.groups) field(b,2,g); if(k.gran>=0) num(b,17,k.gran); if(k.off){ num(b,19,k.latoff); num(b,20,k.lonoff); } if(k.tableLast) field(b,1,t); return b; }
static double pos(const Block&k,bool lat,int64_t x){ return 1e-9*((double)(lat?k.latoff:k.lonoff)*(k.off?1:0)+(double)x*(k.gran>=0?k.gran:100)); }
static const int64_t LAT[]={515000000,-123456789,1,900000000},LON[]={-1,80000000,1799999999,0};
static void tags(B&m,const std::vector<std::pair<unsigned,unsigned>>&t){ if(t.empty()) return; B k,v; for(auto&x:t){ vint(k,x.first); vint(v,x.second); } field(m,2,k); field(m,3,v); }
typedef std::vector<std::pair<unsigned,unsigned>> Tags;
static Tags choice(unsigned i){ switch(rk_choose("tags",i,0,3)){ case 0: return Tags(); case 1: return Tags{{1,2}}; case 2: return Tags{{3,3}}; default: return Tags{{2,1},{1,0},{4,3}}; } }
static unsigned names(){ return table({"","name","highway","x","oneway"}); }

RK_ENTRY(dense){
	Block k; k.tab=names(); unsigned n=rk_choose("n",0,0,CNT),kv=rk_choose("kv",0,0,2); switch(rk_choose("grid",0,0,3)){ case 0: break; case 1: k.gran=1000; break; case 2: k.off=true; k.latoff=-7000000000; k.lonoff=123456789; break; default: k.gran=1; k.off=true; k.latoff=1; k.lonoff=-5; }
	B ids,la,lo,ks,d; uint64_t id=0; int64_t pl=0,po=0; for(unsigned i=0;i<n;++i){ id+=zz(symv(ids,"id",i,i==0?IDLEN:2)); unsigned p=rk_choose("pos",i,0,1)*2+i%2; sint(la,LAT[p]-pl); sint(lo,LON[p]-po); pl=LAT[p]; po=LON[p]; Ev e; e.kind=0; e.id=id; e.lat=pos(k,true,pl); e.lon=pos(k,false,po); e.tab=k.tab; if(kv==2){ e.tags=choice(i); for(auto&t:e.tags){ vint(ks,t.first); vint(ks,t.second); } vint(ks,0); } E.push_back(e); }
	field(d,1,ids); B info; info.push_back(8); info.push_back(1); field(d,5,info); field(d,8,la); field(d,9,lo); if(kv) field(d,10,ks); B g; field(g,2,d); k.groups.push_back(g); k.tableLast=rk_choose("last",0,0,1);
	frame("OSMData",blob(encode(k),false)); FCHUNK=~0u; ok(decode()); rk_reach("end");
}
static void sparse(B&g,const Block&k,unsigned i){ B m; Ev e; e.kind=0; e.tab=k.tab; e.tags=choice(i); vint(m,8); e.id=zz(symv(m,"nid",i,IDLEN)); rk_assume(e.id!=~0ull); tags(m,e.tags); unsigned p=rk_choose("pos",i,0,1)*2+i%2; B x; field(m,4,x); vint(m,64); sint(m,LAT[p]); vint(m,72); sint(m,LON[p]); e.lat=pos(k,true,LAT[p]); e.lon=pos(k,false,LON[p]); field(g,1,m); E.push_back(e); }
static void way(B&g,const Block&k,unsigned i){ B m,r; Ev e; e.kind=1; e.tab=k.tab; e.tags=choice(i); vint(m,8); e.id=symv(m,"wid",i,IDLEN); rk_assume(e.id!=~0ull); tags(m,e.tags); unsigned n=rk_choose("refs",i,0,3); uint64_t id=0; for(unsigned j=0;j<n;++j){ id+=zz(symv(r,"ref",i*4+j,j==0?IDLEN:1+j%2)); e.refs.push_back(id); } if(n) field(m,8,r); field(g,3,m); E.push_back(e); }
static void relation(B&g,const Block&k,unsigned i){ B m,ro,id,ty; Ev e; e.kind=2; e.tab=k.tab; e.tags=choice(i); vint(m,8); e.id=symv(m,"rid",i,IDLEN); rk_assume(e.id!=~0ull); tags(m,e.tags); unsigned n=rk_choose("members",i,0,2); uint64_t x=0; for(unsigned j=0;j<n;++j){ Mem q; x+=zz(symv(id,"mid",i*4+j,j==0?IDLEN:2)); q.id=x; q.type=rk_choose("type",i*4+j,0,2); q.role=rk_choose("role",i*4+j,0,1)*4; vint(ty,q.type); vint(ro,q.role); e.mem.push_back(q); } if(n){ field(m,8,ro); field(m,9,id); field(m,10,ty); } field(g,4,m); E.push_back(e); }
RK_ENTRY(sparse){
	Block k; k.tab=names(); switch(rk_choose("grid",0,0,2)){ case 0: break; case 1: k.gran=1000; break; default: k.gran=1; k.off=true; k.latoff=-7000000000; k.lonoff=123456789; } unsigned n=rk_choose("n",0,0,CNT); for(unsigned i=0;i<n;++i){ B g; sparse(g,k,i); k.groups.push_back(g); } frame("OSMData",blob(encode(k),false)); FCHUNK=~0u; ok(decode()); rk_reach("end");
}
RK_ENTRY(ways){ Block k; k.tab=names(); unsigned n=rk_choose("n",0,0,CNT); B g; for(unsigned i=0;i<n;++i) way(g,k,i); k.groups.push_back(g); frame("OSMData",blob(encode(k),false)); FCHUNK=~0u; ok(decode()); rk_reach("end"); }
RK_ENTRY(relations){ Block k; k.tab=names(); unsigned n=rk_choose("n",0,0,CNT); B g; for(unsigned i=0;i<n;++i) relation(g,k,i); k.groups.push_back(g); frame("OSMData",blob(encode(k),false)); FCHUNK=~0u; ok(decode()); rk_reach("end"); }
RK_ENTRY(strings){ // arbitrary string contents
	Block k; k.tab=names(); static const unsigned L[]={0,1,2,3,127,128,200}; unsigned l=L[rk_choose("len",0,0,6)]; B s; for(unsigned i=0;i<l;++i) s.push_back(i<2||i+1==l? rk_sym8("char",i,1,255): 'a'+i%26); TAB[k.tab][3]=s; Ev e; e.kind=1; e.id=5; e.tab=k.tab; e.tags=Tags{{1,3},{2,4},{4,1}}; B m,g; num(m,1,5); tags(m,e.tags); field(g,3,m); E.push_back(e); k.groups.push_back(g); frame("OSMData",blob(encode(k),rk_choose("zip",0,0,1))); FCHUNK=~0u; ok(decode()); rk_reach("end");
}
// a fixed object
static void thing(Block&k,unsigned kind,uint64_t id){ bool bare=kind==4; if(bare) kind=0; Ev e; e.kind=kind; e.id=id; e.tab=k.tab; if(!bare) e.tags=Tags{{1,2}}; e.lat=pos(k,true,LAT[0]); e.lon=pos(k,false,LON[1]); B m,g; 
	if(kind==0){ B i,a,o,x; sint(i,id); sint(a,LAT[0]); sint(o,LON[1]); vint(x,1); vint(x,2); vint(x,0); junk(m); field(m,1,i); field(m,8,a); field(m,9,o); if(!bare) field(m,10,x); field(g,2,m); }
	else if(kind==1){ junk(m); num(m,1,id); tags(m,e.tags); B r; sint(r,40); sint(r,-3); e.refs={40,37}; field(m,8,r); junk(m); field(g,3,m); }
	else if(kind==2){ junk(m); num(m,1,id); tags(m,e.tags); B i,r,t; sint(i,7); sint(i,1); vint(r,4); vint(r,0); vint(t,1); vint(t,2); e.mem={{1,7,4},{2,8,0}}; field(m,8,r); field(m,9,i); field(m,10,t); field(g,4,m); }
	else { e.kind=0; num(m,1,id<<1); tags(m,e.tags); num(m,8,((uint64_t)LAT[0])<<1); num(m,9,((uint64_t)LON[1])<<1); field(g,1,m); }
	junk(g); k.groups.push_back(g); E.push_back(e); }
static B headerBlock(unsigned mode){ B h; junk(h); field(h,4,"OsmSchema-V0.6"); field(h,4,"DenseNodes"); if(mode) field(h,5,"Sort.Type_then_ID"); field(h,16,"writer"); return h; }
static void header(unsigned h){ // 0 none, 1/2 header blob (unsorted/sorted), 3 zlib, 4/5 features outside of a blob
	if(h==0) return; if(h<=2) frame("OSMHeader",blob(headerBlock(h==2),false)); else if(h==3) frame("OSMHeader",blob(headerBlock(0),true)); else { B b; field(b,4,"DenseNodes"); if(h==5) field(b,5,"Sort.Type_then_ID"); frame("OSMHeader",b); } }
RK_ENTRY(files){ // blobs, unknown blocks, unknown fields, chunked reading, masks of callbacks
	JUNK=rk_choose("junk",0,0,1); header(rk_choose("header",0,0,5)); unsigned blocks=rk_choose("blocks",0,0,2); static const unsigned MA[]={1,2,5,7}; unsigned mask=MA[rk_choose("mask",0,0,3)]; if(rk_choose("other",0,0,1)){ B x; str(x,"whatever it is"); frame("OSMIndexData",x); }
	std::vector<Ev> all; for(unsigned b=0;b<blocks;++b){ Block k; k.tab=b? table({"a","b","c","d","e"}):names(); if(b==0&&rk_choose("grid",0,0,1)){ k.gran=1000; k.off=true; k.latoff=5000; k.lonoff=-7000; } thing(k,b?3*rk_choose("kind",b,0,1):rk_choose("kind",b,0,3),10+b); thing(k,(b+1)%3,20+b); thing(k,4,30+b); frame((b==0&&rk_choose("type",b,0,1))?"OSMdata":"OSMData",blob(encode(k),rk_choose("zip",b,0,1))); bool skip=(b==0&&rk_choose("type",b,0,1)); if(!skip) for(auto&e:E) all.push_back(e); E.clear(); }
	for(auto&e:all) if(mask>>e.kind&1) E.push_back(e); static const unsigned C[]={~0u,1,7}; FCHUNK=C[rk_choose("chunk",0,0,2)]; ok(decode(mask)); rk_reach("end");
}
RK_ENTRY(ordered){ // nodes before ways before relations
	unsigned h=rk_choose("header",0,0,5),blocks=rk_choose("blocks",0,0,3),mask=rk_choose("mask",0,1,7); bool flag=rk_choose("flag",0,0,1); header(h); unsigned prev=0; std::vector<Ev> all; for(unsigned b=0;b<blocks;++b){ unsigned kd=rk_choose("kind",b,0,2); if(flag||h==2||h==5){ rk_assume(kd>=prev); prev=kd; } Block k; k.tab=names(); thing(k,kd,b+1); frame("OSMData",blob(encode(k),false)); }
	all.swap(E); for(unsigned kd=0;kd<3;++kd) if(mask>>kd&1) for(auto&e:all) if(e.kind==kd) E.push_back(e); FCHUNK=~0u; LOG=rk_choose("log",0,0,1); ok(decode(mask,1,flag)); if(blocks==0) rk_reach("empty"); rk_reach("end");
}
RK_ENTRY(schedules){ // ordered and unordered reading under every schedule
	unsigned h=rk_choose("header",0,0,5),o=rk_choose("ordered",0,0,1); header(h); unsigned blocks=rk_choose("blocks",0,0,1); for(unsigned b=0;b<blocks;++b){ Block k; k.tab=names(); thing(k,0,1); thing(k,1,2); thing(k,2,3); frame("OSMData",blob(encode(k),false)); } FCHUNK=~0u; ok(decode(7,o)); rk_reach("end");
}
RK_ENTRY(stopped){ // the callback throws
	header(1); unsigned o=rk_choose("ordered",0,0,1); Block k; k.tab=names(); for(unsigned i=0;i<3;++i) thing(k,i,i+1); frame("OSMData",blob(encode(k),false)); frame("OSMData",blob(encode(k),false)); std::vector<Ev> one=E; if(o){ std::vector<Ev> s; for(unsigned i=0;i<3;++i){ s.push_back(one[i]); s.push_back(one[i]); } E=s; } else for(auto&e:one) E.push_back(e);
	THROWAT=rk_choose("at",0,0,6); FCHUNK=~0u; if(rk_choose("fail",0,0,1)){ THROWAT=~0u; FFAIL=rk_choose("read",0,0,1); rk_assert(decode(7,o)==1,"a failing read is reported"); } else { int r=decode(7,o); rk_assert(r==(THROWAT<E.size()?2:0),"exceptions of the callback reach the caller"); } rk_reach("end");
}
RK_ENTRY(missing){ int n=0; std::function<void(uint64_t,double,double,const TagMap&)> f=[](uint64_t,double,double,const TagMap&){}; try{ if(rk_choose("ordered",0,0,1)) ordered_read_osm_pbf("nofile.pbf",f,nullptr,nullptr); else unordered_read_osm_pbf("nofile.pbf",f,nullptr,nullptr); }catch(std::exception&){ n=1; } rk_assert(n==1,"a file that can not be opened is reported"); rk_reach("end"); }
// ---------------------------------------------------------------- malformed files
RK_ENTRY(malformed){
	unsigned what=rk_choose("what",0,0,24); Block k; k.tab=names(); B g,m; uint64_t bad=5+symv(m,"index",0,2); m.clear(); auto put=[](B&b,uint64_t v){ b.push_back((v&127)|128); b.push_back((v>>7&127)|128); b.push_back(v>>14); };
	auto kv=[&](bool key,bool val){ B a,b; vint(a,1); if(key) put(a,bad); else vint(a,2); vint(b,1); if(val) put(b,bad); else vint(b,2); field(m,2,a); field(m,3,b); };
	switch(what){
	case 0: case 1: num(m,1,5); kv(what==0,what==1); field(g,3,m); break; // ways
	case 2: case 3: num(m,1,5); kv(what==2,what==3); field(g,4,m); break; // relations
	case 4: case 5: num(m,1,5); kv(what==4,what==5); num(m,8,1); num(m,9,1); field(g,1,m); break; // sparse nodes
	case 6: case 7: { B i,x; sint(i,5); if(what==6) put(x,bad); else vint(x,1); if(what==7) put(x,bad); else vint(x,1); vint(x,0); field(m,1,i); field(m,8,i); field(m,9,i); field(m,10,x); field(g,2,m); break; }
	case 8: case 9: { num(m,1,5); B r,i,t; sint(i,1); if(what==8) put(r,bad); else vint(r,1); if(what==9) vint(t,3+rk_choose("t",0,0,1)*200); else vint(t,1); field(m,8,r); field(m,9,i); field(m,10,t); field(g,4,m); break; }
	case 10: case 11: { num(m,1,5); B a,b; vint(a,1); vint(b,1); vint(what==10?a:b,2); field(m,2,a); field(m,3,b); unsigned w=rk_choose("object",0,0,2); if(w==2){ num(m,8,1); num(m,9,1); } field(g,w==0?3:w==1?4:1,m); break; } // unequal key and value arrays
	case 12: { unsigned w=rk_choose("object",0,0,2); if(w==2){ num(m,8,1); num(m,9,1); } field(g,w==0?3:w==1?4:1,m); break; } // missing id
	case 13: case 14: case 15: { B i; sint(i,5); if(what!=13) field(m,1,i); if(what!=14) field(m,8,i); if(what!=15) field(m,9,i); field(g,2,m); break; }
	case 16: case 17: case 18: { unsigned l=rk_choose("more",0,0,1); B i[3]; for(unsigned x=0;x<3;++x){ sint(i[x],5); if((x==what-16)==(l==1)) sint(i[x],1); } field(m,1,i[0]); field(m,8,i[1]); field(m,9,i[2]); field(g,2,m); break; } // dense arrays of different length
	case 19: case 20: case 21: { num(m,1,5); unsigned l=rk_choose("more",0,0,1); B i[3]; for(unsigned x=0;x<3;++x){ vint(i[x],1); if((x==what-19)==(l==1)) vint(i[x],1); } field(m,8,i[0]); field(m,9,i[1]); field(m,10,i[2]); field(g,4,m); break; } // member arrays of different length
	case 22: case 23: { B i,x; sint(i,5); vint(x,1); vint(x,2); if(what==22){ vint(x,0); vint(x,0); } field(m,1,i); field(m,8,i); field(m,9,i); field(m,10,x); field(g,2,m); break; } // too many or unfinished tags
	default: k.gran=0; thing(k,0,1); 
	}
	E.clear(); if(what<24) k.groups.push_back(g); frame("OSMData",blob(encode(k),false)); FCHUNK=~0u;
	int r; { try{ auto n=[](uint64_t,double,double,const TagMap&){}; auto w=[](uint64_t,const std::vector<uint64_t>&,const TagMap&){}; auto q=[](uint64_t,const std::vector<OSMRelationMember>&,const TagMap&){}; unordered_read_osm_pbf("x.pbf",n,w,q); r=0; }catch(std::exception&){ r=1; } } rk_assert(r==1,"a malformed block is reported"); rk_reach("end");
}
RK_ENTRY(badblobs){
	unsigned what=rk_choose("what",0,0,8); Block k; k.tab=names(); thing(k,0,1); E.clear(); B raw=encode(k),b,z=raw; for(auto&c:z) c^=0x55;
	switch(what){ case 0: field(b,1,raw); field(b,3,z); num(b,2,raw.size()); break; case 1: num(b,2,raw.size()); break; case 2: field(b,1,raw); break; case 3: case 4: { B t; uint64_t n=symv(t,"size",0,4); rk_assume(n!=raw.size()); field(b,what==3?1:3,what==3?raw:z); vint(b,16); app(b,t); break; } case 5: case 6: ZMODE=what-4; num(b,2,raw.size()); field(b,3,z); break; default: num(b,2,what==7?(64u<<20):0xffffffffffull); field(b,3,z); break; }
	frame("OSMData",b); FCHUNK=~0u; std::vector<Ev> none; int r=1; auto n=[](uint64_t,double,double,const TagMap&){ }; try{ unordered_read_osm_pbf("x.pbf",n,nullptr,nullptr); r=0; }catch(std::exception&){} rk_assert(r==1,"a malformed blob is reported"); rk_reach("end");
}
static int quiet(int o){ auto n=[](uint64_t,double,double,const TagMap&t){ for(auto&e:t){ unsigned c=strlen(e.key)+strlen(e.value); (void)c; } }; auto w=[](uint64_t,const std::vector<uint64_t>&,const TagMap&){}; auto q=[](uint64_t,const std::vector<OSMRelationMember>&m,const TagMap&){ for(auto&x:m){ unsigned c=strlen(x.role); (void)c; } }; try{ if(o) ordered_read_osm_pbf("x.pbf",n,w,q); else unordered_read_osm_pbf("x.pbf",n,w,q); return 0; }catch(std::exception&){ return 1; } }
RK_ENTRY(truncated){ // the file ends early at any place
	std::vector<unsigned> ends; ends.push_back(0); header(1); ends.push_back(F.size()); B x; str(x,"index"); frame("OSMIndexData",x); ends.push_back(F.size()); Block k; k.tab=names(); for(unsigned i=0;i<4;++i) thing(k,i,i+1); frame("OSMData",blob(encode(k),rk_choose("zip",0,0,1))); ends.push_back(F.size()); E.clear();
	unsigned n=rk_choose("length",0,0,F.size()); F.resize(n); bool whole=false; for(auto e:ends) whole=whole||e==n; static const unsigned C[]={~0u,3}; FCHUNK=C[rk_choose("chunk",0,0,1)]; int r=quiet(rk_choose("ordered",0,0,1)); rk_assert(r==(whole?0:1),"a file that ends within a block is reported, one that ends between blocks is not"); rk_reach("end");
}
RK_ENTRY(damaged){ // one byte of the file is arbitrary
	header(4+rk_choose("header",0,0,1)); Block k; k.tab=table({"","n","v"}); thing(k,KINDS==4?rk_choose("object",0,0,3):KINDS,1); for(auto&t:E) t.tags=Tags{{1,2}}; E.clear(); frame("OSMData",blob(encode(k),false)); unsigned p=rk_choose("place",0,0,F.size()-1); rk_assume(p%PARTS==PART); F[p]=rk_sym8("byte",0,0,255); FCHUNK=~0u; quiet(0); rk_reach("end");
}
RK_ENTRY(arbitrary){ // primitive blocks with an arbitrary content
	unsigned w=rk_choose("where",0,0,4); B b,m,g,t; for(unsigned i=0;i<BYTES;++i) b.push_back(rk_sym8("byte",i,0,255)); field(t,1,""); field(t,1,"n");
	B raw; if(w==0) raw=b; else { B s; field(raw,1,t); if(w==1) field(raw,2,b); else { field(g,w==2?2:w==3?3:4,b); field(raw,2,g); } } frame("OSMData",blob(raw,false)); FCHUNK=~0u; quiet(0); rk_reach("end");
}
RK_ENTRY(features){ // header features
	unsigned n=rk_choose("len",0,0,12),f=rk_choose("field",0,0,1); static const char R[]="DenseNodes\0x"; static const char S[]="Sort.Type_th"; B b,s; for(unsigned i=0;i<n;++i) s.push_back((f?S:R)[i]); if(n) s[n-1]=rk_sym8("char",0,0,255); field(b,4+f,s); frame("OSMHeader",b); Block k; k.tab=names(); thing(k,1,1); thing(k,0,2); std::swap(E[0],E[1]); frame("OSMData",blob(encode(k),false)); FCHUNK=~0u;
	bool known= f==1||(n==10&&s[9]=='s'); int r=decode(7,1); rk_assert(r==(known?0:1),"unknown required features are rejected, unknown optional ones are ignored"); if(r==0) ok(r); rk_reach("end");
}
