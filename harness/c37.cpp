// C37: file data sources deliver the file's bytes, size and failures faithfully and own their descriptor.
// The operating system is a model (below) with symbolic contents and chosen short reads and failures.
#include "rk.h"
#include <vector>
#include <string>
#include <string.h>
#include <stdexcept>
#include <utility>
#include <errno.h>
#include <stdio.h>
#include <sys/stat.h>
#include "file_data_source.h"
using namespace RoutingKit;
#ifndef LEN
#define LEN 4
#endif
#ifndef OPS
#define OPS 3
#endif
struct Desc{ int file; unsigned pos; bool open; };
static std::vector<unsigned char> content[2]; static Desc desc[16]; static unsigned descs, calls, fail_open, fail_read, fail_seek, fail_stat, shortn;
static bool misuse; static int last_error=EIO;
static bool good(int fd){ if(fd<3||(unsigned)fd-3>=descs||!desc[fd-3].open){ misuse=true; errno=EBADF; return false; } return true; }
static int vopen(const char*n){ if(fail_open||(strcmp(n,"a")!=0&&strcmp(n,"b")!=0)||descs==16){ errno=ENOENT; return -1; } desc[descs].file=n[0]-'a'; desc[descs].pos=0; desc[descs].open=true; return 3+descs++; }
static int vclose(int fd){ if(!good(fd)) return -1; desc[fd-3].open=false; return 0; }
static long vread(int fd,void*p,size_t n){ if(!good(fd)) return -1; if(fail_read){ errno=EIO; return -1; } Desc&d=desc[fd-3]; size_t left=content[d.file].size()-d.pos; if(n>left) n=left; if(n>1&&shortn==1) n=1; else if(n>1&&shortn==2) n-=1; if(n) memcpy(p,content[d.file].data()+d.pos,n); d.pos+=n; return (long)n; }
static long vseek(int fd,long o,int w){ if(!good(fd)) return -1; if(fail_seek){ errno=EINVAL; return -1; } Desc&d=desc[fd-3]; long b= w==SEEK_SET?0: w==SEEK_CUR?(long)d.pos:(long)content[d.file].size(); if(b+o<0){ errno=EINVAL; return -1; } d.pos=(unsigned)(b+o); return d.pos; }
static unsigned opened(){ unsigned c=0; for(unsigned i=0;i<descs;++i) c+=desc[i].open; return c; }
extern "C" {
#ifndef ROUTING_KIT_NO_POSIX
int open(const char*n,int,...){ return vopen(n); }
int close(int fd){ return vclose(fd); }
ssize_t read(int fd,void*p,size_t n){ return vread(fd,p,n); }
off_t lseek(int fd,off_t o,int w){ return vseek(fd,o,w); }
int fstat(int fd,struct stat*b){ if(!good(fd)) return -1; if(fail_stat){ errno=EIO; return -1; } memset(b,0,sizeof(*b)); b->st_size=content[desc[fd-3].file].size(); return 0; }
#ifdef RK_SYMBOLIC
int*__errno_location() throw(){ return &last_error; }
char*strerror(int) throw(){ static char m[]="error"; return m; }
#endif
#else
// stdio renamed by the build: a FILE is a pointer to its descriptor
static int fdof(FILE*f){ return f? (int)((Desc*)f-desc)+3 : -1; }
FILE*rk_fopen(const char*n,const char*m){ int fd=strcmp(m,"rb")==0? vopen(n): -1; return fd<0?nullptr:(FILE*)(desc+(fd-3)); }
int rk_fclose(FILE*f){ return vclose(fdof(f)); }
size_t rk_fread(void*p,size_t s,size_t n,FILE*f){ long r=vread(fdof(f),p,s*n); return r<0?0:(size_t)r/s; }
int rk_fseek(FILE*f,long o,int w){ return vseek(fdof(f),o,w)<0?-1:0; }
long rk_ftell(FILE*f){ int fd=fdof(f); if(!good(fd)) return -1; return desc[fd-3].pos; }
int rk_ferror(FILE*f){ return good(fdof(f))&&!fail_read?0:1; }
#endif
}
struct M{ int file; unsigned pos; bool moved; }; // reference: -1 = closed
static void setup(){ unsigned n=rk_choose("len",0,0,LEN), m=rk_choose("len",1,1,2); content[0].resize(n); content[1].resize(m); for(unsigned i=0;i<n;++i) content[0][i]=rk_sym8("a",i,0,255); for(unsigned i=0;i<m;++i) content[1][i]=rk_sym8("b",i,0,255); shortn=rk_choose("short",0,0,2); }
static void settled(unsigned live){ rk_assert(!misuse,"only open descriptors are used, and each is closed once"); rk_assert(opened()==live,"exactly the files in use are open"); }
template<class F> static bool throws(F f){ try{ f(); }catch(std::runtime_error&){ return true; } return false; }
static void rd(FileDataSource&s,M&r,unsigned want,bool functional){
	unsigned char b[LEN+4]; for(unsigned i=0;i<sizeof(b);++i) b[i]=0xA5; unsigned long long got= functional? s.get_read_function_object()((char*)b,want): s.read((char*)b,want);
	unsigned left=(unsigned)content[r.file].size()-r.pos; rk_assert(got<=want&&got<=left,"no more is read than asked for and there is"); rk_assert(got>0||want==0||left==0,"something is read unless the file has ended");
	for(unsigned i=0;i<sizeof(b);++i) rk_assert(b[i]==(i<got?content[r.file][r.pos+i]:0xA5),"the bytes of the file in order, nothing beside"); r.pos+=(unsigned)got;
}
static void op(FileDataSource*s,M*r,unsigned k){
	unsigned i=rk_choose("obj",k,0,1), j=1-i; FileDataSource&x=s[i]; M&m=r[i];
	switch(rk_choose("op",k,0,9)){
		case 0: case 1:{ const char*n=rk_choose("file",k,0,1)?"b":"a"; x.open(n); m.file=n[0]-'a'; m.pos=0; break; }
		case 2:{ rk_assert(throws([&]{ x.open("missing"); }),"a file that cannot be opened is reported"); break; }
		case 3: x.close(); m.file=-1; break;
		case 4: if(m.file<0){ rk_assume(false); break; } rd(x,m,rk_choose("want",k,0,LEN+1),false); break;
		case 5: if(m.file<0){ rk_assume(false); break; } rd(x,m,rk_choose("want",k,0,LEN+1),true); break;
		case 6: if(m.file<0){ rk_assume(false); break; } x.rewind(); m.pos=0; break;
		case 7: x=std::move(s[j]); r[i]=r[j]; r[j].file=-1; break;
		case 8:{ FileDataSource y(std::move(x)); M t=m; m.file=-1; settled((t.file>=0)+(r[j].file>=0)); if(t.file>=0) rd(y,t,1,false); x=std::move(y); m=t; break; }
		case 9:{ std::string n=rk_choose("file",k,0,1)?"b":"a"; FileDataSource y(n), z(n.c_str()); settled(2+(r[0].file>=0)+(r[1].file>=0)); M t; t.file=n[0]-'a'; t.pos=0; rd(y,t,1,false); if(rk_choose("keep",k,0,1)){ x=std::move(y); m=t; } break; }
	}
	for(unsigned q=0;q<2;++q) rk_assert(s[q].size()==(r[q].file<0?0:content[r[q].file].size()),"size is the size of the open file, 0 if none is open");
	settled((r[0].file>=0)+(r[1].file>=0));
}
RK_ENTRY(ops){
	setup(); M r[2]; r[0].file=r[1].file=-1; r[0].pos=r[1].pos=0;
	{ FileDataSource s[2]; for(unsigned k=0;k<OPS;++k) op(s,r,k);
	  for(unsigned i=0;i<2;++i) if(r[i].file>=0){ for(unsigned g=0;g<=LEN&&r[i].pos<content[r[i].file].size();++g) rd(s[i],r[i],2,false); rk_assert(r[i].pos==content[r[i].file].size(),"the whole file is delivered"); rd(s[i],r[i],3,false); } }
	settled(0); rk_reach("end");
}
RK_ENTRY(failures){ // failures of the operating system are reported, never taken for data
	setup(); { FileDataSource s("a"); M m; m.file=0; m.pos=0; rd(s,m,rk_choose("want",0,0,2),false);
	char b[4]; bool t=false;
	switch(rk_choose("what",0,0,5)){
		case 0: fail_read=1; t=throws([&]{ s.read(b,2); }); rk_assert(t,"a failed read is reported"); break;
		case 1: fail_read=1; { auto f=s.get_read_function_object(); t=throws([&]{ f(b,2); }); } rk_assert(t,"a failed read is reported by the function object"); break;
		case 2: fail_seek=1; t=throws([&]{ s.rewind(); }); rk_assert(t,"a failed rewind is reported"); break;
		case 3: fail_stat=fail_seek=1; t=throws([&]{ s.size(); }); rk_assert(t,"an undeterminable size is reported"); break;
		case 4: fail_open=1; t=throws([&]{ s.open("b"); }); rk_assert(t,"a failed open is reported"); break;
		case 5: fail_open=1; t=throws([&]{ FileDataSource y("b"); }); rk_assert(t,"a failed open in the constructor is reported"); break;
	}
	fail_read=fail_seek=fail_stat=fail_open=0; settled(1); if(rk_choose("go",0,0,1)) rd(s,m,2,false); rk_assert(s.size()==content[0].size(),"the size after a failure"); }
	settled(0); rk_reach("end");
}
