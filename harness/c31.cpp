// C31: the asynchronous reader for every schedule, chunking, read sizes and failure point within the bounds.
#include "rk.h"
#include "buffered_asynchronous_reader.h"
#include <mutex>
#include <stdexcept>
#include <vector>
using namespace RoutingKit;
static std::mutex m;
#ifdef RK_FREERUN // under the thread sanitizer no extra synchronisation may order the threads
#include <unistd.h>
static void yield(){ usleep(300); }
#else
static void yield(){ m.lock(); m.unlock(); } // a point where the other thread may run
#endif
static unsigned char byte(unsigned i){ return rk_sym8("byte",i,0,255); }
struct Src{ unsigned total, bs, fail, freefrom, freecnt, first; };
struct State{ unsigned at=0, calls=0; };
struct Failure: std::exception{};
// a source of `total` bytes that fails when asked for more after `fail` calls; chunks with numbers in [freefrom,freefrom+freecnt) have an arbitrary size
static std::function<unsigned long long(char*,unsigned long long)> source(Src c, State*s){
	return [c,s](char*p,unsigned long long n)->unsigned long long{
		rk_assert(n<=c.bs,"the source is never asked for more than a block");
		unsigned call=s->calls++; yield(); if(call==c.fail) throw Failure();
		unsigned left=c.total-s->at, k=left<n?left:(unsigned)n;
		if(call==0&&c.first&&k>c.first) k=c.first;
		else if(k>1&&call>=c.freefrom&&call<c.freefrom+c.freecnt) k=rk_choose("chunk",call-c.freefrom,1,k);
		for(unsigned i=0;i<k;++i) p[i]=byte(s->at+i);
		yield();
		s->at+=k; return k; };
}
static void same(const char*p, unsigned at, unsigned n, const char*l){ unsigned char d=0; for(unsigned i=0;i<n;++i) d|=(unsigned char)p[i]^byte(at+i); rk_assert(d==0,l); }
struct Reading{ unsigned at=0; const char*last=0; unsigned lastn=0; };
// one read; false: end of stream
static bool step(BufferedAsynchronousReader&r, Reading&g, unsigned n, unsigned total){
	if(g.last){ yield(); same(g.last,g.at-g.lastn,g.lastn,"a block stays intact until the next read"); }
	char*p=r.read(n); g.last=0;
	if(!p){ rk_assert(g.at+n>total,"the end is reported only if too few bytes remain"); rk_reach("eof"); return false; }
	rk_assert(g.at+n<=total,"no bytes beyond the end are returned"); same(p,g.at,n,"the bytes of the source are returned in order");
	g.last=p; g.at+=n; g.lastn=n; return true;
}
#ifndef FAILMAX
#define FAILMAX 3
#endif
#ifndef TAIL
#define TAIL 3
#endif
#ifndef READS
#define READS 2
#endif
#ifndef BS
#define BS 2
#endif
#ifndef FREE
#define FREE 2
#endif
RK_ENTRY(stream){ // any ring position, then arbitrary reads, then read to the end
	unsigned bs=rk_choose("block",0,1,BS), first=rk_choose("first",0,1,bs), phase=rk_choose("phase",0,0,5*bs-1), tail=rk_choose("tail",0,0,TAIL);
	Src c; c.bs=bs; c.total=phase+tail; c.fail=~0u; c.freefrom=(phase+bs-1)/bs; c.freecnt=FREE; c.first=first; State s;
	BufferedAsynchronousReader r(source(c,&s),bs); Reading g;
	while(g.at<phase){ unsigned n=phase-g.at<bs?phase-g.at:bs; if(!step(r,g,n,c.total)) rk_fail("bytes are missing"); }
	for(unsigned i=0;i<READS;++i) step(r,g,rk_choose("read",i,0,bs),c.total);
	while(step(r,g,1,c.total)); rk_assert(g.at==c.total,"all bytes are delivered");
	rk_assert(r.read(0)!=0||true,"reading nothing returns");
	bool threw=false; try{ r.read_or_throw(1); }catch(std::exception&){ threw=true; } rk_assert(threw,"reading past the end throws on request");
	threw=false; try{ r.read(bs+1); }catch(std::exception&){ threw=true; } rk_assert(threw,"requests above the block size throw");
	rk_reach("end");
}
RK_ENTRY(failure){ // the source throws
	unsigned bs=rk_choose("block",0,1,BS), fail=rk_choose("fail",0,0,FAILMAX), n=rk_choose("read",0,1,bs);
	Src c; c.bs=bs; c.total=1000; c.fail=fail; c.freefrom=0; c.freecnt=FREE; c.first=0; State s; unsigned caught=0, before=0;
	{ BufferedAsynchronousReader r(source(c,&s),bs); Reading g;
	for(unsigned i=0;i<bs*(fail+1)+2&&!caught;++i){ try{ if(!step(r,g,n,c.total)) rk_fail("end reported before the end"); ++before; }catch(Failure&){ caught=1; } }
	rk_assert(caught,"a failure of the source reaches the caller"); rk_assert(before*n<=fail*bs,"nothing is delivered that was not read");
	try{ r.read(n); rk_fail("a failure is reported again"); }catch(Failure&){ caught=2; } }
	rk_assert(caught==2,"a failure keeps its type"); rk_reach("end");
}
RK_ENTRY(destroy){ // the reader is destroyed at any time, moved before
	unsigned bs=rk_choose("block",0,1,BS), k=rk_choose("reads",0,0,2), how=rk_choose("how",0,0,2);
	Src c; c.bs=bs; c.total=rk_choose("total",0,0,7*bs); c.fail=~0u; c.freefrom=0; c.freecnt=0; c.first=0; State s;
	{ BufferedAsynchronousReader a(source(c,&s),bs); Reading g; 
	if(how==0){ for(unsigned i=0;i<k;++i) step(a,g,bs,c.total); }
	else if(how==1){ BufferedAsynchronousReader b(std::move(a)); for(unsigned i=0;i<k;++i) step(b,g,bs,c.total); }
	else { State s2; Src c2=c; c2.total=3; BufferedAsynchronousReader b(source(c2,&s2),bs); b=std::move(a); for(unsigned i=0;i<k;++i) step(b,g,bs,c.total); } }
	rk_reach("end");
}

RK_ENTRY(longstream){ // large blocks and long streams, few schedules
	static const unsigned B[]={8,16,100,1000}; unsigned bs=B[rk_choose("block",0,0,3)], pat=rk_choose("pattern",0,0,4), total=bs*rk_choose("blocks",0,0,2)*6+rk_choose("rest",0,0,2)*(bs-1)/2+rk_choose("more",0,0,1)*3; State s; unsigned chunk=rk_choose("chunks",0,0,2);
	auto val=[](unsigned i)->char{ return (char)(i*167+i/251); };
	BufferedAsynchronousReader r([=,&s](char*p,unsigned long long n)->unsigned long long{ rk_assert(n<=bs,"the source is never asked for more than a block"); unsigned left=total-s.at, k=left<n?left:(unsigned)n; if(chunk==1&&k>7) k=7; if(chunk==2&&k>1) k=(k+s.calls%3)/2; if(k>n) k=(unsigned)n; ++s.calls; for(unsigned i=0;i<k;++i) p[i]=val(s.at+i); s.at+=k; return k; },bs);
	unsigned at=0; for(unsigned i=0;;++i){ unsigned n= pat==0? bs: pat==1? 1+i%bs: pat==2? (i%3?3:bs-1): pat==3? bs-i%2: 5; if(pat==4&&i==20) n=bs; char*p=r.read(n); if(!p){ rk_assert(at+n>total,"the end is reported only if too few bytes remain"); rk_assert(total-at<n,"end"); break; } rk_assert(at+n<=total,"no bytes beyond the end are returned"); unsigned char d=0; for(unsigned j=0;j<n;++j) d|=(unsigned char)(p[j]^val(at+j)); rk_assert(d==0,"the bytes of the source are returned in order"); at+=n; }
	while(at<total){ char*p=r.read(1); rk_assert(p!=nullptr&&*p==val(at),"the rest can be read"); ++at; } rk_assert(r.read(1)==nullptr,"the end is reported"); rk_reach("end");
}
