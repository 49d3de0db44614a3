// C28: protobuf decoding against an independent decoder; the input is an exactly sized heap block, so reads outside it are caught.
#include "rk.h"
#include "protobuf.h"
#include <vector>
#include <string.h>
using namespace RoutingKit;
typedef std::vector<unsigned char> B;
static bool ref_varint(const unsigned char*p, unsigned n, unsigned&at, uint64_t&val){ // false: malformed
	val=0;
	for(unsigned i=0;;++i){
		if(at>=n) return false;
		unsigned char b=p[at];
		if(i==9 && b>1) return false;
		val += (uint64_t)(b%128)<<(7*i); // i<=9
		++at;
		if(b<128) return true;
	}
}
struct Field{ unsigned kind; uint64_t id, val; unsigned from, to; }; // kind: wire type
static bool ref_message(const unsigned char*p, unsigned n, std::vector<Field>&out){
	unsigned at=0;
	while(at<n){
		Field f; uint64_t h; f.from=f.to=0; f.val=0; if(!ref_varint(p,n,at,h)) return false; f.id=h/8; unsigned t=rk_concretize((unsigned)(h%8));
		f.kind=t;
		if(t==0){ if(!ref_varint(p,n,at,f.val)) return false; }
		else if(t==1||t==5){ unsigned w=t==1?8:4; if(n-at<w) return false; f.from=at; f.to=at+w; at+=w; }
		else if(t==2){ uint64_t l; if(!ref_varint(p,n,at,l)) return false; if(l>n-at) return false; unsigned k=rk_concretize((unsigned)l); f.from=at; f.to=at+k; at+=k; }
		else return false;
		out.push_back(f);
	}
	return true;
}
static uint64_t bits(double d){ uint64_t x; memcpy(&x,&d,8); return x; }
static void compare(const unsigned char*p, unsigned n){
	unsigned char*heap=new unsigned char[n]; for(unsigned i=0;i<n;++i) heap[i]=p[i];
	const char*b=(const char*)heap; std::vector<Field> want; bool ok=ref_message(p,n,want);
	unsigned k=0; bool threw=false;
	try{
		decode_protobuf_message_with_callbacks(b,b+n,
			[&](uint64_t id,uint64_t v){ rk_assert(k<want.size(),"no field is invented"); rk_assert(want[k].kind==0&&want[k].id==id&&want[k].val==v,"integer field is reported with its id and value"); ++k; },
			[&](uint64_t id,double v){ rk_assert(k<want.size(),"no field is invented"); rk_assert((want[k].kind==1||want[k].kind==5)&&want[k].id==id,"floating point field is reported with its id");
				double e; if(want[k].kind==1) memcpy(&e,p+want[k].from,8); else { float f; memcpy(&f,p+want[k].from,4); e=f; } rk_assert(bits(e)==bits(v),"floating point field is reported with its value"); ++k; },
			[&](uint64_t id,const char*f,const char*t){ rk_assert(k<want.size(),"no field is invented"); rk_assert(want[k].kind==2&&want[k].id==id,"string field is reported with its id"); rk_assert(f==b+want[k].from&&t==b+want[k].to,"string field is reported with its range"); ++k; });
	}catch(std::exception&){ threw=true; }
	rk_assert(threw==!ok,"malformed input throws, well-formed input does not");
	rk_assert(k==want.size(),"every field is reported");
	delete[] heap;
	if(ok) rk_reach("ok"); else rk_reach("malformed");
}
RK_ENTRY(varint){
	unsigned n=rk_choose("n",0,0,12); unsigned char*p=new unsigned char[n]; B c(n);
	for(unsigned i=0;i<n;++i) c[i]=p[i]=rk_sym8("b",i,0,255);
	unsigned at=0; uint64_t v=0; bool ok=ref_varint(c.data(),n,at,v); const char*b=(const char*)p; bool threw=false; uint64_t got=0;
	try{ got=decode_varint_as_uint64_and_advance_first_parameter(b,b+n); }catch(std::exception&){ threw=true; }
	rk_assert(threw==!ok,"a varint is decoded iff it is complete and fits into 64 bit");
	if(ok){ rk_assert(got==v,"varint value"); rk_assert(b==(const char*)p+at,"exactly the encoding is consumed"); rk_reach("ok"); } else rk_reach("malformed");
	delete[] p; rk_reach("end");
}
RK_ENTRY(zigzag){
	uint64_t x=rk_sym64("x",0,0,~0ull); int64_t r=zigzag_convert_uint64_to_int64(x);
	rk_assert((((uint64_t)r<<1)^(uint64_t)(r>>63))==x,"zigzag decoding inverts zigzag encoding"); rk_reach("end");
}
RK_ENTRY(bytes){ // arbitrary byte strings
	unsigned n=rk_choose("n",0,0,LEN); B c(n); for(unsigned i=0;i<n;++i) c[i]=rk_sym8("b",i,0,255);
	compare(c.data(),n); rk_reach("end");
}
RK_ENTRY(fields){ // sequences of well-formed fields with arbitrary contents, cut off anywhere
	B c; unsigned k=rk_choose("k",0,1,FIELDS), q=0; static const unsigned T[]={0,1,2,5};
	for(unsigned i=0;i<k;++i){
		unsigned t=T[rk_choose("type",i,0,3)]; bool longid=rk_choose("longid",i,0,1);
		if(longid){ c.push_back(128|(rk_sym8("id",i,0,15)<<3)|t); c.push_back(rk_sym8("idhi",i,0,127)); } else c.push_back((rk_sym8("id",i,0,15)<<3)|t);
		if(t==0){ unsigned l=rk_choose("vlen",i,1,3); if(l==3) l=10; for(unsigned j=0;j+1<l;++j) c.push_back(rk_sym8("v",q++,128,255)); c.push_back(l==10?rk_sym8("v",q++,0,1):rk_sym8("v",q++,0,127)); }
		else if(t==1||t==5){ for(unsigned j=0;j<(t==1?8:4);++j) c.push_back(rk_sym8("v",q++,0,255)); }
		else { unsigned l=rk_choose("slen",i,0,3); c.push_back(l); for(unsigned j=0;j<l;++j) c.push_back(rk_sym8("v",q++,0,255)); }
	}
	unsigned cut=rk_choose("cut",0,0,2); unsigned n=c.size(); if(cut&&n>cut) n-=cut;
	compare(c.data(),n); rk_reach("end");
}
RK_ENTRY(huge){ // enormous announced lengths
	B c; c.push_back(0x0a); unsigned l=rk_choose("len",0,1,10); for(unsigned j=0;j+1<l;++j) c.push_back(rk_sym8("v",j,128,255)); c.push_back(rk_sym8("v",9,0,l==10?1:127)); unsigned tail=rk_choose("tail",0,0,2); for(unsigned j=0;j<tail;++j) c.push_back(0);
	compare(c.data(),c.size()); rk_reach("end");
}
