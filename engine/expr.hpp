// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <cassert>
#include <cstdio>
#include <cstdlib>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t i64; typedef int32_t i32;

enum Op : u8 {
  OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  ONot1, OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat,
  // floating point (operands/results are IEEE bit patterns of width 32 or 64)
  OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq, OFUno, OSIToFP, OUIToFP, OFPToSI, OFPToUI, OFPExt, OFPTrunc, OFSqrt, OFAbs, OFNeg,
  OFFun // mathematical function (val: index into FFUN); only evaluated, comparisons of such values are tabulated over the variables they depend on
};

struct Expr {
  Op op; u8 leaves /*number of leaves if all leaves are constants, else 0*/; uint16_t width; u32 id;
  u64 val;      // const value / var index / extract low bit
  Expr *a, *b, *c;
  u64 umin, umax; // unsigned range (only meaningful for width<=64)
  void *z3;     // cached Z3_ast
  u64 ev; u32 evModel;
};

static inline u64 maskw(unsigned w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sextw(u64 v, unsigned w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

struct VarInfo { std::string name; unsigned width; u64 lo, hi; Expr*e; };

struct ExprCtx {
  std::vector<Expr*> table; size_t count=0;
  std::vector<VarInfo> vars;
  std::map<std::string,u32> varByKey;
  u32 nextId=1;
  char*arena=nullptr; size_t arenaLeft=0;
  ExprCtx(){ table.resize(1<<16,nullptr); }
  Expr*alloc(){ if(arenaLeft<sizeof(Expr)){ arenaLeft=1<<20; arena=(char*)malloc(arenaLeft);} Expr*e=(Expr*)arena; arena+=sizeof(Expr); arenaLeft-=sizeof(Expr); return e; }
  static u64 hash(Op op,unsigned w,u64 v,Expr*a,Expr*b,Expr*c){
    u64 h=op*0x9E3779B97F4A7C15ull ^ (u64)w*0xC2B2AE3D27D4EB4Full ^ v*0x165667B19E3779F9ull;
    h^= (a?a->id:0)*0xD6E8FEB86659FD93ull; h=(h<<13)|(h>>51); h^=(b?b->id:0)*0xA0761D6478BD642Full; h=(h<<17)|(h>>47); h^=(c?c->id:0)*0xE7037ED1A0B428DBull;
    h^=h>>32; h*=0x9E3779B97F4A7C15ull; return h^(h>>29);
  }
  void grow(){
    std::vector<Expr*> old; old.swap(table); table.assign(old.size()*2,nullptr);
    for(Expr*e:old) if(e){ size_t i=hash(e->op,e->width,e->val,e->a,e->b,e->c)&(table.size()-1); while(table[i]) i=(i+1)&(table.size()-1); table[i]=e; }
  }
  Expr*mk(Op op,unsigned w,u64 v,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr){
    if(count*2>table.size()) grow();
    size_t i=hash(op,w,v,a,b,c)&(table.size()-1);
    while(Expr*e=table[i]){ if(e->op==op&&e->width==w&&e->val==v&&e->a==a&&e->b==b&&e->c==c) return e; i=(i+1)&(table.size()-1); }
    Expr*e=alloc(); e->op=op;e->width=w;e->val=v;e->a=a;e->b=b;e->c=c;e->id=nextId++;e->z3=nullptr;e->evModel=0;e->leaves=0;
    e->umin=0;e->umax=maskw(w); setRange(e);
    table[i]=e; ++count; return e;
  }
  void setRange(Expr*e);
};
extern ExprCtx EC;

static inline bool isC(Expr*e){return e->op==OConst;}
Expr*mkConst(u64 v,unsigned w);
Expr*mkVar(const std::string&name,unsigned w,u64 lo,u64 hi);
Expr*mkBin(Op op,Expr*a,Expr*b);
Expr*mkNot1(Expr*a);
Expr*mkIte(Expr*c,Expr*a,Expr*b);
Expr*mkZExt(Expr*a,unsigned w);
Expr*mkSExt(Expr*a,unsigned w);
Expr*mkExtract(Expr*a,unsigned lo,unsigned w);
Expr*mkConcat(Expr*hi,Expr*lo);
Expr*mkUn(Op op,Expr*a,unsigned w);
u64 foldBin(Op op,u64 a,u64 b,unsigned w);
u64 foldUn(Op op,u64 a,unsigned aw,unsigned w);
unsigned ctzKnown(Expr*e);
extern bool FPTABLES; Expr*mkFun(void*f,Expr*a,Expr*b,unsigned w);
bool smallIntFP(Expr*e,Expr*&src);
static inline float f32(u64 x){ u32 y=(u32)x; float f; memcpy(&f,&y,4); return f; }
static inline double f64(u64 x){ double f; memcpy(&f,&x,8); return f; }
static inline u64 b32(float f){ u32 y; memcpy(&y,&f,4); return y; }
static inline u64 b64(double f){ u64 y; memcpy(&y,&f,8); return y; }


struct Model { u32 id; std::vector<u64> v; std::vector<u8> has;
  static u32 next; Model():id(next++){}
  u64 get(u32 i)const{ if(i<has.size()&&has[i]) return v[i]; return EC.vars[i].lo; }
  void set(u32 i,u64 x){ if(i>=has.size()){has.resize(i+1,0);v.resize(i+1,0);} has[i]=1;v[i]=x; }
};
u64 evalExpr(Expr*e,const Model&m);
std::string exprStr(Expr*e,int depth=4);
