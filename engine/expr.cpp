#include "expr.hpp"
#include <algorithm>
ExprCtx EC;
u32 Model::next=1;

Expr*mkConst(u64 v,unsigned w){ assert(w<=64); return EC.mk(OConst,w,v&maskw(w)); }
Expr*mkVar(const std::string&name,unsigned w,u64 lo,u64 hi){
  std::string key=name+"|"+std::to_string(w)+"|"+std::to_string(lo)+"|"+std::to_string(hi);
  auto it=EC.varByKey.find(key);
  if(it!=EC.varByKey.end()) return EC.vars[it->second].e;
  u32 idx=EC.vars.size(); EC.vars.push_back({name,w,lo,hi,nullptr});
  Expr*e=EC.mk(OVar,w,idx); EC.vars[idx].e=e; EC.varByKey[key]=idx; return e;
}
static inline bool addOvf(u64 a,u64 b,unsigned w,u64&r){ r=a+b; if(r<a) return true; return r>maskw(w); }

void ExprCtx::setRange(Expr*e){
  unsigned w=e->width; u64 M=maskw(w);
  if(w>64){ e->umin=0;e->umax=~0ull; 
    return; }
  switch(e->op){
    case OConst: e->umin=e->umax=e->val; e->leaves=1; break;
    case OVar: e->umin=vars[e->val].lo; e->umax=vars[e->val].hi; break;
    case OAdd: { u64 lo,hi; if(!addOvf(e->a->umax,e->b->umax,w,hi)){ addOvf(e->a->umin,e->b->umin,w,lo); e->umin=lo;e->umax=hi; } break; }
    case OSub: if(e->a->umin>=e->b->umax){ e->umin=e->a->umin-e->b->umax; e->umax=e->a->umax-e->b->umin; } break;
    case OMul: { unsigned __int128 h=(unsigned __int128)e->a->umax*e->b->umax; if(h<=M){ e->umin=e->a->umin*e->b->umin; e->umax=(u64)h; } break; }
    case OUDiv: if(e->b->umin>0){ e->umin=e->a->umin/e->b->umax; e->umax=e->a->umax/e->b->umin; } break;
    case OURem: if(e->b->umin>0){ e->umin=0; e->umax=std::min(e->a->umax,e->b->umax-1);} break;
    case OAnd: e->umin=0; e->umax=std::min(e->a->umax,e->b->umax); break;
    case OOr: case OXor: { u64 m=e->a->umax|e->b->umax; m|=m>>1;m|=m>>2;m|=m>>4;m|=m>>8;m|=m>>16;m|=m>>32; e->umax=m; e->umin= e->op==OOr? std::max(e->a->umin,e->b->umin):0; break; }
    case OShl: if(isC(e->b)&&e->b->val<w){ u64 s=e->b->val; if((e->a->umax<<s>>s)==e->a->umax && (e->a->umax<<s)<=M){ e->umin=e->a->umin<<s; e->umax=e->a->umax<<s; } } break;
    case OLShr: if(isC(e->b)&&e->b->val<w){ e->umin=e->a->umin>>e->b->val; e->umax=e->a->umax>>e->b->val; } else e->umax=e->a->umax; break;
    case OIte: e->umin=std::min(e->b->umin,e->c->umin); e->umax=std::max(e->b->umax,e->c->umax);
      if(e->b->leaves&&e->c->leaves){ unsigned l=e->b->leaves+e->c->leaves; e->leaves= l<=200? l:0; } break;
    case OZExt: e->umin=e->a->umin; e->umax=e->a->umax; break;
    case OSExt: if(e->a->umax < (1ull<<(e->a->width-1))){ e->umin=e->a->umin; e->umax=e->a->umax; } break;
    case OExtract: if(e->a->width<=64){ if(e->val==0){ if(e->a->umax<=M){e->umin=e->a->umin;e->umax=e->a->umax;} }
        else { u64 hi=e->a->umax>>e->val; if(hi<=M){ e->umax=hi; e->umin=e->a->umin>>e->val; } } } break;
    case OConcat: if(w<=64){ unsigned lw=e->b->width; e->umin=(e->a->umin<<lw)|e->b->umin; e->umax=(e->a->umax<<lw)|e->b->umax; } break;
    default: break;
  }
}


u64 foldBin(Op op,u64 a,u64 b,unsigned w){
  u64 M=maskw(w);
  switch(op){
    case OAdd: return (a+b)&M; case OSub: return (a-b)&M; case OMul: return (a*b)&M;
    case OUDiv: return b? a/b : M; case OURem: return b? a%b : a;
    case OSDiv: { i64 x=sextw(a,w),y=sextw(b,w); if(y==0) return x<0?1:M; if(y==-1) return (0-a)&M; return (u64)(x/y)&M; }
    case OSRem: { i64 x=sextw(a,w),y=sextw(b,w); if(y==0) return a; if(y==-1) return 0; return (u64)(x%y)&M; }
    case OAnd: return a&b; case OOr: return a|b; case OXor: return a^b;
    case OShl: return b>=w?0:(a<<b)&M; case OLShr: return b>=w?0:a>>b;
    case OAShr: { i64 x=sextw(a,w); return (u64)(x>>(b>=w?w-1:b))&M; }
    case OEq: return a==b; case OUlt: return a<b; case OUle: return a<=b;
    case OSlt: return sextw(a,w)<sextw(b,w); case OSle: return sextw(a,w)<=sextw(b,w);
    case OFAdd: return w==32? b32(f32(a)+f32(b)) : b64(f64(a)+f64(b));
    case OFSub: return w==32? b32(f32(a)-f32(b)) : b64(f64(a)-f64(b));
    case OFMul: return w==32? b32(f32(a)*f32(b)) : b64(f64(a)*f64(b));
    case OFDiv: return w==32? b32(f32(a)/f32(b)) : b64(f64(a)/f64(b));
    case OFLt: return w==32? f32(a)<f32(b) : f64(a)<f64(b);
    case OFLe: return w==32? f32(a)<=f32(b) : f64(a)<=f64(b);
    case OFEq: return w==32? f32(a)==f32(b) : f64(a)==f64(b);
    case OFUno: return w==32? (std::isnan(f32(a))||std::isnan(f32(b))) : (std::isnan(f64(a))||std::isnan(f64(b)));
    default: fprintf(stderr,"foldBin op %d\n",op); abort();
  }
}
u64 foldUn(Op op,u64 a,unsigned aw,unsigned w){
  switch(op){
    case OSIToFP: { i64 x=sextw(a,aw); return w==32? b32((float)x) : b64((double)x); }
    case OUIToFP: { return w==32? b32((float)a) : b64((double)a); }
    case OFPToSI: { double d= aw==32? f32(a):f64(a); return (u64)(i64)d & maskw(w); }
    case OFPToUI: { double d= aw==32? f32(a):f64(a); return (d<0? (u64)(i64)d:(u64)d) & maskw(w); }
    case OFPExt: return b64((double)f32(a));
    case OFPTrunc: return b32((float)f64(a));
    case OFSqrt: return aw==32? b32(sqrtf(f32(a))) : b64(sqrt(f64(a)));
    case OFAbs: return a & (maskw(aw)>>1);
    case OFNeg: return a ^ (1ull<<(aw-1));
    default: fprintf(stderr,"foldUn op %d\n",op); abort();
  }
}

unsigned ctzKnown(Expr*e){
  switch(e->op){
    case OConst: return e->val? __builtin_ctzll(e->val) : e->width;
    case OAdd: case OSub: case OOr: case OXor: return std::min(ctzKnown(e->a),ctzKnown(e->b));
    case OAnd: return std::max(ctzKnown(e->a),ctzKnown(e->b));
    case OMul: return std::min<unsigned>(e->width,ctzKnown(e->a)+ctzKnown(e->b));
    case OShl: if(isC(e->b)) return std::min<u64>(e->width,ctzKnown(e->a)+e->b->val); return ctzKnown(e->a);
    case OZExt: case OSExt: { unsigned k=ctzKnown(e->a); return k; }
    case OIte: return std::min(ctzKnown(e->b),ctzKnown(e->c));
    case OConcat: { unsigned k=ctzKnown(e->b); return k<e->b->width?k: k+ctzKnown(e->a);} 
    default: return 0;
  }
}

static Expr*fin(Expr*e){ if(e->width<=64 && e->op!=OConst && e->umin==e->umax && e->op!=OVar) return mkConst(e->umin,e->width); 
  if(e->op==OVar&&e->umin==e->umax) return mkConst(e->umin,e->width); return e; }

Expr*mkNot1(Expr*a){
  assert(a->width==1);
  if(isC(a)) return mkConst(!a->val,1);
  if(a->op==ONot1) return a->a;
  if(a->op==OUlt) return mkBin(OUle,a->b,a->a);
  if(a->op==OUle) return mkBin(OUlt,a->b,a->a);
  if(a->op==OSlt) return mkBin(OSle,a->b,a->a);
  if(a->op==OSle) return mkBin(OSlt,a->b,a->a);
  if(a->op==OIte && isC(a->b) && isC(a->c)) return mkIte(a->a,mkConst(!a->b->val,1),mkConst(!a->c->val,1));
  return EC.mk(ONot1,1,0,a);
}

static bool isComm(Op o){ return o==OAdd||o==OMul||o==OAnd||o==OOr||o==OXor||o==OEq||o==OFAdd||o==OFMul||o==OFEq; }

// distribute an operation with one constant operand over an ite tree with constant leaves
static Expr*distrib(Op op,Expr*t,Expr*k,bool tLeft,std::unordered_map<Expr*,Expr*>&memo){
  if(isC(t)) return tLeft? mkBin(op,t,k):mkBin(op,k,t);
  auto it=memo.find(t); if(it!=memo.end()) return it->second;
  Expr*r=mkIte(t->a,distrib(op,t->b,k,tLeft,memo),distrib(op,t->c,k,tLeft,memo));
  memo[t]=r; return r;
}
bool smallIntFP(Expr*e,Expr*&src){ // exact small integer converted to FP
  if(e->op==OSIToFP||e->op==OUIToFP){
    Expr*s=e->a; unsigned lim= e->width==32?22:50;
    if(s->umax < (1ull<<lim)){ src= s->width<64? mkZExt(s,64):s; return true; }
    if(e->op==OSIToFP && s->op==OSExt && s->a->width<=lim+1){ src= s->width<64? mkSExt(s,64):s; return true; }
    if(e->op==OSIToFP && s->width<=lim+1){ src=mkSExt(s,64); return true; }
    // (x - c) patterns are given by harness through rk_sym_float and are kept as SIToFP of 64 bit with tracked range in val
    if(e->val){ src=s; return true; }
    return false;
  }
  if(isC(e)){ double d= e->width==32? (double)f32(e->val):f64(e->val); if(d==floor(d)&&fabs(d)<(e->width==32?4e6:1e15)){ src=mkConst((u64)(i64)d,64); return true; } }
  return false;
}

// Comparison of floating-point values that depend on few variables with small ranges: evaluated for every assignment and turned into a decision diagram over the variables.
bool FPTABLES=false;
static void support(Expr*e,std::unordered_map<Expr*,bool>&seen,std::vector<u32>&vars){ if(!e||isC(e)||!seen.emplace(e,true).second) return; if(e->op==OVar){ vars.push_back(e->val); return; } support(e->a,seen,vars); support(e->b,seen,vars); support(e->c,seen,vars); }
static Expr*diagram(const std::vector<u32>&vars,size_t k,u64 lo,u64 hi,Model&m,Op op,Expr*a,Expr*b){
  if(k==vars.size()){ m.id=Model::next++; return mkConst(foldBin(op,evalExpr(a,m),evalExpr(b,m),a->width),1); }
  if(lo==hi){ m.set(vars[k],lo); if(k+1<vars.size()) return diagram(vars,k+1,EC.vars[vars[k+1]].lo,EC.vars[vars[k+1]].hi,m,op,a,b); return diagram(vars,k+1,0,0,m,op,a,b); }
  u64 mid=lo+(hi-lo)/2; Expr*l=diagram(vars,k,lo,mid,m,op,a,b),*r=diagram(vars,k,mid+1,hi,m,op,a,b); Expr*v=EC.vars[vars[k]].e; return mkIte(mkBin(OUle,v,mkConst(mid,v->width)),l,r); }
static Expr*tabulate(Op op,Expr*a,Expr*b){ static std::map<std::pair<std::pair<Expr*,Expr*>,int>,Expr*> memo; auto key=std::make_pair(std::make_pair(a,b),(int)op); auto it=memo.find(key); if(it!=memo.end()) return it->second;
  std::unordered_map<Expr*,bool> seen; std::vector<u32> vars; support(a,seen,vars); support(b,seen,vars); std::sort(vars.begin(),vars.end()); double d=1; for(u32 v:vars) d*=(double)(EC.vars[v].hi-EC.vars[v].lo)+1; if(d>200000) return nullptr;
  Model m; for(u32 v:vars) m.set(v,EC.vars[v].lo); Expr*r= vars.empty()? diagram(vars,0,0,0,m,op,a,b) : diagram(vars,0,EC.vars[vars[0]].lo,EC.vars[vars[0]].hi,m,op,a,b); return memo[key]=r; }
static const struct { const char*n; double(*f)(double); float(*g)(float); double(*f2)(double,double); float(*g2)(float,float); } FFUN[]={{"sin",sin},{"cos",cos},{"tan",tan},{"asin",asin},{"acos",acos},{"atan",atan},{"sinf",0,sinf},{"cosf",0,cosf},{"tanf",0,tanf},{"asinf",0,asinf},{"acosf",0,acosf},{"atanf",0,atanf},{"atan2",0,0,atan2},{"atan2f",0,0,0,atan2f},{"hypot",0,0,hypot},{"pow",0,0,pow}};
u64 applyFun(unsigned i,u64 x,u64 y){ auto&F=FFUN[i]; return F.f?b64(F.f(f64(x))):F.g?b32(F.g(f32(x))):F.f2?b64(F.f2(f64(x),f64(y))):b32(F.g2(f32(x),f32(y))); }
Expr*mkFun(void*f,Expr*a,Expr*b,unsigned w){ for(unsigned i=0;i<sizeof(FFUN)/sizeof(FFUN[0]);++i) if((void*)FFUN[i].f==f||(void*)FFUN[i].g==f||(void*)FFUN[i].f2==f||(void*)FFUN[i].g2==f){ if(isC(a)&&(!b||isC(b))) return mkConst(applyFun(i,a->val,b?b->val:0),w); return EC.mk(OFFun,w,i,a,b); } return nullptr; }
Expr*mkBin(Op op,Expr*a,Expr*b){
  assert(a->width==b->width);
  unsigned w=a->width;
  bool cmp = (op>=OEq&&op<=OSle) || (op>=OFLt&&op<=OFUno);
  unsigned rw= cmp?1:w;
  if(w<=64 && isC(a)&&isC(b)) return mkConst(foldBin(op,a->val,b->val,w),rw);
  if(isComm(op) && isC(a)) std::swap(a,b);
  if(isComm(op) && !isC(b) && a->id>b->id) std::swap(a,b);
  if(w>64){
    if(op==OEq && a==b) return mkConst(1,1);
    return EC.mk(op,rw,0,a,b);
  }
  u64 M=maskw(w);
  if(isC(b) && a->op==OIte && a->leaves && !(op==OMul)) { std::unordered_map<Expr*,Expr*> memo; return distrib(op,a,b,true,memo); }
  if(isC(a) && b->op==OIte && b->leaves) { std::unordered_map<Expr*,Expr*> memo; return distrib(op,b,a,false,memo); }
  switch(op){
    case OAdd:
      if(isC(b)){ if(b->val==0) return a; if(a->op==OAdd&&isC(a->b)) return mkBin(OAdd,a->a,mkConst(a->b->val+b->val,w)); }
      else { if(a->op==OAdd&&isC(a->b)) return mkBin(OAdd,mkBin(OAdd,a->a,b),a->b);
             if(b->op==OAdd&&isC(b->b)) return mkBin(OAdd,mkBin(OAdd,a,b->a),b->b);
             if(b->op==OSub&&b->b==a) return b->a; if(a->op==OSub&&a->b==b) return a->a; }
      break;
    case OSub:
      if(a==b) return mkConst(0,w);
      if(isC(b)) return mkBin(OAdd,a,mkConst(0-b->val,w));
      if(a->op==OAdd){ if(a->a==b) return a->b; if(a->b==b) return a->a; 
        if(b->op==OAdd){ if(a->a==b->a) return mkBin(OSub,a->b,b->b); if(a->b==b->b) return mkBin(OSub,a->a,b->a);} 
        if(isC(a->b)) return mkBin(OAdd,mkBin(OSub,a->a,b),a->b); }
      if(b->op==OAdd&&isC(b->b)) return mkBin(OAdd,mkBin(OSub,a,b->a),mkConst(0-b->b->val,w));
      break;
    case OMul:
      if(isC(b)){ if(b->val==0) return b; if(b->val==1) return a; if((b->val&(b->val-1))==0) return mkBin(OShl,a,mkConst(__builtin_ctzll(b->val),w)); }
      break;
    case OUDiv: if(isC(b)){ if(b->val==1) return a; if(b->val&&(b->val&(b->val-1))==0) return mkBin(OLShr,a,mkConst(__builtin_ctzll(b->val),w)); } break;
    case OURem: if(isC(b)&&b->val){ if((b->val&(b->val-1))==0) return mkBin(OAnd,a,mkConst(b->val-1,w)); if(a->umax<b->val) return a; } break;
    case OSDiv: case OSRem: if(a->umax<=M>>1 && b->umax<=M>>1) return mkBin(op==OSDiv?OUDiv:OURem,a,b); break;
    case OAnd:
      if(a==b) return a;
      if(w==1){ if(a->op==ONot1&&a->a==b) return mkConst(0,1); if(b->op==ONot1&&b->a==a) return mkConst(0,1); }
      if(isC(b)){ if(b->val==0) return b; if(b->val==M) return a;
        if((b->val&(b->val+1))==0){ if(a->umax<=b->val) return a; unsigned k=__builtin_ctzll(~b->val); if(w>1) return mkZExt(mkExtract(a,0,k),w); }
        if(a->op==OAnd&&isC(a->b)) return mkBin(OAnd,a->a,mkConst(a->b->val&b->val,w));
        if((a->umax&b->val)==0 && a->umax < (b->val & (~b->val+1))) return mkConst(0,w);
        if(a->op==OOr&&isC(a->b)) return mkBin(OOr,mkBin(OAnd,a->a,b),mkConst(a->b->val&b->val,w));
        if(a->op==OZExt){ u64 am=maskw(a->a->width); if((b->val&am)==am) return a; return mkZExt(mkBin(OAnd,a->a,mkConst(b->val&am,a->a->width)),w); }
      }
      break;
    case OOr:
      if(a==b) return a;
      if(w==1){ if(a->op==ONot1&&a->a==b) return mkConst(1,1); if(b->op==ONot1&&b->a==a) return mkConst(1,1); }
      if(isC(b)){ if(b->val==0) return a; if(b->val==M) return b; if(a->op==OOr&&isC(a->b)) return mkBin(OOr,a->a,mkConst(a->b->val|b->val,w)); }
      break;
    case OXor:
      if(a==b) return mkConst(0,w);
      if(isC(b)){ if(b->val==0) return a; if(w==1) return mkNot1(a); if(a->op==OXor&&isC(a->b)) return mkBin(OXor,a->a,mkConst(a->b->val^b->val,w)); }
      break;
    case OShl: if(isC(b)){ if(b->val==0) return a; if(b->val>=w) return mkConst(0,w); if(a->op==OShl&&isC(a->b)) return (a->b->val+b->val>=w)?mkConst(0,w):mkBin(OShl,a->a,mkConst(a->b->val+b->val,w)); }
      if(isC(a)&&a->val==0) return a; break;
    case OLShr: if(isC(b)){ if(b->val==0) return a; if(b->val>=w) return mkConst(0,w); if(a->op==OLShr&&isC(a->b)) return (a->b->val+b->val>=w)?mkConst(0,w):mkBin(OLShr,a->a,mkConst(a->b->val+b->val,w));
        if(a->op==OShl&&isC(a->b)&&a->b->val==b->val && a->a->umax<=(M>>b->val)) return a->a;
        return fin(mkZExt(mkExtract(a,b->val,w-b->val),w)); }
      if(isC(a)&&a->val==0) return a; break;
    case OAShr: if(isC(b)&&b->val==0) return a; if(a->umax<=(M>>1)) return mkBin(OLShr,a,b); break;
    case OEq:
      if(a==b) return mkConst(1,1);
      if(a->umax<b->umin||b->umax<a->umin) return mkConst(0,1);
      if(w==1){ if(isC(b)) return b->val? a: mkNot1(a); if(a->op==ONot1&&a->a==b) return mkConst(0,1); if(b->op==ONot1&&b->a==a) return mkConst(0,1); }
      if(isC(b)){
        if(a->op==OZExt||a->op==OSExt){ unsigned aw=a->a->width; u64 t=b->val&maskw(aw); u64 back= a->op==OZExt? t : ((u64)sextw(t,aw)&M); if(back!=b->val) return mkConst(0,1); return mkBin(OEq,a->a,mkConst(t,aw)); }
        if(a->op==OAdd&&isC(a->b)) return mkBin(OEq,a->a,mkConst(b->val-a->b->val,w));
        if(a->op==OXor&&isC(a->b)) return mkBin(OEq,a->a,mkConst(b->val^a->b->val,w));
        if(a->op==OSub&&b->val==0) return mkBin(OEq,a->a,a->b);
        if(a->op==OShl&&isC(a->b)){ u64 s=a->b->val; if(b->val&((1ull<<s)-1)) return mkConst(0,1); if(a->a->umax<=(M>>s)) return mkBin(OEq,a->a,mkConst(b->val>>s,w)); }
        if(a->op==OConcat&&a->width<=64){ unsigned lw=a->b->width; return mkBin(OAnd,mkBin(OEq,a->a,mkConst(b->val>>lw,a->a->width)),mkBin(OEq,a->b,mkConst(b->val,lw))); }
        if(a->op==OIte && (isC(a->b)||isC(a->c))){ 
          if(isC(a->b)) return a->b->val==b->val? mkBin(OOr,a->a,mkBin(OEq,a->c,b)) : mkBin(OAnd,mkNot1(a->a),mkBin(OEq,a->c,b));
          return a->c->val==b->val? mkBin(OOr,mkNot1(a->a),mkBin(OEq,a->b,b)) : mkBin(OAnd,a->a,mkBin(OEq,a->b,b)); }
      } else {
        if((a->op==OZExt&&b->op==OZExt||a->op==OSExt&&b->op==OSExt)&&a->a->width==b->a->width) return mkBin(OEq,a->a,b->a);
        if(a->op==OAdd&&b->op==OAdd){ if(a->a==b->a) return mkBin(OEq,a->b,b->b); if(a->b==b->b) return mkBin(OEq,a->a,b->a); }
      }
      break;
    case OUlt:
      if(a==b) return mkConst(0,1);
      if(a->umax<b->umin) return mkConst(1,1);
      if(a->umin>=b->umax) return mkConst(0,1);
      if(w==1) return mkBin(OAnd,mkNot1(a),b);
      if(isC(b)&&b->val==1) return mkBin(OEq,a,mkConst(0,w));
      if(isC(a)&&a->val==0) return mkNot1(mkBin(OEq,b,a));
      if(a->op==OZExt&&b->op==OZExt&&a->a->width==b->a->width) return mkBin(OUlt,a->a,b->a);
      if(a->op==OZExt&&isC(b)&&b->val<=maskw(a->a->width)) return mkBin(OUlt,a->a,mkConst(b->val,a->a->width));
      if(b->op==OZExt&&isC(a)&&a->val<=maskw(b->a->width)) return mkBin(OUlt,mkConst(a->val,b->a->width),b->a);
      break;
    case OUle:
      if(a==b) return mkConst(1,1);
      if(a->umax<=b->umin) return mkConst(1,1);
      if(a->umin>b->umax) return mkConst(0,1);
      if(w==1) return mkBin(OOr,mkNot1(a),b);
      if(isC(b)&&b->val==0) return mkBin(OEq,a,b);
      if(isC(b)&&b->val<M) return mkBin(OUlt,a,mkConst(b->val+1,w));
      if(isC(a)&&a->val>0) return mkBin(OUlt,mkConst(a->val-1,w),b);
      if(a->op==OZExt&&b->op==OZExt&&a->a->width==b->a->width) return mkBin(OUle,a->a,b->a);
      break;
    case OSlt: case OSle:
      if(a==b) return mkConst(op==OSle,1);
      if(a->umax<=M>>1 && b->umax<=M>>1) return mkBin(op==OSlt?OUlt:OUle,a,b);
      if(a->umax<=M>>1 && b->umin>M>>1) return mkConst(0,1);
      if(a->umin>M>>1 && b->umax<=M>>1) return mkConst(1,1);
      if(a->op==OSExt&&b->op==OSExt&&a->a->width==b->a->width) return mkBin(op,a->a,b->a);
      if(a->op==OSExt&&isC(b)&&(u64)(sextw(b->val&maskw(a->a->width),a->a->width)&M)==b->val) return mkBin(op,a->a,mkConst(b->val,a->a->width));
      if(b->op==OSExt&&isC(a)&&(u64)(sextw(a->val&maskw(b->a->width),b->a->width)&M)==a->val) return mkBin(op,mkConst(a->val,b->a->width),b->a);
      break;
    case OFLt: case OFLe: case OFEq: case OFUno: {
      Expr*x,*y; if(smallIntFP(a,x)&&smallIntFP(b,y)){ if(op==OFUno) return mkConst(0,1); return mkBin(op==OFLt?OSlt:op==OFLe?OSle:OEq,x,y); } if(FPTABLES) if(Expr*t=tabulate(op,a,b)) return t; break; }
    case OFAdd: case OFSub: {
      Expr*x,*y; if(smallIntFP(a,x)&&smallIntFP(b,y)&&(isC(a)?1:a->val)+(isC(b)?1:b->val)<(w==32?3u:1000u)){ Expr*s=mkBin(op==OFAdd?OAdd:OSub,x,y); return EC.mk(OSIToFP,w,1+(isC(a)?1:a->val)+(isC(b)?1:b->val),s); } break; }
    default: break;
  }
  return fin(EC.mk(op,rw,0,a,b));
}

Expr*mkUn(Op op,Expr*a,unsigned w){
  if(isC(a)) return mkConst(foldUn(op,a->val,a->width,w),w);
  if(a->op==OIte&&isC(a->b)&&isC(a->c)) return mkIte(a->a,mkUn(op,a->b,w),mkUn(op,a->c,w));
  if((op==OFPExt||op==OFPTrunc)&&(a->op==OSIToFP||a->op==OUIToFP)){ Expr*x; if(smallIntFP(a,x)) return EC.mk(OSIToFP,w,a->val?a->val:1,x); }
  if((op==OFPToSI||op==OFPToUI)){ Expr*x; if(smallIntFP(a,x)) return w<=64? (w==64?x:mkExtract(x,0,w)):x; }
  return EC.mk(op,w,0,a);
}

Expr*mkIte(Expr*c,Expr*a,Expr*b){
  assert(c->width==1&&a->width==b->width);
  if(isC(c)) return c->val? a:b;
  if(a==b) return a;
  if(c->op==ONot1) return mkIte(c->a,b,a);
  if(a->width==1){
    if(isC(a)) return a->val? mkBin(OOr,c,b) : mkBin(OAnd,mkNot1(c),b);
    if(isC(b)) return b->val? mkBin(OOr,mkNot1(c),a) : mkBin(OAnd,c,a);
    if(a==c) return mkBin(OOr,c,b);
    if(b==c) return mkBin(OAnd,c,a);
  }
  if(a->op==OIte&&a->a==c) a=a->b;
  if(b->op==OIte&&b->a==c) b=b->c;
  if(a==b) return a;
  if(a->op==OIte&&a->c==b) return mkIte(mkBin(OAnd,c,a->a),a->b,b); // ite(c,ite(d,x,y),y)
  if(b->op==OIte&&b->b==a) return mkIte(mkBin(OOr,c,b->a),a,b->c);
  return EC.mk(OIte,a->width,0,c,a,b);
}
Expr*mkZExt(Expr*a,unsigned w){
  if(a->width==w) return a; assert(a->width<w);
  if(w<=64){
    if(isC(a)) return mkConst(a->val,w);
    if(a->op==OZExt) return mkZExt(a->a,w);
    if(a->op==OIte&&a->leaves) return mkIte(a->a,mkZExt(a->b,w),mkZExt(a->c,w));
    return EC.mk(OZExt,w,0,a);
  }
  if(isC(a)){ Expr*r=a; // build from 64-bit pieces
    if(a->width<64) r=mkConst(a->val,64);
    unsigned cur=64; while(cur<w){ unsigned n=std::min(64u,w-cur); r=mkConcat(mkConst(0,n),r); cur+=n; } return r; }
  Expr*r=a; unsigned cur=a->width; while(cur<w){ unsigned n=std::min(64u,w-cur); r=mkConcat(mkConst(0,n),r); cur+=n; } return r;
}
Expr*mkSExt(Expr*a,unsigned w){
  if(a->width==w) return a;
  if(w<=64){
    if(isC(a)) return mkConst((u64)sextw(a->val,a->width),w);
    if(a->umax<=(maskw(a->width)>>1)) return mkZExt(a,w);
    if(a->op==OSExt) return mkSExt(a->a,w);
    if(a->op==OIte&&a->leaves) return mkIte(a->a,mkSExt(a->b,w),mkSExt(a->c,w));
  }
  return EC.mk(OSExt,w,0,a);
}
Expr*mkExtract(Expr*a,unsigned lo,unsigned w){
  if(lo==0&&w==a->width) return a;
  assert(lo+w<=a->width);
  if(a->width<=64){
    if(isC(a)) return mkConst(a->val>>lo,w);
    if(a->umax<(lo>=64?0:1ull<<lo)) return mkConst(0,w);
  }
  switch(a->op){
    case OExtract: return mkExtract(a->a,a->val+lo,w);
    case OZExt: if(lo+w<=a->a->width) return mkExtract(a->a,lo,w); if(lo>=a->a->width) return w<=64?mkConst(0,w):mkZExt(mkConst(0,1),w); return mkZExt(mkExtract(a->a,lo,a->a->width-lo),w);
    case OSExt: if(lo+w<=a->a->width) return mkExtract(a->a,lo,w); if(lo==0&&w>a->a->width) return mkSExt(a->a,w); break;
    case OConcat: { unsigned lw=a->b->width; if(lo+w<=lw) return mkExtract(a->b,lo,w); if(lo>=lw) return mkExtract(a->a,lo-lw,w); return mkConcat(mkExtract(a->a,0,lo+w-lw),mkExtract(a->b,lo,lw-lo)); }
    case OIte: if(a->leaves||a->width>64||isC(a->b)||isC(a->c)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w)); break;
    case OAnd: case OOr: case OXor: if(a->width<=64&&isC(a->b)) return mkBin(a->op,mkExtract(a->a,lo,w),mkConst(a->b->val>>lo,w)); 
       if(a->width>64) return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w)); break;
    case OShl: if(isC(a->b)&&a->width<=64){ unsigned s=a->b->val; if(lo>=s) return mkExtract(a->a,lo-s,w); if(lo+w<=s) return mkConst(0,w); } break;
    case OAdd: case OSub: case OMul: if(lo==0&&a->width<=64&&(a->a->op==OZExt||a->a->op==OSExt||isC(a->b)||a->b->op==OZExt||a->b->op==OSExt)) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    default: break;
  }
  return fin(EC.mk(OExtract,w,lo,a));
}
Expr*mkConcat(Expr*hi,Expr*lo){
  unsigned w=hi->width+lo->width;
  if(w<=64){
    if(isC(hi)&&isC(lo)) return mkConst((hi->val<<lo->width)|lo->val,w);
    if(isC(hi)&&hi->val==0) return mkZExt(lo,w);
  }
  if(hi->op==OExtract&&lo->op==OExtract&&hi->a==lo->a&&hi->val==lo->val+lo->width) return mkExtract(hi->a,lo->val,w);
  if(lo->op==OExtract&&hi->op==OConcat&&hi->b->op==OExtract&&hi->b->a==lo->a&&hi->b->val==lo->val+lo->width) return mkConcat(hi->a,mkExtract(lo->a,lo->val,hi->b->width+lo->width));
  if(hi->op==OZExt&&w<=64){ // concat(zext x, lo) = zext(concat(x,lo))
    return mkZExt(mkConcat(hi->a,lo),w);
  }
  // ite(c,k1,k2) . ite(c,k3,k4)
  if(w<=64&&hi->op==OIte&&lo->op==OIte&&hi->a==lo->a) return mkIte(hi->a,mkConcat(hi->b,lo->b),mkConcat(hi->c,lo->c));
  return EC.mk(OConcat,w,0,hi,lo);
}

u64 applyFun(unsigned id,u64 x,u64 y);
static u64 evalRec(Expr*e,const Model&m){
  if(e->op==OConst) return e->val;
  if(e->evModel==m.id) return e->ev;
  u64 r=0; unsigned w=e->width;
  switch(e->op){
    case OVar: r=m.get(e->val); break;
    case ONot1: r=!evalRec(e->a,m); break;
    case OIte: r= evalRec(e->a,m)? evalRec(e->b,m):evalRec(e->c,m); break;
    case OZExt: r=evalRec(e->a,m); break;
    case OSExt: r=(u64)sextw(evalRec(e->a,m),e->a->width)&maskw(w); break;
    case OExtract: 
      if(e->a->width>64){ // wide: only concat/ite structure supported
        Expr*x=e->a; 
        if(x->op==OIte) r=evalRec(mkExtract(evalRec(x->a,m)?x->b:x->c,e->val,w),m);
        else { fprintf(stderr,"eval wide extract op %d\n",x->op); abort(); }
        r&=maskw(w);
      } else r=(evalRec(e->a,m)>>e->val)&maskw(w); break;
    case OFFun: r=applyFun(e->val,evalRec(e->a,m),e->b?evalRec(e->b,m):0); break;
    case OConcat: r=(evalRec(e->a,m)<<e->b->width)|evalRec(e->b,m); break;
    case OSIToFP: case OUIToFP: case OFPToSI: case OFPToUI: case OFPExt: case OFPTrunc: case OFSqrt: case OFAbs: case OFNeg: r=foldUn(e->op,evalRec(e->a,m),e->a->width,w); break;
    default:
      if(e->a->width>64){ // equality etc. of wide values: compare piecewise
        bool eq=true; unsigned W=e->a->width; for(unsigned lo=0;lo<W;lo+=64){ unsigned n=std::min(64u,W-lo); if(evalRec(mkExtract(e->a,lo,n),m)!=evalRec(mkExtract(e->b,lo,n),m)) eq=false; }
        if(e->op!=OEq){ fprintf(stderr,"eval wide op %d\n",e->op); abort(); } r=eq; break; }
      r=foldBin(e->op,evalRec(e->a,m),evalRec(e->b,m),e->a->width);
  }
  e->ev=r; e->evModel=m.id; return r;
}
u64 evalExpr(Expr*e,const Model&m){ return evalRec(e,m); }

std::string exprStr(Expr*e,int d){
  static const char*n[]={"const","var","+","-","*","u/","s/","u%","s%","&","|","^","<<","u>>","s>>","!","==","u<","u<=","s<","s<=","ite","zext","sext","extract","concat","f+","f-","f*","f/","f<","f<=","f==","funo","si2f","ui2f","f2si","f2ui","fext","ftrunc","fsqrt","fabs","fneg","ffun"};
  if(!e) return ""; if(isC(e)) return std::to_string(e->val); if(e->op==OVar) return EC.vars[e->val].name; if(d==0) return "..";
  std::string s="("; s+=n[e->op]; if(e->op==OExtract) s+=std::to_string(e->val); if(e->a) s+=" "+exprStr(e->a,d-1); if(e->b) s+=" "+exprStr(e->b,d-1); if(e->c) s+=" "+exprStr(e->c,d-1); return s+")";
}
