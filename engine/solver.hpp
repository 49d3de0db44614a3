// Incremental SMT back end (Z3 C API). One assertion stack is kept aligned with the path condition.
#pragma once
#include "expr.hpp"
#include "bits.hpp"
#include <z3.h>
#include <unistd.h>
#include <memory>
#include <algorithm>
#include <sys/time.h>
typedef std::shared_ptr<Model> ModelP;
static inline double nowS(){ timeval t; gettimeofday(&t,nullptr); return t.tv_sec+t.tv_usec*1e-6; }
enum SRes { S_UNSAT, S_SAT, S_UNKNOWN };

struct Solver {
  Z3_context ctx; Z3_solver sol;
  struct Scope { Expr*e; std::vector<u32> ranged; };
  std::vector<Scope> scopes; std::vector<u8> ranged; // ranged[v] : range of var v asserted on the current stack
  u64 queries=0, sats=0, unsats=0, unknowns=0; double time=0, maxTime=0; unsigned timeoutMs=120000;
  std::vector<std::vector<u32>*> supp; // by expr id
  std::vector<u8> fpFlag;
  static void onErr(Z3_context c,Z3_error_code e){ fprintf(stderr,"Z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(3); }
  void init(){
    Z3_config cfg=Z3_mk_config(); ctx=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx,onErr);
    Z3_symbol l=Z3_mk_string_symbol(ctx,"QF_BV"); sol=Z3_mk_solver_for_logic(ctx,l); Z3_solver_inc_ref(ctx,sol); setTimeout(sol,timeoutMs);
  }
  void setTimeout(Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); }
  const std::vector<u32>& support(Expr*e){
    if(e->id>=supp.size()) supp.resize(EC.nextId+1024,nullptr);
    if(supp[e->id]) return *supp[e->id];
    std::vector<u32> r;
    if(e->op==OVar) r.push_back(e->val);
    for(Expr*x:{e->a,e->b,e->c}) if(x&&x->op!=OConst){ const auto&s=support(x); std::vector<u32> t; t.reserve(r.size()+s.size()); std::set_union(r.begin(),r.end(),s.begin(),s.end(),std::back_inserter(t)); r.swap(t); }
    if(e->id>=supp.size()) supp.resize(EC.nextId+1024,nullptr);
    // share the support vector of a child when identical
    for(Expr*x:{e->a,e->b,e->c}) if(x&&x->op!=OConst&&supp[x->id]&&*supp[x->id]==r) return *(supp[e->id]=supp[x->id]);
    return *(supp[e->id]=new std::vector<u32>(std::move(r)));
  }
  bool hasFP(Expr*e){
    if(e->op==OConst||e->op==OVar) return false;
    if(e->id>=fpFlag.size()) fpFlag.resize(EC.nextId+1024,0);
    if(fpFlag[e->id]) return fpFlag[e->id]==2;
    bool r=e->op>=OFAdd; for(Expr*x:{e->a,e->b,e->c}) if(x&&!r) r=hasFP(x);
    if(e->id>=fpFlag.size()) fpFlag.resize(EC.nextId+1024,0);
    fpFlag[e->id]=r?2:1; return r;
  }
  Z3_ast ref(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
  Z3_sort bv(unsigned w){ return Z3_mk_bv_sort(ctx,w); }
  Z3_ast b2v(Z3_ast c){ return Z3_mk_ite(ctx,c,Z3_mk_unsigned_int64(ctx,1,bv(1)),Z3_mk_unsigned_int64(ctx,0,bv(1))); }
  // boolean-valued translation for width-1 expressions
  std::vector<Z3_ast> boolCache;
  Z3_ast trB(Expr*e){
    if(e->id>=boolCache.size()) boolCache.resize(EC.nextId+1024,nullptr);
    if(boolCache[e->id]) return boolCache[e->id];
    Z3_ast r;
    switch(e->op){
      case OConst: r= e->val? Z3_mk_true(ctx):Z3_mk_false(ctx); break;
      case ONot1: r=Z3_mk_not(ctx,trB(e->a)); break;
      case OAnd: { Z3_ast x[2]={trB(e->a),trB(e->b)}; r=Z3_mk_and(ctx,2,x); break; }
      case OOr: { Z3_ast x[2]={trB(e->a),trB(e->b)}; r=Z3_mk_or(ctx,2,x); break; }
      case OXor: r=Z3_mk_xor(ctx,trB(e->a),trB(e->b)); break;
      case OEq: r= e->a->width==1? Z3_mk_iff(ctx,trB(e->a),trB(e->b)) : Z3_mk_eq(ctx,tr(e->a),tr(e->b)); break;
      case OUlt: r= Z3_mk_bvult(ctx,tr(e->a),tr(e->b)); break;
      case OUle: r= Z3_mk_bvule(ctx,tr(e->a),tr(e->b)); break;
      case OSlt: r= Z3_mk_bvslt(ctx,tr(e->a),tr(e->b)); break;
      case OSle: r= Z3_mk_bvsle(ctx,tr(e->a),tr(e->b)); break;
      case OIte: r=Z3_mk_ite(ctx,trB(e->a),trB(e->b),trB(e->c)); break;
      case OFLt: r=Z3_mk_fpa_lt(ctx,fp(e->a),fp(e->b)); break;
      case OFLe: r=Z3_mk_fpa_leq(ctx,fp(e->a),fp(e->b)); break;
      case OFEq: r=Z3_mk_fpa_eq(ctx,fp(e->a),fp(e->b)); break;
      case OFUno: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ctx,fp(e->a)),Z3_mk_fpa_is_nan(ctx,fp(e->b))}; r=Z3_mk_or(ctx,2,x); break; }
      default: r=Z3_mk_eq(ctx,tr(e),Z3_mk_unsigned_int64(ctx,1,bv(1))); break;
    }
    ref(r); if(e->id>=boolCache.size()) boolCache.resize(EC.nextId+1024,nullptr); return boolCache[e->id]=r;
  }
  Z3_sort fps(unsigned w){ return w==32? Z3_mk_fpa_sort_32(ctx):Z3_mk_fpa_sort_64(ctx); }
  Z3_ast fp(Expr*e){ return Z3_mk_fpa_to_fp_bv(ctx,tr(e),fps(e->width)); }
  Z3_ast tr(Expr*e){
    if(e->z3) return (Z3_ast)e->z3;
    Z3_ast r=nullptr; unsigned w=e->width;
    if(w==1 && (e->op==ONot1||e->op==OAnd||e->op==OOr||e->op==OXor||(e->op>=OEq&&e->op<=OIte)||(e->op>=OFLt&&e->op<=OFUno))){ r=b2v(trB(e)); e->z3=ref(r); return r; }
    switch(e->op){
      case OConst: r=Z3_mk_unsigned_int64(ctx,e->val,bv(w)); break;
      case OVar: { const VarInfo&v=EC.vars[e->val]; unsigned k=w; if(w<=64){ k= v.hi? 64-__builtin_clzll(v.hi):1; if(k>w)k=w; }
        Z3_ast x=Z3_mk_const(ctx,Z3_mk_int_symbol(ctx,(int)e->val),bv(k)); r= k<w? Z3_mk_zero_ext(ctx,w-k,x):x; break; }
      case OAdd: r=Z3_mk_bvadd(ctx,tr(e->a),tr(e->b)); break;
      case OSub: r=Z3_mk_bvsub(ctx,tr(e->a),tr(e->b)); break;
      case OMul: r=Z3_mk_bvmul(ctx,tr(e->a),tr(e->b)); break;
      case OUDiv: r=Z3_mk_bvudiv(ctx,tr(e->a),tr(e->b)); break;
      case OSDiv: r=Z3_mk_bvsdiv(ctx,tr(e->a),tr(e->b)); break;
      case OURem: r=Z3_mk_bvurem(ctx,tr(e->a),tr(e->b)); break;
      case OSRem: r=Z3_mk_bvsrem(ctx,tr(e->a),tr(e->b)); break;
      case OAnd: r=Z3_mk_bvand(ctx,tr(e->a),tr(e->b)); break;
      case OOr: r=Z3_mk_bvor(ctx,tr(e->a),tr(e->b)); break;
      case OXor: r=Z3_mk_bvxor(ctx,tr(e->a),tr(e->b)); break;
      case OShl: r=Z3_mk_bvshl(ctx,tr(e->a),tr(e->b)); break;
      case OLShr: r=Z3_mk_bvlshr(ctx,tr(e->a),tr(e->b)); break;
      case OAShr: r=Z3_mk_bvashr(ctx,tr(e->a),tr(e->b)); break;
      case OIte: r=Z3_mk_ite(ctx,trB(e->a),tr(e->b),tr(e->c)); break;
      case OZExt: r=Z3_mk_zero_ext(ctx,w-e->a->width,tr(e->a)); break;
      case OSExt: r=Z3_mk_sign_ext(ctx,w-e->a->width,tr(e->a)); break;
      case OExtract: r=Z3_mk_extract(ctx,e->val+w-1,e->val,tr(e->a)); break;
      case OConcat: r=Z3_mk_concat(ctx,tr(e->a),tr(e->b)); break;
      case OFAdd: case OFSub: case OFMul: case OFDiv: {
        Z3_ast rm=Z3_mk_fpa_rne(ctx); Z3_ast x=fp(e->a),y=fp(e->b);
        Z3_ast z= e->op==OFAdd? Z3_mk_fpa_add(ctx,rm,x,y): e->op==OFSub? Z3_mk_fpa_sub(ctx,rm,x,y): e->op==OFMul? Z3_mk_fpa_mul(ctx,rm,x,y): Z3_mk_fpa_div(ctx,rm,x,y);
        r=Z3_mk_fpa_to_ieee_bv(ctx,z); break; }
      case OSIToFP: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_signed(ctx,Z3_mk_fpa_rne(ctx),tr(e->a),fps(w))); break;
      case OUIToFP: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_unsigned(ctx,Z3_mk_fpa_rne(ctx),tr(e->a),fps(w))); break;
      case OFPToSI: r=Z3_mk_fpa_to_sbv(ctx,Z3_mk_fpa_rtz(ctx),fp(e->a),w); break;
      case OFPToUI: r=Z3_mk_fpa_to_ubv(ctx,Z3_mk_fpa_rtz(ctx),fp(e->a),w); break;
      case OFPExt: case OFPTrunc: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_float(ctx,Z3_mk_fpa_rne(ctx),fp(e->a),fps(w))); break;
      case OFSqrt: r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_sqrt(ctx,Z3_mk_fpa_rne(ctx),fp(e->a))); break;
      case OFAbs: r=Z3_mk_bvand(ctx,tr(e->a),Z3_mk_unsigned_int64(ctx,maskw(w)>>1,bv(w))); break;
      case OFNeg: r=Z3_mk_bvxor(ctx,tr(e->a),Z3_mk_unsigned_int64(ctx,1ull<<(w-1),bv(w))); break;
      default: fprintf(stderr,"tr op %d\n",e->op); _exit(3);
    }
    ref(r); e->z3=r; return r;
  }
  void assertRanges(Z3_solver s,Expr*e,std::vector<u32>&added,std::vector<u8>&seen){
    for(u32 v:support(e)){
      if(v>=seen.size()) seen.resize(v+256,0);
      if(seen[v]) continue; seen[v]=1; added.push_back(v);
      const VarInfo&vi=EC.vars[v]; if(vi.width>64) continue; Z3_ast x=tr(vi.e); unsigned w=vi.width;
      if(vi.hi<maskw(w) && (vi.hi&(vi.hi+1))!=0) Z3_solver_assert(ctx,s,Z3_mk_bvule(ctx,x,Z3_mk_unsigned_int64(ctx,vi.hi,bv(w))));
      if(vi.lo>0) Z3_solver_assert(ctx,s,Z3_mk_bvuge(ctx,x,Z3_mk_unsigned_int64(ctx,vi.lo,bv(w))));
    }
  }
  ModelP extract(Z3_solver s,const std::vector<Expr*>&pc,Expr*extra,const Model*base){
    Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
    ModelP r=std::make_shared<Model>(); if(base){ r->v=base->v; r->has=base->has; }
    auto take=[&](u32 v){ Expr*ve=EC.vars[v].e; Z3_ast out; if(!Z3_model_eval(ctx,m,tr(ve),true,&out)) return; Z3_inc_ref(ctx,out); uint64_t x=0; if(Z3_get_numeral_uint64(ctx,out,&x)){ const VarInfo&vi=EC.vars[v]; if(x<vi.lo) x=vi.lo; if(x>vi.hi) x=vi.hi; r->set(v,x);} Z3_dec_ref(ctx,out); };
    std::vector<u8> seen(EC.vars.size(),0);
    auto all=[&](Expr*e){ for(u32 v:support(e)) if(!seen[v]){ seen[v]=1; take(v);} };
    for(Expr*e:pc) all(e); if(extra) all(extra);
    Z3_model_dec_ref(ctx,m); return r;
  }
  void align(const std::vector<Expr*>&pc){
    size_t k=0; while(k<scopes.size()&&k<pc.size()&&scopes[k].e==pc[k]) ++k;
    if(k<scopes.size()){ Z3_solver_pop(ctx,sol,scopes.size()-k); while(scopes.size()>k){ for(u32 v:scopes.back().ranged) ranged[v]=0; scopes.pop_back(); } }
    for(;k<pc.size();++k){ Z3_solver_push(ctx,sol); scopes.push_back({pc[k],{}}); assertRanges(sol,pc[k],scopes.back().ranged,ranged); Z3_solver_assert(ctx,sol,trB(pc[k])); }
  }
  SRes oneShot(const std::vector<Expr*>&pc,Expr*extra,ModelP*out,const Model*base,bool fp){
    Z3_solver s= fp? Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_FPBV")):Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV"));
    Z3_solver_inc_ref(ctx,s); setTimeout(s,timeoutMs);
    std::vector<u8> seen; std::vector<u32> added;
    for(Expr*e:pc){ assertRanges(s,e,added,seen); Z3_solver_assert(ctx,s,trB(e)); }
    if(extra){ assertRanges(s,extra,added,seen); Z3_solver_assert(ctx,s,trB(extra)); }
    Z3_lbool r=Z3_solver_check(ctx,s);
    if(r==Z3_L_TRUE&&out) *out=extract(s,pc,extra,base);
    Z3_solver_dec_ref(ctx,s);
    return r==Z3_L_TRUE?S_SAT: r==Z3_L_FALSE?S_UNSAT:S_UNKNOWN;
  }
  BitBlaster BB; u64 xcheckEvery=0, xchecked=0, fpQueries=0; u64 varLimit=40000; i64 confBudget=200000;
  SRes bitCheck(const std::vector<Expr*>&pc,Expr*extra,ModelP*out,const Model*base){
    if(!BB.S||(u64)BB.S->nVars()>varLimit){ BB.reset(); varLimit=40000; }
    vec<Lit> as; for(Expr*e:pc){ Lit l=BB.bits(e)[0]; if(l==BB.T) continue; as.push(l);} if(extra) as.push(BB.bits(extra)[0]);
    if((u64)BB.S->nVars()>varLimit) varLimit=BB.S->nVars()*2; // a single query larger than the limit
    BB.S->setConfBudget(confBudget); Minisat::lbool r=BB.S->solveLimited(as);
    if(r==Minisat::lbool((uint8_t)2)) return S_UNKNOWN;
    if(r==Minisat::lbool((uint8_t)1)) return S_UNSAT;
    if(out){ ModelP m=std::make_shared<Model>(); if(base){ m->v=base->v; m->has=base->has; }
      std::vector<u8> seen(EC.vars.size(),0);
      auto all=[&](Expr*e){ for(u32 v:support(e)) if(!seen[v]){ seen[v]=1; const LV&b=BB.var(v); u64 x=0; for(size_t i=0;i<b.size();++i){ if(b[i]==BB.T) x|=1ull<<i; else if(b[i]!=~BB.T){ int vi=Minisat::var(b[i]); bool t= vi<BB.S->model.size()&&BB.S->model[vi]==Minisat::lbool((uint8_t)0); if(t!=Minisat::sign(b[i])) x|=1ull<<i; } } m->set(v,x); } };
      for(Expr*e:pc) all(e); if(extra) all(extra); *out=m; }
    return S_SAT;
  }
  double deadline=1e300; void interrupt(){ if(BB.S) BB.S->interrupt(); }
  SRes check(const std::vector<Expr*>&pc,Expr*extra,ModelP*out,const Model*base){
    double t0=nowS(); ++queries; if(t0>deadline){ ++unknowns; return S_UNKNOWN; } { double rem=(deadline-t0)*1000; timeoutMs= rem<60000? (unsigned)rem+1:60000; }
    bool fp= extra&&hasFP(extra); if(!fp) for(Expr*e:pc) if(hasFP(e)){ fp=true; break; }
    SRes r;
    if(fp){ ++fpQueries; r=oneShot(pc,extra,out,base,true); }
    else {
      r=bitCheck(pc,extra,out,base);
      if(r==S_UNKNOWN&&nowS()<deadline) r=oneShot(pc,extra,out,base,false);
      else if(xcheckEvery&&queries%xcheckEvery==0){ ++xchecked; SRes z=oneShot(pc,extra,nullptr,nullptr,false); if(z!=S_UNKNOWN&&z!=r){ fprintf(stderr,"solver disagreement: minisat %d z3 %d\n",r,z); _exit(3); } }
      if(r==S_SAT&&out&&*out){ // the model must satisfy the query under the evaluator
        bool ok=true; for(Expr*e:pc) if(!evalExpr(e,**out)) ok=false; if(extra&&!evalExpr(extra,**out)) ok=false; if(!ok){ fprintf(stderr,"model validation failed\n"); _exit(3); } }
    }
    double dt=nowS()-t0; if(dt>1&&getenv("RK_SLOW")){ fprintf(stderr,"slow %.1fs r=%d %s\n",dt,r,extra?exprStr(extra,6).c_str():"-"); for(Expr*e:pc) fprintf(stderr,"   pc %s\n",exprStr(e,5).c_str()); } time+=dt; if(dt>maxTime) maxTime=dt;
    if(r==S_SAT)++sats; else if(r==S_UNSAT)++unsats; else ++unknowns;
    return r;
  }
};
