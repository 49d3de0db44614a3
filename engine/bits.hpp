// Bit-vector decision procedure: Tseitin bit-blasting into MiniSat, incremental under assumptions.
#pragma once
#include "expr.hpp"
#undef l_True
#include <minisat/core/Solver.h>
using Minisat::Lit; using Minisat::mkLit; using Minisat::vec;
typedef std::vector<Lit> LV;
struct BitBlaster {
  Minisat::Solver*S=nullptr; std::vector<LV*> cache; Lit T; std::unordered_map<u64,Lit> andH, xorH; std::unordered_map<u32,LV> varBits; u64 resets=0;
  Lit F(){ return ~T; }
  void reset(){ delete S; for(LV*v:cache) delete v; cache.clear(); andH.clear(); xorH.clear(); varBits.clear(); S=new Minisat::Solver(); S->verbosity=-1; S->ccmin_mode=2; T=nv(); S->addClause(T); ++resets; }
  Lit nv(){ return mkLit(S->newVar()); }
  bool isT(Lit a){ return a==T; } bool isF(Lit a){ return a==~T; }
  void cl(Lit a,Lit b){ S->addClause(a,b);} void cl(Lit a,Lit b,Lit c){ S->addClause(a,b,c);} 
  Lit And(Lit a,Lit b){ if(isF(a)||isF(b)||a==~b) return F(); if(isT(a)||a==b) return b; if(isT(b)) return a; if(b<a) std::swap(a,b); u64 k=((u64)(u32)Minisat::toInt(a)<<32)|(u32)Minisat::toInt(b); auto it=andH.find(k); if(it!=andH.end()) return it->second; Lit r=nv(); cl(~r,a); cl(~r,b); cl(r,~a,~b); andH[k]=r; return r; }
  Lit Or(Lit a,Lit b){ return ~And(~a,~b); }
  Lit Xor(Lit a,Lit b){ if(isF(a)) return b; if(isF(b)) return a; if(isT(a)) return ~b; if(isT(b)) return ~a; if(a==b) return F(); if(a==~b) return T; bool neg=false; if(Minisat::sign(a)){a=~a;neg=!neg;} if(Minisat::sign(b)){b=~b;neg=!neg;} if(b<a) std::swap(a,b); u64 k=((u64)(u32)Minisat::toInt(a)<<32)|(u32)Minisat::toInt(b); auto it=xorH.find(k); Lit r; if(it!=xorH.end()) r=it->second; else { r=nv(); cl(~r,a,b); cl(~r,~a,~b); cl(r,~a,b); cl(r,a,~b); xorH[k]=r; } return neg?~r:r; }
  Lit Mux(Lit c,Lit a,Lit b){ if(isT(c)) return a; if(isF(c)) return b; if(a==b) return a; if(isT(a)) return Or(c,b); if(isF(a)) return And(~c,b); if(isT(b)) return Or(~c,a); if(isF(b)) return And(c,a); if(a==~b) return ~Xor(c,a); Lit r=nv(); cl(~c,~a,r); cl(~c,a,~r); cl(c,~b,r); cl(c,b,~r); cl(~a,~b,r); cl(a,b,~r); return r; }
  Lit Maj(Lit a,Lit b,Lit c){ return Or(And(a,b),And(c,Or(a,b))); }
  void add(const LV&a,const LV&b,Lit cin,LV&o){ Lit c=cin; o.resize(a.size()); for(size_t i=0;i<a.size();++i){ Lit x=Xor(a[i],b[i]); o[i]=Xor(x,c); if(i+1<a.size()) c=Maj(a[i],b[i],c); } }
  Lit ult(const LV&a,const LV&b){ Lit r=F(); for(size_t i=0;i<a.size();++i){ if(isT(b[i])) r=Or(~a[i],r); else if(isF(b[i])) r=And(~a[i],r); else if(isT(a[i])) r=And(b[i],r); else if(isF(a[i])) r=Or(b[i],r); else r=Mux(Xor(a[i],b[i]),b[i],r);} return r; }
  Lit eq(const LV&a,const LV&b){ Lit r=T; for(size_t i=0;i<a.size();++i) r=And(r,~Xor(a[i],b[i])); return r; }
  Lit cbit(u64 v,unsigned i){ return ((v>>i)&1)?T:F(); }
  const LV&var(u32 idx){ auto it=varBits.find(idx); if(it!=varBits.end()) return it->second; const VarInfo&v=EC.vars[idx]; LV b(v.width,F()); unsigned k= v.hi? 64-__builtin_clzll(v.hi):0; for(unsigned i=0;i<k&&i<v.width;++i) b[i]=nv();
    LV lo,hi; for(unsigned i=0;i<v.width;++i){ lo.push_back(cbit(v.lo,i)); hi.push_back(cbit(v.hi,i)); } if(v.lo>0) S->addClause(~ult(b,lo)); if((v.hi&(v.hi+1))!=0) S->addClause(~ult(hi,b)); return varBits[idx]=b; }
  void divrem(const LV&a,const LV&b,LV&q,LV&r){ unsigned w=a.size(); LV rem(w+1,F()), bb(b); bb.push_back(F()); q.assign(w,F()); for(unsigned i=w;i-->0;){ for(unsigned k=w;k>0;--k) rem[k]=rem[k-1]; rem[0]=a[i]; Lit ge=~ult(rem,bb); LV nb(bb),d; for(auto&x:nb) x=~x; add(rem,nb,T,d); for(unsigned k=0;k<=w;++k) rem[k]=Mux(ge,d[k],rem[k]); q[i]=ge; } r.assign(rem.begin(),rem.begin()+w);
    // b==0: q = all ones (ge always true), r = a  (SMT-LIB); the circuit yields exactly this
  }
  void neg(const LV&a,LV&o){ LV n(a.size()),z(a.size(),F()); for(size_t i=0;i<a.size();++i) n[i]=~a[i]; add(z,n,T,o); }
  LV muxv(Lit c,const LV&a,const LV&b){ LV o(a.size()); for(size_t i=0;i<a.size();++i) o[i]=Mux(c,a[i],b[i]); return o; }
  const LV&bits(Expr*e){
    if(e->id>=cache.size()) cache.resize(EC.nextId+1024,nullptr);
    if(cache[e->id]) return *cache[e->id];
    unsigned w=e->width; LV o;
    switch(e->op){
      case OConst: o.resize(w); for(unsigned i=0;i<w;++i) o[i]=cbit(e->val,i); break;
      case OVar: o=var(e->val); break;
      case OAdd: { LV a=bits(e->a),b=bits(e->b); add(a,b,F(),o); break; }
      case OSub: { LV a=bits(e->a),b=bits(e->b); for(auto&x:b) x=~x; add(a,b,T,o); break; }
      case OMul: { LV a=bits(e->a),b=bits(e->b); unsigned ca=0,cb=0; for(auto x:a) ca+=isF(x); for(auto x:b) cb+=isF(x); if(ca>cb) std::swap(a,b); o.assign(w,F()); for(unsigned i=0;i<w;++i){ if(isF(b[i])) continue; LV t(w,F()); for(unsigned k=i;k<w;++k) t[k]=And(a[k-i],b[i]); LV n; add(o,t,F(),n); o.swap(n); } break; }
      case OUDiv: case OURem: { LV a=bits(e->a),b=bits(e->b),q,r; divrem(a,b,q,r); o= e->op==OUDiv?q:r; break; }
      case OSDiv: case OSRem: { LV a=bits(e->a),b=bits(e->b),na,nb,q,r; Lit sa=a.back(),sb=b.back(); neg(a,na); neg(b,nb); LV aa=muxv(sa,na,a),ab=muxv(sb,nb,b); divrem(aa,ab,q,r); if(e->op==OSDiv){ LV nq; neg(q,nq); o=muxv(Xor(sa,sb),nq,q); } else { LV nr; neg(r,nr); o=muxv(sa,nr,r); } break; }
      case OAnd: case OOr: case OXor: { LV a=bits(e->a),b=bits(e->b); o.resize(w); for(unsigned i=0;i<w;++i) o[i]= e->op==OAnd?And(a[i],b[i]): e->op==OOr?Or(a[i],b[i]):Xor(a[i],b[i]); break; }
      case OShl: case OLShr: case OAShr: { LV a=bits(e->a),b=bits(e->b); Lit fill= e->op==OAShr? a.back():F(); o=a; unsigned lg=0; while((1u<<lg)<w) ++lg; for(unsigned s=0;s<lg&&s<b.size();++s){ LV n(w); unsigned k=1u<<s; for(unsigned i=0;i<w;++i){ Lit sh; if(e->op==OShl) sh= i>=k? o[i-k]:F(); else sh= i+k<w? o[i+k]:fill; n[i]=Mux(b[s],sh,o[i]); } o.swap(n); }
        Lit big=F(); if((1u<<lg)!=w){ LV c(b.size()); for(unsigned i=0;i<b.size();++i) c[i]=cbit(w,i); big=~ult(b,c); } else for(unsigned i=lg;i<b.size();++i) big=Or(big,b[i]); for(unsigned i=0;i<w;++i) o[i]=Mux(big,fill,o[i]); break; }
      case ONot1: o.push_back(~bits(e->a)[0]); break;
      case OEq: { LV a=bits(e->a); const LV&b=bits(e->b); o.push_back(eq(a,b)); break; }
      case OUlt: { LV a=bits(e->a); const LV&b=bits(e->b); o.push_back(ult(a,b)); break; }
      case OUle: { LV a=bits(e->a); const LV&b=bits(e->b); o.push_back(~ult(b,a)); break; }
      case OSlt: case OSle: { LV a=bits(e->a),b=bits(e->b); a.back()=~a.back(); b.back()=~b.back(); o.push_back(e->op==OSlt? ult(a,b):~ult(b,a)); break; }
      case OIte: { Lit c=bits(e->a)[0]; LV a=bits(e->b); const LV&b=bits(e->c); o.resize(w); for(unsigned i=0;i<w;++i) o[i]=Mux(c,a[i],b[i]); break; }
      case OZExt: o=bits(e->a); o.resize(w,F()); break;
      case OSExt: { o=bits(e->a); Lit s=o.back(); o.resize(w,s); break; }
      case OExtract: { const LV&a=bits(e->a); o.assign(a.begin()+e->val,a.begin()+e->val+w); break; }
      case OConcat: { o=bits(e->b); const LV&h=bits(e->a); o.insert(o.end(),h.begin(),h.end()); break; }
      case OFAbs: o=bits(e->a); o.back()=F(); break;
      case OFNeg: o=bits(e->a); o.back()=~o.back(); break;
      default: fprintf(stderr,"bits op %d\n",e->op); _exit(3);
    }
    if(e->id>=cache.size()) cache.resize(EC.nextId+1024,nullptr);
    return *(cache[e->id]=new LV(std::move(o)));
  }
};
