// Copy-on-write byte memory with per-byte kind (concrete / symbolic / uninitialised).
#pragma once
#include "expr.hpp"
struct Val { u64 c; Expr*e; };
static inline Val CV(u64 c){ return Val{c,nullptr}; }
static inline Val EV(Expr*e){ if(isC(e)) return Val{e->val,nullptr}; return Val{0,e}; }
static inline Expr*TE(const Val&v,unsigned w){ return v.e? v.e : mkConst(v.c,w); }

static const unsigned PS=256;
enum : u8 { K_CONC=0, K_SYM=1, K_UNINIT=2 };
struct SymB { Expr*e; };
struct Page { u32 rc; u32 sz; Expr**sym; u8*symIdx; u8 d[2*PS];
  u8*kind(){ return d+PS; } };
static inline Page*newPage(unsigned sz,u8 k){ Page*p=(Page*)malloc(sizeof(Page)); p->rc=1;p->sz=sz;p->sym=nullptr;p->symIdx=nullptr; memset(p->d,0,PS); memset(p->d+PS,k,PS); return p; }
static inline void freePage(Page*p){ if(--p->rc==0){ if(p->sym){ free(p->sym); free(p->symIdx);} free(p); } }
static inline Page*clonePage(Page*q){ Page*p=(Page*)malloc(sizeof(Page)); memcpy(p,q,sizeof(Page)); p->rc=1; if(q->sym){ p->sym=(Expr**)malloc(PS*8); memcpy(p->sym,q->sym,PS*8); p->symIdx=(u8*)malloc(PS); memcpy(p->symIdx,q->symIdx,PS);} return p; }
static inline void ensureSym(Page*p){ if(!p->sym){ p->sym=(Expr**)calloc(PS,8); p->symIdx=(u8*)calloc(PS,1);} }

enum : u8 { OB_HEAP, OB_STACK, OB_GLOBAL, OB_CONST };
struct Group { u32 rc; Page*p[1024]; }; // large objects: pages in shared groups
struct Obj { u32 rc; u64 size; u32 np; u8 kind; u8 arr; bool big; void*pg[1];
  Page*at(u64 i)const{ return big? ((Group*)pg[i>>10])->p[i&1023] : (Page*)pg[i]; }
  Page**slot(u64 i){ if(!big) return (Page**)&pg[i]; Group*g=(Group*)pg[i>>10]; if(g->rc>1){ Group*n=(Group*)malloc(sizeof(Group)); memcpy(n,g,sizeof(Group)); n->rc=1; for(unsigned k=0;k<1024;++k) ++n->p[k]->rc; --g->rc; pg[i>>10]=g=n; } return &g->p[i&1023]; }
  u32 slots()const{ return big? (np+1023)/1024:np; } };
static inline Obj*allocObj(u32 slots){ return (Obj*)malloc(sizeof(Obj)+sizeof(void*)*slots); }
static inline Obj*newObj(u64 size,u8 kind,u8 fill){ u32 np=(size+PS-1)/PS; bool big=np>8192; Obj*o=allocObj(big?(np+1023)/1024:np); o->rc=1;o->size=size;o->np=np;o->kind=kind;o->arr=0;o->big=big;
  static Page*tmpl[3]={nullptr,nullptr,nullptr}; if(!tmpl[fill]) tmpl[fill]=newPage(PS,fill);
  if(big){ static Group*tg[3]={nullptr,nullptr,nullptr}; if(!tg[fill]){ Group*g=(Group*)malloc(sizeof(Group)); g->rc=1; for(unsigned k=0;k<1024;++k){ g->p[k]=tmpl[fill]; ++tmpl[fill]->rc; } tg[fill]=g; } for(u32 i=0;i<o->slots();++i){ o->pg[i]=tg[fill]; ++tg[fill]->rc; } }
  else for(u32 i=0;i<np;++i){ o->pg[i]=tmpl[fill]; ++tmpl[fill]->rc; }
  return o; }
static inline void freeObj(Obj*o){ if(--o->rc==0){ if(o->big){ for(u32 i=0;i<o->slots();++i){ Group*g=(Group*)o->pg[i]; if(--g->rc==0){ for(unsigned k=0;k<1024;++k) freePage(g->p[k]); free(g); } } } else for(u32 i=0;i<o->np;++i) freePage((Page*)o->pg[i]); free(o);} }
static inline Obj*cloneObj(Obj*q){ u32 n=q->slots(); Obj*o=allocObj(n); memcpy((void*)o,q,sizeof(Obj)+sizeof(void*)*n); o->rc=1; for(u32 i=0;i<n;++i){ if(o->big) ++((Group*)o->pg[i])->rc; else ++((Page*)o->pg[i])->rc; } return o; }

static const unsigned CH=64;
struct Chunk { u32 rc; u32 live; Obj*o[CH]; };
static const u64 BASEOFF=0x10000;
static inline u64 mkAddr(u32 id,u64 off){ return ((u64)id<<32)|(BASEOFF+off); }

struct Mem {
  std::vector<Chunk*> ch; u32 next=16;
  Mem(){}
  Mem(const Mem&m):ch(m.ch),next(m.next){ for(Chunk*c:ch) if(c) ++c->rc; }
  Mem&operator=(const Mem&)=delete;
  ~Mem(){ for(Chunk*c:ch) if(c) rel(c); }
  static void rel(Chunk*c){ if(--c->rc==0){ for(unsigned i=0;i<CH;++i) if(c->o[i]) freeObj(c->o[i]); free(c);} }
  Obj*get(u32 id)const{ u32 k=id/CH; if(k>=ch.size()||!ch[k]) return nullptr; return ch[k]->o[id%CH]; }
  Chunk*wchunk(u32 k){ if(k>=ch.size()) ch.resize(k+1,nullptr); Chunk*c=ch[k];
    if(!c){ c=(Chunk*)calloc(1,sizeof(Chunk)); c->rc=1; ch[k]=c; }
    else if(c->rc>1){ Chunk*n=(Chunk*)malloc(sizeof(Chunk)); memcpy(n,c,sizeof(Chunk)); n->rc=1; for(unsigned i=0;i<CH;++i) if(n->o[i]) ++n->o[i]->rc; --c->rc; ch[k]=c=n; }
    return c; }
  Obj*wobj(u32 id){ Chunk*c=wchunk(id/CH); Obj*o=c->o[id%CH]; if(o->rc>1){ Obj*n=cloneObj(o); --o->rc; c->o[id%CH]=o=n; } return o; }
  static Page*wpage(Obj*o,u32 i){ Page**q=o->slot(i); Page*p=*q; if(p->rc>1){ Page*n=clonePage(p); --p->rc; *q=p=n; } return p; }
  u32 add(Obj*o){ u32 id=next++; Chunk*c=wchunk(id/CH); c->o[id%CH]=o; ++c->live; return id; }
  void erase(u32 id){ Chunk*c=wchunk(id/CH); Obj*o=c->o[id%CH]; if(!o) return; freeObj(o); c->o[id%CH]=nullptr; if(--c->live==0){ rel(c); ch[id/CH]=nullptr; } }
  // raw accessors; caller has checked bounds
  static u32 uninitCounter;
  // read one byte
  void writeConc(u32 id,u64 off,const u8*src,unsigned n){ Obj*o=wobj(id); while(n){ u32 pi=off/PS,po=off%PS; unsigned k=std::min<u64>(n,PS-po); Page*p=wpage(o,pi); memcpy(p->d+po,src,k); memset(p->kind()+po,K_CONC,k); off+=k;src+=k;n-=k; } }
  void writeExpr(u32 id,u64 off,Expr*e,unsigned nbytes){ // e->width == 8*nbytes
    if(isC(e)){ u64 v=e->val; u8 b[8]; memcpy(b,&v,8); writeConc(id,off,b,nbytes); return; }
    Obj*o=wobj(id);
    for(unsigned i=0;i<nbytes;++i){ u64 q=off+i; Page*p=wpage(o,q/PS); ensureSym(p); unsigned po=q%PS; p->kind()[po]=K_SYM; p->sym[po]=e; p->symIdx[po]=i; }
  }
  bool readConc(Obj*o,u64 off,unsigned n,u8*dst){ // true if all concrete
    while(n){ u32 pi=off/PS,po=off%PS; unsigned k=std::min<u64>(n,PS-po); Page*p=o->at(pi); const u8*kk=p->kind()+po; u8 any=0; for(unsigned i=0;i<k;++i) any|=kk[i]; if(any) return false; memcpy(dst,p->d+po,k); off+=k;dst+=k;n-=k; } return true; }
  Expr*readExpr(u32 id,u64 off,unsigned n){
    Obj*o=get(id);
    // uninitialised bytes become fresh variables (stored back so that re-reads agree)
    for(unsigned i=0;i<n;++i){ u64 q=off+i; Page*p=o->at(q/PS); unsigned po=q%PS; if(p->kind()[po]==K_UNINIT){ 
        Expr*v=mkVar("uninit#"+std::to_string(uninitCounter++),8,0,255); o=wobj(id); p=wpage(o,q/PS); ensureSym(p); p->kind()[po]=K_SYM; p->sym[po]=v; p->symIdx[po]=0; } }
    Page*p=o->at(off/PS); unsigned po=off%PS;
    if(p->kind()[po]==K_SYM && p->symIdx[po]==0 && p->sym[po]->width==8*n){ Expr*e=p->sym[po]; bool ok=true; for(unsigned i=1;i<n;++i){ u64 q=off+i; Page*r=o->at(q/PS); unsigned ro=q%PS; if(r->kind()[ro]!=K_SYM||r->sym[ro]!=e||r->symIdx[ro]!=i){ok=false;break;} } if(ok) return e; }
    Expr*res=nullptr;
    for(unsigned i=0;i<n;){ u64 q=off+i; Page*r=o->at(q/PS); unsigned ro=q%PS; Expr*piece; unsigned len=1;
      if(r->kind()[ro]==K_SYM){ Expr*e=r->sym[ro]; unsigned ix=r->symIdx[ro];
        while(i+len<n){ u64 q2=off+i+len; Page*r2=o->at(q2/PS); unsigned o2=q2%PS; if(r2->kind()[o2]==K_SYM&&r2->sym[o2]==e&&r2->symIdx[o2]==ix+len) ++len; else break; }
        piece=mkExtract(e,8*ix,8*len);
      } else { u64 v=r->d[ro]; while(i+len<n&&len<8){ u64 q2=off+i+len; Page*r2=o->at(q2/PS); unsigned o2=q2%PS; if(r2->kind()[o2]==K_CONC){ v|=(u64)r2->d[o2]<<(8*len); ++len;} else break; } piece=mkConst(v,8*len); }
      res= res? mkConcat(piece,res):piece; i+=len; }
    return res;
  }
  void copyRaw(u32 did,u64 doff,u32 sid,u64 soff,u64 n){
    // gather then scatter (handles overlap)
    struct B{u8 d,k,ix;Expr*e;};
    Obj*so=get(sid); bool anyS=false;
    // fast path: check all concrete
    std::vector<u8> buf(n);
    if(readConc(so,soff,n,buf.data())){ writeConc(did,doff,buf.data(),n); return; }
    std::vector<B> v(n);
    for(u64 i=0;i<n;++i){ u64 q=soff+i; Page*p=so->at(q/PS); unsigned po=q%PS; B&b=v[i]; b.k=p->kind()[po]; b.d=p->d[po]; if(b.k==K_SYM){ b.e=p->sym[po]; b.ix=p->symIdx[po]; } }
    (void)anyS; Obj*o=wobj(did);
    for(u64 i=0;i<n;++i){ u64 q=doff+i; Page*p=wpage(o,q/PS); unsigned po=q%PS; B&b=v[i]; p->kind()[po]=b.k; if(b.k==K_SYM){ ensureSym(p); p->sym[po]=b.e; p->symIdx[po]=b.ix; } else p->d[po]=b.d; }
  }
  void fillRaw(u32 id,u64 off,u8 v,u64 n){ Obj*o=wobj(id); while(n){ u32 pi=off/PS,po=off%PS; unsigned k=std::min<u64>(n,PS-po); Page*p=wpage(o,pi); memset(p->d+po,v,k); memset(p->kind()+po,K_CONC,k); off+=k;n-=k; } }
};
