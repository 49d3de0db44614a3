// External functions: allocation, memory, exceptions, math, threads, OpenMP, harness API.
#define H [](Exec&X,State&s,const DI&d,Val*a,unsigned n,Val*r)->bool
#define UNUSED (void)X;(void)s;(void)d;(void)a;(void)n;(void)r;
static u64 CC(Exec&X,State&s,const Val&v){ return X.concVal(s,v); }
static void setExcVtable(Exec&X,State&s,u64 o){ static GlobalVariable*G=MOD->getGlobalVariable("rk_exc_vtable"); if(G&&G->hasInitializer()) X.store(s,CV(o),64,CV(GADDR[G]+16)); }
static bool hExcCtor(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ setExcVtable(X,s,CC(X,s,a[0])); return true; }
static bool throwStd(Exec&X,State&s,const char*ti){ u64 o=X.alloc(s,64,OB_HEAP,K_UNINIT); setExcVtable(X,s,o); if(!X.throwExc(s,o,tiGlobal(ti))) return X.kill(); return false; }
static bool doAlloc(Exec&X,State&s,const Val&sz,Val*r,bool nothrow,u8 fill=K_UNINIT){
  u64 n;
  if(sz.e){ // allocation size: first split off the too-large case
    Expr*big=mkBin(OUlt,mkConst(O.allocLimit,64),sz.e); if(!isC(big)&&!s.knows(big)&&!s.knows(mkNot1(big))){ ModelP m; bool cur=X.ev(s,big); Expr*oth= cur? mkNot1(big):big; SRes q=X.mayBe(s,oth,&m); if(q==S_SAT){ State*c=X.clone(s); c->addPC(oth); c->model=m; X.work.push_back(c); s.addPC(cur?big:mkNot1(big)); } else s.learn(cur?big:mkNot1(big)); }
    if(s.knows(big)||(isC(big)&&big->val)) n=O.allocLimit+1; else n=X.concretize(s,sz.e);
  } else n=sz.c;
  if(n>O.allocLimit){ if(nothrow){ r[0]=CV(0); return true; } return throwStd(X,s,"_ZTISt9bad_alloc"); }
  r[0]=CV(X.alloc(s,n,OB_HEAP,fill)); return true; }
static bool hMalloc(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ return doAlloc(X,s,a[0],r,true); }
static bool hNew(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ return doAlloc(X,s,a[0],r,false); }
static bool hFree(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ u64 p=CC(X,s,a[0]); if(!X.freeAddr(s,p)) return X.kill(); return true; }
static bool hNop(Exec&,State&,const DI&,Val*,unsigned,Val*r){ r[0]=CV(0); return true; }
static bool hMemcpy(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){
  u64 n=CC(X,s,a[2]); u64 p=CC(X,s,a[0]), q=CC(X,s,a[1]); r[0]=CV(p); if(!n) return true;
  u32 i1,i2;u64 o1,o2; if(!X.chkAccess(s,q,n,false,i2,o2,"read(memcpy)")||!X.chkAccess(s,p,n,true,i1,o1,"write(memcpy)")) return X.kill();
  if(O.race){ X.note(s,i2,o2,n,false); X.note(s,i1,o1,n,true); }
  s.mem.copyRaw(i1,o1,i2,o2,n); return true; }
static bool hMemset(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){
  u64 n=CC(X,s,a[2]); u64 p=CC(X,s,a[0]); r[0]=CV(p); if(!n) return true; u32 id;u64 off; if(!X.chkAccess(s,p,n,true,id,off,"write(memset)")) return X.kill();
  if(O.race) X.note(s,id,off,n,true);
  Val v=a[1]; if(!v.e){ s.mem.fillRaw(id,off,(u8)v.c,n); return true; } Expr*e=v.e; if(e->width>8) e=mkExtract(e,0,8); for(u64 i=0;i<n;++i) s.mem.writeExpr(id,off+i,e,1); return true; }
static bool hMemcmp(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){
  u64 n=CC(X,s,a[2]); u64 p=CC(X,s,a[0]), q=CC(X,s,a[1]); r[0]=CV(0); if(!n) return true;
  u32 i1,i2;u64 o1,o2; if(!X.chkAccess(s,p,n,false,i1,o1,"read(memcmp)")||!X.chkAccess(s,q,n,false,i2,o2,"read(memcmp)")) return X.kill();
  Expr*res=mkConst(0,32); for(u64 i=n;i-->0;){ Expr*x=mkZExt(X.loadAt(s,i1,o1+i,1),32),*y=mkZExt(X.loadAt(s,i2,o2+i,1),32); res=mkIte(mkBin(OEq,x,y),res,mkIte(mkBin(OUlt,x,y),mkConst(0xffffffff,32),mkConst(1,32))); }
  r[0]=EV(res); return true; }
// strcmp / strncmp: ite chain up to the first position where a terminator is certain
static bool strCmpImpl(Exec&X,State&s,Val*a,u64 lim,Val*r){
  u64 p=CC(X,s,a[0]), q=CC(X,s,a[1]); u32 i1=p>>32,i2=q>>32; Obj*O1=s.mem.get(i1),*O2=s.mem.get(i2); u32 t;u64 t2; if(lim==0){ r[0]=CV(0); return true; }
  if(!O1||!O2){ X.chkAccess(s,O1?q:p,1,false,t,t2,"read(strcmp)"); return X.kill(); }
  std::vector<std::pair<Expr*,Expr*>> v; u64 i=0; Expr*reach=mkConst(1,1); bool ended=false;
  for(;i<lim;++i){
    u64 o1=(p&0xffffffffull)-BASEOFF+i,o2=(q&0xffffffffull)-BASEOFF+i;
    if(o1>=s.mem.get(i1)->size||o2>=s.mem.get(i2)->size){ ModelP m; if(X.mayBe(s,reach,&m)==S_SAT){ ModelP old=s.model; s.model=m; X.violation(s,"memory","out-of-bounds read in strcmp",m); s.model=old; return X.kill(); } ended=true; break; }
    Expr*x=X.loadAt(s,i1,o1,1),*y=X.loadAt(s,i2,o2,1); v.push_back({x,y});
    reach=mkBin(OAnd,reach,mkBin(OAnd,mkBin(OEq,x,y),mkNot1(mkBin(OEq,x,mkConst(0,8))))); if(isC(reach)&&!reach->val){ ended=true; break; } }
  (void)ended; Expr*res=mkConst(0,32);
  for(size_t k=v.size();k-->0;){ Expr*x=v[k].first,*y=v[k].second; Expr*z=mkBin(OEq,x,mkConst(0,8)); res=mkIte(mkBin(OEq,x,y),mkIte(z,mkConst(0,32),res),mkIte(mkBin(OUlt,x,y),mkConst(0xffffffff,32),mkConst(1,32))); }
  r[0]=EV(res); return true; }
static bool hStrcmp(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ return strCmpImpl(X,s,a,1u<<20,r); }
static bool hStrncmp(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 n=CC(X,s,a[2]); return strCmpImpl(X,s,a,n,r); }
static bool hStrlen(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){
  u64 p=CC(X,s,a[0]); for(u64 i=0;;++i){ u32 id;u64 off; if(!X.chkAccess(s,p+i,1,false,id,off,"read(strlen)")) return X.kill(); Expr*x=X.loadAt(s,id,off,1); if(isC(x)){ if(!x->val){ r[0]=CV(i); return true; } continue; }
    Expr*z=mkBin(OEq,x,mkConst(0,8)); if(s.knows(z)){ r[0]=CV(i); return true; } if(s.knows(mkNot1(z))) continue; 
    bool v=X.ev(s,z); Expr*oth=v?mkNot1(z):z; ModelP m; if(X.mayBe(s,oth,&m)==S_SAT){ State*c=X.clone(s); c->addPC(oth); c->model=m; X.work.push_back(c); s.addPC(v?z:mkNot1(z)); } else s.learn(v?z:mkNot1(z));
    if(v){ r[0]=CV(i); return true; } } }
static bool hMemchr(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){
  u64 p=CC(X,s,a[0]); u64 c=CC(X,s,a[1])&255; u64 nn=CC(X,s,a[2]); for(u64 i=0;i<nn;++i){ u32 id;u64 off; if(!X.chkAccess(s,p+i,1,false,id,off,"read(memchr)")) return X.kill(); Expr*x=X.loadAt(s,id,off,1); if(isC(x)){ if(x->val==c){ r[0]=CV(p+i); return true; } continue; }
    Expr*z=mkBin(OEq,x,mkConst(c,8)); if(s.knows(z)){ r[0]=CV(p+i); return true; } if(s.knows(mkNot1(z))) continue;
    bool v=X.ev(s,z); Expr*oth=v?mkNot1(z):z; ModelP m; if(X.mayBe(s,oth,&m)==S_SAT){ State*cl=X.clone(s); cl->addPC(oth); cl->model=m; X.work.push_back(cl); s.addPC(v?z:mkNot1(z)); } else s.learn(v?z:mkNot1(z));
    if(v){ r[0]=CV(p+i); return true; } } r[0]=CV(0); return true; }
template<double(*F)(double)> static bool m1(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ if(a[0].e&&FPTABLES) if(Expr*e=mkFun((void*)F,a[0].e,nullptr,64)){ r[0]=EV(e); return true; } r[0]=CV(b64(F(f64(CC(X,s,a[0]))))); return true; }
template<float(*F)(float)> static bool m1f(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ if(a[0].e&&FPTABLES) if(Expr*e=mkFun((void*)F,a[0].e,nullptr,32)){ r[0]=EV(e); return true; } r[0]=CV(b32(F(f32(CC(X,s,a[0]))))); return true; }
template<double(*F)(double,double)> static bool m2(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ if((a[0].e||a[1].e)&&FPTABLES) if(Expr*e=mkFun((void*)F,TE(a[0],64),TE(a[1],64),64)){ r[0]=EV(e); return true; } u64 x=CC(X,s,a[0]),y=CC(X,s,a[1]); r[0]=CV(b64(F(f64(x),f64(y)))); return true; }
template<float(*F)(float,float)> static bool m2f(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ if((a[0].e||a[1].e)&&FPTABLES) if(Expr*e=mkFun((void*)F,TE(a[0],32),TE(a[1],32),32)){ r[0]=EV(e); return true; } u64 x=CC(X,s,a[0]),y=CC(X,s,a[1]); r[0]=CV(b32(F(f32(x),f32(y)))); return true; }

// ---------------------------------------------------------------- threads
static std::vector<u32>&VC(State&s,u32 t){ if(s.vc.size()<=t) s.vc.resize(t+1); auto&v=s.vc[t]; if(v.size()<s.th.size()) v.resize(s.th.size(),0); if(v[t]==0) v[t]=1; return v; }
static void joinVC(std::vector<u32>&a,const std::vector<u32>&b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();++i) a[i]=std::max(a[i],b[i]); }
void Exec::acquire(State&s,u64 a){ if(!O.race) return; auto it=s.syncvc.find(a); if(it!=s.syncvc.end()){ auto c=it->second; joinVC(VC(s,s.cur),c); } }
void Exec::release(State&s,u64 a){ if(!O.race) return; auto&v=VC(s,s.cur); joinVC(s.syncvc[a],v); v[s.cur]++; }
void Exec::note(State&s,u32 id,u64 off,u64 n,bool wr){ if(s.th.size()<2) return; auto&v=VC(s,s.cur);
  if(!s.shadow) s.shadow=std::make_shared<std::unordered_map<u64,Shadow>>(); else if(s.shadow.use_count()>1) s.shadow=std::make_shared<std::unordered_map<u64,Shadow>>(*s.shadow);
  for(u64 i=0;i<n;++i){ Shadow&h=(*s.shadow)[((u64)id<<32)+off+i]; const char*k=nullptr;
    if(h.wc&&h.wt!=s.cur&&(v.size()<=h.wt||v[h.wt]<h.wc)) k= wr?"write after unordered write":"read after unordered write";
    if(wr) for(auto&r:h.at) if(r.first!=s.cur&&(v.size()<=r.first||v[r.first]<r.second)) k="write after unordered atomic operation";
    if(wr) for(auto&r:h.r) if(r.first!=s.cur&&(v.size()<=r.first||v[r.first]<r.second)) k="write after unordered read";
    if(k){ violation(s,"race",std::string("data race: ")+k,s.model); return; }
    if(wr){ h.wt=s.cur; h.wc=v[s.cur]; h.r.clear(); } else { bool f=false; for(auto&r:h.r) if(r.first==s.cur){ r.second=v[s.cur]; f=true; } if(!f) h.r.push_back({s.cur,v[s.cur]}); } } }
// atomic read-modify-write: races with unordered plain writes (plain reads next to atomic operations are explored by schedule instead)
void Exec::noteAtomic(State&s,u64 addr,u64 n){ if(!O.race||s.th.size()<2) return; auto&v=VC(s,s.cur); u32 id=addr>>32; u64 off=(addr&0xffffffffull)-BASEOFF;
  if(!s.shadow) s.shadow=std::make_shared<std::unordered_map<u64,Shadow>>(); else if(s.shadow.use_count()>1) s.shadow=std::make_shared<std::unordered_map<u64,Shadow>>(*s.shadow);
  for(u64 i=0;i<n;++i){ Shadow&h=(*s.shadow)[((u64)id<<32)+off+i]; if(h.wc&&h.wt!=s.cur&&(v.size()<=h.wt||v[h.wt]<h.wc)){ violation(s,"race","data race: atomic operation after unordered write",s.model); return; }
    bool f=false; for(auto&r:h.at) if(r.first==s.cur){ r.second=v[s.cur]; f=true; } if(!f) h.at.push_back({s.cur,v[s.cur]}); } }
static int mutexOwner(State&s,u64 a){ for(auto&m:s.mutexes) if(m.addr==a) return m.owner; return -1; }
static void setMutex(State&s,u64 a,int o){ for(size_t i=0;i<s.mutexes.size();++i) if(s.mutexes[i].addr==a){ if(o<0) s.mutexes.erase(s.mutexes.begin()+i); else s.mutexes[i].owner=o; return; } if(o>=0) s.mutexes.push_back({a,o}); }
bool Exec::enabled(State&s,u32 i){ Thread&t=s.th[i]; if(t.done) return false; if(t.wst==1) return false; if(t.wst==2) return mutexOwner(s,t.waitMutex)<0; if(t.wst==3) return mutexOwner(s,t.waitMutex)<0; if(t.wst==4) return s.th[t.waitJoin].done; if(t.wst==6) return t.released; return true; }
bool Exec::schedPoint(State&s){
  if(s.th.size()<2||s.schedDone){ s.sched.push_back(s.cur); return true; }
  if(s.preempt<O.preemptBound){ for(u32 i=0;i<s.th.size();++i) if(i!=s.cur&&enabled(s,i)){ State*c=clone(s); c->cur=i; c->preempt++; c->schedDone=true; work.push_back(c); } }
  s.schedDone=true; s.sched.push_back(s.cur); return true; }
bool Exec::blockSwitch(State&s){ // the current thread is blocked or finished: run any enabled thread
  std::vector<u32> en; for(u32 i=0;i<s.th.size();++i) if(i!=s.cur&&enabled(s,i)) en.push_back(i);
  if(O.spuriousBound>s.spurious){ for(u32 i=0;i<s.th.size();++i) if(s.th[i].wst==1){ State*c=clone(s); c->th[i].wst=2; c->spurious++; c->choices.push_back({"spurious",i}); if(!enabled(*c,i)){ delete c; continue; } c->cur=i; c->schedDone=true; work.push_back(c); } }
  if(en.empty()){ violation(s,"deadlock","all threads blocked",s.model); return false; }
  if(!O.oneSched&&!(O.delay&&s.preempt>=O.preemptBound)) for(size_t k=1;k<en.size();++k){ State*c=clone(s); c->cur=en[k]; if(O.delay) c->preempt++; c->schedDone=true; work.push_back(c); }
  s.cur=en[0]; s.schedDone=true; return true; }
static bool blockCur(Exec&X,State&s){ if(!X.blockSwitch(s)) return X.kill(); return false; }
// sched_yield: the other enabled threads run first (round robin); a thread that keeps yielding although nobody else can run never gets out of its loop
static bool hYield(Exec&X,State&s,const DI&,Val*,unsigned,Val*r){ Thread&t=s.th[s.cur]; r[0]=CV(0); if(t.wst==5){ t.wst=0; return true; }
  for(u32 k=1;k<s.th.size();++k){ u32 i=(s.cur+k)%s.th.size(); if(X.enabled(s,i)&&s.th[i].wst!=5){ t.wst=5; t.yields=0; s.cur=i; s.schedDone=false; return false; } }
  if(++t.yields>200){ X.violation(s,"livelock","thread waits for ever",s.model); return X.kill(); } for(u32 k=1;k<s.th.size();++k){ u32 i=(s.cur+k)%s.th.size(); if(s.th[i].wst==5){ t.wst=5; s.cur=i; s.schedDone=false; return false; } } return true; }
static bool hLock(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 m=CC(X,s,a[0]); Thread&t=s.th[s.cur]; 
  if(t.wst==3){ /* resumed */ t.wst=0; s.sched.push_back(s.cur);} else { X.schedPoint(s); }
  if(mutexOwner(s,m)>=0){ if(mutexOwner(s,m)==(int)s.cur){ X.violation(s,"deadlock","mutex locked twice by the same thread",s.model); return X.kill(); } t.wst=3; t.waitMutex=m; if(!s.sched.empty()) s.sched.pop_back(); s.schedDone=false; return blockCur(X,s); }
  setMutex(s,m,s.cur); X.acquire(s,m); s.schedDone=false; r[0]=CV(0); return true; }
static bool hTryLock(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 m=CC(X,s,a[0]); X.schedPoint(s); s.schedDone=false; if(mutexOwner(s,m)>=0){ r[0]=CV(16); return true; } setMutex(s,m,s.cur); X.acquire(s,m); r[0]=CV(0); return true; }
static bool hUnlock(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 m=CC(X,s,a[0]); X.schedPoint(s); s.schedDone=false; setMutex(s,m,-1); X.release(s,m); r[0]=CV(0); return true; }
static bool cvWait(Exec&X,State&s,u64 cv,u64 m){ Thread&t=s.th[s.cur];
  if(t.wst==2){ t.wst=0; s.sched.push_back(s.cur); setMutex(s,m,s.cur); X.acquire(s,m); s.schedDone=false; return true; }
  X.schedPoint(s); s.schedDone=false; setMutex(s,m,-1); X.release(s,m); t.wst=1; t.waitCv=cv; t.waitMutex=m; return blockCur(X,s); }
static bool hCvWait(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 cv=CC(X,s,a[0]), l=CC(X,s,a[1]); Val m; if(!X.load(s,CV(l),64,m)) return X.kill(); r[0]=CV(0); return cvWait(X,s,cv,m.c); }
static bool notify(Exec&X,State&s,u64 cv,bool all){ X.schedPoint(s); s.schedDone=false; std::vector<u32> w; for(u32 i=0;i<s.th.size();++i) if(s.th[i].wst==1&&s.th[i].waitCv==cv) w.push_back(i); if(w.empty()) return true; if(all){ for(u32 i:w) s.th[i].wst=2; return true; } s.th[w[0]].wst=2; if(w.size()>1) X.inc("notify_one with several waiters"); return true; }
static bool hNotify1(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ r[0]=CV(0); return notify(X,s,CC(X,s,a[0]),false); }
static bool hNotifyA(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ r[0]=CV(0); return notify(X,s,CC(X,s,a[0]),true); }
// std::thread::_M_start_thread(this, unique_ptr<_State>*, void(*)())
static bool hThreadStart(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 self=CC(X,s,a[0]), up=CC(X,s,a[1]); Val stp; if(!X.load(s,CV(up),64,stp)) return X.kill();
  Val vt; if(!X.load(s,CV(stp.c),64,vt)) return X.kill(); Val fn; if(!X.load(s,CV(vt.c+16),64,fn)) return X.kill(); FuncInfo*f=funcByAddr(fn.c); if(!f) fatal("thread run function");
  X.schedPoint(s); s.schedDone=false;
  u32 id=s.th.size(); s.th.emplace_back(); s.th[id].tstate=stp.c; u32 keep=s.cur; if(O.race){ auto pv=VC(s,keep); VC(s,id)=pv; VC(s,id)[id]=1; VC(s,keep)[keep]++; } s.cur=id; Val arg=CV(stp.c); X.pushCall(s,f,&arg,1,0); s.cur=keep;
  X.store(s,CV(up),64,CV(0)); X.store(s,CV(self),64,CV(id+1)); r[0]=CV(0); return true; }
static bool hThreadJoin(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 self=CC(X,s,a[0]); Val id; if(!X.load(s,CV(self),64,id)) return X.kill(); if(id.c==0||id.c>s.th.size()){ X.violation(s,"exception","join of a thread that is not joinable",s.model); return X.kill(); }
  Thread&t=s.th[s.cur]; if(t.wst!=4){ X.schedPoint(s); s.schedDone=false; } else { t.wst=0; s.sched.push_back(s.cur); s.schedDone=false; }
  if(!s.th[id.c-1].done){ t.wst=4; t.waitJoin=id.c-1; if(!s.sched.empty()) s.sched.pop_back(); return blockCur(X,s); }
  t.wst=0; if(O.race){ auto c=VC(s,id.c-1); joinVC(VC(s,s.cur),c); } X.store(s,CV(self),64,CV(0)); r[0]=CV(0); return true; }
// OpenMP runtime model (harness/omp_rt.h): threads, join and barrier
static bool hSpawn(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ FuncInfo*f=funcByAddr(CC(X,s,a[0])); if(!f) fatal("rk_spawn");
  u32 id=s.th.size(); s.th.emplace_back(); u32 keep=s.cur; if(O.race){ auto pv=VC(s,keep); VC(s,id)=pv; VC(s,id)[id]=1; VC(s,keep)[keep]++; } s.cur=id; Val arg=a[1]; X.pushCall(s,f,&arg,1,0); s.cur=keep; r[0]=CV(id); return true; }
static bool hJoinId(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 id=CC(X,s,a[0]); Thread&t=s.th[s.cur]; if(!s.th[id].done){ t.wst=4; t.waitJoin=id; return blockCur(X,s); }
  t.wst=0; s.sched.push_back(s.cur); s.schedDone=false; if(O.race){ auto c=VC(s,id); joinVC(VC(s,s.cur),c); } r[0]=CV(0); return true; }
static bool hBarrier(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 b=CC(X,s,a[0]),n=CC(X,s,a[1]); Thread&t=s.th[s.cur]; r[0]=CV(0);
  if(t.wst==6){ t.wst=0; t.released=false; X.acquire(s,b); s.sched.push_back(s.cur); s.schedDone=false; return true; }
  s.schedDone=false; s.sched.push_back(s.cur); X.release(s,b); std::vector<u32> w; for(u32 i=0;i<s.th.size();++i) if(s.th[i].wst==6&&!s.th[i].released&&s.th[i].waitMutex==b) w.push_back(i);
  if(w.size()+1<n){ t.wst=6; t.released=false; t.waitMutex=b; return blockCur(X,s); }
  for(u32 i:w) s.th[i].released=true; X.acquire(s,b); if(w.empty()) return true;
  // all have arrived: any of them may go on first
  t.wst=6; t.released=true; t.waitMutex=b; if(!O.oneSched&&!(O.delay&&s.preempt>=O.preemptBound)) for(u32 i:w){ State*c=X.clone(s); c->cur=i; if(O.delay) c->preempt++; X.work.push_back(c); } return false; }
bool Exec::onReturn(State&s,i32 code,Val*,u32){ (void)s; (void)code; return false; }

// ---------------------------------------------------------------- harness API
static std::string cstr(Exec&X,State&s,u64 p){ std::string r; for(;;++p){ u32 id=p>>32; Obj*o=s.mem.get(id); u64 off=(p&0xffffffffull)-BASEOFF; if(!o||off>=o->size) fatal("cstr"); Expr*e=X.loadAt(s,id,off,1); if(!isC(e)) fatal("cstr symbolic"); if(!e->val) return r; r+=(char)e->val; } }
static std::string symName(Exec&X,State&s,Val*a){ std::string n=cstr(X,s,CC(X,s,a[0])); u64 i=CC(X,s,a[1]); return n+"["+std::to_string(i)+"]"; }
static bool hSym32(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 lo=CC(X,s,a[2]),hi=CC(X,s,a[3]); r[0]= lo==hi? CV(lo):EV(mkVar(symName(X,s,a),32,lo,hi)); return true; }
static bool hSym64(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 lo=CC(X,s,a[2]),hi=CC(X,s,a[3]); r[0]= lo==hi? CV(lo):EV(mkVar(symName(X,s,a),64,lo,hi)); return true; }
static bool hSym8(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 lo=CC(X,s,a[2])&255,hi=CC(X,s,a[3])&255; r[0]= lo==hi? CV(lo):EV(mkVar(symName(X,s,a),8,lo,hi)); return true; }
static bool hChoose(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 lo=CC(X,s,a[2]),hi=CC(X,s,a[3]); if(lo==hi){ r[0]=CV(lo); return true; } Expr*v=mkVar(symName(X,s,a),32,lo,hi); r[0]=CV(X.concretize(s,v)); return true; }
static bool hAssume(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ ++X.st.assumes; Val v=a[0]; if(!v.e){ if(!v.c){ ++X.st.killed; return X.kill(); } return true; } Expr*e=v.e; if(e->width>1) e=mkNot1(mkBin(OEq,e,mkConst(0,e->width)));
  if(X.ev(s,e)){ s.addPC(e); return true; } ModelP m; SRes q=X.mayBe(s,e,&m); if(q!=S_SAT){ ++X.st.killed; return X.kill(); } s.addPC(e); s.model=m; return true; }
static bool hAssert(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ ++X.st.asserts; Val v=a[0]; 
  if(!v.e){ if(!v.c){ X.violation(s,"assert",cstr(X,s,CC(X,s,a[1])),s.model); return X.kill(); } return true; }
  Expr*e=v.e; if(e->width>1) e=mkNot1(mkBin(OEq,e,mkConst(0,e->width))); if(isC(e)){ if(e->val) return true; X.violation(s,"assert",cstr(X,s,CC(X,s,a[1])),s.model); return X.kill(); }
  if(s.knows(e)) return true;
  std::vector<Expr*> cj; std::function<void(Expr*)> split=[&](Expr*x){ if(x->op==OAnd&&x->width==1){ split(x->a); split(x->b);} else cj.push_back(x); }; split(e);
  for(Expr*x:cj){ if(s.knows(x)) continue; ++X.st.assertQueries; ModelP m; SRes q=X.mayBe(s,mkNot1(x),&m); if(q==S_SAT){ X.violation(s,"assert",cstr(X,s,CC(X,s,a[1])),m); if(X.stop) return X.kill(); ModelP m2; SRes q2=X.mayBe(s,x,&m2); if(q2!=S_SAT) return X.kill(); s.addPC(x); s.model=m2; } else s.learn(x); }
  return true; }
static bool hReach(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ X.reached.insert(cstr(X,s,CC(X,s,a[0]))); return true; }
static bool hIte(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ (void)X;(void)s; Val c=a[0]; if(!c.e){ r[0]= c.c? a[1]:a[2]; return true; } Expr*e=c.e; if(e->width>1) e=mkNot1(mkBin(OEq,e,mkConst(0,e->width))); if(s.knows(e)) r[0]=a[1]; else if(s.knows(mkNot1(e))) r[0]=a[2]; else r[0]=EV(mkIte(e,TE(a[1],32),TE(a[2],32))); return true; }
static bool hConc32(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ r[0]=CV(CC(X,s,a[0])); return true; }
static bool hIsSym(Exec&,State&,const DI&,Val*a,unsigned,Val*r){ r[0]=CV(a[0].e!=nullptr); return true; }
static bool hPrint(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ fprintf(stderr,"[rk] %s %s (model %llu)\n",cstr(X,s,CC(X,s,a[0])).c_str(),a[1].e?exprStr(a[1].e,6).c_str():std::to_string(a[1].c).c_str(),(unsigned long long)(a[1].e?X.ev(s,a[1].e):a[1].c)); return true; }
static bool hKill(Exec&X,State&,const DI&,Val*,unsigned,Val*){ ++X.st.killed; return X.kill(); }

// ---------------------------------------------------------------- intrinsics
static Expr*popcnt(Expr*e,unsigned w){ // tree sum
  std::vector<Expr*> v; for(unsigned i=0;i<w;++i) v.push_back(mkZExt(mkExtract(e,i,1),w)); while(v.size()>1){ std::vector<Expr*> u; for(size_t i=0;i+1<v.size();i+=2) u.push_back(mkBin(OAdd,v[i],v[i+1])); if(v.size()&1) u.push_back(v.back()); v.swap(u);} return v[0]; }
static Expr*cttzE(Expr*e,unsigned w){ Expr*r=mkConst(w,w); for(unsigned i=w;i-->0;) r=mkIte(mkBin(OEq,mkExtract(e,i,1),mkConst(1,1)),mkConst(i,w),r); return r; }
static Expr*ctlzE(Expr*e,unsigned w){ Expr*r=mkConst(w,w); for(unsigned i=0;i<w;++i) r=mkIte(mkBin(OEq,mkExtract(e,i,1),mkConst(1,1)),mkConst(w-1-i,w),r); return r; }
static bool hCtpop(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ if(!a[0].e){ r[0]=CV(__builtin_popcountll(a[0].c)); return true; } r[0]=EV(popcnt(a[0].e,d.w)); return true; }
static bool hCttz(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ if(!a[0].e){ r[0]=CV(a[0].c? __builtin_ctzll(a[0].c):d.w); return true; } r[0]=EV(cttzE(a[0].e,d.w)); return true; }
static bool hCtlz(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ if(!a[0].e){ r[0]=CV(a[0].c? __builtin_clzll(a[0].c)-(64-d.w):d.w); return true; } r[0]=EV(ctlzE(a[0].e,d.w)); return true; }
template<Op CMP,bool TAKEA> static bool hMinMax(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ Expr*x=TE(a[0],d.w),*y=TE(a[1],d.w); Expr*c=mkBin(CMP,x,y); r[0]=EV(TAKEA? mkIte(c,x,y):mkIte(c,y,x)); return true; }
static bool hAbs(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ Expr*x=TE(a[0],d.w); r[0]=EV(mkIte(mkBin(OSlt,x,mkConst(0,d.w)),mkBin(OSub,mkConst(0,d.w),x),x)); return true; }
static bool hFsh(Exec&X,State&s,Val*a,unsigned w,bool left,Val*r){ u64 k=CC(X,s,a[2])%w; if(!a[0].e&&!a[1].e){ u64 x=a[0].c,y=a[1].c; if(k==0) r[0]=left?a[0]:a[1]; else r[0]=CV(( left? (x<<k)|(y>>(w-k)) : (x<<(w-k))|(y>>k))&maskw(w)); return true; }
  Expr*x=TE(a[0],w),*y=TE(a[1],w); if(k==0){ r[0]=left?a[0]:a[1]; return true; } unsigned sh= left? k:w-k; r[0]=EV(mkBin(OOr,mkBin(OShl,x,mkConst(sh,w)),mkBin(OLShr,y,mkConst(w-sh,w)))); return true; }
static bool hFshl(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ return hFsh(X,s,a,d.w,true,r); }
static bool hFshr(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ return hFsh(X,s,a,d.w,false,r); }
static bool hBswap(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ unsigned w=d.w; Expr*e=TE(a[0],w),*o=nullptr; for(unsigned i=0;i<w;i+=8){ Expr*p=mkExtract(e,i,8); o=o?mkConcat(o,p):p; } r[0]=EV(o); return true; }
static bool hUaddO(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ unsigned w=d.w2; Expr*x=TE(a[0],w),*y=TE(a[1],w),*q=mkBin(OAdd,x,y); r[0]=EV(q); r[1]=EV(mkBin(OUlt,q,x)); return true; }
static bool hUsubO(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ unsigned w=d.w2; Expr*x=TE(a[0],w),*y=TE(a[1],w); r[0]=EV(mkBin(OSub,x,y)); r[1]=EV(mkBin(OUlt,x,y)); return true; }
static bool hUmulO(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ unsigned w=d.w2; if(!a[0].e&&!a[1].e){ unsigned __int128 p=(unsigned __int128)a[0].c*a[1].c; r[0]=CV((u64)p&maskw(w)); r[1]=CV(p>maskw(w)); return true; } Expr*x=TE(a[0],w),*y=TE(a[1],w); r[0]=EV(mkBin(OMul,x,y)); if(isC(y)&&y->val){ r[1]=EV(mkBin(OUlt,mkConst(maskw(w)/y->val,w),x)); } else if(isC(x)&&x->val){ r[1]=EV(mkBin(OUlt,mkConst(maskw(w)/x->val,w),y)); } else { u64 c=CC(X,s,a[1]); if(c==0){ r[0]=CV(0); r[1]=CV(0);} else { r[0]=EV(mkBin(OMul,x,mkConst(c,w))); r[1]=EV(mkBin(OUlt,mkConst(maskw(w)/c,w),x)); } } return true; }
template<Op OP> static bool hSov(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ unsigned w=d.w2; if(w>32) { if(!a[0].e&&!a[1].e){ long long q; bool o= OP==OAdd? __builtin_add_overflow((long long)a[0].c,(long long)a[1].c,&q): OP==OSub? __builtin_sub_overflow((long long)a[0].c,(long long)a[1].c,&q): __builtin_mul_overflow((long long)a[0].c,(long long)a[1].c,&q); r[0]=CV((u64)q); r[1]=CV(o); return true; }
    if(OP==OMul) fatal("smul.with.overflow i64 symbolic"); Expr*x=TE(a[0],w),*y=TE(a[1],w),*q=mkBin(OP,x,y); Expr*z=mkConst(0,w); Expr*xn=mkBin(OSlt,x,z),*yn=mkBin(OSlt,y,z),*qn=mkBin(OSlt,q,z); Expr*ov= OP==OAdd? mkBin(OAnd,mkBin(OEq,xn,yn),mkNot1(mkBin(OEq,xn,qn))) : mkBin(OAnd,mkNot1(mkBin(OEq,xn,yn)),mkNot1(mkBin(OEq,xn,qn))); r[0]=EV(q); r[1]=EV(ov); return true; }
  Expr*x=mkSExt(TE(a[0],w),2*w),*y=mkSExt(TE(a[1],w),2*w),*q=mkBin(OP,x,y); Expr*lo=mkExtract(q,0,w); r[0]=EV(lo); r[1]=EV(mkNot1(mkBin(OEq,mkSExt(lo,2*w),q))); return true; }
static bool hUsubSat(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ Expr*x=TE(a[0],d.w),*y=TE(a[1],d.w); r[0]=EV(mkIte(mkBin(OUlt,x,y),mkConst(0,d.w),mkBin(OSub,x,y))); return true; }
template<bool ADD> static bool hSSat(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ unsigned w=d.w; Expr*x=mkSExt(TE(a[0],w),w+1),*y=mkSExt(TE(a[1],w),w+1); Expr*t=mkBin(ADD?OAdd:OSub,x,y); Expr*lo=mkConst(1ull<<(w-1),w),*hi=mkConst((1ull<<(w-1))-1,w); Expr*top=mkExtract(t,w,1),*sg=mkExtract(t,w-1,1); Expr*ov=mkNot1(mkBin(OEq,top,sg)); r[0]=EV(mkIte(ov,mkIte(top,lo,hi),mkExtract(t,0,w))); (void)X;(void)s; return true; }
static bool hUaddSat(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ Expr*x=TE(a[0],d.w),*y=TE(a[1],d.w),*q=mkBin(OAdd,x,y); r[0]=EV(mkIte(mkBin(OUlt,q,x),mkConst(maskw(d.w),d.w),q)); return true; }
static bool hExpect(Exec&,State&,const DI&,Val*a,unsigned,Val*r){ r[0]=a[0]; return true; }
static bool hFAbs(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ if(!a[0].e){ r[0]=CV(a[0].c&(maskw(d.w)>>1)); return true; } Expr*x; if(smallIntFP(a[0].e,x)){ Expr*ng=mkBin(OSlt,x,mkConst(0,64)); r[0]=EV(EC.mk(OSIToFP,d.w,a[0].e->val?a[0].e->val:1,mkIte(ng,mkBin(OSub,mkConst(0,64),x),x))); return true; } r[0]=EV(mkUn(OFAbs,a[0].e,d.w)); return true; }
static bool hFSqrt(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ r[0]= a[0].e? EV(mkUn(OFSqrt,a[0].e,d.w)) : CV(foldUn(OFSqrt,a[0].c,d.w,d.w)); return true; }
static bool hFmuladd(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ r[0]=doBin(OFAdd,doBin(OFMul,a[0],a[1],d.w),a[2],d.w); return true; }
static bool hFloor(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ Expr*x; if(a[0].e&&smallIntFP(a[0].e,x)){ r[0]=a[0]; return true; } u64 v=CC(X,s,a[0]); r[0]= d.w==32? CV(b32(floorf(f32(v)))):CV(b64(floor(f64(v)))); return true; }
static bool hCeil(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ Expr*x; if(a[0].e&&smallIntFP(a[0].e,x)){ r[0]=a[0]; return true; } u64 v=CC(X,s,a[0]); r[0]= d.w==32? CV(b32(ceilf(f32(v)))):CV(b64(ceil(f64(v)))); return true; }
static bool hRound(Exec&X,State&s,const DI&d,Val*a,unsigned,Val*r){ Expr*x; if(a[0].e&&smallIntFP(a[0].e,x)){ r[0]=a[0]; return true; } u64 v=CC(X,s,a[0]); r[0]= d.w==32? CV(b32(roundf(f32(v)))):CV(b64(round(f64(v)))); return true; }
template<bool MIN> static bool hFMinMax(Exec&,State&,const DI&d,Val*a,unsigned,Val*r){ Expr*x=TE(a[0],d.w),*y=TE(a[1],d.w); Expr*c= MIN? mkBin(OFLt,x,y):mkBin(OFLt,y,x); r[0]=EV(mkIte(c,x,y)); return true; }

static Handler intrinsic(const std::string&n){
  auto P=[&](const char*p){ return n.compare(0,strlen(p),p)==0; };
  if(P("llvm.memcpy.")||P("llvm.memmove.")) return hMemcpy; if(P("llvm.memset.")) return hMemset;
  if(P("llvm.lifetime.")||P("llvm.assume")||P("llvm.dbg.")||P("llvm.experimental.noalias")||P("llvm.prefetch")||P("llvm.stacksave")||P("llvm.stackrestore")||P("llvm.invariant")||P("llvm.pseudoprobe")||P("llvm.var.annotation")||P("llvm.donothing")) return hNop;
  if(P("llvm.ctpop.")) return hCtpop; if(P("llvm.cttz.")) return hCttz; if(P("llvm.ctlz.")) return hCtlz;
  if(P("llvm.umin.")) return hMinMax<OUlt,true>; if(P("llvm.umax.")) return hMinMax<OUlt,false>; if(P("llvm.smin.")) return hMinMax<OSlt,true>; if(P("llvm.smax.")) return hMinMax<OSlt,false>;
  if(P("llvm.abs.")) return hAbs; if(P("llvm.fshl.")) return hFshl; if(P("llvm.fshr.")) return hFshr; if(P("llvm.bswap.")) return hBswap;
  if(P("llvm.uadd.with")) return hUaddO; if(P("llvm.usub.with")) return hUsubO; if(P("llvm.umul.with")) return hUmulO; if(P("llvm.sadd.with")) return hSov<OAdd>; if(P("llvm.ssub.with")) return hSov<OSub>; if(P("llvm.smul.with")) return hSov<OMul>;
  if(P("llvm.usub.sat")) return hUsubSat; if(P("llvm.uadd.sat")) return hUaddSat; if(P("llvm.sadd.sat")) return hSSat<true>; if(P("llvm.ssub.sat")) return hSSat<false>; if(P("llvm.expect")||P("llvm.launder")||P("llvm.strip.inv")||P("llvm.ptr.annotation")||P("llvm.annotation")||P("llvm.ssa.copy")||P("llvm.arithmetic.fence")) return hExpect;
  if(P("llvm.fabs.")) return hFAbs; if(P("llvm.sqrt.")) return hFSqrt; if(P("llvm.fmuladd.")||P("llvm.fma.")) return hFmuladd; if(P("llvm.floor.")) return hFloor; if(P("llvm.ceil.")) return hCeil; if(P("llvm.round.")) return hRound;
  if(P("llvm.minnum.")||P("llvm.minimum.")) return hFMinMax<true>; if(P("llvm.maxnum.")||P("llvm.maximum.")) return hFMinMax<false>;
  if(n=="llvm.sin.f64") return m1<sin>; if(n=="llvm.cos.f64") return m1<cos>; if(n=="llvm.pow.f64") return m2<pow>; if(n=="llvm.exp.f64") return m1<exp>; if(n=="llvm.log.f64") return m1<log>;
  if(n=="llvm.sin.f32") return m1f<sinf>; if(n=="llvm.cos.f32") return m1f<cosf>;
  if(P("llvm.trap")||P("llvm.ubsantrap")||P("llvm.debugtrap")) return H{ UNUSED X.violation(s,"trap","trap",s.model); return X.kill(); };
  if(P("llvm.eh.typeid.for")) return H{ UNUSED u64 p=CC(X,s,a[0]); r[0]=CV(p? tiId(tiN(p)):tiId("*")); return true; };
  if(P("llvm.is.constant")) return hNop;
  if(P("llvm.threadlocal.address")) return hExpect;
  return nullptr;
}
static bool hThrow(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ u64 o=CC(X,s,a[0]), ti=CC(X,s,a[1]); if(!X.throwExc(s,o,ti)) return X.kill(); return false; }
static u64 excTi(State&s,u64 o){ for(size_t i=s.excTypes.size();i-->0;) if(s.excTypes[i].first==o) return s.excTypes[i].second; return 0; }
static bool hBeginCatch(Exec&X,State&s,const DI&,Val*a,unsigned,Val*r){ u64 o=CC(X,s,a[0]); s.th[s.cur].caught.push_back({o,excTi(s,o)}); r[0]=CV(o); return true; }
static bool hEndCatch(Exec&,State&s,const DI&,Val*,unsigned,Val*){ auto&c=s.th[s.cur].caught; if(!c.empty()) c.pop_back(); return true; }
static bool hRethrow(Exec&X,State&s,const DI&,Val*,unsigned,Val*){ auto&c=s.th[s.cur].caught; if(c.empty()){ X.violation(s,"exception","rethrow without exception",s.model); return X.kill(); } Caught k=c.back(); if(!X.throwExc(s,k.obj,k.ti)) return X.kill(); return false; }
static bool hTerminate(Exec&X,State&s,const DI&,Val*,unsigned,Val*){ X.violation(s,"exception","std::terminate called",s.model); return X.kill(); }
static bool hAbort(Exec&X,State&s,const DI&,Val*,unsigned,Val*){ X.violation(s,"abort","abort called",s.model); return X.kill(); }
template<int K> static bool hThrowStd(Exec&X,State&s,const DI&,Val*,unsigned,Val*){ static const char*t[]={"_ZTISt12length_error","_ZTISt12out_of_range","_ZTISt11logic_error","_ZTISt9bad_alloc","_ZTISt17bad_function_call","_ZTISt16invalid_argument","_ZTISt13runtime_error","_ZTISt20bad_array_new_length","_ZTISt12system_error","_ZTISt8bad_cast"}; return throwStd(X,s,t[K]); }
static bool hEmptyString(Exec&X,State&s,const DI&,Val*a,unsigned,Val*){ u64 p=CC(X,s,a[0]); if(!X.store(s,CV(p),64,CV(p+16))||!X.store(s,CV(p+8),64,CV(0))||!X.store(s,CV(p+16),8,CV(0))) return X.kill(); return true; }

static std::map<std::string,Handler>&HT(){ static std::map<std::string,Handler> m; if(m.empty()){
  m["malloc"]=hMalloc; m["_Znwm"]=m["_Znam"]=hNew; m["_ZnwmSt11align_val_t"]=m["_ZnamSt11align_val_t"]=hNew; m["_ZnwmRKSt9nothrow_t"]=m["_ZnamRKSt9nothrow_t"]=hMalloc; m["_ZnwmSt11align_val_tRKSt9nothrow_t"]=hMalloc;
  m["calloc"]=H{ UNUSED u64 k=CC(X,s,a[0]),z=CC(X,s,a[1]); return doAlloc(X,s,CV(k*z),r,true,K_CONC); };
  m["aligned_alloc"]=H{ UNUSED return doAlloc(X,s,a[1],r,true); };
  m["posix_memalign"]=H{ UNUSED u64 pp=CC(X,s,a[0]); u64 sz=CC(X,s,a[2]); u64 p=X.alloc(s,sz,OB_HEAP,K_UNINIT); if(!X.store(s,CV(pp),64,CV(p))) return X.kill(); r[0]=CV(0); return true; };
  m["realloc"]=H{ UNUSED u64 p=CC(X,s,a[0]),sz=CC(X,s,a[1]); u64 q=X.alloc(s,sz,OB_HEAP,K_UNINIT); if(p){ Obj*o=s.mem.get(p>>32); if(!o||(p&0xffffffffull)!=BASEOFF){ X.err(s,"memory","realloc of invalid pointer",nullptr); return X.kill(); } u64 k=std::min<u64>(o->size,sz); if(k) s.mem.copyRaw(q>>32,0,p>>32,0,k); if(!X.freeAddr(s,p)) return X.kill(); } r[0]=CV(q); return true; };
  for(const char*k:{"free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t"}) m[k]=hFree;
  m["memcpy"]=m["memmove"]=hMemcpy; m["memset"]=hMemset; m["memcmp"]=m["bcmp"]=hMemcmp; m["strcmp"]=hStrcmp; m["strncmp"]=hStrncmp; m["strlen"]=hStrlen; m["memchr"]=hMemchr;
  m["__cxa_allocate_exception"]=H{ UNUSED r[0]=CV(X.alloc(s,CC(X,s,a[0])+128,OB_HEAP,K_UNINIT)); return true; };
  m["__cxa_free_exception"]=hNop; m["__cxa_throw"]=hThrow; m["__cxa_begin_catch"]=hBeginCatch; m["__cxa_end_catch"]=hEndCatch; m["__cxa_rethrow"]=hRethrow; m["_ZSt9terminatev"]=hTerminate; m["__cxa_call_terminate"]=m["__clang_call_terminate"]=hTerminate; m["__cxa_pure_virtual"]=hTerminate; m["abort"]=m["__assert_fail"]=m["exit"]=m["_exit"]=hAbort;
  m["__cxa_get_exception_ptr"]=H{ UNUSED r[0]=a[0]; return true; };
  m["_ZSt20__throw_length_errorPKc"]=hThrowStd<0>; m["_ZSt20__throw_out_of_rangePKc"]=m["_ZSt24__throw_out_of_range_fmtPKcz"]=hThrowStd<1>; m["_ZSt19__throw_logic_errorPKc"]=hThrowStd<2>; m["_ZSt17__throw_bad_allocv"]=hThrowStd<3>; m["_ZSt25__throw_bad_function_callv"]=hThrowStd<4>; m["_ZSt24__throw_invalid_argumentPKc"]=hThrowStd<5>; m["_ZSt21__throw_runtime_errorPKc"]=hThrowStd<6>; m["_ZSt28__throw_bad_array_new_lengthv"]=hThrowStd<7>; m["_ZSt20__throw_system_errori"]=hThrowStd<8>; m["__cxa_throw_bad_array_new_length"]=hThrowStd<7>; m["_ZSt16__throw_bad_castv"]=m["__cxa_bad_cast"]=hThrowStd<9>;
  m["_ZSt17current_exceptionv"]=H{ UNUSED auto&c=s.th[s.cur].caught; u64 o= c.empty()?0:c.back().obj; u64 p=CC(X,s,a[0]); if(!X.store(s,CV(p),64,CV(o))) return X.kill(); return true; };
  m["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"]=H{ UNUSED u64 p=CC(X,s,a[0]); Val o; if(!X.load(s,CV(p),64,o)) return X.kill(); if(!o.c){ X.violation(s,"exception","rethrow of null exception_ptr",s.model); return X.kill(); } if(!X.throwExc(s,o.c,excTi(s,o.c))) return X.kill(); return false; };
  m["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"]=hNop; m["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"]=hNop;
  m["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"]=H{ UNUSED Val o; u64 p=CC(X,s,a[0]),q=CC(X,s,a[1]); if(!X.load(s,CV(q),64,o)||!X.store(s,CV(p),64,o)) return X.kill(); return true; };
  m["_ZNSt15__exception_ptr13exception_ptrD1Ev"]=hNop; m["_ZNSt15__exception_ptr13exception_ptr4swapERS0_"]=H{ UNUSED Val x,y; u64 p=CC(X,s,a[0]),q=CC(X,s,a[1]); if(!X.load(s,CV(p),64,x)||!X.load(s,CV(q),64,y)||!X.store(s,CV(p),64,y)||!X.store(s,CV(q),64,x)) return X.kill(); return true; };
  m["_ZNSt15__exception_ptr13exception_ptraSERKS0_"]=H{ UNUSED Val o; u64 p=CC(X,s,a[0]),q=CC(X,s,a[1]); if(!X.load(s,CV(q),64,o)||!X.store(s,CV(p),64,o)) return X.kill(); r[0]=a[0]; return true; };
  for(const char*k:{"__cxa_atexit","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","__cxa_guard_release","__cxa_guard_abort","_ZNSt18condition_variableC1Ev","_ZNSt18condition_variableD1Ev","pthread_mutex_init","pthread_mutex_destroy","pthread_cond_destroy","pthread_cond_init","_ZNSt6thread6_StateD2Ev","fflush","puts","printf","fprintf","close","usleep"}) m[k]=hNop;
  m["__cxa_guard_acquire"]=H{ UNUSED Val v; u64 p=CC(X,s,a[0]); if(!X.load(s,CV(p),8,v)) return X.kill(); if(!X.store(s,CV(p),8,CV(1))) return X.kill(); r[0]=CV(v.c==0); return true; };
  m["sin"]=m1<sin>; m["cos"]=m1<cos>; m["tan"]=m1<tan>; m["asin"]=m1<asin>; m["acos"]=m1<acos>; m["atan"]=m1<atan>; m["atan2"]=m2<atan2>; m["pow"]=m2<pow>; m["exp"]=m1<exp>; m["log"]=m1<log>; m["log2"]=m1<log2>; m["fmod"]=m2<fmod>; m["sqrt"]=hFSqrt; m["sqrtf"]=hFSqrt; m["sinf"]=m1f<sinf>; m["cosf"]=m1f<cosf>; m["tanf"]=m1f<tanf>; m["asinf"]=m1f<asinf>; m["acosf"]=m1f<acosf>; m["atanf"]=m1f<atanf>; m["atan2f"]=m2f<atan2f>; m["floor"]=m["floorf"]=hFloor; m["ceil"]=m["ceilf"]=hCeil; m["round"]=m["roundf"]=hRound; m["hypot"]=m2<hypot>; m["powf"]=m2f<powf>;
  m["lround"]=H{ UNUSED r[0]=CV((u64)lround(f64(CC(X,s,a[0])))); return true; };
  m["gettimeofday"]=H{ UNUSED u64 p=CC(X,s,a[0]); if(!X.store(s,CV(p),64,CV(s.clock))||!X.store(s,CV(p+8),64,CV(0))) return X.kill(); s.clock++; r[0]=CV(0); return true; };
  m["_ZN10RoutingKit14get_micro_timeEv"]=H{ UNUSED r[0]=CV(s.clock++); return true; };
  // threads
  m["pthread_mutex_lock"]=m["__gthread_mutex_lock"]=hLock; m["pthread_mutex_trylock"]=hTryLock; m["sched_yield"]=m["__gthread_yield"]=hYield; m["pthread_mutex_unlock"]=hUnlock; m["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"]=hCvWait; m["_ZNSt18condition_variable10notify_oneEv"]=hNotify1; m["_ZNSt18condition_variable10notify_allEv"]=hNotifyA;
  m["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"]=hThreadStart; m["_ZNSt6thread4joinEv"]=hThreadJoin; m["_ZNSt6thread20hardware_concurrencyEv"]=H{ UNUSED r[0]=CV(2); return true; };
  m["__gthread_active_p"]=m["_ZL18__gthread_active_pv"]=H{ UNUSED r[0]=CV(1); return true; };
  m["rk_spawn"]=hSpawn; m["rk_join"]=hJoinId; m["rk_barrier"]=hBarrier; m["rk_self"]=H{ UNUSED r[0]=CV(s.cur); return true; }; m["rk_point"]=H{ UNUSED if(s.th.size()>1){ X.schedPoint(s); s.schedDone=false; } return true; };
  m["pthread_self"]=H{ UNUSED r[0]=CV(s.cur+1); return true; };
  // harness API
  m["rk_sym"]=hSym32; m["rk_sym64"]=hSym64; m["rk_sym8"]=hSym8; m["rk_choose"]=hChoose; m["rk_assume"]=hAssume; m["rk_assert"]=hAssert; m["rk_reach"]=hReach; m["rk_ite"]=hIte; m["rk_concretize"]=hConc32; m["rk_is_symbolic"]=hIsSym; m["rk_print"]=hPrint; m["rk_kill"]=hKill; m["rk_fail"]=H{ UNUSED X.violation(s,"assert",cstr(X,s,CC(X,s,a[0])),s.model); return X.kill(); };
  m["rk_clock"]=H{ UNUSED r[0]=CV(s.clock++); return true; };
  } return m; }
static const char*noopPrefixes[]={"_ZNSt13runtime_error","_ZNSt11logic_error","_ZNSt12out_of_range","_ZNSt12length_error","_ZNSt16invalid_argument","_ZNSt9exceptionD","_ZNSt9exceptionC","_ZNSt9bad_alloc","_ZNSt12domain_error","_ZNSt11range_error","_ZNSt14overflow_error"};
static Handler findHandler(const std::string&n){
  if(n.compare(0,5,"llvm.")==0) return intrinsic(n);
  auto it=HT().find(n); if(it!=HT().end()) return it->second;
  for(const char*p:noopPrefixes) if(n.compare(0,strlen(p),p)==0) return n.find("C1E")!=std::string::npos||n.find("C2E")!=std::string::npos? hExcCtor: hNop;
  if(n.compare(0,19,"_ZNSt7__cxx119to_st")==0) return hEmptyString;
  return nullptr; }
