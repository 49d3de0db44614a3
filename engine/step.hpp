// Interpreter loop.
static Expr*icmpE(unsigned p,Expr*a,Expr*b){ switch(p){ case CmpInst::ICMP_EQ:return mkBin(OEq,a,b);case CmpInst::ICMP_NE:return mkNot1(mkBin(OEq,a,b));case CmpInst::ICMP_ULT:return mkBin(OUlt,a,b);case CmpInst::ICMP_ULE:return mkBin(OUle,a,b);case CmpInst::ICMP_UGT:return mkBin(OUlt,b,a);case CmpInst::ICMP_UGE:return mkBin(OUle,b,a);case CmpInst::ICMP_SLT:return mkBin(OSlt,a,b);case CmpInst::ICMP_SLE:return mkBin(OSle,a,b);case CmpInst::ICMP_SGT:return mkBin(OSlt,b,a);case CmpInst::ICMP_SGE:return mkBin(OSle,b,a);} fatal("icmp"); }
static inline u64 icmpC(unsigned p,u64 a,u64 b,unsigned w){ switch(p){ case CmpInst::ICMP_EQ:return a==b;case CmpInst::ICMP_NE:return a!=b;case CmpInst::ICMP_ULT:return a<b;case CmpInst::ICMP_ULE:return a<=b;case CmpInst::ICMP_UGT:return a>b;case CmpInst::ICMP_UGE:return a>=b;case CmpInst::ICMP_SLT:return sextw(a,w)<sextw(b,w);case CmpInst::ICMP_SLE:return sextw(a,w)<=sextw(b,w);case CmpInst::ICMP_SGT:return sextw(a,w)>sextw(b,w);case CmpInst::ICMP_SGE:return sextw(a,w)>=sextw(b,w);} fatal("icmp"); }
static Expr*fcmpE(unsigned p,Expr*a,Expr*b){
  auto U=[&]{return mkBin(OFUno,a,b);}; auto NOT=[&](Expr*x){return mkNot1(x);};
  switch(p){ case CmpInst::FCMP_FALSE:return mkConst(0,1);case CmpInst::FCMP_TRUE:return mkConst(1,1);
    case CmpInst::FCMP_OEQ:return mkBin(OFEq,a,b);case CmpInst::FCMP_OLT:return mkBin(OFLt,a,b);case CmpInst::FCMP_OLE:return mkBin(OFLe,a,b);case CmpInst::FCMP_OGT:return mkBin(OFLt,b,a);case CmpInst::FCMP_OGE:return mkBin(OFLe,b,a);
    case CmpInst::FCMP_ONE:return mkBin(OAnd,NOT(U()),NOT(mkBin(OFEq,a,b)));case CmpInst::FCMP_ORD:return NOT(U());case CmpInst::FCMP_UNO:return U();
    case CmpInst::FCMP_UEQ:return mkBin(OOr,U(),mkBin(OFEq,a,b));case CmpInst::FCMP_UNE:return NOT(mkBin(OFEq,a,b));case CmpInst::FCMP_ULT:return NOT(mkBin(OFLe,b,a));case CmpInst::FCMP_ULE:return NOT(mkBin(OFLt,b,a));case CmpInst::FCMP_UGT:return NOT(mkBin(OFLe,a,b));case CmpInst::FCMP_UGE:return NOT(mkBin(OFLt,a,b)); }
  fatal("fcmp"); }
static Val doBin(Op o,const Val&a,const Val&b,unsigned w){
  if(!a.e&&!b.e){ u64 y=b.c; if(o==OShl||o==OLShr||o==OAShr) y&= (w==64?63: w==32?31: w==16||w==8?31:63); return CV(foldBin(o,a.c,y,w)); }
  Expr*x=TE(a,w),*y=TE(b,w);
  if((o==OShl||o==OLShr||o==OAShr)&&y->umax>=w&&(w==32||w==64)) y=mkBin(OAnd,y,mkConst(w-1,w));
  Expr*r=mkBin(o,x,y); return w<=64? EV(r):Val{0,r};
}
static Val doZ(const Val&v,unsigned from,unsigned to){ if(!v.e){ if(to<=64) return v; return Val{0,mkZExt(mkConst(v.c,from),to)}; } Expr*r=mkZExt(v.e,to); return to<=64?EV(r):Val{0,r}; }
static Val doS(const Val&v,unsigned from,unsigned to){ if(!v.e&&to<=64) return CV((u64)sextw(v.c,from)&maskw(to)); Expr*r=mkSExt(TE(v,from),to); return to<=64?EV(r):Val{0,r}; }
static Val doT(const Val&v,unsigned from,unsigned to){ if(!v.e) return CV(v.c&maskw(to)); return EV(mkExtract(v.e,0,to)); (void)from; }

void Exec::run(State*sp){
  State&s=*sp; bool dead=false; u64 n0=s.icnt;
  auto account=[&]{ st.instrs+=s.icnt-n0; n0=s.icnt; };
  u32 chk=0; 
  while(!dead){
    Thread*t=&s.th[s.cur]; Frame*f=&t->fr.back(); Val*R=&t->regs[f->base]; const DI*code=f->f->code.data();
    // inner loop: stays while the frame does not change
    for(;;){
      const DI&d=code[f->pc];
      if(++s.icnt>O.maxInstr){ violation(s,"nontermination","instruction limit exceeded",s.model); dead=true; break; }
      if((++chk&0xffff)==0){ if(nowS()-t0>O.timeLimit){ inc("time limit"); stop=true; } if(stop){ dead=true; break; } 
        if((chk&0xfffff)==0){ long rss=0; if(FILE*fp=fopen("/proc/self/statm","r")){ long a; if(fscanf(fp,"%ld %ld",&a,&rss)!=2) rss=0; fclose(fp);} if((u64)rss*4096>O.memLimitMB*1048576ull){ inc("memory limit"); stop=true; dead=true; break; } } }
      auto G=[&](i32 o)->Val{ return o>=0? R[o]:CPOOL[~o]; };
      switch(d.k){
        case D_BIN: {
          Val a=G(d.a), b=G(d.b);
          if(d.sub==OUDiv||d.sub==OSDiv||d.sub==OURem||d.sub==OSRem){
            if(!b.e){ if(b.c==0){ violation(s,"arithmetic","division by zero",s.model); dead=true; break; } }
            else { ModelP m; Expr*z=mkBin(OEq,b.e,mkConst(0,d.w)); if(mayBe(s,z,&m)==S_SAT){ violation(s,"arithmetic","division by zero",m); if(stop){dead=true;break;} if(s.knows(z)){dead=true;break;} s.addPC(mkNot1(z)); if(ev(s,z)){ ModelP m2; if(query(s,nullptr,&m2)!=S_SAT){dead=true;break;} s.model=m2; } } }
          }
          R[d.dst]=doBin((Op)d.sub,a,b,d.w); ++f->pc; continue; }
        case D_BINN: for(u32 i=0;i<d.xn;++i) R[d.dst+i]=doBin((Op)d.sub,G(Decoder::sub(d.a,i)),G(Decoder::sub(d.b,i)),d.w); ++f->pc; continue;
        case D_FREM: { Val a=G(d.a),b=G(d.b); u64 x=concVal(s,a),y=concVal(s,b); if(d.w==32) R[d.dst]=CV(b32(fmodf(f32(x),f32(y)))); else R[d.dst]=CV(b64(fmod(f64(x),f64(y)))); ++f->pc; continue; }
        case D_FNEG: for(u32 i=0;i<d.xn;++i){ Val a=G(Decoder::sub(d.a,i)); if(!a.e) R[d.dst+i]=CV(a.c^(1ull<<(d.w-1))); else { Expr*x; if(smallIntFP(a.e,x)) R[d.dst+i]=EV(mkBin(OFSub,mkConst(0,d.w),a.e)); else R[d.dst+i]=EV(mkUn(OFNeg,a.e,d.w)); } } ++f->pc; continue;
        case D_ICMP: for(u32 i=0;i<d.xn;++i){ Val a=G(Decoder::sub(d.a,i)), b=G(Decoder::sub(d.b,i)); if(!a.e&&!b.e) R[d.dst+i]=CV(icmpC(d.sub,a.c,b.c,d.w)); else R[d.dst+i]=EV(icmpE(d.sub,TE(a,d.w),TE(b,d.w))); } ++f->pc; continue;
        case D_FCMP: for(u32 i=0;i<d.xn;++i){ Val a=G(Decoder::sub(d.a,i)), b=G(Decoder::sub(d.b,i)); R[d.dst+i]=EV(fcmpE(d.sub,TE(a,d.w),TE(b,d.w))); } ++f->pc; continue;
        case D_SELECT: { 
          if(O.forkSelect&&d.xn==1&&d.w>8){ Val c=G(d.a),a=G(d.b),b=G(d.c); if(c.e&&!a.e&&!b.e&&!s.knows(c.e)&&!s.knows(mkNot1(c.e))){ bool v=ev(s,c.e); Expr*mine=v?c.e:mkNot1(c.e),*oth=v?mkNot1(c.e):c.e; ModelP m; if(mayBe(s,oth,&m)==S_SAT){ State*n=clone(s); n->addPC(oth); n->model=m; work.push_back(n); s.addPC(mine); s.depth++; requeue=true; } R[d.dst]= v?a:b; ++f->pc; if(requeue&&frontierMode) goto outer; continue; } }
          for(u32 i=0;i<d.xn;++i){ Val c=G(d.sub? Decoder::sub(d.a,i):d.a); Val a=G(Decoder::sub(d.b,i)), b=G(Decoder::sub(d.c,i)); if(!c.e) R[d.dst+i]= c.c? a:b; else { unsigned w=f->f->ext[d.x0+i];
              if(s.knows(c.e)) R[d.dst+i]=a; else if(s.knows(mkNot1(c.e))) R[d.dst+i]=b; else
              R[d.dst+i]=EV(mkIte(c.e,TE(a,w),TE(b,w))); } }
          ++f->pc; continue; }
        case D_LOAD: {
          if(d.sub&&s.th.size()>1){ if(!schedPoint(s)){ goto outer; } s.schedDone=false; }
          Val A=G(d.a); const i64*x=&f->f->ext[d.x0];
          raceOn=O.race&&!d.sub; if(d.sub&&O.race&&!A.e) acquire(s,A.c);
          if(d.xn==1){ Val v; if(!load(s,A,x[0],v)){ dead=true; break; } R[d.dst]=v; }
          else { if(A.e) A=CV(concretize(s,A.e)); bool ok=true; std::vector<Val> tmp(d.xn); for(u32 i=0;i<d.xn&&ok;++i) ok=load(s,CV(A.c+x[2*i+1]),x[2*i],tmp[i]); if(!ok){dead=true;break;} for(u32 i=0;i<d.xn;++i) R[d.dst+i]=tmp[i]; }
          ++f->pc; if(requeue&&frontierMode) goto outer; continue; }
        case D_STORE: {
          if(d.sub&&s.th.size()>1){ if(!schedPoint(s)){ goto outer; } s.schedDone=false; }
          Val A=G(d.b); const i64*x=&f->f->ext[d.x0]; bool ok=true; raceOn=O.race&&!d.sub; if(d.sub&&O.race&&!A.e) release(s,A.c);
          if(d.xn==1) ok=store(s,A,x[0],G(d.a)); else { if(A.e) A=CV(concretize(s,A.e)); for(u32 i=0;i<d.xn&&ok;++i) ok=store(s,CV(A.c+x[2*i+1]),x[2*i],G(Decoder::sub(d.a,i))); }
          if(!ok){ dead=true; break; }
          ++f->pc; continue; }
        case D_GEP: {
          Val b=G(d.a); u64 k=d.imm; Expr*acc=nullptr;
          for(u32 i=0;i<d.xn;++i){ const i64*x=&f->f->ext[d.x0+3*i]; Val ix=G(x[0]); if(!ix.e) k+= (u64)sextw(ix.c,x[2])*(u64)x[1]; else { Expr*e= x[2]<64? mkSExt(ix.e,64):ix.e; if(x[1]!=1) e=mkBin(OMul,e,mkConst(x[1],64)); acc=acc?mkBin(OAdd,acc,e):e; } }
          if(!b.e&&!acc) R[d.dst]=CV(b.c+k); else { Expr*r= acc? mkBin(OAdd,acc,TE(b,64)) : b.e; r=mkBin(OAdd,r,mkConst(k,64)); R[d.dst]=EV(r); }
          ++f->pc; continue; }
        case D_ALLOCA: { u64 n=concVal(s,G(d.a)); u32 id=s.mem.add(newObj(n*d.imm,OB_STACK,K_UNINIT)); t->allocas.push_back(id); R[d.dst]=CV(mkAddr(id,0)); ++f->pc; continue; }
        case D_BR: takeEdge(s,d.e1); continue;
        case D_CBR: {
          Val c=G(d.a);
          if(!c.e){ takeEdge(s,c.c? d.e1:d.e2); continue; }
          if(s.knows(c.e)){ takeEdge(s,d.e1); continue; }
          Expr*nc=mkNot1(c.e); if(s.knows(nc)){ takeEdge(s,d.e2); continue; }
          bool v=ev(s,c.e); Expr*mine= v?c.e:nc,*oth= v?nc:c.e; ModelP m; SRes r; if(quickFalse(s,oth)){ ++orderHits; r=S_UNSAT; } else r=query(s,oth,&m);
          if(r==S_UNKNOWN) inc("solver unknown");
          if(r==S_SAT){ if(O.forkStat) forkStat[where(s)]++; State*n=clone(s); n->addPC(oth); n->model=m; u32 keep=s.cur; (void)keep; takeEdge(*n,v?d.e2:d.e1); work.push_back(n); s.addPC(mine); s.depth++; requeue=true; }
          else s.learn(mine);
          takeEdge(s,v?d.e1:d.e2); if(requeue&&frontierMode) goto outer; continue; }
        case D_SWITCH: {
          Val c=G(d.a); const i64*x=d.xn?&f->f->ext[d.x0]:nullptr; u64 v= c.e? concSwitch(s,c.e,x,d.xn) : c.c; bool hit=false;
          for(u32 i=0;i<d.xn;++i) if((u64)x[4*i]==v){ takeEdge(s,Edge{(u32)x[4*i+1],(u32)x[4*i+2],(u32)x[4*i+3]}); hit=true; break; }
          if(!hit) takeEdge(s,d.e1);
          if(requeue&&frontierMode) goto outer; continue; }
        case D_RET: {
          u32 n=f->f->retN; Val rv[16]; std::vector<Val> big; Val*T=rv; if(n>16){ big.resize(n); T=big.data(); } for(u32 i=0;i<n;++i) T[i]=G(Decoder::sub(d.a,i)); i32 rd=f->retDst; popFrame(s);
          if(t->fr.empty()){ t->done=true; if(s.cur==0){ if(g_keep){ t->done=false; g_kept=sp; account(); return; } finish(s); dead=true; break; } if(!blockSwitch(s)){ dead=true; break; } goto outer; }
          if(rd<-1){ if(!onReturn(s,rd,T,n)) dead=true; goto outer; }
          f=&t->fr.back(); R=&t->regs[f->base]; const DI&cd=f->f->code[f->pc]; for(u32 i=0;i<n&&i<cd.sub;++i) R[cd.dst+i]=T[i];
          if(cd.isInvoke) takeEdge(s,cd.e1); else ++f->pc;
          code=f->f->code.data(); continue; }
        case D_CALL: {
          FuncInfo*cf=(FuncInfo*)d.p;
          if(!cf){ u64 a=concVal(s,G(d.b)); cf=funcByAddr(a); if(!cf){ violation(s,"memory","call through invalid function pointer",s.model); dead=true; break; } }
          Val buf[32]; std::vector<Val> big; Val*args=buf; if(d.xn>32){ big.resize(d.xn); args=big.data(); } for(u32 i=0;i<d.xn;++i) args[i]=G(f->f->ext[d.x0+i]);
          if(cf->h){ cf->executed=true; Val ret[8]={}; bool ok=cf->h(*this,s,d,args,d.xn,ret);
            if(!ok){ if(pathDead){ pathDead=false; dead=true; break; } goto outer; }
            for(u32 i=0;i<d.sub&&i<8;++i) R[d.dst+i]=ret[i]; // handlers that return true do not change frames
            t=&s.th[s.cur]; f=&t->fr.back(); 
            if(d.isInvoke) takeEdge(s,d.e1); else ++f->pc; 
            if(requeue&&frontierMode) goto outer; continue; }
          if(cf->F->isDeclaration()){ inc("unsupported external function "+cf->name+" called at "+where(s)); dead=true; break; }
          if(!pushCall(s,cf,args,d.xn,d.dst)){ dead=true; break; }
          f=&t->fr.back(); R=&t->regs[f->base]; code=f->f->code.data(); continue; }
        case D_ZEXT: for(u32 i=0;i<d.xn;++i) R[d.dst+i]=doZ(G(Decoder::sub(d.a,i)),d.w2,d.w); ++f->pc; continue;
        case D_SEXT: for(u32 i=0;i<d.xn;++i) R[d.dst+i]=doS(G(Decoder::sub(d.a,i)),d.w2,d.w); ++f->pc; continue;
        case D_TRUNC: for(u32 i=0;i<d.xn;++i) R[d.dst+i]=doT(G(Decoder::sub(d.a,i)),d.w2,d.w); ++f->pc; continue;
        case D_COPY: if(d.xn==1) R[d.dst]=G(d.a); else { Val T[64]; for(u32 i=0;i<d.xn&&i<64;++i) T[i]=G(Decoder::sub(d.a,i)); for(u32 i=0;i<d.xn&&i<64;++i) R[d.dst+i]=T[i]; } ++f->pc; continue;
        case D_FPUN: for(u32 i=0;i<d.xn;++i){ Val a=G(Decoder::sub(d.a,i)); if(!a.e) R[d.dst+i]=CV(foldUn((Op)d.sub,a.c,d.w2,d.w)); else R[d.dst+i]=EV(mkUn((Op)d.sub,a.e,d.w)); } ++f->pc; continue;
        case D_UNREACH: violation(s,"unreachable","reached unreachable code",s.model); dead=true; break;
        case D_LPAD: { auto*LP=cast<LandingPadInst>(d.I); u32 sel=0; const std::string&tn=tiN(t->excTi); for(unsigned i=0;i<LP->getNumClauses();++i) if(LP->isCatch(i)){ Constant*C=LP->getClause(i); if(isa<ConstantPointerNull>(C)){ sel=tiId("*"); break; } std::string cn=C->stripPointerCasts()->getName().str(); if(tiMatches(tn,cn)){ sel=tiId(cn); break; } } R[d.dst]=CV(t->excObj); R[d.dst+1]=CV(sel); ++f->pc; continue; }
        case D_RESUME: { Val a=G(d.a); t->excObj=a.c; for(size_t i=s.excTypes.size();i-->0;) if(s.excTypes[i].first==a.c){ t->excTi=s.excTypes[i].second; break; } popFrame(s); if(t->fr.empty()){ violation(s,"exception","uncaught exception",s.model); dead=true; break; } if(!unwind(s)) dead=true; goto outer; }
        case D_RMW: {
          if(s.th.size()>1){ if(!schedPoint(s)) goto outer; s.schedDone=false; }
          Val A=G(d.a),v=G(d.b),old; if(A.e) A=CV(concretize(s,A.e)); bool sv=raceOn; raceOn=false; acquire(s,A.c); noteAtomic(s,A.c,(d.w+7)/8); release(s,A.c); if(!load(s,A,d.w,old)){dead=true;break;} Val nv;
          switch(d.sub){ case AtomicRMWInst::Xchg:nv=v;break;case AtomicRMWInst::Add:nv=doBin(OAdd,old,v,d.w);break;case AtomicRMWInst::Sub:nv=doBin(OSub,old,v,d.w);break;case AtomicRMWInst::And:nv=doBin(OAnd,old,v,d.w);break;case AtomicRMWInst::Or:nv=doBin(OOr,old,v,d.w);break;case AtomicRMWInst::Xor:nv=doBin(OXor,old,v,d.w);break;
            case AtomicRMWInst::UMin: nv=EV(mkIte(mkBin(OUlt,TE(old,d.w),TE(v,d.w)),TE(old,d.w),TE(v,d.w)));break; case AtomicRMWInst::UMax: nv=EV(mkIte(mkBin(OUlt,TE(old,d.w),TE(v,d.w)),TE(v,d.w),TE(old,d.w)));break; default: fatal("rmw"); }
          if(!store(s,A,d.w,nv)){dead=true;break;} raceOn=sv; R[d.dst]=old; ++f->pc; continue; }
        case D_CMPXCHG: {
          if(s.th.size()>1){ if(!schedPoint(s)) goto outer; s.schedDone=false; }
          Val A=G(d.a),cmp=G(d.b),nw=G(d.c),old; if(A.e) A=CV(concretize(s,A.e)); bool sv=raceOn; raceOn=false; acquire(s,A.c); noteAtomic(s,A.c,(d.w+7)/8); release(s,A.c); if(!load(s,A,d.w,old)){dead=true;break;} Expr*eq=mkBin(OEq,TE(old,d.w),TE(cmp,d.w));
          bool hit; if(isC(eq)) hit=eq->val; else if(s.knows(eq)) hit=true; else if(s.knows(mkNot1(eq))) hit=false;
          else { hit=ev(s,eq); Expr*mine=hit?eq:mkNot1(eq),*oth=hit?mkNot1(eq):eq; ModelP m; SRes q=mayBe(s,oth,&m); if(q==S_UNKNOWN) inc("solver unknown");
            if(q==S_SAT){ State*n=clone(s); n->addPC(oth); n->model=m; Thread&nt=n->th[n->cur]; Frame&nf=nt.fr.back(); if(!hit&&!store(*n,A,d.w,nw)){ dead=true; break; } nt.regs[nf.base+d.dst]=old; nt.regs[nf.base+d.dst+1]=CV(!hit); ++nf.pc; work.push_back(n); s.addPC(mine); s.depth++; requeue=true; } else s.learn(mine); }
          if(hit&&!store(s,A,d.w,nw)){dead=true;break;} raceOn=sv; R[d.dst]=old; R[d.dst+1]=CV(hit); ++f->pc; if(requeue&&frontierMode) goto outer; continue; }
        case D_BITCASTV: { Expr*e=nullptr; for(u32 i=0;i<d.xn;++i){ Expr*p=TE(G(Decoder::sub(d.a,i)),d.w2); e=e?mkConcat(p,e):p; } for(i64 i=0;i<d.imm;++i){ Expr*r=mkExtract(e,i*d.w,d.w); R[d.dst+i]= d.w<=64?EV(r):Val{0,r}; } ++f->pc; continue; }
        case D_EXTRACT: { Val ix=G(d.b); u64 k=ix.e?concretize(s,ix.e):ix.c; if(k>=d.xn){ violation(s,"memory","vector lane out of range",s.model); dead=true; break; } R[d.dst]=G(Decoder::sub(d.a,k)); ++f->pc; continue; }
        case D_INSERT: { if(d.w2){ Val ix=G(d.c); u64 k=ix.e?concretize(s,ix.e):ix.c; if(k>=d.xn){ violation(s,"memory","vector lane out of range",s.model); dead=true; break; } std::vector<Val> T(d.xn); for(u32 i=0;i<d.xn;++i) T[i]= i==k? G(d.b):G(Decoder::sub(d.a,i)); for(u32 i=0;i<d.xn;++i) R[d.dst+i]=T[i]; ++f->pc; continue; }
          std::vector<Val> T(d.xn); for(u32 i=0;i<d.xn;++i) T[i]= (i>=(u32)d.c&&i<(u32)d.c+d.imm)? G(Decoder::sub(d.b,i-d.c)):G(Decoder::sub(d.a,i)); for(u32 i=0;i<d.xn;++i) R[d.dst+i]=T[i]; ++f->pc; continue; }
        case D_SHUF: { std::vector<Val> T(d.xn); for(u32 i=0;i<d.xn;++i) T[i]=G(f->f->ext[d.x0+i]); for(u32 i=0;i<d.xn;++i) R[d.dst+i]=T[i]; ++f->pc; continue; }
        case D_NOP: ++f->pc; continue;
        default: { std::string str; raw_string_ostream os(str); d.I->print(os); inc("unsupported instruction "+os.str()+" in "+where(s)); dead=true; break; }
      }
      if(dead) break;
    }
    outer:;
    if(stop) dead=true;
    if(!dead&&frontierMode&&requeue){ requeue=false; account(); work.push_back(sp); return; }
    requeue=false;
  }
  account(); delete sp;
}
