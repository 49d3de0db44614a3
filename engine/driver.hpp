// Module preparation, exploration driver, result output.
static std::string OUTFILE; static std::string FATALMSG;
[[noreturn]] static void fatal(const std::string&m){ fprintf(stderr,"ENGINE-ERROR: %s\n",m.c_str()); if(!OUTFILE.empty()){ FILE*f=fopen((OUTFILE+".fatal").c_str(),"w"); if(f){ fprintf(f,"%s\n",m.c_str()); fclose(f);} } _exit(3); }
static void initGlobals(State&s){
  std::vector<GlobalVariable*> gs; for(GlobalVariable&G:MOD->globals()){ if(G.getName().starts_with("llvm.")) continue; gs.push_back(&G); }
  for(auto*G:gs){ u64 sz= G->getValueType()->isSized()? DL->getTypeAllocSize(G->getValueType()).getFixedValue():8; if(!G->hasInitializer()&&sz<64) sz=64; GADDR[G]=mkAddr(s.mem.add(newObj(sz,G->isConstant()&&G->hasInitializer()?OB_CONST:OB_GLOBAL,K_CONC)),0); }
  for(auto*G:gs) if(G->hasInitializer()){ Constant*C=G->getInitializer(); std::vector<SlotT> sl; if(isa<ConstantAggregateZero>(C)) continue; flat(C->getType(),sl); std::vector<Val> v; constVals(C,v); if(sl.size()!=v.size()) fatal("global initialiser "+G->getName().str()); u32 id=GADDR[G]>>32; for(size_t i=0;i<v.size();++i){ unsigned nb=(sl[i].w+7)/8; if(v[i].e){ s.mem.writeExpr(id,sl[i].off,v[i].e->width<8*nb?mkZExt(v[i].e,8*nb):v[i].e,nb);} else { u8 b[8]; memcpy(b,&v[i].c,8); s.mem.writeConc(id,sl[i].off,b,nb); } } }
}
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static void collectFns(std::set<std::string>&fns){
  for(FuncInfo*f:FUNCS) if(f->executed&&!f->F->isDeclaration()){ fns.insert(demangle(f->name)); std::set<DILocation*> seen; for(auto&B:*f->F) for(auto&I:B){ DILocation*L=I.getDebugLoc().get(); while(L){ if(!seen.insert(L).second) break; if(auto*SP=L->getScope()->getSubprogram()){ std::string ln=SP->getLinkageName().str(); std::string nm= ln.empty()? SP->getName().str()+" @"+SP->getFilename().str() : demangle(ln); fns.insert(nm); } L=L->getInlinedAt(); } } } }
static void writeResult(Exec&X,const std::string&file){
  FILE*f=fopen(file.c_str(),"w"); if(!f) fatal("cannot write result");
  fprintf(f,"{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"instrs\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"max_depth\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.4f,\"max_query_s\":%.4f,\"xchecked\":%llu,\"fp_queries\":%llu,\"vars\":%zu,\"exprs\":%zu,\n",(unsigned long long)X.st.paths,(unsigned long long)X.st.killed,(unsigned long long)X.st.forks,(unsigned long long)X.st.instrs,(unsigned long long)X.st.asserts,(unsigned long long)X.st.assertQueries,(unsigned long long)X.st.maxDepth,(unsigned long long)SV.queries,(unsigned long long)SV.sats,(unsigned long long)SV.unsats,(unsigned long long)SV.unknowns,SV.time,SV.maxTime,(unsigned long long)SV.xchecked,(unsigned long long)SV.fpQueries,EC.vars.size(),EC.count);
  fprintf(f,"\"complete\":%s,\"reason\":\"%s\",\n",X.incomplete?"false":"true",jesc(X.incReason).c_str());
  fprintf(f,"\"reached\":["); bool first=true; for(auto&r:X.reached){ fprintf(f,"%s\"%s\"",first?"":",",jesc(r).c_str()); first=false; } fprintf(f,"],\n\"samples\":["); first=true; for(auto&r:X.samples){ fprintf(f,"%s\"%s\"",first?"":",",jesc(r).c_str()); first=false; }
  fprintf(f,"],\n\"functions\":["); std::set<std::string> fns; collectFns(fns); first=true; for(auto&r:fns){ fprintf(f,"%s\"%s\"",first?"":",",jesc(r).c_str()); first=false; }
  fprintf(f,"],\n\"violations\":["); first=true; for(auto&v:X.viols){ fprintf(f,"%s{\"kind\":\"%s\",\"label\":\"%s\",\"where\":\"%s\",\"vals\":{",first?"":",",jesc(v.kind).c_str(),jesc(v.label).c_str(),jesc(v.where).c_str()); first=false; bool g=true; for(auto&p:v.vals){ fprintf(f,"%s\"%s\":%llu",g?"":",",jesc(p.first).c_str(),(unsigned long long)p.second); g=false; } fprintf(f,"},\"sched\":["); g=true; for(u8 c:v.sched){ fprintf(f,"%s%d",g?"":",",c); g=false; } fprintf(f,"]}"); }
  fprintf(f,"]}\n"); fclose(f);
}
static void onAlarm(int){ SV.interrupt(); }
static void armDeadline(Exec&X){ SV.deadline=X.t0+O.timeLimit+2; double rem=SV.deadline-nowS()+0.5; if(rem<0.1) rem=0.1; signal(SIGALRM,onAlarm); itimerval it; it.it_value.tv_sec=(long)rem; it.it_value.tv_usec=(long)((rem-(long)rem)*1e6); it.it_interval.tv_sec=1; it.it_interval.tv_usec=0; setitimer(ITIMER_REAL,&it,nullptr); }
struct Shared { std::atomic<u32> next, stop, active, parts; };
static u32 g_part=0; static double g_lastFork=0; static u32 g_pid0=0;
static void resetStats(Exec&X){ X.st=Stats(); SV.xchecked=SV.fpQueries=SV.queries=SV.sats=SV.unsats=SV.unknowns=0; SV.time=SV.maxTime=0; X.samples.clear(); X.reached.clear(); X.viols.clear(); X.incomplete=false; X.incReason.clear(); for(FuncInfo*f:FUNCS) f->executed=false; }
// hand half of the pending states to a new process when a worker slot is idle
static void share(Exec&X,Shared*sh){
  if(X.work.size()<2||sh->active.load()>=O.workers) return; double t=nowS(); if(t-g_lastFork<0.08) return;
  if(sh->next.load()<sh->parts.load()&&false) return;
  u32 a=sh->active.load(); if(a>=O.workers||!sh->active.compare_exchange_strong(a,a+1)) return; g_lastFork=t;
  u32 part=sh->parts++; pid_t p=fork(); if(p<0){ sh->active--; return; }
  size_t h=X.work.size()/2;
  if(p==0){ g_part=part; armDeadline(X); resetStats(X); while(X.work.size()>h) { X.work.pop_back(); } if(X.work.empty()) {} g_lastFork=nowS(); }
  else { for(size_t i=0;i<h;++i) X.work.pop_front(); }
}
static void dfs(Exec&X,Shared*sh){ while(!X.work.empty()&&!X.stop){ if(sh&&sh->stop.load()){ X.stop=true; break; } if(nowS()-X.t0>O.timeLimit){ X.inc("time limit"); X.stop=true; break; } if(X.st.paths>=O.maxPaths){ X.inc("path limit"); break; } if(sh) share(X,sh); State*s=X.work.back(); X.work.pop_back(); X.run(s); } if(X.stop&&X.viols.empty()&&!X.work.empty()&&!(sh&&sh->stop.load())) X.inc("stopped"); for(State*s:X.work) delete s; X.work.clear(); }

static void mergeInto(Exec&X,const std::string&){ (void)X; }
int main(int argc,char**argv){
  { struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(4ull<<30)&&!getenv("RK_STACK")){ rl.rlim_cur=std::min<u64>(rl.rlim_max,4ull<<30); setrlimit(RLIMIT_STACK,&rl); setenv("RK_STACK","1",1); execv("/proc/self/exe",argv); } }
  std::vector<std::string> bcs; std::string entry="rk_main"; std::vector<std::string> drops; std::string dump; bool noopt=false; std::string rtlib;
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--entry") entry=nx(); else if(a=="--forkstat") O.forkStat=true; else if(a=="--out") OUTFILE=nx(); else if(a=="--time") O.timeLimit=atof(argv[++i]); else if(a=="--workers") O.workers=atoi(argv[++i]); else if(a=="--max-instr") O.maxInstr=strtoull(argv[++i],0,10); else if(a=="--preempt") O.preemptBound=atoi(argv[++i]); else if(a=="--spurious") O.spuriousBound=atoi(argv[++i]); else if(a=="--drop") drops.push_back(nx()); else if(a=="--dump") dump=nx(); else if(a=="--race") O.race=true; else if(a=="--one-sched") O.oneSched=true; else if(a=="--delay") O.delay=true; else if(a=="--fp-tables") FPTABLES=true; else if(a=="--noopt") noopt=true; else if(a=="-v") O.verbose=true; else if(a=="--frontier") O.frontier=atoi(argv[++i]); else if(a=="--max-viol") O.maxViol=atoi(argv[++i]); else if(a=="--alloc-limit") O.allocLimit=strtoull(argv[++i],0,10); else if(a=="--max-ite") O.maxIte=strtoull(argv[++i],0,10); else if(a=="--query-timeout") SV.timeoutMs=atoi(argv[++i]); else if(a=="--xcheck") SV.xcheckEvery=strtoull(argv[++i],0,10); else if(a=="--no-fork-select") O.forkSelect=false; else if(a=="--mem-mb") O.memLimitMB=strtoull(argv[++i],0,10); else if(a=="--max-paths") O.maxPaths=strtoull(argv[++i],0,10); else if(a=="--rt") rtlib=nx(); else bcs.push_back(a); }
  LLVMContext C; SMDiagnostic Err;
  for(auto&b:bcs){ auto M=parseIRFile(b,Err,C); if(!M){ Err.print("engine",errs()); return 3; } if(!MOD) MOD=std::move(M); else if(Linker::linkModules(*MOD,std::move(M))) fatal("link error"); }
  if(!rtlib.empty()){ auto M=parseIRFile(rtlib,Err,C); if(!M) fatal("rt library"); MOD->getOrInsertGlobal("rk_exc_vtable",ArrayType::get(PointerType::get(C,0),6)); for(Function&F:*MOD) if(F.hasAvailableExternallyLinkage()){ Function*R=M->getFunction(F.getName()); if(R&&!R->isDeclaration()){ F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); } } if(Linker::linkModules(*MOD,std::move(M),Linker::Flags::LinkOnlyNeeded)) fatal("link error (rt)"); }
  DL=&MOD->getDataLayout(); drops.push_back("_ZN10RoutingKit14get_micro_timeEv");
  for(Function&F:*MOD){ std::string n=F.getName().str(); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr("target-features"); F.removeFnAttr("target-cpu"); bool drop=false; for(auto&d:drops) if(n==d||(d.size()&&d.back()=='*'&&n.compare(0,d.size()-1,d,0,d.size()-1)==0)) drop=true; if(!F.isDeclaration()&&n.compare(0,19,"_ZNSt7__cxx119to_st")==0) drop=true; if(!F.isDeclaration()&&HT().count(n)) drop=true; if(drop&&!F.isDeclaration()){ F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); } }
  // keep only the entry externally visible
  internalizeModule(*MOD,[&](const GlobalValue&G){ return G.getName()==entry||G.getName()=="rk_exc_vtable"||G.getName().starts_with("llvm."); });
  if(!noopt){
    PipelineTuningOptions T; T.LoopVectorization=false; T.SLPVectorization=false; T.LoopUnrolling=false; T.LoopInterleaving=false; PassBuilder PB(nullptr,T); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM); ModulePassManager MPM=PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2); MPM.run(*MOD,MAM);
  }
  if(!dump.empty()){ std::error_code ec; raw_fd_ostream os(dump,ec); MOD->print(os,nullptr); }
  Function*E=MOD->getFunction(entry); if(!E||E->isDeclaration()) fatal("no entry "+entry);
  SV.init();
  State*s=new State; s->model=std::make_shared<Model>(); s->th.resize(1);
  for(Function&F:*MOD) funcInfo(&F);
  initGlobals(*s);
  Exec X;
  // global constructors, then the entry
  if(auto*GC=MOD->getGlobalVariable("llvm.global_ctors")) if(GC->hasInitializer()) if(auto*A=dyn_cast<ConstantArray>(GC->getInitializer())){ for(unsigned i=0;i<A->getNumOperands();++i){ auto*St=cast<ConstantStruct>(A->getOperand(i)); if(auto*F=dyn_cast<Function>(St->getOperand(1)->stripPointerCasts())){ 
        State*g=s; X.pushCall(*g,funcInfo(F),nullptr,0,0); // run to completion: emulate by running a copy of the loop on this state
        // a constructor must not fork; run it as thread 0 and recover the state afterwards
        extern State*runCtor(Exec&,State*); s=runCtor(X,g); if(!s) fatal("global constructor failed"); } } }
  armDeadline(X); X.st=Stats(); curEntry=funcInfo(E); X.pushCall(*s,curEntry,nullptr,0,0); X.work.push_back(s);
  if(O.workers<=1){ dfs(X,nullptr); if(O.forkStat){ std::vector<std::pair<u64,std::string>> v; for(auto&p:X.forkStat) v.push_back({p.second,p.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<25;++i) fprintf(stderr,"forks %llu %s\n",(unsigned long long)v[i].first,v[i].second.c_str()); } writeResult(X,OUTFILE); fflush(stdout); _exit(0); }
  X.frontierMode=true;
  double tf=nowS(); while(!X.work.empty()&&!X.stop&&X.work.size()<O.frontier*O.workers&&!(nowS()-tf>0.7&&X.work.size()>=O.workers)){ State*q=X.work.front(); X.work.pop_front(); X.requeue=false; X.run(q); if(nowS()-X.t0>O.timeLimit){ X.inc("time limit"); break; } }
  X.frontierMode=false;
  if(X.work.empty()||X.stop){ if(X.stop&&!X.work.empty()&&X.viols.empty()) X.inc("stopped"); writeResult(X,OUTFILE); fflush(stdout); _exit(0); }
  Shared*sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); sh->next=0; sh->stop=0;
  std::vector<State*> front(X.work.begin(),X.work.end()); X.work.clear(); u32 N=front.size();
  // shuffle deterministically for load balance
  { u64 r=O.seed*2654435761u+12345; for(u32 i=N;i-->1;){ r=r*6364136223846793005ull+1442695040888963407ull; std::swap(front[i],front[(r>>33)%(i+1)]); } }
  writeResult(X,OUTFILE+".0"); prctl(PR_SET_CHILD_SUBREAPER,1,0,0,0);
  sh->parts=1+O.workers; sh->active=O.workers; const u32 root=getpid(); (void)root;
  for(u32 w=0;w<O.workers;++w){ pid_t p=fork(); if(p<0) fatal("fork failed"); if(p==0){
      g_part=w+1; g_lastFork=nowS(); armDeadline(X); resetStats(X);
      for(;;){ if(X.stop||sh->stop.load()) break; u32 i=sh->next++; if(i>=N) break; X.work.push_back(front[i]); dfs(X,sh); if(!X.viols.empty()) sh->stop=1; }
      if(!X.viols.empty()) sh->stop=1;
      writeResult(X,OUTFILE+"."+std::to_string(g_part)); sh->active--; _exit(0); } }
  bool bad=false; for(;;){ int stt; pid_t p=waitpid(-1,&stt,0); if(p<0) break; if(!WIFEXITED(stt)||WEXITSTATUS(stt)!=0) bad=true; }
  FILE*f=fopen(OUTFILE.c_str(),"w"); fprintf(f,"{\"parts\":%u,\"worker_failed\":%s}\n",sh->parts.load(),bad?"true":"false"); fclose(f); _exit(0);
}
State*runCtor(Exec&X,State*s){ // run thread 0 until its (single) frame returns; constructors are concrete
  // implemented with a flag: finish() keeps the state
  extern bool g_keep; extern State*g_kept; g_keep=true; g_kept=nullptr; X.run(s); g_keep=false; return g_kept; }
bool g_keep=false; State*g_kept=nullptr;
