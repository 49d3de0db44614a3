#!/usr/bin/env python3
"""Run the solver-based check of one property.  usage: check.py <PROPERTY> [--tier quick|thorough] [--only SCENARIO] [-v]
exit 0: holds on everything explored; exit 1 + VIOLATION line: broken (counterexample replayed); exit 2: no verdict."""
import shlex,re,sys, os, json, subprocess, time, shutil, hashlib, threading, argparse, glob
HERE=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('RK_REPO','/repo')
sys.path.insert(0,HERE)
from scenarios import PROPS
from concurrent.futures import ThreadPoolExecutor
CLANG='clang++-18'
BUILD=os.path.join(HERE,'build')
def sh(cmd,**kw): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
class NoVerdict(Exception): pass
DEADLINE=time.time()+660 # quick runs: explorations end here, what was not explored is reported

def ensure_engine():
    e=os.path.join(BUILD,'rt.bc') if not os.path.exists(os.path.join(BUILD,'rt.bc')) else os.path.join(BUILD,'engine')
    srcs=glob.glob(os.path.join(HERE,'engine','*.hpp'))+glob.glob(os.path.join(HERE,'engine','[!r]*.cpp'))
    if not os.path.exists(e) or any(os.path.getmtime(s)>os.path.getmtime(e) for s in srcs):
        r=sh(['make','-C',os.path.join(HERE,'engine')])
        if r.returncode: raise NoVerdict('engine build failed:\n'+r.stdout)
    return e

LIB='bit_select bit_vector buffered_asynchronous_reader contraction_hierarchy customizable_contraction_hierarchy file_data_source geo_position_to_node graph_util id_mapper nested_dissection osm_decoder osm_graph_builder osm_profile osm_simple protobuf strongly_connected_component vector_io'.split()
IGNORED_UNDEFINED={'_ZN10RoutingKit14get_micro_timeEv'}
def library_sources():
    """sources of the library: the ones known by name and any further file that has no main function"""
    out=[]
    for f in sorted(glob.glob(os.path.join(REPO,'src','*.cpp'))):
        b=os.path.basename(f)
        if b[:-4] in LIB: out.append(b)
        elif b!='timer.cpp' and not b.startswith('test_') and b not in('expect.cpp','verify.cpp'):
            try: t=open(f,errors='replace').read()
            except OSError: continue
            if not re.search(r'\bmain\s*\(',t): out.append(b)
    return out
def add_missing_sources(scs,work):
    """code may move between files: sources that define library functions the scenario's sources use but do not contain are added"""
    changed=False; cache={}
    def symbols(bc,undef):
        if (bc,undef) not in cache:
            o=sh(['llvm-nm-18','--undefined-only' if undef else '--defined-only','--format=just-symbols',bc]).stdout
            cache[bc,undef]={l.strip() for l in o.splitlines() if 'RoutingKit' in l}
        return cache[bc,undef]
    for sc in scs:
        d=set().union(*[symbols(b,False) for b in sc['_bc']]); u=set().union(*[symbols(b,True) for b in sc['_bc']])-d-IGNORED_UNDEFINED-set(sc.get('undefined_ok',()))
        if not u or sc.get('closed'): continue
        for b in library_sources():
            if b in sc['srcs']: continue
            o=os.path.join(work,b+'.probe.bc')
            if not os.path.exists(o): 
                r=sh([CLANG,'-emit-llvm','-c','-O0','-DNDEBUG','-std=c++11','-w','-I'+os.path.join(REPO,'include'),'-I'+os.path.join(REPO,'src'),os.path.join(REPO,'src',b),'-o',o])
                if r.returncode: continue
            if symbols(o,False)&u: sc['srcs']=sc['srcs']+[b]; changed=True
    return changed
def is_program(b):
    try: return re.search(r'\bint\s+main\s*\(',open(os.path.join(REPO,'src',b),errors='replace').read()) is not None
    except OSError: return False
def tool_symbol(src): return 'rk_tool_'+re.sub(r'\W','_',os.path.basename(src)[:-4])
SHARED=[g+v for v in ['5RkStdIiE3outE','5RkStdIiE3errE','5RkStdIiE3logE','5RkStdIiE2inE'] for g in ['_ZN','_ZGVN']]
def rename_main(bc,sym):
    """a program becomes a function: main is renamed, everything else is private to it"""
    r=sh(['llvm-dis-18',bc,'-o',bc+'.ll'])
    if r.returncode: return r
    t=open(bc+'.ll').read(); t=re.sub(r'@main\b','@'+sym,t); open(bc+'.ll','w').write(t)
    return sh(['opt-18','-passes=internalize','-internalize-public-api-list='+','.join([sym]+SHARED),bc+'.ll','-o',bc])
def compile_all(pid,scs,work):
    for sc in scs: sc['srcs']=[b for b in sc['srcs'] if os.path.exists(os.path.join(REPO,'src',b))]
    for _ in range(4):
        compile_once(pid,scs,work)
        if not add_missing_sources(scs,work): return
def compile_once(pid,scs,work):
    """bitcode of every (source,flags) pair, in parallel"""
    jobs={}; jobs_post={}
    tools={os.path.join(REPO,'src',b) for sc in scs for b in sc.get('srcs',[]) if is_program(b)}
    for sc in scs:
        defs=['-D'+d for d in sc.get('defs',[])]
        extra=sc.get('cflags',[])
        inc=(['-I'+os.path.join(HERE,'harness','stubs')] if sc.get('stubs') else [])
        bcs=[]
        for src,isrepo in [(os.path.join(HERE,'harness',sc['harness']),False)]+[(os.path.join(REPO,'src',s),True) for s in sc.get('srcs',[])]+[(os.path.join(HERE,'harness',s),False) for s in sc.get('hsrcs',[])]:
            key=hashlib.sha1(('|'.join([src]+defs+extra+inc)).encode()).hexdigest()[:16]
            out=os.path.join(work,os.path.basename(src)+'.'+key+'.bc')
            cmd=[CLANG,'-emit-llvm','-c','-O1','-Xclang','-disable-llvm-passes','-gline-tables-only','-DNDEBUG','-D_GLIBCXX_EXTERN_TEMPLATE=0','-DRK_SYMBOLIC','-std=c++11','-w','-fno-math-errno']+inc+['-I'+os.path.join(REPO,'include'),'-I'+os.path.join(REPO,'src'),'-I'+os.path.join(HERE,'harness')]+defs+extra+[src,'-o',out]
            bcs.append(out)
            if isrepo and src in tools: jobs_post.setdefault(out,tool_symbol(src))
            if not os.path.exists(out): jobs[out]=cmd
        sc['_bc']=bcs
    def one(k):
        r=sh(jobs[k])
        if r.returncode==0 and k in jobs_post: r=rename_main(k,jobs_post[k])
        return (k,r.returncode,r.stdout)
    with ThreadPoolExecutor(8) as ex:
        for k,rc,o in ex.map(one,jobs):
            if rc: raise NoVerdict('compilation failed: '+' '.join(jobs[k])+'\n'+o)

def run_engine(pid,sc,work,tier,verbose):
    out=os.path.join(work,sc['name']+'.json')
    t=sc.get('time',{'quick':150,'thorough':3000}[tier])
    if tier=='quick': t=max(10,min(t,DEADLINE-time.time()))
    cmd=[os.path.join(BUILD,'engine'),'--entry','rk_main_'+sc['entry'],'--out',out,'--time',str(t),'--workers',str(sc.get('workers',1)),'--rt',os.path.join(BUILD,'rt.bc')]+[str(x) for x in sc.get('opts',[])]+sc['_bc']
    if verbose: cmd.append('-v')
    t0=time.time()
    try: r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t+120)
    except subprocess.TimeoutExpired: return dict(name=sc['name'],error='engine timeout',wall=time.time()-t0)
    if verbose and r.stdout.strip(): print(r.stdout[-6000:])
    if r.returncode or not os.path.exists(out): return dict(name=sc['name'],error='engine failed (%d): %s'%(r.returncode,r.stdout[-2000:]),wall=time.time()-t0)
    res=json.load(open(out))
    if 'parts' in res:
        if res['worker_failed']: return dict(name=sc['name'],error='engine worker failed: '+r.stdout[-2000:],wall=time.time()-t0)
        parts=[json.load(open(out+'.'+str(i))) for i in range(res['parts'])]
        res=merge(parts)
    res['name']=sc['name']; res['wall']=time.time()-t0
    return res
def merge(parts):
    r=None
    for p in parts:
        if r is None: r=p; r['functions']=set(r['functions']); r['reached']=set(r['reached']); continue
        for k in ['paths','killed','forks','instrs','asserts','assert_queries','queries','sat','unsat','unknown','solver_s']: r[k]+=p[k]
        for k in ['max_depth','max_query_s','vars','exprs']: r[k]=max(r[k],p[k])
        if not p['complete']: r['complete']=False; r['reason']=r['reason'] or p['reason']
        r['functions']|=set(p['functions']); r['reached']|=set(p['reached']); r['samples']=(r['samples']+p['samples'])[:3]; r['violations']+=p['violations']
    r['functions']=sorted(r['functions']); r['reached']=sorted(r['reached']); return r

REPO_FLAGS=['-Wno-all','-w','-DNDEBUG','-march=native','-ffast-math','-std=c++11','-O3','-fPIC']
NATIVE_CMDS={}; run_sh=sh
def build_native(sc,work,kind):
    out=os.path.join(work,'native_'+sc['name']+'_'+kind)
    if os.path.exists(out): return out
    log=NATIVE_CMDS.setdefault(out,[])
    def sh(cmd):
        if cmd[0]!='nm': log.append(cmd)
        return run_sh(cmd)
    inc=[]
    files=[os.path.join(HERE,'harness',sc['harness']),os.path.join(HERE,'harness','rt_native.cpp')]+[os.path.join(REPO,'src',s) for s in sc.get('srcs',[])]+[os.path.join(HERE,'harness',s) for s in sc.get('hsrcs',[])]+[os.path.join(HERE,'harness',s) for s in sc.get('native_srcs',[])]
    base=inc+['-I'+os.path.join(REPO,'include'),'-I'+os.path.join(REPO,'src'),'-I'+os.path.join(HERE,'harness'),'-DRK_MAIN=rk_main_'+sc['entry']]+['-D'+d for d in sc.get('defs',[])]+[f for f in sc.get('native_cflags',[])]
    flags=REPO_FLAGS if kind=='plain' else ['-w','-DNDEBUG','-std=c++11','-O1','-g']+(['-fsanitize=address'] if kind=='asan' else [])
    for i,f in enumerate(files):
        if f.startswith(os.path.join(REPO,'src')) and is_program(os.path.basename(f)):
            o=out+'.'+os.path.basename(f)+'.o'
            r=sh([sc.get('native_cxx','g++') if kind in('plain','nofast') else 'clang++-18']+flags+base+['-c',f,'-o',o])
            if r.returncode==0: r=sh(['objcopy','--redefine-sym','main='+tool_symbol(f),o])
            if r.returncode==0:
                own=[l.split()[-1] for l in sh(['nm','--defined-only','-g',o]).stdout.splitlines() if len(l.split())==3]
                own=[x for x in own if x!=tool_symbol(f) and not re.match(r'_Z(TV|TI|TS|GV)?N?K?(St|S[a-z]|10RoutingKit|9__gnu_cxx)|DW',x)]
                if own: r=sh(['objcopy']+[y for x in own for y in ('--redefine-sym',x+'='+tool_symbol(f)+'__'+x)]+[o])
            if r.returncode: raise NoVerdict('native replay build failed: '+r.stdout[-3000:])
            files[i]=o
    if kind=='tsan': files=[f for f in files if 'native_sched' not in f]; cmd=['clang++-18','-w','-DNDEBUG','-DRK_FREERUN','-std=c++11','-O1','-g','-fsanitize=thread']+base+files
    elif kind=='plain': cmd=[sc.get('native_cxx','g++')]+REPO_FLAGS+base+files
    elif kind=='nofast': cmd=['g++','-w','-DNDEBUG','-std=c++11','-O1','-g']+base+files
    else: cmd=['clang++-18','-w','-DNDEBUG','-std=c++11','-O1','-g','-fno-omit-frame-pointer','-fsanitize=address,shift,integer-divide-by-zero,bounds,null,return,unreachable,vla-bound','-fno-sanitize-recover=all']+base+files
    cmd+=['-o',out,'-lpthread','-lm']+sc.get('libs',[])
    r=sh(cmd)
    if r.returncode: raise NoVerdict('native replay build failed: '+r.stdout[-3000:])
    return out
def replay(sc,v,work,rdir):
    """returns (reproduced, log)"""
    os.makedirs(rdir,exist_ok=True)
    vf=os.path.join(rdir,'values.txt')
    with open(vf,'w') as f:
        for k,x in v['vals'].items(): f.write('%s %d\n'%(k.replace(' ','_'),x))
    with open(os.path.join(rdir,'schedule.txt'),'w') as f: f.write(' '.join(map(str,v.get('sched',[])))+'\n')
    env=dict(os.environ,TSAN_OPTIONS='exitcode=66:report_signal_unsafe=0',RK_VALUES=vf,RK_SCHEDULE=os.path.join(rdir,'schedule.txt'),ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096',TMPDIR=work)
    log=[]; ok=False
    for kind in (['plain','asan','valgrind'] if not sc.get('replay') else sc['replay']):
        b=build_native(sc,work,'nofast' if kind=='valgrind' else kind)
        cmd=[b] if kind not in('valgrind','tsan') else ['sh','-c','for i in 1 2 3 4 5; do %s || exit $?; done'%b] if kind=='tsan' else ['valgrind','-q','--error-exitcode=77',b]
        to=sc.get('replay_timeout',60)
        try:
            r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,timeout=to,cwd=work); rc=r.returncode; o=r.stdout.decode('latin1')
            # plain reads next to atomic operations are meant to be there (the schedules cover them): only races between plain accesses count
            if kind=='tsan' and rc==66 and sc.get('tsan_plain') and all(re.search(r'^ *(Previous atomic|Atomic) (read|write) of size',b,re.M) for b in o.split('WARNING: ThreadSanitizer')[1:]): rc=0
            o=o[-3000:]
        except subprocess.TimeoutExpired: rc='timeout'; o=''
        log.append('[%s] exit=%s\n%s'%(kind,rc,o))
        if rc==102: continue
        if rc!=0: ok=True; break
    with open(os.path.join(rdir,'replay.log'),'w') as f: f.write('scenario %s\nkind %s\nlabel %s\nwhere %s\n\n'%(sc['name'],v['kind'],v['label'],v['where'])+'\n'.join(log))
    with open(os.path.join(rdir,'replay.sh'),'w') as f:
        q=lambda c: ' '.join(shlex.quote(x).replace(work,'$T') if work not in x or shlex.quote(x)==x else '"'+x.replace('$','\\$').replace(work,'$T')+'"' for x in c)
        f.write('#!/bin/sh\n# %s: %s\nset -e\nT=$(mktemp -d); trap "rm -rf $T" EXIT\nD=$(cd "$(dirname "$0")" && pwd)\n'%(v['kind'],v['label']))
        for c in NATIVE_CMDS.get(b,[]): f.write(q(c)+'\n')
        f.write('cd $T\nexport TMPDIR=$T RK_SCHEDULE=$D/schedule.txt RK_VALUES=$D/values.txt TSAN_OPTIONS=exitcode=66:report_signal_unsafe=0 ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096\n'+q(cmd)+'\n')
    os.chmod(os.path.join(rdir,'replay.sh'),0o755)
    return ok,'\n'.join(log)

def main():
    ap=argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--only'); ap.add_argument('-v',action='store_true'); ap.add_argument('--keep',action='store_true')
    a=ap.parse_args(); pid=a.pid; tier=a.tier if a.tier in('quick','thorough') else 'quick'; t0=time.time()
    P=PROPS[pid]; scs=[dict(s) for s in P['scenarios'] if tier in s.get('tiers',('quick','thorough'))]
    for s in scs:
        if tier=='thorough' and 'thorough' in s: s.update(s['thorough'])
    if a.only: scs=[s for s in scs if s['name']==a.only]
    os.makedirs(BUILD,exist_ok=True); os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
    work=os.path.join(BUILD,'%s-%d'%(pid,os.getpid())); shutil.rmtree(work,ignore_errors=True); os.makedirs(work)
    rc=2
    try: rc=body(a,pid,tier,P,scs,work,t0)
    except NoVerdict as e: print('NO-VERDICT property=%s %s'%(pid,e)); rc=2
    finally:
        if not a.keep: shutil.rmtree(work,ignore_errors=True)
    sys.exit(rc)

def body(a,pid,tier,P,scs,work,t0):
    ensure_engine(); compile_all(pid,scs,work); tc=time.time()-t0
    light=[s for s in scs if s.get('workers',1)==1]; heavy=[s for s in scs if s.get('workers',1)>1]
    stopflag=[False]
    known=[k for k in json.load(open(os.path.join(HERE,'known_findings.json'))).get('findings',[]) if k['property']==pid] if os.path.exists(os.path.join(HERE,'known_findings.json')) else []
    viol=[]; problems=[]; knownhit=[]; partial=[]; unconfirmed=[]; results=[]; cnt=[0]
    rbase=os.path.join(HERE,'evidence','replay',pid); shutil.rmtree(rbase,ignore_errors=True)
    def go(s):
        if stopflag[0]: return None
        r=run_engine(pid,s,work,tier,a.v)
        if r.get('violations'): stopflag[0]=True
        return r
    def judge(s,r):
        """replays the counterexamples of a scenario until one is confirmed"""
        bad=[]
        for v in r.get('violations',[]):
            k=next((k for k in known if k['scenario']==s['name'] and k['label']==v['label']),None)
            cnt[0]+=1; rdir=os.path.join(rbase,'%s-%d'%(s['name'],cnt[0]))
            if not k and any(x[0] is s for x in viol): return
            ok,log=replay(s,v,work,rdir)
            if not ok: bad.append('%s: counterexample not reproduced natively: %s %s at %s %s\n%s'%(s['name'],v['kind'],v['label'],v['where'],{x:y for x,y in v['vals'].items() if '#' not in x},log[-3000:])); continue
            (knownhit if k else viol).append((s,v,rdir,k))
        if bad and '--race' in s.get('opts',[]) and not any(x[0]['name']==s['name'] for x in viol) and any(v['kind']=='race' for v in r['violations']):
            # a data race that no native run exhibits: look for a schedule in which it has a visible effect
            s2=dict(s,opts=[o for o in s['opts'] if o!='--race']); r2=run_engine(pid,s2,work,tier,a.v)
            if r2.get('violations'): judge(s2,r2)
        unconfirmed.extend(bad)
    def batch(ss):
        with ThreadPoolExecutor(8 if len(ss)>1 else 1) as ex: rs=[(s,r) for s,r in zip(ss,ex.map(go,ss)) if r]
        for s,r in rs: results.append((s,r)); judge(s,r)
        stopflag[0]=bool(viol)
        return [s for s in ss if s not in [x for x,_ in rs]]
    while light and not viol: light=batch(light)
    for s in heavy:
        if not viol: batch([s])
    for s,r in results:
        if 'error' in r: partial.append('%s: %s'%(s['name'],r['error'])); continue
        if not r['violations']:
            if not r['complete']: partial.append('%s: exploration incomplete: %s'%(s['name'],r['reason']))
            if r['unknown']: partial.append('%s: %d solver queries undecided'%(s['name'],r['unknown']))
            miss=[l for l in s.get('reach',['end']) if l not in r['reached']]
            if miss: (problems if r['complete'] else partial).append('%s: vacuous, labels not reached: %s'%(s['name'],miss))
    good=[(s,r) for s,r in results if 'error' not in r]
    fns=sorted({f for s,r in good for f in r['functions'] if 'RoutingKit' in f or '@'+REPO in f})
    ev=dict(property=pid,tier=tier,seed=int(os.environ.get('VERIF_SEED','1')),level=P.get('level','other'),wall_s=round(time.time()-t0,2),violations=len(viol),
      assumptions=P.get('assumptions',[])+COMMON_ASSUMPTIONS,
      coverage=dict(
        explanation='Symbolic execution of the LLVM IR of the current /repo sources; every branch, assertion and memory access over symbolic data is decided by a solver (bit-blasting to MiniSat, Z3 for the rest). All feasible paths within the bounds were explored unless listed under not_completed; counterexamples are replayed natively.',
        functions_encoded=fns, functions_encoded_count=len(fns),
        scenarios=[dict(name=s['name'],bounds=s.get('bounds',''),paths=r['paths'],assumed_away=r['killed'],forks=r['forks'],instructions=r['instrs'],assertions=r['asserts'],assertion_queries=r['assert_queries'],queries=r['queries'],sat=r['sat'],unsat=r['unsat'],unknown=r['unknown'],solver_s=round(r['solver_s'],3),max_query_s=round(r['max_query_s'],3),symbolic_variables=r['vars'],complete=r['complete'],labels_reached=r['reached'],wall_s=round(r['wall'],2)) for s,r in good],
        evaluations=sum(r['paths'] for s,r in good), distinct_nontrivial=sum(r['paths'] for s,r in good if r['asserts']),
        rule='one evaluation = one feasible symbolic path (a class of inputs with the same path condition), explored to its end; non-trivial = its scenario evaluated assertions',
        queries=sum(r['queries'] for s,r in good), solver_s=round(sum(r['solver_s'] for s,r in good),3), compile_s=round(tc,2),
        obligations=sum(r['asserts'] for s,r in good), 
        samples=[dict(scenario=s['name'],path=x) for s,r in good for x in r['samples'][:1]][:12],
        exhaustive=(not problems and not viol and not partial and not unconfirmed)))
    if partial: ev['coverage']['not_completed']=partial[:20]
    if problems: ev['coverage']['problems']=problems[:20]
    if unconfirmed: ev['coverage']['unconfirmed_counterexamples']=unconfirmed[:20]
    if not good: problems.append('no scenario was explored')
    json.dump(ev,open(os.path.join(HERE,'evidence',pid+'.json'),'w'),indent=1)
    for s,v,rdir,k in knownhit: print('KNOWN-FINDING: property=%s %s'%(pid,k['what']))
    for s,v,rdir,k in viol:
        print('VIOLATION property=%s replay=%s'%(pid,rdir)); print('  scenario %s: %s: %s\n  at %s\n  input: %s'%(s['name'],v['kind'],v['label'],v['where'],{k:x for k,x in v['vals'].items() if '#' not in k}))
    for p in partial: print('PARTIAL',p)
    for p in unconfirmed: print('UNCONFIRMED',p)
    for p in problems: print('PROBLEM',p)
    tot=ev['coverage']; print('%s %s: scenarios=%d paths=%d queries=%d solver=%.1fs wall=%.1fs functions=%d'%(pid,tier,len(good),tot['evaluations'],tot['queries'],tot['solver_s'],ev['wall_s'],len(fns)))
    if a.v:
        for s,r in good: print('   %-24s paths=%d killed=%d q=%d solver=%.1f wall=%.1f instr=%d complete=%s reached=%s'%(s['name'],r['paths'],r['killed'],r['queries'],r['solver_s'],r['wall'],r['instrs'],r['complete'],r['reached']))
    if viol: return 1
    return 2 if problems else 0
COMMON_ASSUMPTIONS=['clang-18 LLVM IR (O2 pipeline without vectorisation, NDEBUG) stands for the g++ -O3 build; counterexamples are confirmed on the g++ -O3 and sanitizer builds','memory allocation below 64 MiB succeeds','no claim outside the bounds listed per scenario']
if __name__=='__main__': main()
