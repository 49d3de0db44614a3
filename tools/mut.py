#!/usr/bin/env python3
"""Ad hoc mutation runs: mut.py SPEC.py, where SPEC defines PROP and MUTS=[(file,old,new),...]; prints which mutants the check reports."""
import sys,os,shutil,subprocess,tempfile,re
ns={}; exec(open(sys.argv[1]).read(),ns); here=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); base=os.environ.get('RK_REPO','/repo')
for i,m in enumerate(ns['MUTS']):
    f,old,new=m[:3]; prop=m[3] if len(m)>3 else ns['PROP']
    d=tempfile.mkdtemp(prefix='rkmut'); 
    for s in ('src','include'): shutil.copytree(os.path.join(base,s),os.path.join(d,s))
    p=os.path.join(d,f); s=open(p).read()
    if s.count(old)<1: print(i,'NOT FOUND',old); shutil.rmtree(d); continue
    n=m[4] if len(m)>4 else None
    if n is None and s.count(old)>1: print(i,'AMBIGUOUS x%d'%s.count(old),old); 
    open(p,'w').write(s.replace(old,new,1)) if n is None else open(p,'w').write((lambda parts: old.join(parts[:n+1])+new+old.join(parts[n+1:]))(s.split(old)))
    r=subprocess.run(['python3',os.path.join(here,'check.py'),prop],env=dict(os.environ,RK_REPO=d),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    t=[l for l in r.stdout.splitlines() if l.startswith(('VIOLATION','  scenario','PROBLEM','PARTIAL','NO-VERDICT')) or ' quick:' in l]
    print(i,prop,'rc=%d'%r.returncode,repr(old[:60]),'->',repr(new[:60]),'|',' '.join(t)[:260].replace('replay=/','')); sys.stdout.flush()
    shutil.rmtree(d)
