#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id>/ from a spec (a python file defining BUGS, a list of dicts id, prop, edits=[(file,old,new)], needs, breaks, demo, srcs[, flags])."""
import sys,os,json,subprocess,tempfile,shutil
R=os.environ.get('RK_REPO','/repo'); ns={}; exec(open(sys.argv[1]).read(),ns)
for b in ns['BUGS']:
    d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'seeded',b['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    out=''
    files={}
    for f,old,new in b['edits']:
        s=files.get(f) or open(R+'/'+f).read()
        assert s.count(old)==1,(b['id'],f,s.count(old),old)
        files[f]=s.replace(old,new)
    for f,s in files.items():
        with tempfile.TemporaryDirectory() as t:
            os.makedirs(t+'/a/'+os.path.dirname(f)); os.makedirs(t+'/b/'+os.path.dirname(f))
            shutil.copy(R+'/'+f,t+'/a/'+f); open(t+'/b/'+f,'w').write(s)
            out+=subprocess.run(['diff','-u','a/'+f,'b/'+f],cwd=t,stdout=subprocess.PIPE,text=True).stdout
    open(d+'/patch.diff','w').write(out)
    open(d+'/demo.cpp','w').write(b['demo'])
    srcs=' '.join('src/'+x for x in b['srcs'])
    open(d+'/demo.sh','w').write('''#!/bin/sh
# run with cwd at the repository
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -w -O1 -DNDEBUG -fopenmp %s -Iinclude -Isrc "$D/demo.cpp" %s -o "$T/demo" -pthread -lz -lm || exit 9
cd "$T" && timeout 100 ./demo
'''%(b.get('flags',''),srcs))
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
