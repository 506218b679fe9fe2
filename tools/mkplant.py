# mk.py ID PROPERTY "needs" "breaks" FILE <<< python expression pairs; builds seeded/ID from edit pairs
import sys,os,subprocess,json
R=os.environ.get('MK_REPO','/repo')
def plant(id,prop,needs,breaks,edits,demo_cpp,compile,files=None,sh_extra=""):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    assert subprocess.run(['git','-C',R,'status','--porcelain','--untracked-files=no'],capture_output=True,text=True).stdout=='' 
    try:
        for f,a,b in edits:
            s=open(R+'/'+f).read(); assert s.count(a)==1,(f,a,s.count(a)); open(R+'/'+f,'w').write(s.replace(a,b))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',R,'checkout','--','.'])
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cpp','w').write(demo_cpp)
    for n,c in (files or {}).items():
        os.makedirs(os.path.dirname(d+'/'+n),exist_ok=True); open(d+'/'+n,'w').write(c)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run in /repo after the build: 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++14 -O1 -w -DNDEBUG -include memory -include array -include cstdint -include boost/io/quoted.hpp -I"$D" -I"$D/shim" $(for m in */; do [ -d "$m$m" ] && echo -I$m; done) {compile} "$D/demo.cpp" -o "$T/demo" {sh_extra} || exit 3
cd "$T" && timeout 120 ./demo
''')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
