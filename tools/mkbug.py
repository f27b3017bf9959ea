import sys,os,json,shutil,subprocess
# mk(id, prop, file, [(old,new)], needs, breaks, demo_cpp, srcs)
DEMO='''#!/bin/bash
# Builds demo.cpp against the tree in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
pids=
for f in src/arpc/*.cpp "$d/demo.cpp"; do
  g++ -std=c++17 -O1 -g -w -fno-rtti -pthread -U_FORTIFY_SOURCE %s -Isrc -I"$d" -c "$f" -o "$t/$(basename "$f").o" &
  pids="$pids $!"
done
for p in $pids; do wait $p || { echo "demo does not compile"; exit 3; }; done
g++ -pthread %s "$t"/*.o -o "$t/demo" || exit 3
cd "$t" && timeout %d ./demo
'''
def mk(id, prop, edits, needs, breaks, demo, flags='', tmo=120):
    rpc='rpc_demo.h' in demo
    d=os.environ.get('SEEDDIR','/verif/seeded/')+id
    os.makedirs(d+'/function2',exist_ok=True)
    shutil.copy('/verif/sim/include/function2/function2.hpp',d+'/function2/function2.hpp')
    open(d+'/demo.sh','w').write(DEMO%(flags,flags,tmo)); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.cpp','w').write(demo)
    if rpc: shutil.copy('/verif/tools/demo/rpc_demo.h',d+'/rpc_demo.h')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    patch=''
    files=sorted(set(f for f,_,_ in edits))
    w='/tmp/mkbug'; subprocess.run(['rm','-rf',w]); os.makedirs(w)
    for f in files:
        s=open('/repo/'+f).read(); n=s
        for ff,o,r in edits:
            if ff==f:
                assert n.count(o)==1,(f,o,n.count(o)); n=n.replace(o,r)
        for side,t in (('a',s),('b',n)):
            p=f'{w}/{side}/{f}'; os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(t)
        patch+=subprocess.run(['diff','-u',f'a/{f}',f'b/{f}'],cwd=w,stdout=subprocess.PIPE,text=True).stdout
    patch='\n'.join(l.split('\t')[0] if l.startswith(('--- ','+++ ')) else l for l in patch.split('\n'))
    open(d+'/patch.diff','w').write(patch)
