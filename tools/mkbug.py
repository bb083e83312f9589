#!/usr/bin/env python3
"""mkbug.py FILE: FILE defines ID, PROPERTY, EDITS=[(old,new[,count])], DEMO (C++ main body), NEEDS, BREAKS.  Makes seeded/<ID>/ from a
scratch copy of /repo, after checking that the demo passes on the unchanged header and fails on the changed one."""
import sys,os,json,subprocess,tempfile,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns={}; exec(open(sys.argv[1]).read(),ns)
d=os.path.join(V,"seeded",ns["ID"]); os.makedirs(d,exist_ok=True)
w=tempfile.mkdtemp(prefix="bug_")
try:
    subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",w+"/r"])
    f=w+"/r/homog2d.hpp"; s=open(f).read()
    for e in ns["EDITS"]:
        assert s.count(e[0])==(e[2] if len(e)>2 else 1),(s.count(e[0]),e[0])
        s=s.replace(e[0],e[1])
    open(f,"w").write(s)
    p=subprocess.run(["git","-C",w+"/r","diff"],stdout=subprocess.PIPE).stdout
    open(d+"/patch.diff","wb").write(p)
    demo='#include "homog2d.hpp"\n#include <cstdio>\n#include <cmath>\nusing namespace h2d;\nstatic int bad=0;\n#define CHECK(x) do{ if(!(x)){ std::printf("FAILED line %d: %s\\n",__LINE__,#x); bad=1; } }while(0)\nstatic inline bool near(double a,double b,double e=1e-6){ return std::fabs(a-b)<=e; }\nint main()\n{\n'+ns["DEMO"].strip("\n")+'\n\treturn bad;\n}\n'
    if "PRE" in ns: demo=demo.replace("int main()",ns["PRE"].strip("\n")+"\nint main()")
    open(d+"/demo.cpp","w").write(demo)
    open(d+"/demo.sh","w").write('#!/bin/bash\n# run from the repository: compiles demo.cpp against its header and runs it\nhere="$(cd "$(dirname "$0")" && pwd)"\nt="$(mktemp -d)"; trap \'rm -rf "$t"\' EXIT\ng++ -std=c++17 -O1 -I"$PWD" -o "$t/demo" "$here/demo.cpp" || exit 3\ntimeout 60 "$t/demo"\n')
    os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=ns["PROPERTY"],needs=ns["NEEDS"],what_it_breaks=ns["BREAKS"]),open(d+"/meta.json","w"),indent=1)
    a=subprocess.run([d+"/demo.sh"],cwd="/repo",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    b=subprocess.run([d+"/demo.sh"],cwd=w+"/r",stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print(ns["ID"],"base rc",a.returncode,a.stdout[-600:] if a.returncode else "","| bug rc",b.returncode,b.stdout[-400:])
finally:
    subprocess.call(["git","-C","/repo","worktree","remove","--force",w+"/r"]); shutil.rmtree(w,ignore_errors=True)
