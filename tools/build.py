#!/usr/bin/env python3
"""Builds, from /repo's working tree, out of tree in /verif/build:
   build/zmdp   the real command-line program
   build/zh     the conformance harness (harness/zh.cc + the project's sources without zmdp.cc)
   build/zspy   the real front end under a scripted clock and interrupts (harness/spy.cc)
   build/genls, lsdump, lstargets   the life-survey tools
   build/slax   operations on the real vectors and matrices (harness/slax.cc), with address and undefined-behaviour checks
   build/classes  the Java override of spec/FixedPoint.tla
Incremental by file content (a copy of the sources is refreshed only where it differs).
Exit 0 on success; anything else is an error of the check (never a violation)."""
import os, re, sys, subprocess, hashlib, shutil, fcntl, filecmp
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("ZMDP_REPO","/repo")
B=os.path.join(V,"build")
SUB=["common","parsers","mdps","bounds","search","pomdpCore","pomdpBounds","exec","pomdpModels/lifeSurvey"]
CXX=["g++"]; CC=["gcc","-fcommon"]
def flags(src):
    return ["-w","-pipe","-O1","-g0","-DZMDP_VERSION=1.1.7","-DCFLAGS=\"x\"","-I"+B+"/gen","-I"+B+"/gen/include","-I"+B+"/inc"]
def makefile_srcs(mk,var):
    t=open(mk).read().replace("\\\n"," ")
    out=[]
    for m in re.finditer(r"^%s\s*:?=\s*(.*)$"%var,t,re.M):
        yield m.group(1).split()
def sync():
    """mirror the wanted source files into build/src (so one build sees one consistent tree)"""
    src=os.path.join(REPO,"src"); dst=os.path.join(B,"src")
    want=set()
    for d in SUB+["main","build"]:
        for f in sorted(os.listdir(os.path.join(src,d))):
            p=os.path.join(src,d,f)
            if os.path.isfile(p) and (f.endswith((".cc",".c",".h",".y",".l",".config",".perl")) or f=="Makefile"):
                want.add(os.path.join(d,f))
    for r in want:
        a=os.path.join(src,r); b=os.path.join(dst,r)
        if not os.path.exists(b) or not filecmp.cmp(a,b,shallow=False):
            os.makedirs(os.path.dirname(b),exist_ok=True); shutil.copyfile(a,b)
    for dp,dn,fn in os.walk(dst):
        for f in fn:
            if os.path.relpath(os.path.join(dp,f),dst) not in want: os.unlink(os.path.join(dp,f))
    return want
def writeif(p,t):
    if os.path.exists(p) and open(p).read()==t: return
    os.makedirs(os.path.dirname(p),exist_ok=True); open(p,"w").write(t)
def main():
    os.makedirs(B,exist_ok=True)
    lock=open(os.path.join(B,".lock"),"w"); fcntl.flock(lock,fcntl.LOCK_EX)
    want=sync(); S=os.path.join(B,"src")
    # one flat include directory of symlinks, as the project's headerinstall does
    inc=os.path.join(B,"inc"); os.makedirs(inc,exist_ok=True)
    hs={os.path.basename(r):r for r in want if r.endswith((".h",".config"))}
    for f in os.listdir(inc):
        if f not in hs: os.unlink(os.path.join(inc,f))
    for h,r in hs.items():
        l=os.path.join(inc,h); t=os.path.join(S,r)
        if not os.path.islink(l) or os.readlink(l)!=t:
            if os.path.lexists(l): os.unlink(l)
            os.symlink(t,l)
    srcs=[]; gen=[]
    for d in SUB:
        for l in makefile_srcs(os.path.join(S,d,"Makefile"),"BUILDLIB_SRCS"):
            for f in l:
                if f.startswith("pomdp_spec."): continue
                if f not in srcs: srcs.append(os.path.join(d,f))
    mainsrcs=[]
    for l in makefile_srcs(os.path.join(S,"main","Makefile"),"BUILDBIN_SRCS"):
        mainsrcs+=[os.path.join("main",f) for f in l]
    libmain=[f for f in mainsrcs if f!="main/zmdp.cc"]
    os.makedirs(B+"/gen/include",exist_ok=True)
    n=["ninja_required_version = 1.5","builddir = "+B,
       "rule cxx\n  command = g++ $f -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
       "rule cc\n  command = gcc -fcommon $f -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
       "rule bison\n  command = cd %s/src/parsers && bison --defines=%s/gen/include/pomdp_spec.tab.hh --name-prefix=yy pomdp_spec.y -o %s/gen/include/pomdp_spec.tab.cc 2>/dev/null && cp %s/gen/include/pomdp_spec.tab.hh %s/gen/include/pomdp_spec.tab.h"%(B,B,B,B,B),
       "rule flex\n  command = cd %s/src/parsers && flex -Pyy -f -Ca --nounput -o%s/gen/include/pomdp_spec.yy.cc pomdp_spec.l"%(B,B),
       "rule embed\n  command = cd %s/src/main && perl %s/src/build/embedFiles.perl -I%s/inc zmdpMainConfig.h -o %s/gen/zmdpMainConfig.cc"%(B,B,B,B),
       "rule link\n  command = g++ $in -o $out"]
    n.append("build %s/gen/include/pomdp_spec.tab.cc | %s/gen/include/pomdp_spec.tab.h: bison %s/parsers/pomdp_spec.y"%(B,B,S))
    n.append("build %s/gen/include/pomdp_spec.yy.cc: flex %s/parsers/pomdp_spec.l"%(B,S))
    cfgs=" ".join(os.path.join(S,r) for r in sorted(want) if r.startswith("main/") and r.endswith((".config",)))
    n.append("build %s/gen/zmdpMainConfig.cc: embed %s/main/zmdpMainConfig.h | %s %s/build/embedFiles.perl"%(B,S,cfgs,S))
    objs=[]
    def obj(path,rel,inc=None):
        o="%s/obj/%s.o"%(B,rel.replace("/","_"))
        rule="cc" if rel.endswith(".c") else "cxx"
        fl=" ".join("'%s'"%x for x in flags(rel))+" -I"+(inc or os.path.dirname(path))
        n.append("build %s: %s %s || %s/gen/include/pomdp_spec.tab.h %s/gen/zmdpMainConfig.cc\n  f = %s"%(o,rule,path,B,B,fl))
        return o
    for r in srcs+libmain: objs.append(obj(os.path.join(S,r),r))
    objs.append(obj(B+"/gen/include/pomdp_spec.tab.cc","gen/include/pomdp_spec.tab.cc"))
    objs.append(obj(B+"/gen/include/pomdp_spec.yy.cc","gen/include/pomdp_spec.yy.cc"))
    # the generated sources include project headers relative to parsers/
    z=obj(os.path.join(S,"main/zmdp.cc"),"main/zmdp.cc")
    h=obj(os.path.join(V,"harness/zh.cc"),"zh.cc")
    sd=obj(os.path.join(V,"harness/seed.c"),"seed.c")
    sp=obj(os.path.join(V,"harness/spy.cc"),"spy.cc",inc=os.path.join(S,"main"))
    n.append("build %s/zmdp: link %s %s %s"%(B,z,sd," ".join(objs)))
    n.append("build %s/zspy: link %s %s %s"%(B,sp,sd," ".join(objs)))
    # the life-survey tools
    ls={t:obj(os.path.join(S,"pomdpModels/lifeSurvey/"+f),"pomdpModels/lifeSurvey/"+f) for t,f in (("genls","gen_LifeSurvey.cc"),("lsdump","dumpMap.cc"),("lstargets","genTargetLocations.cc"))}
    for t,o in ls.items(): n.append("build %s/%s: link %s %s"%(B,t,o," ".join(objs)))
    n.append("build %s/zh: link %s %s"%(B,h," ".join(objs)))
    # the vectors and matrices, with checked memory
    n.append("build %s/slax: slax %s/harness/slax.cc"%(B,V)); n.insert(2,"rule slax\n  command = g++ -w -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -I%s/inc -MMD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc"%B)
    n.append("rule javac\n  command = mkdir -p %s/classes && javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d %s/classes $in && touch $out"%(B,B))
    n.append("build %s/classes.stamp: javac %s/spec/FixedPoint.java"%(B,V))
    n.append("default %s/zmdp %s/zh %s/zspy %s/genls %s/lsdump %s/lstargets %s/slax %s/classes.stamp"%((B,)*8))
    writeif(B+"/build.ninja","\n".join(n)+"\n")
    r=subprocess.run(["ninja","-C",B,"-f",B+"/build.ninja"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:]); sys.stderr.write("BUILD FAILED\n"); return 3
    return 0
if __name__=="__main__": sys.exit(main())
