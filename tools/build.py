#!/usr/bin/env python3
"""Builds the code under test (from /repo's working tree) and the simulator into a build directory.
usage: build.py [--repo /repo] [--out DIR]"""
import os, re, sys, glob, subprocess, shutil, hashlib, concurrent.futures as cf, argparse
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CC="/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "clang"; CXX=CC+"++"
COPIES={"client":14,"router":5,"session":3}
def sh(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise RuntimeError("%s\n%s"%(" ".join(cmd),r.stdout[-6000:]))
def digest(files,extra=""):
    h=hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f,"rb").read())
    return h.hexdigest()
def sources(repo):
    s=repo+"/src"
    def cmake_lib(d,name):
        """the .c files of add_library(name ...) in d/CMakeLists.txt"""
        t=open(d+"/CMakeLists.txt",errors="replace").read()
        m=re.search(r"add_library\s*\(\s*"+name+r"\b([^)]*)\)",t,re.I)
        fs=[d+"/"+w for w in (m.group(1).split() if m else []) if w.endswith(".c")]
        return [f for f in fs if os.path.exists(f)]
    rt=cmake_lib(s+"/rtmessage","rtMessage")
    if not rt: raise RuntimeError("no rtMessage library sources found")
    core=sorted(glob.glob(s+"/core/*.c")); rbus=sorted(glob.glob(s+"/rbus/*.c"))
    rtr=[f for f in (s+"/rtmessage/rtrouted.c",s+"/rtmessage/rtRoutingTree.c") if os.path.exists(f)]
    ses=[s+"/session_manager/session_manager.c"]
    return rt,core,rbus,rtr,ses
def build(repo="/repo",out=None,quiet=True):
    out=out or V+"/.build"
    os.makedirs(out,exist_ok=True)
    rt,core,rbus,rtr,ses=sources(repo)
    hdrs=glob.glob(repo+"/src/**/*.h",recursive=True)+glob.glob(repo+"/include/*.h")
    simsrc=sorted(glob.glob(V+"/sim/*.cpp")); simhdr=sorted(glob.glob(V+"/sim/*.h"))
    allsrc=rt+core+rbus+rtr+ses+hdrs
    stamp=digest(allsrc+simsrc+simhdr+[V+"/sim/wraps.txt",os.path.abspath(__file__)])
    sf=out+"/stamp"
    if os.path.exists(sf) and open(sf).read()==stamp and os.path.exists(out+"/simrun"): return out
    if os.path.exists(sf): os.remove(sf)
    obj=out+"/obj"; os.makedirs(obj,exist_ok=True)
    inc=["-I"+repo+"/include","-I"+repo+"/src/rtmessage","-I"+repo+"/src/core","-I"+repo+"/src/rbus","-I"+repo+"/src/session_manager","-I/usr/include/cjson","-I/usr/include"]
    cfl=["-O1","-g1","-fPIC","-fno-omit-frame-pointer","-fsanitize=address","-fsanitize-coverage=trace-pc-guard","-w","-std=gnu17","-Wno-error=int-conversion","-Wno-error=implicit-function-declaration","-Wno-error=incompatible-function-pointer-types","-Wno-error=implicit-int","-Wno-error=return-type","-DRBUS_ALWAYS_ON","-D_TIME_BITS=64","-D_FILE_OFFSET_BITS=64","-DBUILD_FOR_DESKTOP","-DMSG_ROUNDTRIP_TIME=1","-D__progname=sim_progname","-Dpthread_create=sim_pthread_create"]
    jobs=[]
    hd=digest(hdrs)
    def obj_for(src,tag,extra=()):
        o="%s/%s_%s.o"%(obj,tag,os.path.basename(src)[:-2]); key=digest([src],hd+" ".join(cfl)+" ".join(extra))
        k=o+".key"
        if not(os.path.exists(o) and os.path.exists(k) and open(k).read()==key):
            jobs.append(([CC]+cfl+list(extra)+inc+["-c",src,"-o",o],k,key))
        return o
    prog=obj+"/progname.c"
    open(prog,"w").write('char* sim_progname="rbusapp";\n')
    o_prog=obj_for(prog,"x")
    o_rt=[obj_for(f,"rt") for f in rt]; o_core=[obj_for(f,"core") for f in core]; o_rbus=[obj_for(f,"rbus") for f in rbus]
    o_rtr=[obj_for(f,"router",("-Dmain=sim_rtrouted_main",)) for f in rtr]; o_ses=[obj_for(f,"ses",("-Dmain=sim_session_main","-Dprintf=sim_noprintf")) for f in ses]
    o_sim=[]; sd=digest(simhdr+glob.glob(repo+"/include/*.h")+[repo+"/src/rbus/rbus_message.h"])
    for f in simsrc:
        o="%s/sim_%s.o"%(obj,os.path.basename(f)[:-4]); key=digest([f],sd); k=o+".key"; o_sim.append(o)
        if not(os.path.exists(o) and os.path.exists(k) and open(k).read()==key):
            jobs.insert(0,([CXX,"-std=c++17","-O1","-g1","-Wall","-Wno-unused-parameter","-I"+V+"/sim","-I"+repo+"/include","-I"+repo+"/src/rbus","-c",f,"-o",o],k,key))
    def one(j):
        sh(j[0]); open(j[1],"w").write(j[2])
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: list(ex.map(one,jobs))
    wraps=open(V+"/sim/wraps.txt").read().split()
    wf=out+"/wraps.rsp"; open(wf,"w").write("\n".join("-Wl,--wrap=%s"%w for w in wraps)+"\n")
    ld=[CC,"-shared","-fuse-ld=lld","-fsanitize=address","-fsanitize-coverage=trace-pc-guard","-Wl,-Bsymbolic","-Wl,--gc-sections","@"+wf]
    def link(name,objs,libs):
        so="%s/%s_0.so"%(out,name); sh(ld+["-o",so]+objs+[o_prog]+libs)
        for i in range(1,COPIES[name]):
            d="%s/%s_%d.so"%(out,name,i)
            if os.path.exists(d): os.remove(d)
            shutil.copyfile(so,d)
    L=["-lcjson","-lmsgpackc"]
    tasks=[("client",o_rt+o_core+o_rbus,L),("session",o_rt+o_core+o_rbus+o_ses,L),("router",o_rt+o_rtr,["-lcjson"])]
    with cf.ThreadPoolExecutor(8) as ex:
        fs=[ex.submit(link,*t) for t in tasks]
        fs.append(ex.submit(sh,[CXX,"-fuse-ld=lld","-fsanitize=address","-rdynamic","-o",out+"/simrun"]+o_sim+["-ldl","-lpthread"]))
        for f in fs: f.result()
    open(sf,"w").write(stamp)
    return out
if __name__=="__main__":
    ap=argparse.ArgumentParser(); ap.add_argument("--repo",default="/repo"); ap.add_argument("--out",default=None); a=ap.parse_args()
    import time; t=time.time()
    try: build(a.repo,a.out)
    except Exception as e: print(e); sys.exit(2)
    print("built in %.1fs"%(time.time()-t))
