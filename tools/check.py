#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] : seeded simulation of one property against /repo's working tree.
exit 0 held on everything explored; 1 violation (VIOLATION line); 2 the machinery failed."""
import os, sys, json, subprocess, time, re, argparse
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,V+"/tools")
import build as B
REAL={"real":["src/rtmessage client library (rtConnection, rtMessage, rtEncoder, rtSemaphore, ...)","src/rtmessage/rtrouted.c + rtRoutingTree.c (router daemon)","src/core (rbuscore)","src/rbus (public API)","src/session_manager (where a scenario starts it)","cJSON and msgpack-c"],
 "stub":["kernel: threads, mutexes, condition variables, clocks, timers","sockets (TCP/unix stream), select, accept","/tmp files (simulated disk)","pids, kill(pid,0)","system logger"]}
# quick run counts are sized for about 15-20 s on 8 cores
QUICK_T=float(os.environ.get("SIM_QUICK_T","18"))
PROPS={}
for l in open(V+"/tools/runs.txt"):
    w=l.split()
    if len(w)>=3 and not l.startswith("#"): PROPS[w[0]]=(int(w[1]),int(w[2]))
def known(prop):
    out=[]; f=V+"/known-findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r"finding: property=(\S+) scenario=(\S+) class=(\S+) (.*)",l)
            if m and m.group(1)==prop: out.append((m.group(2),m.group(3),m.group(4).strip()))
    return out
def run(cmd,timeout,env=None):
    try: r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env); return r.returncode,r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e: return 124,(e.stdout or b"").decode(errors="replace")
def main():
    ap=argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier",default="quick"); ap.add_argument("--runs",type=int); ap.add_argument("--time",type=float); a=ap.parse_args()
    prop=a.prop; tier=a.tier; seed=int(os.environ.get("VERIF_SEED","1") or 1); t0=time.time()
    try: out=B.build()
    except Exception as e: print("BUILD FAILED\n",e); return 2
    tb=time.time()-t0
    q,th=PROPS[prop]; runs=a.runs or (q if tier=="quick" else th); T=a.time or (QUICK_T if tier=="quick" else 780)
    os.makedirs(V+"/evidence",exist_ok=True); os.makedirs(V+"/replays",exist_ok=True)
    of="%s/batch.%s.%d.jsonl"%(out,prop,os.getpid()); S=out+"/simrun"; base=["--prop",prop,"--lib",out]
    kn=known(prop); kargs=[x for k in kn for x in ("--known",k[0]+"|"+k[1])]
    try:
        rc,log=run([S,"batch",*base,*kargs,"--seed",str(seed),"--runs",str(runs),"--jobs",str(os.cpu_count() or 8),"--time",str(T),"--out",of,"--max-violations","12"],T+120)
        rows=[]
        for l in open(of,errors="replace"):
            try: rows.append(json.loads(l))
            except Exception: pass
    except FileNotFoundError: rows=[]
    finally:
        if os.path.exists(of): os.remove(of)
    sm=[r for r in rows if r["kind"]=="summary"]
    if rc or not sm: print("simulator failed rc=%s\n%s"%(rc,log[-2000:])); return 2
    sm=sm[0]; viol=[r for r in rows if r["kind"]=="violation"]; internal=[r for r in rows if r["kind"]=="internal"]; samples=[r for r in rows if r["kind"]=="sample"]
    seen={i:0 for i in range(len(kn))}; fresh=[]
    for v in viol:
        hit=[i for i,k in enumerate(kn) if k[0]==v["scenario"] and k[1]==v["class"]]
        if hit: seen[hit[0]]+=1
        else: fresh.append(v)
    for i,k in enumerate(kn): print("KNOWN-FINDING: property=%s %s (scenario %s, class %s, seen in %d of %d runs)"%(prop,k[2],k[0],k[1],seen[i],sm["runs"]))
    code=0; reported=0; notes=[]
    groups={}
    for v in fresh: groups.setdefault((v["scenario"],v["class"]),[]).append(v)
    for (scn,cls),vs in sorted(groups.items(),key=lambda g:-len(g[1]))[:4]:
        done=False
        for v in vs[:3]:
            rp="%s/replays/%s-%s-%d.replay"%(V,prop,scn,v["seed"])
            r1,o1=run([S,"run",*base,"--scn",scn,"--seed",str(v["seed"]),"--times","2"],180)
            hs=re.findall(r'"hash":"([0-9a-f]+)"',o1); cs=re.findall(r'"class":"([^"]*)"',o1)
            if len(hs)!=2 or hs[0]!=hs[1] or hs[0]!=v["hash"]: notes.append("seed %d: not repeatable (%s, batch %s, %s)"%(v["seed"],hs,v["hash"],cs)); continue
            r2,o2=run([S,"minimise",*base,"--scn",scn,"--seed",str(v["seed"]),"--out",rp,"--time","15" if tier=="quick" else "60"],200)
            if r2: notes.append("seed %d: minimise: %s"%(v["seed"],o2[-300:])); continue
            r3,o3=run([S,"replay",*base,rp],120)
            if "REPLAY exact" not in o3: notes.append("seed %d: replay: %s"%(v["seed"],o3[-300:])); continue
            env=dict(os.environ); env["ASAN_OPTIONS"]="symbolize=1:detect_leaks=0:handle_segv=1"
            msg=re.search(r"^MSG (.*)$",o3,re.M)
            print("violated: %s  [%s]\n  seed %d scenario %s, %s\n  %s"%(prop,cls,v["seed"],scn,o2.split("\n")[0],(msg.group(1) if msg else "")[:600]))
            rep=re.search(r"^REPORT (.*)",o3,re.M|re.S)
            if rep: print("  "+rep.group(1)[:1500])
            print("VIOLATION property=%s replay=%s"%(prop,rp)); reported+=1; done=True; break
        if done: code=1
        if reported>=2: break
    if groups and not reported: print("violations seen but none could be reproduced exactly:\n"+"\n".join(notes)); code=2
    if internal:
        c={}
        for r in internal: c[r["class"]+" "+r["msg"][:100]]=c.get(r["class"]+" "+r["msg"][:100],0)+1
        print("internal: %s"%c)
        if len(internal)>max(3,0.02*sm["runs"]) and code==0: code=2
    wall=time.time()-t0
    scs=[l.split()[1] for l in subprocess.run([S,"list"],stdout=subprocess.PIPE,text=True).stdout.splitlines() if l.split()[0]==prop]
    cov={"evaluations":sm["runs"],"distinct_nontrivial":sm["distinct_nontrivial"],
     "rule":"one evaluation = one seeded simulated execution of the whole system (router, clients, fault injector) for one generated workload; non-trivial = the scenario reached its property-relevant phase and executed at least its minimum of operations; distinct = different hash of the sequence (thread, kind of scheduling point) of the execution",
     "samples":[{"scenario":s["scenario"],"seed":s["seed"],"log":s["log"][:1200]} for s in samples[:3]],
     "scenarios":scs,"runs_ok":sm["ok"],"runs_truncated":sm["truncated"],"runs_internal":sm["internal"],"runs_per_hour":int(sm["runs"]/max(sm["wall"],.01)*3600),"seeds_per_hour":int(sm["runs"]/max(sm["wall"],.01)*3600),
     "simulated_seconds":sm["sim_seconds"],"scheduler_steps":sm["steps"],"context_switches":sm["switches"],"preemptions_inside_code":sm["preemptions"],"operations":sm["ops"],"distinct_interleavings":sm["distinct"],"code_edges_reached":sm["edges"],
     "faults_injected":{k:v for k,v in sm["faults"].items()},"probes":sm["probes"],"components":REAL,"build_s":round(tb,1),"known_findings_seen":{kn[i][1]:seen[i] for i in seen}}
    ev={"property":prop,"tier":tier,"seed":seed,"level":"exploration","coverage":cov,"assumptions":["the stubbed kernel behaves as POSIX/Linux specifies for the calls used","a sampled search: a clean batch is evidence, not proof"],"wall_s":round(wall,1),"violations":len(fresh)}
    json.dump(ev,open("%s/evidence/%s.json"%(V,prop),"w"),indent=1)
    print("%s %s: %d runs, %d ok, %.0f simulated s, %d distinct interleavings, %d edges, %.1fs"%(prop,tier,sm["runs"],sm["ok"],sm["sim_seconds"],sm["distinct"],sm["edges"],wall))
    return code
sys.exit(main())
