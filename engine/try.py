import sys, json, os, time
sys.path.insert(0, os.path.dirname(__file__))
import llir, execsym
t=time.time()
m=llir.Module(sys.argv[1])
print("parse %.2f"%(time.time()-t))
opts=json.loads(os.environ.get("OPTS","{}"))
for h in sys.argv[2:]:
    lf="/tmp/log.%s"%h
    fd=os.open(lf, os.O_CREAT|os.O_TRUNC|os.O_APPEND|os.O_WRONLY)
    t=time.time()
    pid=os.fork()
    if pid==0:
        o=dict(trace=bool(os.environ.get("TRACE")), tracepe=bool(os.environ.get("TRACEPE")), sched=execsym.Sched(8)); o.update(opts)
        E=execsym.Engine(m, fd, o)
        E.run_harness(h)
        os._exit(0)
    os.waitpid(pid,0)
    print(h, "%.2fs"%(time.time()-t))
    ev={}; tot={}; fns={}
    for l in open(lf):
        d=json.loads(l); ev[d["ev"]]=ev.get(d["ev"],0)+1
        if d["ev"] not in("stats",): print("  ",str(d)[:1800]) if ev[d["ev"]]<=2 else None
        else:
            for k,v in d.items():
                if k=='fns':
                    for a,b in v.items(): fns[a]=fns.get(a,0)+b
                elif k!='ev': tot[k]=tot.get(k,0)+v
    print("  ",tot); print("  ",ev, len(fns))
