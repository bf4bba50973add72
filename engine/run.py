#!/usr/bin/env python3-vt
"""Driver of one property check.

  run.py <property> [--tier quick|thorough] [--only harness,...]

1. mirrors /repo's working tree (engine/mkws.py) and compiles the harness crate /verif/irh together
   with the real crates to LLVM IR and to a shared object (same rustc invocation);
2. executes every harness of the property symbolically over that IR; obligations go to the solvers;
3. replays every counterexample, and every path witness, against the compiled code;
4. prints VIOLATION / KNOWN-FINDING lines, writes evidence/<property>.json.

exit status: 0 held, 1 violated (reproduced on the compiled code), 2 no answer."""
import argparse
import fcntl
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
WORK = os.path.join(ROOT, ".work")
WS = os.path.join(WORK, "ws")
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


def parse_meta(prop):
    """harness options are '//@' lines in the harness sources:
         //@ <harness> key=value ... ; free text (bounds)"""
    meta = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "irh/src/*.rs"))):
        for line in open(f):
            m = re.match(r"\s*//@\s+(\S+)\s*([^;]*)(?:;\s*(.*))?$", line)
            if not m:
                continue
            o = {}
            for kv in m.group(2).split():
                k, v = kv.split("=", 1)
                try:
                    v = json.loads(v)
                except ValueError:
                    pass
                o[k] = v
            if m.group(3):
                o["text"] = m.group(3).strip()
            meta.setdefault(m.group(1), {}).update(o)
    return meta


def options(meta, h):
    o = {}
    for pat in sorted(meta, key=len):
        if re.fullmatch(pat.replace("*", ".*"), h):
            o.update(meta[pat])
    return o


def build(prop):
    import mkws
    os.makedirs(WORK, exist_ok=True)
    mkws.mirror(REPO, WS)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "irt"))
    env.pop("RUSTFLAGS", None)
    for f in glob.glob(os.path.join(WORK, "irt/release/deps/irh*.ll")):
        os.unlink(f)
    for d in glob.glob(os.path.join(WORK, "irt/release/.fingerprint/irh-*")):
        shutil.rmtree(d)
    cmd = ["cargo", "rustc", "--release", "--offline", "--locked", "--lib", "--features", prop.lower(), "--",
           "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
    t = time.time()
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "irh"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-6000:])
        die("the harness crate does not build against the current tree")
    ll = glob.glob(os.path.join(WORK, "irt/release/deps/irh*.ll"))
    if len(ll) != 1:
        die("expected one IR file, found %r" % ll)
    so = os.path.join(WORK, "irt/release/libirh.so")
    rp = os.path.join(WORK, "replay")
    subprocess.run(["gcc", "-O1", "-rdynamic", "-o", rp, os.path.join(HERE, "replay.c"), "-ldl"], check=True)
    return ll[0], so, rp, time.time() - t


def native(rp, so, lines, valgrind=False, timeout=300):
    cmd = [rp, so]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=99", "--trace-children=no", "--exit-on-first-error=yes"] + cmd
    try:
        p = subprocess.run(cmd, input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return []
    out = []
    for l in p.stdout.splitlines():
        a, _, b = l.partition("|")
        out.append((a.split(), [int(x) for x in b.split()], p.stderr))
    return out


def miri(h):
    """runs a two-thread scenario over the real crates under Miri with several schedules; what failed, or None"""
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(WORK, "mirit"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..16 -Zmiri-preemption-rate=0.05")
    env.pop("RUSTFLAGS", None)
    env.pop("RUSTUP_TOOLCHAIN", None)
    try:
        p = subprocess.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--", h], cwd=os.path.join(ROOT, "thr"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode == 0:
        return None
    for l in p.stdout.splitlines():
        if "Undefined Behavior" in l or "panicked" in l or "deadlock" in l or "SCENARIO" in l:
            return "miri: " + l.strip()[:300]
    return None


def line_of(h, trace):
    return h + " " + " ".join(str(v) for _, _, v in trace)


class Run:
    def __init__(self, h):
        self.h = h
        self.ev = []
        self.pid = None
        self.t0 = self.t1 = 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--nobuild", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    prop, tier = a.prop.upper(), a.tier
    t0 = time.time()
    budget = a.budget or (780 if tier == "quick" else 6 * 3600)
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a.nobuild:
        ll, so, rp, tb = glob.glob(os.path.join(WORK, "irt/release/deps/irh*.ll"))[0], os.path.join(WORK, "irt/release/libirh.so"), os.path.join(WORK, "replay"), 0
    else:
        ll, so, rp, tb = build(prop)
    import llir
    import execsym
    import race
    mod = llir.Module(ll)
    tparse = time.time() - t0 - tb
    meta = parse_meta(prop)
    pre = prop.lower() + "_"
    names = sorted(n[1:].strip('"') for n in mod.functions if n.startswith("@" + pre))
    opts = {n: options(meta, n) for n in names}
    skipped = [n for n in names if tier == "quick" and opts[n].get("tier") == "thorough"]
    names = [n for n in names if n not in skipped]
    if a.only:
        names = [n for n in names if any(re.fullmatch(x.replace("*", ".*"), n) for x in a.only.split(","))]
    if not names:
        die("no harness for " + prop)
    # ---- symbolic execution, one process per harness (plus forks per path)
    logd = os.path.join(WORK, "log." + prop)
    shutil.rmtree(logd, ignore_errors=True)
    os.makedirs(logd)
    tmpd = os.path.join(WORK, "tmp." + prop)
    shutil.rmtree(tmpd, ignore_errors=True)
    os.makedirs(tmpd)
    os.environ["VERIF_TMP"] = tmpd
    sched = execsym.Sched(NCPU + 1)
    todo = sorted(names, key=lambda n: -opts[n].get("weight", 1))
    live, runs = {}, []
    timedout = False

    def limit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

    def stop(*_):
        raise SystemExit(2)

    for sg in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(sg, stop)
    try:
        while todo or live:
            while todo and sched.try_acquire():
                r = Run(todo.pop(0))
                r.t0 = time.time()
                fd = os.open(os.path.join(logd, r.h), os.O_CREAT | os.O_TRUNC | os.O_APPEND | os.O_WRONLY)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    for sg in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                        signal.signal(sg, signal.SIG_DFL)
                    os.setpgid(0, 0)
                    limit()
                    o = dict(sched=sched, seed=seed, tier=tier, trace=False)
                    o.update({k: v for k, v in opts[r.h].items() if k not in ("text", "tier", "weight")})
                    if tier == "thorough":
                        o["timeout"] = o.get("timeout_thorough", 4 * o.get("timeout", 60))
                    E = (race.RaceEngine if o.get("threads") else execsym.Engine)(mod, fd, o)
                    E.is_child = True
                    E.token = True
                    E.run_harness(r.h)
                    os._exit(0)
                os.close(fd)
                r.pid = pid
                live[pid] = r
                runs.append(r)
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid and pid in live:
                r = live.pop(pid)
                r.t1 = time.time()
                r.status = st
                continue
            if time.time() - t0 > budget:
                timedout = True
                break
            time.sleep(0.01)
    finally:
        for pid in list(live):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            live[pid].status = "timeout"
            live[pid].t1 = time.time()
    shutil.rmtree(tmpd, ignore_errors=True)
    # ---- collect
    tot = dict(instrs=0, queries=0, solver_s=0.0, checks=0, trivial=0, merges=0, forks=0, obligations=0)
    fns, paths, infeas = {}, 0, 0
    viol, errors, wits = [], [], []
    per = {}
    for r in runs:
        d = per[r.h] = dict(paths=0, obligations=0, queries=0, solver_s=0.0, checks=0, wall_s=round(r.t1 - r.t0, 2))
        for l in open(os.path.join(logd, r.h)):
            try:
                e = json.loads(l)
            except ValueError:
                continue
            k = e["ev"]
            if k == "stats":
                for x in tot:
                    tot[x] += e.get(x, 0)
                for x in ("obligations", "queries", "solver_s", "checks"):
                    d[x] += e.get(x, 0)
                for f, c in e["fns"].items():
                    fns[f] = fns.get(f, 0) + c
            elif k == "path":
                paths += 1
                d["paths"] += 1
                if e.get("witness"):
                    wits.append((r.h, e["witness"]))
            elif k == "infeasible":
                infeas += 1
            elif k == "violation":
                viol.append((r.h, e))
            elif k in ("unknown", "error"):
                errors.append("%s: %s" % (r.h, json.dumps(e)[:600]))
        d["solver_s"] = round(d["solver_s"], 3)
        st = getattr(r, "status", "lost")
        if st != 0:
            errors.append("%s: worker ended with %r" % (r.h, st))
        elif d["paths"] == 0 and not any(h == r.h for h, _ in viol):
            errors.append("%s: no feasible path reached the end (vacuous)" % r.h)
        elif d["checks"] == 0 and not any(h == r.h for h, _ in viol) and not opts[r.h].get("nocheck"):
            errors.append("%s: no assertion was reached (vacuous)" % r.h)
    if timedout:
        errors.append("time budget of %d s exhausted; not started: %r" % (budget, todo))
    # ---- native validation of path witnesses
    validated, samples = 0, []
    wv = [(h, w) for h, w in wits if not w.get("undef") and not opts[h].get("nonative")]
    cap = 4000
    if wv:
        res = native(rp, so, [line_of(h, w["trace"]) for h, w in wv[:cap]])
        for (h, w), (st, outs, _) in zip(wv, res):
            want = ["okpanic"] if w["how"] == "panic" else ["ok"]
            exp = [int(x) for x in w["outs"]]
            if st[0:1] == want and (w["how"] == "panic" or outs == exp):
                validated += 1
                if len(samples) < 6 and w["trace"]:
                    samples.append(dict(harness=h, inputs=[v for _, _, v in w["trace"]][:24], outputs=outs[:24], ended=st[0]))
            else:
                errors.append("%s: the compiled code disagrees with the symbolic execution on %s: native %r %r, symbolic %r %r" % (h, line_of(h, w["trace"])[:400], st, outs[:20], w["how"], exp[:20]))
        if len(res) < min(len(wv), cap):
            errors.append("native validation stopped early (%d of %d)" % (len(res), len(wv)))
    # ---- violations
    known = json.load(open(os.path.join(ROOT, "known_findings.json")))
    kf = {k["harness"]: k for k in known["findings"] if k["property"] == prop}
    nviol, seen_kf = 0, set()
    rdir = os.path.join(ROOT, "evidence", "replay")
    unconf = []
    shown = {}
    for h, e in viol:
        tr = e["trace"]
        if opts[h].get("threads"):
            st = miri(h)
            ok = st is not None
            st = [str(st)]
        else:
            res = native(rp, so, [line_of(h, tr)])
            st = res[0][0] if res else ["none"]
            ok = st and st[0] in ("check", "panic", "signal")
        if not ok and any("memory" in str(w) or "undef" in str(w) or "bounds" in str(w) for w in e["what"]) and shutil.which("valgrind"):
            pv = subprocess.run(["valgrind", "-q", "--error-exitcode=99", rp, so], input=line_of(h, tr) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if "Invalid" in pv.stderr or "uninitialised" in pv.stderr:
                st, ok = ["valgrind"], True
        if not ok:
            unconf.append("%s: counterexample %s (%s) does not reproduce on the compiled code: %r" % (h, line_of(h, tr)[:300], e["what"], st))
            continue
        if h in kf:
            if h not in seen_kf:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[h]["what"]))
            seen_kf.add(h)
            continue
        nviol += 1
        shown[h] = shown.get(h, 0) + 1
        if shown[h] > 2:
            continue
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, "%s-%s-%d.json" % (prop, h, shown[h]))
        json.dump(dict(property=prop, harness=h, what=e["what"], where=e.get("stack"), inputs=[[n, w, v] for n, w, v in tr], native=" ".join(st),
                       how_to_rerun=("cd %s/thr && cargo +nightly miri run -- %s   (MIRIFLAGS=-Zmiri-many-seeds=0..16)" % (ROOT, h)) if opts[h].get("threads") else
                       "echo '%s' | %s %s   (after running the check, which builds both)" % (line_of(h, tr), rp, so)), open(f, "w"), indent=1)
        print("counterexample: %s inputs=%s : %s ; compiled code: %s" % (h, [v for _, _, v in tr][:40], "; ".join(e["what"][:3]), " ".join(st)))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    for h in kf:
        if h in names and h not in seen_kf:
            print("note: known finding %s no longer reproduces" % h)
    if not nviol:
        errors += unconf
    else:
        for u in unconf:
            print("note: " + u)
    # ---- evidence
    own = {f: c for f, c in fns.items()}
    funcs = sorted(pretty(f) for f in own)
    cov = dict(
        states=paths + infeas, transitions=tot["instrs"], traces_validated_against_impl=validated,
        samples=samples or [dict(harness=n, inputs=[], note="harness without symbolic path witness") for n in names[:1]],
        symbolic_paths=paths, infeasible_paths=infeas, ir_instructions_executed=tot["instrs"],
        assertions=tot["checks"], obligations=tot["obligations"] + tot["trivial"], obligations_decided_by_simplification=tot["trivial"],
        obligations_sent_to_solver=tot["obligations"], solver_queries=tot["queries"], solver_s=round(tot["solver_s"], 2),
        state_merges=tot["merges"], path_forks=tot["forks"], functions_encoded=len(funcs), functions=funcs,
        harnesses={n: dict(per[n], bounds=opts[n].get("text", "")) for n in per}, thorough_only=skipped,
        build_s=round(tb, 1), parse_s=round(tparse, 1), ir_file_bytes=os.path.getsize(ll),
        solvers="z3 (python API 4.x in process), z3 5.x and cvc5 1.1 as portfolio", violations_confirmed=nviol, known_findings_seen=sorted(seen_kf), errors=errors[:20])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["rustc's LLVM IR (release profile with overflow checks and debug assertions) means what the machine code does; path witnesses are replayed on the compiled code",
                           "bounds per harness as listed under coverage.harnesses"],
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))
    print("%s %s: %d harnesses, %d paths, %d obligations (%d to solver, %d queries, %.1f s solver), %d functions, %d witnesses replayed; build %.1f s, total %.1f s"
          % (prop, tier, len(names), paths, tot["obligations"] + tot["trivial"], tot["obligations"], tot["queries"], tot["solver_s"], len(funcs), validated, tb, time.time() - t0))
    if a.v or (errors and not nviol):
        for n in sorted(per, key=lambda n: -per[n]["wall_s"])[:200]:
            print("   %-40s %s" % (n, per[n]))
    if not a.v:
        shutil.rmtree(logd, ignore_errors=True)
    if nviol:
        for x in errors[:10]:
            print("note: " + x)
        sys.exit(1)
    if errors:
        for x in errors[:12]:
            print("ERROR: " + x)
        sys.exit(2)
    print("HELD property=%s" % prop)
    sys.exit(0)


def pretty(f):
    """demangle the legacy/v0 path roughly"""
    f = f.lstrip("@").strip('"')
    m = re.match(r"_ZN(.*)E$", f)
    if m:
        s, out = m.group(1), []
        while s:
            k = re.match(r"(\d+)", s)
            if not k:
                break
            n = int(k.group(1))
            s = s[k.end():]
            out.append(s[:n])
            s = s[n:]
        if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
            out.pop()
        r = "::".join(out)
        for x, y in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("..", "::")):
            r = r.replace(x, y)
        return r
    return f


if __name__ == "__main__":
    main()
