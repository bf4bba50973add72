"""Two threads over the same IR.

A harness with the option threads=1 consists of four functions thr_<name>_s (set-up), _a, _b (the two threads) and _f (checks after both ended).

1. Race freedom.  Each thread is executed by itself from the state after set-up, and after the other one; the accesses to memory both
   threads touch are recorded.  The interleaving is then a set of integer unknowns (k_j: how many accesses of the first thread come
   before access j of the second one), constrained so that every access before the race reads what it read when it was recorded
   (atomic words: by value).  The solver looks for two positions in such an interleaving that are adjacent accesses to
   overlapping bytes, one of them a write, not both atomic.
2. Outcome.  One thread runs up to an arbitrary atomic access (a solver unknown), then the other one runs to its end (schedules in which it
   would have to wait for a lock are not schedules), then the first one resumes; _f must hold."""
import z3
import terms as T
import execsym
from execsym import Engine, PathEnd, isc


class Blocked(Exception):
    pass


class Ev:
    __slots__ = ("k", "at", "o", "off", "n", "rv", "wv", "fn", "add")

    def __init__(self, k, at, o, off, n, rv, wv, fn, add=False):
        self.k, self.at, self.o, self.off, self.n, self.rv, self.wv, self.fn, self.add = k, at, o, off, n, rv, wv, fn, add

    def hits(self, x):
        return self.o == x.o and self.off < x.off + x.n and x.off < self.off + self.n

    def same(self, x):
        return self.o == x.o and self.off == x.off and self.n == x.n

    def wr(self):
        return self.k != "r"

    def show(self, E):
        o = E.objs[self.o]
        import run
        return "%s%s of %s+%d (%d bytes) in %s" % ("atomic " if self.at else "", {"r": "read", "w": "write", "u": "update"}[self.k], o.name.lstrip("@")[:60], self.off, self.n, run.pretty(self.fn)[:120])


class RaceEngine(Engine):
    rec = None          # events of the running thread
    seen = None
    hook = None
    thread = 0
    quiet = False

    # ---------------------------------------------------------------- recording
    def shared(self, a):
        o = a >> 32
        return o and o < len(self.objs) and self.objs[o] is not None and self.objs[o].kind in ("global", "heap") and not self.objs[o].ro and o not in self.tlsset()

    _tls = (0, frozenset())

    def tlsset(self):
        if self._tls[0] != len(self.tls):
            self._tls = (len(self.tls), frozenset(self.tls))
        return self._tls[1]

    def ev(self, k, at, a, n, rv=None, wv=None, add=False):
        if self.rec is None or a.__class__ is not int or n == 0 or not self.shared(a):
            return
        fn = self.fnstack[-1].name if self.fnstack else ""
        key = (k, a, n)
        if at:
            self.seen = set()
        elif key in self.seen:
            return
        else:
            self.seen.add(key)
        self.rec.append(Ev(k, at, a >> 32, a & 0xFFFFFFFF, n, rv, wv, fn, add))

    def step(self, a):
        """an atomic access to shared memory is about to happen"""
        if self.hook is not None and a.__class__ is int and self.shared(a):
            self.hook()

    def load(self, a, n, w):
        if not self.quiet:
            self.ev("r", False, a, n)
        return Engine.load(self, a, n, w)

    def store(self, a, v, n, w):
        if not self.quiet:
            self.ev("w", False, a, n)
        return Engine.store(self, a, v, n, w)

    def memcpy(self, d, s, n):
        if isc(n) and isc(d) and isc(s):
            self.ev("r", False, s, n)
            self.ev("w", False, d, n)
        return Engine.memcpy(self, d, s, n)

    def memset(self, d, v, n):
        if isc(n) and isc(d):
            self.ev("w", False, d, n)
        return Engine.memset(self, d, v, n)

    def plain(self, f, *a):
        q, self.quiet = self.quiet, True
        try:
            return f(self, *a)
        finally:
            self.quiet = q

    def aload(self, a, n, w):
        self.step(a)
        v = self.plain(Engine.load, a, n, w)
        self.ev("r", True, a, n, v)
        return v

    def astore(self, a, v, n, w):
        self.step(a)
        self.plain(Engine.store, a, v, n, w)
        self.ev("w", True, a, n, None, v)

    def rmw(self, k, p, v, w):
        self.step(p)
        old = self.plain(Engine.rmw, k, p, v, w)
        self.ev("u", True, p, w // 8, old, self.plain(Engine.load, p, w // 8, w), k in ("add",))
        return old

    def cmpxchg(self, p, c, n, w):
        self.step(p)
        r = self.plain(Engine.cmpxchg, p, c, n, w)
        if isc(r[1]) and not r[1]:
            self.ev("r", True, p, w // 8, r[0])
        else:
            self.ev("u", True, p, w // 8, r[0], n)
        return r

    def freed(self, p):
        if isc(p) and p and self.shared(p):
            self.ev("w", False, p, len(self.objs[p >> 32].data))

    def futex(self, uaddr, op, *a):
        if isc(op) and op & 0x7F in (1, 10):    # wake
            return 0
        raise Blocked()

    # ---------------------------------------------------------------- states
    def save(self):
        return [None if o is None else (bytes(o.data), dict(o.sym), None if o.init is None else bytes(o.init), o.freed) for o in self.objs], len(self.objs), self.rand

    def restore(self, st):
        objs, n, self.rand = st
        for o, s in zip(self.objs, objs):
            if s is not None:
                o.data[:] = s[0]
                o.sym = dict(s[1])
                o.init = None if s[2] is None else bytearray(s[2])
                o.freed = s[3]
        for i in range(n, len(self.objs)):
            o = self.objs[i]
            if o.kind == "global":
                self.fresh_global(o)
            elif o.kind != "func":
                o.freed = True

    def fresh_global(self, o):
        kind, ty, v, tls = self.mod.global_init(o.name)
        o.data[:] = bytes(len(o.data))
        o.sym = {}
        if v is not None:
            self.init_global(o, 0, ty, v)

    def in_thread(self, t):
        """switch thread-local storage to thread t"""
        if t == self.thread:
            return
        self.stash[self.thread] = {i: (bytes(self.objs[i].data), dict(self.objs[i].sym)) for i in self.tls}
        new = self.stash.get(t, {})
        for i in self.tls:
            o = self.objs[i]
            if i in new:
                o.data[:] = new[i][0]
                o.sym = dict(new[i][1])
            else:
                self.fresh_global(o)
        self.thread = t

    def part(self, fn, t):
        """runs one thread to its end, recording its accesses"""
        self.in_thread(t)
        self.rec, self.seen = [], set()
        self.call("@" + fn, ())
        r, self.rec = self.rec, None
        return r

    # ---------------------------------------------------------------- the harness
    def body(self, name):
        base = "thr_" + name.split("_", 1)[1]
        self.stash = {}
        self.in_thread(0)
        self.call("@" + base + "_s", ())
        self.flush()
        s0 = self.save()
        stash0 = dict(self.stash)

        def back():
            self.restore(s0)
            self.stash = dict(stash0)
            self.thread = 0
        a0 = self.part(base + "_a", 1)
        back()
        b0 = self.part(base + "_b", 2)
        back()
        self.races(a0, b0, s0, None)
        a1 = self.part(base + "_a", 1)
        b1 = self.part(base + "_b", 2)
        self.races(a1, b1, s0, "ab")
        back()
        b2 = self.part(base + "_b", 2)
        a2 = self.part(base + "_a", 1)
        self.races(b2, a2, s0, "ba")
        back()
        # outcome, one preemption at an arbitrary atomic access
        na, nb = (sum(e.at for e in x) for x in (a0, b0))
        k = self.fresh(64)
        self.h_assume(T.ult(k, na + nb + 2, 64))
        k = self.concretize(k, 64)
        first, other, k = ("_a", "_b", k) if k <= na else ("_b", "_a", k - na - 1)
        n = [0]

        def hook():
            if n[0] == k:
                self.hook = None
                t = self.thread
                self.in_thread(3 - t)
                self.call("@" + base + other, ())
                self.in_thread(t)
            n[0] += 1
        self.hook = hook
        try:
            self.in_thread(1 if first == "_a" else 2)
            self.call("@" + base + first, ())
            if self.hook is not None:    # at the end
                self.hook = None
                self.in_thread(1 if other == "_a" else 2)
                self.call("@" + base + other, ())
        except Blocked:
            self.emit(ev="infeasible")
            return
        self.in_thread(0)
        self.call("@" + base + "_f", ())
        self.finish("return")

    # ---------------------------------------------------------------- the query
    def races(self, A, B, s0, seq):
        """can an access of A and one of B race?  seq: B was recorded after A ended"""
        import time
        t0 = time.time()
        oa, ob = {e.o for e in A}, {e.o for e in B}
        both = oa & ob
        wr = {e.o for e in A + B if e.wr()}
        keep = both & wr
        A = [e for e in A if e.o in keep]
        B = [e for e in B if e.o in keep]
        n, m = len(A), len(B)
        pairs = [(i, j) for i in range(n) for j in range(m) if A[i].hits(B[j]) and (A[i].wr() or B[j].wr()) and not (A[i].at and B[j].at)]
        self.stat["checks"] += 1
        self.stat["events"] = self.stat.get("events", 0) + n + m
        if not n or not m:
            return
        S = z3.Solver()
        S.set("timeout", 120000)
        k = [z3.Int("k%d" % j) for j in range(m)]
        pa, pb = z3.Ints("pa pb")
        S.add(pa >= 0, pa < n, pb >= 0, pb < m)
        for j in range(m):
            S.add(k[j] >= 0, k[j] <= n)
            if j:
                S.add(k[j - 1] <= k[j])
            S.add(z3.Implies(j < pb, k[j] <= pa))
            S.add(z3.Implies(j >= pb, k[j] >= pa))
        S.add(z3.Or([z3.And(pa == i, pb == j) for i, j in pairs]) if pairs else z3.BoolVal(False))

        def init(e):
            o, i = self.objs[e.o], e.o
            if i >= s0[1]:
                return None
            d = s0[0][i]
            if any(x in d[1] for x in range(e.off, e.off + e.n)):
                return None
            return int.from_bytes(d[0][e.off:e.off + e.n], "little")

        def reads(X, i, Y, before, foreign, own):
            """conditions under which X[i] reads what it read; before(y, i): Y[y] comes before X[i]; foreign(y, w): Y[y] comes after X[w]"""
            e = X[i]
            ws = [y for y in range(len(Y)) if Y[y].wr() and Y[y].hits(e)]
            if not ws or e.add:
                return True
            mine = [x for x in range(i) if X[x].wr() and X[x].hits(e)]
            exact = e.at and isc(e.rv) and all(Y[y].same(e) and Y[y].at and isc(Y[y].wv) for y in ws) and all(X[x].same(e) and X[x].at and isc(X[x].wv) for x in mine)
            if not exact:
                return z3.And([before(y, i) if own == "second" else z3.Not(before(y, i)) for y in ws])
            alts = []
            v0 = X[mine[-1]].wv if mine else init(e)
            if v0 == e.rv or (v0 is None and seq is None):
                alts.append(z3.And([z3.Or(z3.Not(before(y, i)), z3.Not(foreign(y, mine[-1])) if mine else False) for y in ws]))
            for p, y in enumerate(ws):
                if Y[y].wv == e.rv:
                    c = [before(y, i)] + [z3.Not(before(q, i)) for q in ws[p + 1:p + 2]]
                    if mine:
                        c.append(foreign(y, mine[-1]))
                    alts.append(z3.And(c))
            return z3.Or(alts) if alts else z3.BoolVal(False)
        for j in range(m):
            if B[j].k != "w":
                c = reads(B, j, A, lambda y, i: k[i] > y, lambda y, w: k[w] <= y, "second" if seq else "")
                if c is not True:
                    S.add(z3.Implies(j < pb, c))
        for i in range(n):
            if A[i].k != "w":
                c = reads(A, i, B, lambda y, x: z3.And(y < pb, k[y] <= x), lambda y, w: k[y] > w, "")
                if c is not True:
                    S.add(z3.Implies(i < pa, c))
        r = S.check()
        dt = time.time() - t0
        self.stat["queries"] += 1
        self.stat["solver_s"] += dt
        self.stat["obligations"] += 1
        if r == z3.unsat:
            return
        if r != z3.sat:
            self.emit(ev="unknown", what=["race query"], reason=S.reason_unknown())
            return
        mo = S.model()
        i, j = mo[pa].as_long(), mo[pb].as_long()
        sched = []
        x = 0
        for y in range(j):
            ky = mo.eval(k[y], model_completion=True).as_long()
            sched += ["1: " + e.show(self) for e in A[x:ky] if e.at]
            x = max(x, ky)
            if B[y].at:
                sched.append("2: " + B[y].show(self))
        sched += ["1: " + e.show(self) for e in A[x:i] if e.at]
        self.emit(ev="violation", what=["data race: %s | %s" % (A[i].show(self), B[j].show(self))], trace=[], stack=sched[-12:])
        raise PathEnd()
