"""Symbolic execution of one harness function of the LLVM module.

Forking: one OS process per explored path suffix.  Results are appended, one
JSON line per event, to a log file shared by all processes of a run."""

import json
import math
import os
import re
import struct
import sys
import time

sys.setrecursionlimit(100000)

import terms as T
from terms import isc
import llir
from llir import *
import codegen
import enc
import ff
import uf

class PathEnd(Exception):
    pass


class MergeAbort(Exception):
    pass


class ArmDead(Exception):
    """the current merge arm reached a point that is an obligation to be infeasible"""


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("data", "sym", "init", "freed", "name", "ro", "kind")

    def __init__(self, size, name, kind, init=None):
        self.data = bytearray(size)
        self.sym = {}
        self.init = init
        self.freed = False
        self.name = name
        self.kind = kind
        self.ro = False


def M(w):
    return (1 << w) - 1


class Engine:
    def __init__(self, mod, log, opts=None):
        self.mod = mod
        self.log = log
        self.o = dict(enc=["int", "bv"], rlimit=3000000, timeout=120, merge_blocks=4000, maxsel=130, sched=None, max_paths=200000)
        self.o.update(opts or {})
        self.objs = [None]
        self.gaddr = {}
        self.faddr = {}
        self.tls = []
        self.compiled = {}
        self.ns = self.mkns()
        self.journal = None
        self.guards = []
        self.depth = 0
        self.pc = []
        self.pcset = set()
        self.model = {}
        self.pending = []
        self.nsym = 0
        self.symnames = []
        self.outs = []
        self.blocks_budget = None
        T.NORM = uf.difference if self.o.get("xornorm") else None
        self.nomerge = set()
        self.mstack = []
        self.fnstack = []
        self.used_fns = {}
        self.children = []
        self.token = False
        self.nundef = 0
        self.stat = dict(instrs=0, queries=0, solver_s=0.0, checks=0, trivial=0, merges=0, forks=0, obligations=0)
        self.panic_ok = False
        self.expect_cover = []
        self.ffq = []
        self.rand = 0x9E3779B97F4A7C15
        self.ended = None

    # ------------------------------------------------------------ logging
    def emit(self, **kw):
        os.write(self.log, (json.dumps(kw) + "\n").encode())

    def unsupported(self, what):
        raise Unsupported(what + " in " + (self.fnstack[-1].name if self.fnstack else "?"))

    # ------------------------------------------------------------ namespace of generated code
    def mkns(self):
        ns = {"NAN": math.nan, "INF": math.inf}
        for n in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "xor", "eq", "ne", "ult", "ule", "slt", "sle", "zext", "sext", "trunc"):
            ns["T_" + n] = getattr(T, n)
        ns["T_and"], ns["T_or"], ns["T_not"] = T.and_, T.or_, T.not_
        ns["T_fneg"], ns["T_fcmp"] = T.f_neg, T.f_cmp
        ns["vbin"], ns["vicmp"], ns["fbin"], ns["insval"] = vbin, vicmp, fbin, insval
        return ns

    # ------------------------------------------------------------ constants and globals
    def const(self, v, ty):
        k = v[0]
        if k == "c":
            return v[1]
        if k == "g":
            return self.global_addr(v[1]) + v[2]
        if k in ("undef", "zero"):
            return zero(ty)
        if k == "agg":
            return tuple(self.const(x, t) for t, x in v[2])
        if k == "bytes":
            return tuple(v[1])
        if k == "cexpr":
            _, op, vt, x, dt = v
            c = self.const(x, vt)
            if op in ("trunc", "ptrtoint", "zext", "inttoptr"):
                return c & M(bits_of(dt))
            if op == "bitcast" and dt[0] == "ptr":
                return c
        if k == "cbin":
            _, op, at, a, b = v
            x, y = self.const(a, at), self.const(b, at)
            w = bits_of(at)
            return {"sub": x - y, "add": x + y, "mul": x * y, "xor": x ^ y, "and": x & y}[op] & M(w)
        raise Unsupported("constant %r" % (v,))

    def new(self, size, name, kind, init=None):
        self.objs.append(Obj(size, name, kind, init))
        return (len(self.objs) - 1) << 32

    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.functions or name in self.mod.declares:
            a = self.new(0, name, "func")
            self.gaddr[name] = a
            self.faddr[a] = name
            return a
        kind, ty, v, tls = self.mod.global_init(name)
        if tls:
            self.tls.append(len(self.objs))
        if kind == "alias":
            a = self.const(v, ty)
            self.gaddr[name] = a
            return a
        a = self.new(size_of(ty), name, "global")
        self.gaddr[name] = a
        o = self.objs[a >> 32]
        if v is not None:
            self.init_global(o, 0, ty, v)
        o.ro = kind == "constant"
        return a

    def init_global(self, o, off, ty, v):
        k = v[0]
        if k in ("zero", "undef"):
            return
        if k == "bytes":
            o.data[off:off + len(v[1])] = v[1]
            return
        if k == "agg":
            for i, (t, x) in enumerate(v[2]):
                self.init_global(o, off + field_off(ty, i), t, x)
            return
        c = self.const(v, ty)
        if isinstance(c, float):
            o.data[off:off + 8] = struct.pack("<d", c)
        else:
            n = store_size(ty)
            o.data[off:off + n] = (c & M(8 * n)).to_bytes(n, "little")

    # ------------------------------------------------------------ memory
    def obj(self, a, n, wr=False):
        o = a >> 32
        off = a & 0xFFFFFFFF
        if o == 0 or o >= len(self.objs):
            return self.bad("access to invalid address %#x" % a)
        o = self.objs[o]
        if off + n > len(o.data):
            return self.bad("out of bounds access of %d bytes at offset %d of %s (size %d)" % (n, off, o.name, len(o.data)))
        if o.freed:
            return self.bad("use of freed memory " + o.name)
        if wr and o.ro:
            return self.bad("write to constant " + o.name)
        return o

    def bad(self, what):
        """a fault at this program point: the current path (arm) must be infeasible"""
        self.fault(what)
        raise PathEnd()

    def load(self, a, n, w):
        if a.__class__ is not int:
            return self.symload(a, n, w)
        o = self.obj(a, n)
        off = a & 0xFFFFFFFF
        s = o.sym
        if s:
            e = s.get(off)
            if e is not None:
                t, k, tn = e
                if k == 0 and tn == n and (n == 1 or self.whole(s, off, t, n)):
                    if t.w == T.FLOAT:
                        return T.raw("fbitsof", 64, (t,), 0, M(64))
                    return t if t.w == w else T.trunc(t, t.w, w)
                return self.gather(o, off, n, w)
            for i in range(1, n):
                if off + i in s:
                    return self.gather(o, off, n, w)
        if o.init is not None:
            i = o.init
            for k in range(off, off + n):
                if not i[k]:
                    return self.gather(o, off, n, w)
        v = int.from_bytes(o.data[off:off + n], "little")
        return v if w == n * 8 else v & M(w)

    def whole(self, s, off, t, n):
        for i in range(1, n):
            e = s.get(off + i)
            if e is None or e[0] is not t or e[1] != i:
                return False
        return True

    def gather(self, o, off, n, w):
        v, vw = None, 0
        i = n - 1
        parts = []
        while i >= 0:
            p = off + i
            e = o.sym.get(p)
            if e is not None:
                t, k, tn = e
                if t.w == T.FLOAT:
                    t = T.raw("fbitsof", 64, (t,), 0, M(64))
                # longest run downwards
                j = 0
                while i - j - 1 >= 0 and k - j - 1 >= 0:
                    e2 = o.sym.get(p - j - 1)
                    if e2 is None or e2[0] is not e[0] or e2[1] != k - j - 1:
                        break
                    j += 1
                parts.append((T.slice_(t, t.w, 8 * (k - j), 8 * (j + 1)) if not (t.w == 8 * (j + 1)) else t, 8 * (j + 1)))
                i -= j + 1
            elif o.init is not None and not o.init[p]:
                self.nundef += 1
                parts.append((self.undef_byte(o, p), 8))
                i -= 1
            else:
                j = 0
                while i - j - 1 >= 0 and (p - j - 1) not in o.sym and (o.init is None or o.init[p - j - 1]):
                    j += 1
                parts.append((int.from_bytes(o.data[p - j:p + 1], "little"), 8 * (j + 1)))
                i -= j + 1
        for (t, tw) in parts:
            if v is None:
                v, vw = t, tw
            else:
                v = T.concat(v, vw, t, tw)
                vw += tw
        return v if w == vw else T.trunc(v, vw, w)

    def undef_byte(self, o, p):
        t = T.var("undef!%d" % self.nundef, 8)
        if self.journal is None:
            o.sym[p] = (t, 0, 1)
            o.init[p] = 1
        return t

    def store(self, a, v, n, w):
        if a.__class__ is not int:
            return self.symstore(a, v, n, w)
        o = self.obj(a, n, True)
        off = a & 0xFFFFFFFF
        if self.journal is not None:
            self.jsave(o, off, n)
        if o.init is not None:
            o.init[off:off + n] = b"\1" * n
        s = o.sym
        if v.__class__ is int:
            o.data[off:off + n] = v.to_bytes(n, "little")
            if s:
                for i in range(off, off + n):
                    if i in s:
                        del s[i]
        elif isinstance(v, float):
            o.data[off:off + n] = struct.pack("<d" if n == 8 else "<f", v)
            if s:
                for i in range(off, off + n):
                    s.pop(i, None)
        else:
            if v.w != T.FLOAT and v.w != 8 * n:
                v = T.zext(v, v.w, 8 * n)
            for i in range(n):
                s[off + i] = (v, i, n)

    def jsave(self, o, off, n):
        self.journal.append((o, off, n, bytes(o.data[off:off + n]), [o.sym.get(i) for i in range(off, off + n)] if o.sym else None,
                             bytes(o.init[off:off + n]) if o.init is not None else None))

    def rollback(self, j, upto=0):
        while len(j) > upto:
            o, off, n, d, s, ini = j.pop()
            o.data[off:off + n] = d
            if ini is not None:
                o.init[off:off + n] = ini
            for i in range(n):
                e = s[i] if s is not None else None
                if e is None:
                    o.sym.pop(off + i, None)
                else:
                    o.sym[off + i] = e

    def candidates(self, a):
        """[(cond, concrete address)] covering every value of the symbolic address a"""
        leaves = []

        def walk(t, cond, off):
            if isc(t):
                leaves.append((cond, (t + off) & M(64)))
                return
            if t.op == "ite":
                c = t.a[0]
                walk(t.a[1], T.and_(cond, c, 1), off)
                walk(t.a[2], T.and_(cond, T.not_(c), 1), off)
                return
            if t.op == "add" and isc(t.a[1]):
                return walk(t.a[0], cond, off + t.a[1])
            if t.op == "add" and not isc(t.a[0]) and t.a[0].op == "ite" and iteconst(t.a[0]):
                base = t.a[0]
                for c, v in iteleaves(base, 1):
                    walk(T.add(v, t.a[1], 64), T.and_(cond, c, 1), off)
                return
            # index term
            z = T.low_zero_bits(t)
            step = 1 << min(z, 12)
            tlo = -(-t.lo // step) * step  # t is a multiple of step
            lo, hi = tlo + off, t.hi + off
            if (off & M(64)) >> 63:
                lo, hi = tlo - ((1 << 64) - off % (1 << 64)), t.hi - ((1 << 64) - off % (1 << 64))
            if lo < 0 or (lo >> 32) == 0 or (lo >> 32) >= len(self.objs):
                raise Cand(t)
            ob = self.objs[lo >> 32]
            top = ((lo >> 32) << 32) + len(ob.data)
            first = lo
            n = 0
            x = first
            vals = []
            while x <= hi and x < top:
                vals.append(x)
                x += step
                n += 1
                if n > self.o["maxsel"]:
                    raise Cand(t)
            if x <= hi:
                # values beyond the object: must be infeasible
                self.obligation(T.and_(cond, T.ule((x - off) & M(64), t, 64), 1), "symbolic index out of bounds of " + ob.name)
            for v in vals:
                leaves.append((T.and_(cond, T.eq(t, (v - off) & M(64), 64), 1), v))

        walk(a, 1, 0)
        return [(c, v) for c, v in leaves if not (isc(c) and c == 0)]

    def cands(self, a):
        if self.o.get("concargs") and self.journal is None and not self.guards:
            return [(1, self.concretize(a, 64))]
        try:
            return self.candidates(a)
        except Cand:
            return [(1, self.concretize(a, 64))]

    def symload(self, a, n, w):
        cs = self.cands(a)
        if not cs:
            self.fault("access through an address that can hold no valid value")
        r = None
        for c, v in reversed(cs):
            x = self.load(v, n, w)
            r = x if r is None else T.ite(c, x, r, w)
        return r

    def symstore(self, a, v, n, w):
        cs = self.cands(a)
        for c, ad in cs:
            if isc(c):
                self.store(ad, v, n, w)
            else:
                old = self.load(ad, n, w)
                if isinstance(v, float) or (not isc(v) and v.w == T.FLOAT):
                    self.unsupported("symbolic store of double")
                self.store(ad, T.ite(c, v, old, w), n, w)

    def loadty(self, a, ty):
        k = ty[0]
        if k in ("i", "ptr"):
            w = bits_of(ty)
            return self.load(a, (w + 7) // 8, w)
        if k == "f":
            if ty[1] == 64:
                if isc(a):
                    o = self.obj(a, 8)
                    e = o.sym.get(a & 0xFFFFFFFF)
                    if e is not None and e[0].w == T.FLOAT and e[1] == 0:
                        return e[0]
                x = self.load(a, 8, 64)
                return i2f(x)
            x = self.load(a, 4, 32)
            if isc(x):
                return struct.unpack("<f", struct.pack("<I", x))[0]
            self.unsupported("symbolic f32")
        if k == "vec" and ty[2] == ("i", 1):
            w = (ty[1] + 7) // 8 * 8
            return int_to_vec(self.load(a, w // 8, w), ty[1], 1)
        n = ty[1] if k in ("arr", "vec") else len(ty[2])
        return tuple(self.loadty(T.add(a, field_off(ty, i), 64), elem_ty(ty, i)) for i in range(n))

    def storety(self, a, v, ty):
        k = ty[0]
        if k in ("i", "ptr"):
            w = bits_of(ty)
            return self.store(a, v, (w + 7) // 8, w)
        if k == "f":
            return self.store(a, v, ty[1] // 8, ty[1])
        if k == "vec" and ty[2] == ("i", 1):
            w = (ty[1] + 7) // 8 * 8
            return self.store(a, vec_to_int(tuple(v) + (0,) * (w - ty[1]), 1), w // 8, w)
        n = ty[1] if k in ("arr", "vec") else len(ty[2])
        for i in range(n):
            self.storety(T.add(a, field_off(ty, i), 64), v[i], elem_ty(ty, i))

    def alloca(self, size):
        return self.new(size, "stack:" + (self.fnstack[-1].name if self.fnstack else ""), "stack", bytearray(size))

    def memcpy(self, d, s, n):
        n = self.conc(n, 64)
        if n == 0:
            return
        d, s = self.concaddr(d), self.concaddr(s)
        so, do = self.obj(s, n), self.obj(d, n, True)
        soff, doff = s & 0xFFFFFFFF, d & 0xFFFFFFFF
        if self.journal is not None:
            self.jsave(do, doff, n)
        data = bytes(so.data[soff:soff + n])
        ss = so.sym
        if ss:
            if len(ss) < n:
                sy = [(k - soff, e) for k, e in ss.items() if soff <= k < soff + n]
            else:
                sy = [(i, ss[soff + i]) for i in range(n) if soff + i in ss]
        else:
            sy = ()
        ini = bytes(so.init[soff:soff + n]) if so.init is not None else None
        do.data[doff:doff + n] = data
        ds = do.sym
        if ds:
            if len(ds) < n:
                for k in [k for k in ds if doff <= k < doff + n]:
                    del ds[k]
            else:
                for k in range(doff, doff + n):
                    ds.pop(k, None)
        for i, e in sy:
            ds[doff + i] = e
        if ini is not None and 0 in ini:
            if do.init is None:
                do.init = bytearray(b"\1" * len(do.data))
            do.init[doff:doff + n] = ini
        elif do.init is not None:
            do.init[doff:doff + n] = b"\1" * n

    def memset(self, d, v, n):
        n = self.conc(n, 64)
        if n == 0:
            return
        d = self.concaddr(d)
        do = self.obj(d, n, True)
        doff = d & 0xFFFFFFFF
        if self.journal is not None:
            self.jsave(do, doff, n)
        for k in [k for k in do.sym if doff <= k < doff + n]:
            del do.sym[k]
        if isc(v):
            do.data[doff:doff + n] = bytes([v]) * n
        else:
            for i in range(n):
                do.sym[doff + i] = (v, 0, 1)
        if do.init is not None:
            do.init[doff:doff + n] = b"\1" * n

    def memcmp(self, a, b, n, bcmp):
        n = self.conc(n, 64)
        a, b = self.concaddr(a), self.concaddr(b)
        if n == 0:
            return 0
        self.obj(a, n)
        self.obj(b, n)
        xs = [(self.load(a + i, 1, 8), self.load(b + i, 1, 8)) for i in range(n)]
        if all(isc(x) and isc(y) for x, y in xs):
            x, y = bytes(p[0] for p in xs), bytes(p[1] for p in xs)
            return 0 if x == y else (1 if x > y else M(32))
        if bcmp:
            r = 1
            i = 0
            while i < n:
                k = 8 if i + 8 <= n else (4 if i + 4 <= n else 1)
                r = T.and_(r, T.eq(self.load(a + i, k, 8 * k), self.load(b + i, k, 8 * k), 8 * k), 1)
                i += k
            return T.zext(T.not_(r), 1, 32)
        r = 0
        for x, y in reversed(xs):
            r = T.ite(T.eq(x, y, 8), r, T.ite(T.ult(x, y, 8), M(32), 1, 32), 32)
        return r

    def concaddr(self, a):
        return a if isc(a) else self.concretize(a, 64)

    def conc(self, n, w):
        return n if isc(n) else self.concretize(n, w)

    def concretize(self, t, w):
        """fork over the feasible values of t"""
        if isc(t):
            return t
        for v, val in self.known_vals():
            if v is t:
                return val
        if self.journal is not None or self.guards:
            raise MergeAbort()
        self.flush()
        n = 0
        while True:
            m = self.get_model([])
            if m is None:
                raise PathEnd()
            val = self.eval(t, m)
            c = T.eq(t, val, w)
            n += 1
            if n > 5000:
                self.unsupported("concretisation of a value with more than 5000 values")
            other = self.feasible(T.not_(c))
            if not other:
                self.add_pc(c, refine=True)
                self.pcvals.append((t, val))
                return val
            self.stat["forks"] += 1
            if self.do_fork():  # child takes this value
                self.add_pc(c, refine=True)
                self.pcvals.append((t, val))
                return val
            self.add_pc(T.not_(c), refine=True)

    pcvals = []

    def known_vals(self):
        return self.pcvals

    def gep(self, base, idx, w, sz):
        if isc(idx):
            i = T.tosigned(idx, w)
            return T.add(base, (i * sz) & M(64), 64)
        i = T.sext(idx, w, 64)
        return T.add(base, T.mul(i, sz, 64), 64)

    # ------------------------------------------------------------ solver interface
    def eval(self, t, m):
        return T.evaluate(t, m, self.uf_eval)

    def uf_eval(self, name, args, w):
        return uf.evaluate(name, args, w)

    def query(self, asserts, purpose, goal=None, **kw):
        """returns ('unsat', None) | ('sat', model) | ('unknown', reason)"""
        t0 = time.time()
        if goal is not None and self.cuts:
            g = T.subst(goal, self.cuts, self.cutcache)
            if g is not None and g is not goal:
                pc = [T.subst(c, self.cuts, self.cutcache) for c in asserts if not isc(c)]
                pc = self.cone([c for c in pc if c is not None], g)
                r = enc.solve(pc + [g], self.o, self.eval, quick=True)
                if r[0] == "unsat":
                    self.stat["queries"] += 1
                    self.stat["solver_s"] += time.time() - t0
                    return "unsat", None
        if goal is not None:
            # only the part of the path condition that shares variables with the goal matters
            # (the path condition itself is satisfiable or the path ends as infeasible)
            cone = self.cone(asserts, goal)
            if len(cone) < len(asserts):
                r = enc.solve(cone + [goal], self.o, self.eval, **kw)
                if r[0] == "sat":
                    m = self.complete(r[1], asserts, goal)
                    r = ("sat", m, r[2]) if m is not None else enc.solve(asserts + [goal], self.o, self.eval, **kw)
            else:
                r = enc.solve(asserts + [goal], self.o, self.eval, **kw)
        else:
            r = enc.solve(asserts, self.o, self.eval, **kw)
        dt = time.time() - t0
        self.stat["queries"] += 1
        self.stat["solver_s"] += dt
        if self.o.get("trace"):
            print("[%d] query %s -> %s %.2fs %s (pc %d)" % (os.getpid(), purpose, r[0], dt, r[2] if len(r) > 2 else "", len(self.pc)), file=sys.stderr)
        return r[0], r[1]

    def vars_of(self, t):
        c = self.varcache.get(t.id)
        if c is None:
            c = set()
            for x in enc.postorder([t]):
                if x.op == "var":
                    c.add(x.extra)
            self.varcache[t.id] = c
        return c

    def cone(self, pc, goal):
        if isc(goal):
            return pc
        seen = set(self.vars_of(goal))
        rest = [(c, self.vars_of(c)) for c in pc if not isc(c)]
        out = set()
        while True:
            nxt = []
            grew = False
            for c, v in rest:
                if v & seen or not v:
                    seen |= v
                    out.add(c)
                    grew = True
                else:
                    nxt.append((c, v))
            rest = nxt
            if not grew:
                break
        return [c for c in pc if c in out]

    def complete(self, m, pc, goal):
        base = self.model
        if base is None:
            r, base = self.query(pc, "completion", pf=False)
            if r != "sat":
                return None
        x = dict(base)
        x.update(m)
        try:
            return x if all(self.eval(c, x) for c in pc) and self.eval(goal, x) else None
        except NotImplementedError:
            return None

    varcache = {}
    cuts = {}
    cutcache = {}

    def get_model(self, extra):
        cs = [c for c in extra if not isc(c)]
        if any(isc(c) and not c for c in extra):
            return None
        if self.model is not None:
            if all(self.eval(c, self.model) for c in cs):
                return self.model
        if self.o.get("unkfeas"):
            m = self.sample(self.pc + cs)
            if m is not None:
                self.model = m
                return m
            r, m = self.query(self.pc + cs, "feasible", quick=True, pf=False)
            if r == "unknown":
                return {}  # explored without knowing whether it is feasible
        elif len(cs) == 1 and self.model is not None:
            r, m = self.query(self.pc, "feasible", goal=cs[0])
        else:
            r, m = self.query(self.pc + cs, "feasible")
        if r == "sat":
            self.model = m
            return m
        if r == "unsat":
            return None
        raise Unsupported("solver gave no answer on a feasibility query: %s" % m)

    def sample(self, cs, n=150):
        """a cheap search for a model: random inputs (only ever used to show that a path exists)"""
        import random
        if not hasattr(self, "rng"):
            self.rng = random.Random(len(self.pc) + 7)
        base = self.model or {}
        for i in range(n):
            m = dict(base) if i % 2 else {}
            for k, w in self.symnames:
                if k not in m or self.rng.random() < 0.5:
                    t = T.var(k, w)
                    m[k] = self.rng.randint(t.lo, t.hi)
            try:
                if all(self.eval(c, m) for c in cs):
                    return m
            except NotImplementedError:
                return None
        return None

    def feasible(self, c):
        if isc(c):
            return bool(c)
        if c in self.pcset:
            return True
        if T.not_(c) in self.pcset:
            return False
        m = self.get_model([c])
        if m is None:
            return False
        return True

    def add_pc(self, c, refine=False):
        if isc(c):
            if not c:
                raise PathEnd()
            return
        todo = [c]
        while todo:
            c = todo.pop()
            if isc(c):
                if not c:
                    raise PathEnd()
                continue
            if c.op == "and":
                todo += [c.a[0], c.a[1]]
                continue
            if c.op == "not" and not isc(c.a[0]) and c.a[0].op == "or":
                todo += [T.not_(c.a[0].a[0]), T.not_(c.a[0].a[1])]
                continue
            if c in self.pcset:
                continue
            self.pc.append(c)
            self.pcset.add(c)
            if refine:
                self.refine(c)
            if self.model is not None and not self.eval(c, self.model):
                self.model = None

    def refine(self, c):
        neg = False
        if c.op == "not":
            c, neg = c.a[0], True
        if isc(c):
            return
        if c.op == "eq":
            a, b = c.a
            if isc(b) and not isc(a):
                if not neg:
                    narrow(a, b, b)
                elif b == a.lo:
                    narrow(a, b + 1, a.hi)
                elif b == a.hi:
                    narrow(a, a.lo, b - 1)
        elif c.op in ("ult", "ule"):
            a, b = c.a
            if neg:  # a >= b / a > b
                if not isc(a):
                    narrow(a, T.lo(b) + (c.op == "ule"), a.hi)
                if not isc(b):
                    narrow(b, b.lo, T.hi(a) - (c.op == "ule"))
            else:
                d = c.op == "ult"
                if not isc(a):
                    narrow(a, a.lo, T.hi(b) - d)
                if not isc(b):
                    narrow(b, T.lo(a) + d, b.hi)

    # ------------------------------------------------------------ obligations
    def under_guards(self, c):
        for g in self.guards:
            c = T.and_(g, c, 1)
        return c

    def obligation(self, bad, what):
        """'bad' must be unsatisfiable under the path condition"""
        bad = self.under_guards(bad)
        if isc(bad) and not bad:
            self.stat["trivial"] += 1
            return
        self.stat["obligations"] += 1
        self.pending.append((bad, what, tuple(f.name for f in self.fnstack[-3:])))
        if len(self.pending) >= self.o.get("batch", 64) and not self.guards:
            self.flush()

    def fault(self, what):
        self.obligation(1, what)
        if self.guards:
            raise ArmDead()
        self.flush()
        raise PathEnd()

    def unreachable(self):
        self.do_panic("unreachable code")

    def do_panic(self, what):
        if self.panic_ok:
            if self.guards:
                raise MergeAbort()
            self.flush()
            self.finish("panic")
            raise PathEnd()
        self.fault("panic: " + what)

    def flush(self):
        if self.ffq:
            ff.confirm(self)
        if not self.pending:
            return
        p = self.pending
        self.pending = []
        bads = [b for b, _, _ in p]
        # try the cached model first
        r, m = None, None
        if any(isc(b) and b for b in bads):
            mm = self.get_model([])
            if mm is None:
                return  # infeasible path
            if not mm and self.o.get("unkfeas"):
                mm = None
            r, m = ("sat", mm) if mm is not None else ("unknown", "path feasibility unknown")
        else:
            if self.model is not None:
                for b in bads:
                    if self.eval(b, self.model):
                        r, m = "sat", self.model
                        break
            if r is None:
                for b in bads:
                    if has_ffp(b):
                        m = self.sample(self.pc + [b])
                        if m is not None:
                            r = "sat"
                            break
            if r is None:
                r, m = self.solve_bads(bads)
        if r == "unsat":
            return
        if r == "sat":
            what = [w for b, w, _ in p if self.eval(b, m)]
            st = [s for b, w, s in p if self.eval(b, m)]
            self.emit(ev="violation", what=what[:5], stack=st[0] if st else (), model=self.pack_model(m), trace=self.trace_of(m))
            self.stat["violations"] = self.stat.get("violations", 0) + 1
            if not self.o.get("keep_going"):
                raise PathEnd()
            return
        self.emit(ev="unknown", what=[w for _, w, _ in p][:5], reason=str(m))

    def solve_bads(self, bads):
        n = len(bads)
        if n > 1:
            x = 0
            for b in bads:
                x = T.or_(x, b, 1)
            r, m = self.query(self.pc, "obligations(%d)" % n, goal=x, quick=True)
            if r != "unknown":
                return r, m
        hard = []
        for b in bads:
            r, m = self.query(self.pc, "obligation", goal=b, pf=False)
            if r == "sat":
                return r, m
            if r != "unsat":
                hard.append(b)
        last = None
        for b in hard:
            m = self.guided(b)
            if m is not None:
                return "sat", m
        for b in hard:
            r, m = self.query(self.pc, "hard obligation", goal=b)
            if r == "sat":
                return r, m
            if r != "unsat":
                last = (r, m)
                break
        return last or ("unsat", None)

    def guided(self, bad):
        """search for a violation with some of the inputs pinned to solver-checked values (helps only
        to find counterexamples; a failure to find one proves nothing)"""
        import random
        vs = [(n, w) for n, w in self.symnames]
        if not vs:
            return None
        rnd = random.Random(self.o.get("seed", 1) * 7919 + self.nsym)
        base = None
        for it in range(self.o.get("guided", 6)):
            asserts = self.pc + [bad]
            frac = (0.5, 0.8, 0.95, 0.3, 0.9, 0.99)[it % 6]
            pins = []
            if base is None:
                r, base = self.query(self.pc, "guide", pf=False)
                if r != "sat":
                    return None
            for n, w in vs:
                if rnd.random() < frac:
                    t = T.var(n, w)
                    if isc(t) or t.lo == t.hi:
                        continue
                    c = rnd.choice([t.lo, t.hi, t.lo + 1, t.hi - 1, (t.lo + t.hi) // 2, rnd.randint(t.lo, t.hi), base.get(n, t.lo)])
                    c = min(max(c, t.lo), t.hi)
                    pins.append(T.eq(t, c, w))
            try:
                if all(self.eval(p, base) for p in pins) and self.eval(bad, base):
                    return base
            except NotImplementedError:
                return None
            r, m = self.query(asserts + pins, "guided", pf=False)
            if r == "sat":
                return m
        return None

    def pack_model(self, m):
        return {k: v for k, v in m.items()}

    def trace_of(self, m):
        return [[n, w, m.get(n, 0)] for n, w in self.symnames]

    # ------------------------------------------------------------ forking
    def do_fork(self):
        """True in the child"""
        sys.stdout.flush()
        tok = self.o["sched"].try_acquire() if self.o["sched"] else False
        pid = os.fork()
        if pid == 0:
            self.children = []
            self.token = tok
            self.pending = []
            self.is_child = True
            for k in ("instrs", "queries", "solver_s", "checks", "trivial", "merges", "forks", "obligations", "violations"):
                if k in self.stat:
                    self.stat[k] = 0
            self.used_fns = dict.fromkeys(self.used_fns, 0)
            return True
        if tok:
            self.children.append(pid)
        else:
            self.reap(pid)
        return False

    is_child = False

    def reap(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.emit(ev="error", what="worker process ended with status %d" % st)

    def wait_children(self):
        # while waiting, give our own token back
        if self.children and self.token:
            self.o["sched"].release()
            self.token = False
        for p in self.children:
            self.reap(p)
        self.children = []

    # ------------------------------------------------------------ branching
    def panicky(self, blk):
        return blk in self.cur.panicblk

    def symbr(self, R, blk, alts):
        C = self.cur
        # prune by path condition
        live = []
        for c, b, e in alts:
            if isc(c):
                if not c:
                    continue
            elif T.not_(c) in self.pcset or (self.guards and T.not_(c) in self.guardset()):
                continue
            elif c in self.pcset or (self.guards and c in self.guardset()):
                live = [(1, b, e)]
                break
            live.append((c, b, e))
        if len(live) == 1:
            _, b, e = live[0]
            e(R)
            return b
        # panic sides are obligations
        if not self.panic_ok:
            rest = []
            for c, b, e in live:
                if b in C.panicblk:
                    self.obligation(c, "panic: " + self.panic_name(C, b))
                else:
                    rest.append((c, b, e))
            if not rest:
                if self.guards:
                    raise ArmDead()
                self.flush()
                raise PathEnd()
            if len(rest) == 1:
                _, b, e = rest[0]
                e(R)
                return b
            live = rest
        key = (C.name, blk)
        if self.o.get("loopmerge") and key in self.mstack:
            # a loop is being unrolled inside a merge: drop arms that cannot happen
            gs = [g for g in self.guards if not isc(g)]
            live = [x for x in live if self.get_model(gs + [x[0]]) is not None]
            if not live:
                raise ArmDead()
            if len(live) == 1:
                live[0][2](R)
                return live[0][1]
        if not self.o.get("nomerge") and key not in self.nomerge and blk in C.ipdom and self.depth < 60:
            try:
                return self.merge(R, C, blk, live)
            except MergeAbort:
                self.nomerge.add(key)
                self.cur = C
        if self.guards or self.journal is not None:
            raise MergeAbort()
        # fork
        self.flush()
        n = len(live)
        for i, (c, b, e) in enumerate(live):
            if i == n - 1:
                self.add_pc(c, refine=True)
                if self.model is None and not self.feasible_now():
                    raise PathEnd()
                e(R)
                return b
            if not self.feasible(c):
                self.add_pc(T.not_(c), refine=True)
                continue
            # is anything else feasible?
            rest = 0
            for c2, _, _ in live[i + 1:]:
                rest = T.or_(rest, c2, 1)
            if not self.feasible(rest):
                self.add_pc(c, refine=True)
                e(R)
                return b
            self.stat["forks"] += 1
            if self.do_fork():
                self.add_pc(c, refine=True)
                e(R)
                return b
            self.add_pc(T.not_(c), refine=True)
        raise PathEnd()

    def feasible_now(self):
        m = self.get_model([])
        if m is None:
            return False
        self.model = m
        return True

    def guardset(self):
        return set(g for g in self.guards if not isc(g))

    def panic_name(self, C, b):
        m = re.search(r"E\.call\('(@[^']*)'", re.search(r"def b%d\(E,R\):\n((?: .*\n?)*)" % b, C.src).group(1))
        return (m.group(1) if m else "unreachable") + " in " + C.name

    def symswitch(self, R, blk, x, w, cases, default):
        byt = {}
        nd = 1
        alts = []
        for v, b, e in cases:
            c = T.eq(x, v, w)
            nd = T.and_(nd, T.not_(c), 1)
            if isc(c) and not c:
                continue
            k = (b, e)
            if k in byt:
                byt[k] = T.or_(byt[k], c, 1)
            else:
                byt[k] = c
        for (b, e), c in byt.items():
            alts.append((c, b, e))
        alts.append((nd, default[0], default[1]))
        return self.symbr(R, blk, alts)

    def merge(self, R, C, blk, alts):
        J = C.ipdom[blk]
        outer = self.journal
        ng = len(self.guards)
        pend0 = len(self.pending)
        nobj = len(self.objs)
        top = self.blocks_budget is None
        if top:
            self.blocks_budget = self.o["merge_blocks"]
        j = self.journal = []
        self.depth += 1
        self.mstack.append((C.name, blk))
        md = len(self.mstack)
        res = []
        fs = len(self.fnstack)
        try:
            for c, b, e in alts:
                Ri = R[:]
                self.guards.append(c)
                try:
                    e(Ri)
                    if b != J:
                        self.run(C, Ri, b, J)
                    res.append((c, Ri, self.snapshot(j), list(dict.fromkeys((x[0], x[1], x[2]) for x in j))))
                except ArmDead:
                    pass
                finally:
                    del self.guards[ng:]
                    del self.fnstack[fs:]
                    del self.mstack[md:]
                    self.cur = C
                self.rollback(j)
        except (MergeAbort, Cand, RecursionError, PathEnd):
            self.rollback(j)
            del self.pending[pend0:]
            self.journal = outer
            del self.guards[ng:]
            if top:
                self.blocks_budget = None
            self.depth -= 1
            del self.mstack[md - 1:]
            raise MergeAbort()
        self.journal = outer
        self.depth -= 1
        del self.mstack[md - 1:]
        if top:
            self.blocks_budget = None
        if not res:
            if self.guards:
                raise ArmDead()
            self.flush()
            raise PathEnd()
        self.stat["merges"] += 1
        # memory
        units = {}
        for c, Ri, snap, _ in res:
            for u in snap:
                if not (u[0].kind == "stack" and u[0].freed):    # a callee's frame, already released
                    units[u] = 1
        us = sorted(units, key=lambda u: (id(u[0]), u[1], u[2]))
        for p, q in zip(us, us[1:]):
            if p[0] is q[0] and p[1] + p[2] > q[1]:
                # overlapping units: split to bytes
                us = sorted({(o, k, 1) for o, off, n in us for k in range(off, off + n)}, key=lambda u: (id(u[0]), u[1]))
                nres = []
                for c, Ri, snap, _ in res:
                    ns = {}
                    for (o, off, n), v in snap.items():
                        for k in range(n):
                            ns[(o, off + k, 1)] = byte_of(v, n, k)
                    nres.append((c, Ri, ns, _))
                res = nres
                break
        for u in us:
            o, off, n = u
            val = None
            orig = None
            for c, Ri, snap, _ in reversed(res):
                v = snap.get(u)
                if v is None:
                    if orig is None:
                        orig = self.peek(o, off, n)
                    v = orig
                val = v if val is None else self.itev(c, v, val, 8 * n)
            self.poke(o, off, n, val)
        # registers
        if J == C.nblk:
            slots = [(0, C.retty)] if C.retty != VOID else []
        else:
            slots = list(zip(C.phis[J], C.phitys[J]))
        for s, ty in slots:
            v = None
            for c, Ri, _, _ in reversed(res):
                x = Ri[s]
                v = x if v is None else self.itety(c, x, v, ty)
            R[s] = v
        if J == C.nblk:
            return -1
        return J

    def itety(self, c, a, b, ty):
        if a is b or b is None:
            return a
        if a is None:
            return b
        if ty[0] in ("st", "arr", "vec"):
            return tuple(self.itety(c, x, y, elem_ty(ty, i)) for i, (x, y) in enumerate(zip(a, b)))
        return T.ite(c, a, b, T.FLOAT if ty[0] == "f" else bits_of(ty))

    def itev(self, c, a, b, w):
        if a is b:
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            return b if isinstance(a, Undef) else a
        fa, fb = not isc(a) and a.w == T.FLOAT, not isc(b) and b.w == T.FLOAT
        if fa or fb:
            return T.ite(c, a if fa else i2f(a), b if fb else i2f(b), T.FLOAT)
        return T.ite(c, a, b, w)

    def snapshot(self, j):
        us = dict.fromkeys((x[0], x[1], x[2]) for x in j)
        return {u: self.peek(*u) for u in us}

    def peek(self, o, off, n):
        if n <= 16 and not (o.init is not None and 0 in o.init[off:off + n]):
            e = o.sym.get(off)
            if e is not None and e[0].w == T.FLOAT and e[1] == 0 and n == 8:
                return e[0]
            if not o.sym:
                return int.from_bytes(o.data[off:off + n], "little")
            a = self.addr_of(o)
            return self.load(a + off, n, 8 * n)
        if o.init is not None and not any(o.init[off:off + n]):
            return UNDEF
        if n <= 16:
            raise MergeAbort()
        if o.init is not None and 0 in o.init[off:off + n]:
            raise MergeAbort()
        if any((off + i) in o.sym for i in range(n)):
            raise MergeAbort()
        return int.from_bytes(o.data[off:off + n], "little")

    def addr_of(self, o):
        for i in range(len(self.objs) - 1, 0, -1):
            if self.objs[i] is o:
                return i << 32

    def poke(self, o, off, n, v):
        if isinstance(v, Undef):
            return
        if not isc(v) and n > 16:
            raise Unsupported("wide merge")
        ro, o.ro = o.ro, False
        self.store(self.addr_of(o) + off, v, n, 8 * n)
        o.ro = ro

    # ------------------------------------------------------------ running
    def compile(self, name):
        c = self.compiled.get(name)
        if c is None:
            f = self.mod.functions.get(name)
            if f is None:
                raise Unsupported("external function " + name)
            c = self.compiled[name] = codegen.FnGen(self, f).gen()
            c.phitys = {k: v for k, v in c.phitys.items()}
        return c

    def run(self, C, R, blk, stop):
        code = C.code
        while blk != stop:
            if blk < 0:
                # function returned
                if stop == C.nblk:
                    return
                raise MergeAbort()
            if self.blocks_budget is not None:
                self.blocks_budget -= 1
                if self.blocks_budget < 0:
                    raise MergeAbort()
            self.stat["instrs"] += 1
            self.cur = C
            blk = code[blk](self, R)
        return

    cur = None

    def call(self, name, args):
        b = BUILTIN.get(name)
        if b is not None:
            return b(self, *args)
        f = self.resolve_special(name)
        if f is not None:
            return f(self, *args)
        if name not in self.mod.functions:
            g = self.mod.globals.get(name)
            if g and " alias " in " " + g:
                return self.callptr(self.global_addr(name), args)
            raise Unsupported("external function " + name)
        if is_panic_fn(name):
            return self.do_panic(name)
        if self.o.get("concargs") and self.journal is None and not self.guards:
            args = [a if isc(a) or not isinstance(a, T.T) or a.w != 64 or a.hi - a.lo > 65536 else self.concretize(a, 64) for a in args]
        C = self.compile(name)
        self.used_fns[name] = self.used_fns.get(name, 0) + 1
        R = [None] * C.nregs
        for s, a in zip(C.params, args):
            R[s] = a
        prev = self.cur
        self.fnstack.append(C)
        mark = len(self.objs)
        if len(self.fnstack) > 400:
            raise Unsupported("recursion depth")
        self.run(C, R, 0, -1)
        self.fnstack.pop()
        # release stack objects of this frame
        for o in self.objs[mark:]:
            if o is not None and o.kind == "stack":
                o.freed = True
        self.cur = prev
        return R[0]

    def callptr(self, a, args):
        if not isc(a):
            a = self.concretize(a, 64)
        n = self.faddr.get(a)
        if n is None:
            self.bad("call through invalid function pointer %#x" % a)
        return self.call(n, args)

    def resolve_special(self, name):
        for rx, f in SPECIAL:
            if rx.search(name):
                BUILTIN[name] = f
                return f
        return None

    def sel(self, c, a, b, ty):
        if ct_is_vec(c):
            return tuple(T.ite(ci, x, y, bits_of(ty[2])) for ci, x, y in zip(c, a, b))
        if isinstance(a, tuple):
            et = [elem_ty(ty, i) for i in range(len(a))]
            return tuple(self.sel(c, x, y, t) for x, y, t in zip(a, b, et))
        if ty[0] == "f":
            return T.ite(c, a, b, T.FLOAT)
        return T.ite(c, a, b, bits_of(ty))

    def nonzero(self, d, w):
        if isc(d):
            if d == 0:
                self.fault("division by zero")
            return
        c = T.eq(d, 0, w)
        if isc(c) and not c:
            return
        self.obligation(c, "division by zero")

    def cast(self, op, x, ty, dt):
        if op == "bitcast":
            if ty[0] == "f" and dt[0] == "i":
                if isinstance(x, float):
                    return struct.unpack("<Q", struct.pack("<d", x))[0] if ty[1] == 64 else struct.unpack("<I", struct.pack("<f", x))[0]
                return T.raw("fbitsof", 64, (x,), 0, M(64))
            if ty[0] == "i" and dt[0] == "f":
                return i2f(x)
            if ty[0] == "vec":
                if ty[2][0] == "f":     # elements of a bit-cast float vector stay bit patterns
                    x = tuple(self.cast(op, v, ty[2], ("i", bits_of(ty[2]))) if isinstance(v, float) or not isc(v) and v.w == T.FLOAT else v for v in x)
                return vec_to_int(x, bits_of(ty[2])) if dt[0] == "i" else int_to_vec(vec_to_int(x, bits_of(ty[2])), ty[1] * bits_of(ty[2]), bits_of(dt[2]))
            if dt[0] == "vec":
                return int_to_vec(x, ty[1], bits_of(dt[2]))
            return x
        if op in ("zext", "sext", "trunc"):
            f = getattr(T, op)
            return tuple(f(v, bits_of(ty[2]), bits_of(dt[2])) for v in x)
        if op == "uitofp":
            return T.f_from_uint(x, ty[1])
        if op == "sitofp":
            if isc(x):
                return float(T.tosigned(x, ty[1]))
            if x.hi < 1 << (ty[1] - 1):
                return T.f_from_uint(x, ty[1])
            # |x| with sign
            w = ty[1]
            neg = T.ule(1 << (w - 1), x, w)
            return T.ite(neg, T.f_neg(T.f_from_uint(T.sub(0, x, w), w)), T.f_from_uint(x, w), T.FLOAT)
        if op in ("fptoui", "fptosi"):
            return T.f_toint(x, dt[1], op == "fptosi", False)
        if op in ("fpext", "fptrunc"):
            if isinstance(x, float):
                return x if op == "fpext" else struct.unpack("<f", struct.pack("<f", x))[0]
        self.unsupported("cast " + op)

    def freed(self, p):
        pass

    def futex(self, *a):
        self.unsupported("futex call")

    def rmw(self, k, p, v, w):
        old = self.load(p, w // 8, w)
        if k == "xchg":
            n = v
        else:
            n = {"add": T.add, "sub": T.sub, "and": T.and_, "or": T.or_, "xor": T.xor}[k](old, v, w)
        self.store(p, n, w // 8, w)
        return old

    def aload(self, a, n, w):
        return self.load(a, n, w)

    def astore(self, a, v, n, w):
        return self.store(a, v, n, w)

    def cmpxchg(self, p, c, n, w):
        old = self.load(p, w // 8, w)
        e = T.eq(old, c, w)
        self.store(p, T.ite(e, n, old, w), w // 8, w)
        return (old, e)

    def asm(self, s, cons, args):
        import asmops
        return asmops.run(self, s, cons, args)

    def intrinsic(self, name, args, tys, rt):
        m = re.match(r"llvm\.([a-z0-9.]*?)(?:\.(?:p0|i\d+|f64|f32|v\d+[if]\d+))*$", name)
        op = m.group(1)
        if op in ("memcpy", "memmove", "memcpy.inline"):
            return self.memcpy(args[0], args[1], args[2])
        if op == "memset":
            return self.memset(args[0], args[1], args[2])
        if op == "trap":
            return self.do_panic("trap")
        if op == "threadlocal.address":
            return args[0]
        if op == "is.constant":
            return 0
        if op == "expect":
            return args[0]
        if op == "load.relative":
            a = self.conc(T.add(args[0], T.sext(args[1], bits_of(tys[1]), 64), 64), 64)
            # relative tables hold 32-bit differences of our own addresses; recompute exactly
            return self.load_relative(args[0], args[1])
        w = bits_of(rt) if rt[0] in ("i", "f") else None
        if op.startswith("x86.aesni."):
            return uf.intrinsic(self, op, args, tys, rt)
        if rt[0] == "vec":
            ew = rt[2]
            n = rt[1]
            return tuple(self.intrinsic(name, [a[i] if isinstance(a, tuple) else a for a in args], [t[2] if t[0] == "vec" else t for t in tys], ew) for i in range(n))
        a = args
        if op in ("uadd.with.overflow", "usub.with.overflow", "umul.with.overflow", "sadd.with.overflow", "ssub.with.overflow", "smul.with.overflow"):
            w = tys[0][1]
            return ovf(op[:4], a[0], a[1], w)
        if op == "umin":
            return T.ite(T.ult(a[1], a[0], w), a[1], a[0], w) if not (isc(a[0]) and isc(a[1])) else min(a[0], a[1])
        if op == "umax":
            return T.ite(T.ult(a[0], a[1], w), a[1], a[0], w) if not (isc(a[0]) and isc(a[1])) else max(a[0], a[1])
        if op == "smin":
            return T.ite(T.slt(a[1], a[0], w), a[1], a[0], w)
        if op == "smax":
            return T.ite(T.slt(a[0], a[1], w), a[1], a[0], w)
        if op == "usub.sat":
            return T.ite(T.ult(a[0], a[1], w), 0, T.sub(a[0], a[1], w), w)
        if op == "uadd.sat":
            s = T.add(a[0], a[1], w)
            return T.ite(T.ult(s, a[0], w), M(w), s, w)
        if op == "abs":
            return T.ite(T.slt(a[0], 0, w), T.sub(0, a[0], w), a[0], w)
        if op in ("fshl", "fshr"):
            sh = a[2]
            if isc(sh):
                sh %= w
                if op == "fshr":
                    sh = (w - sh) % w
                if sh == 0:
                    return a[0] if op == "fshl" else (a[1] if a[2] % w == 0 else a[0])
                return T.or_(T.shl(a[0], sh, w), T.lshr(a[1], w - sh, w), w)
            sh = T.urem(sh, w, w)
            if op == "fshl":
                return T.or_(T.shl(a[0], sh, w), T.ite(T.eq(sh, 0, w), 0, T.lshr(a[1], T.sub(w, sh, w), w), w), w)
            return T.or_(T.lshr(a[1], sh, w), T.ite(T.eq(sh, 0, w), 0, T.shl(a[0], T.sub(w, sh, w), w), w), w)
        if op == "ctpop":
            x = a[0]
            if isc(x):
                return bin(x).count("1")
            r = 0
            for i in range(w):
                r = T.add(r, T.zext(T.trunc(T.lshr(x, i, w), w, 1), 1, w), w)
            return r
        if op in ("ctlz", "cttz"):
            x = a[0]
            if isc(x):
                if x == 0:
                    return w
                return w - x.bit_length() if op == "ctlz" else (x & -x).bit_length() - 1
            r = w
            if op == "ctlz":
                top = x.hi.bit_length()
                for i in range(0, top):
                    r = T.ite(T.ule(1 << i, x, w), w - 1 - i, r, w)
            else:
                for i in range(x.hi.bit_length() - 1, -1, -1):
                    r = T.ite(T.trunc(T.lshr(x, i, w), w, 1), i, r, w)
            return r
        if op == "bswap":
            x = a[0]
            if isc(x):
                return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
            r, rw = T.slice_(x, w, 0, 8), 8
            for i in range(1, w // 8):
                r = T.concat(r, rw, T.slice_(x, w, 8 * i, 8), 8)
                rw += 8
            return r
        if op == "bitreverse":
            x = a[0]
            if isc(x):
                return int(bin(x)[2:].zfill(w)[::-1], 2)
            r = 0
            for i in range(min(w, x.hi.bit_length())):
                b = T.zext(T.trunc(T.lshr(x, i, w), w, 1), 1, w)
                r = T.or_(r, T.shl(b, w - 1 - i, w), w)
            return r
        if op in ("ucmp", "scmp"):
            lt = T.ult if op == "ucmp" else T.slt
            sw = tys[0][1]
            return T.ite(lt(a[0], a[1], sw), M(w), T.ite(T.eq(a[0], a[1], sw), 0, 1, w), w)
        if op in ("round", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven"):
            return T.f_round(a[0], op)
        if op == "fabs":
            return T.f_abs(a[0])
        if op == "is.fpclass" and isinstance(a[0], float):
            x = a[0]
            neg = math.copysign(1.0, x) < 0
            if x != x:
                c = 3
            elif math.isinf(x):
                c = 4 if neg else 512
            elif x == 0:
                c = 32 if neg else 64
            elif abs(x) < 2.0 ** -1022:
                c = 16 if neg else 128
            else:
                c = 8 if neg else 256
            return int(bool(a[1] & c))
        if op in ("fptoui.sat", "fptosi.sat"):
            return T.f_toint(a[0], w, op == "fptosi.sat", True)
        if op in ("sqrt", "exp", "log", "pow", "sin", "cos", "exp2", "log2", "copysign"):
            if all(isinstance(x, float) for x in a):
                return getattr(math, op)(*a)
        if op == "fmuladd" or op == "fma":
            if all(isinstance(x, float) for x in a):
                return a[0] * a[1] + a[2]
        if op in ("x86.addcarry.64", "x86.addcarry.32", "x86.subborrow.64", "x86.subborrow.32"):
            w = tys[1][1]
            c = T.ne(a[0], 0, 8)
            if "add" in op:
                s = T.add(T.add(T.zext(a[1], w, w + 1), T.zext(a[2], w, w + 1), w + 1), T.zext(c, 1, w + 1), w + 1)
                return (T.zext(T.eq(T.lshr(s, w, w + 1), 1, w + 1), 1, 8), T.trunc(s, w + 1, w))
            s = T.add(T.zext(a[2], w, w + 1), T.zext(c, 1, w + 1), w + 1)
            x = T.zext(a[1], w, w + 1)
            return (T.zext(T.ult(x, s, w + 1), 1, 8), T.trunc(T.sub(x, s, w + 1), w + 1, w))
        if op in ("ptrmask",):
            return T.and_(a[0], a[1], 64)
        self.unsupported("intrinsic " + name)

    def load_relative(self, base, off):
        # find the global and re-evaluate its initialiser
        off = self.conc(off, 64)
        for name, a in self.gaddr.items():
            if a == base:
                kind, ty, v, _ = self.mod.global_init(name)
                e = v[2][off // 4][1]  # cexpr trunc (sub (ptrtoint X) (ptrtoint self))
                assert e[0] == "cexpr" and e[3][0] == "cbin"
                x = e[3][3]
                return self.const(x, ("i", 64))
        self.unsupported("load.relative")

    # ------------------------------------------------------------ harness interface
    def fresh(self, w):
        if self.guards:
            raise MergeAbort()
        n = "s%d" % self.nsym
        self.nsym += 1
        t = T.var(n, w)
        self.symnames.append((n, w))
        fx = self.o.get("fix")
        if fx and str(self.nsym - 1) in fx:
            v = fx[str(self.nsym - 1)]
            self.add_pc(T.eq(t, v, w), True)
            return v
        return t

    def h_assume(self, c):
        if isc(c):
            if not c:
                if self.guards:
                    raise MergeAbort()
                raise PathEnd()
            return
        if self.guards:
            raise MergeAbort()
        self.flush()
        self.add_pc(c, refine=True)

    def h_check(self, c, i):
        self.stat["checks"] += 1
        if isc(c):
            if c:
                self.stat["trivial"] += 1
                return
        i = i if isc(i) else -1
        self.obligation(T.not_(c), "check %d" % i)
        if isc(c) and not c and not self.guards:
            self.flush()
            raise PathEnd()

    def h_cut(self, x):
        """proof hint: queries may first be tried with this value replaced by an arbitrary one of its range"""
        if self.guards:
            raise MergeAbort()
        while not isc(x) and x.op == "zext":
            x = x.a[0]
        if isc(x) or x.op == "var" or x.id in self.cuts:
            return
        self.flush()
        v = T.var("cut!%d" % x.id, x.w)
        v.lo, v.hi = x.lo, x.hi
        self.cuts[x.id] = v
        self.cutcache = {}

    def h_out(self, v):
        if self.guards:
            raise MergeAbort()
        self.outs.append(v)

    def h_panic_ok(self, b):
        self.panic_ok = bool(b)

    def finish(self, how):
        """end of a feasible path"""
        self.flush()
        self.ended = how
        wit = None
        if self.o.get("witness", True) and self.want_witness():
            m = self.model
            if m is None:
                r, m = self.query(self.pc, "witness", **(dict(quick=True, pf=False) if self.o.get("unkfeas") else {}))
                if r == "unsat":
                    self.emit(ev="infeasible")
                    return
                if r != "sat":
                    m = None
                    self.emit(ev="nowitness", what=str(m))
            if m is not None:
                wit = dict(trace=self.trace_of(m), outs=[self.eval(x, m) if not isinstance(x, float) else x for x in self.outs], how=how,
                           undef=any(k.startswith("undef!") for k in m))
        elif self.model is None and not self.o.get("unkfeas"):
            r, m = self.query(self.pc, "path feasibility")
            if r == "unsat":
                self.emit(ev="infeasible")
                return
        self.emit(ev="path", how=how, pc=len(self.pc), witness=wit)

    def want_witness(self):
        return True

    def body(self, name):
        self.call("@" + name, ())
        self.finish("return")

    def run_harness(self, name):
        """explore all paths of a harness function (this process and its children)"""
        try:
            try:
                self.pcvals = []
                self.body(name)
            except PathEnd:
                if self.o.get("tracepe"):
                    import traceback
                    traceback.print_exc()
                try:
                    self.flush()
                except PathEnd:
                    pass
            except ArmDead:
                self.emit(ev="error", what="dead arm outside a merge")
        except Unsupported as e:
            self.emit(ev="error", what="unsupported: %s" % e)
        except MergeAbort:
            self.emit(ev="error", what="merge abort at top level")
        except MemoryError:
            self.emit(ev="error", what="out of memory")
        except Exception as e:
            import traceback
            self.emit(ev="error", what="engine: %r %s" % (e, traceback.format_exc()[-1500:]))
        self.wait_children()
        self.emit(ev="stats", fns={k: v for k, v in self.used_fns.items() if v}, **self.stat)
        if self.is_child:
            if self.token:
                self.o["sched"].release()
            os._exit(0)


class Cand(Exception):
    pass


class Undef:
    pass


UNDEF = Undef()


def ct_is_vec(c):
    return isinstance(c, tuple)


def iteconst(t):
    if isc(t):
        return True
    if t.op == "ite":
        return iteconst(t.a[1]) and iteconst(t.a[2])
    return False


def iteleaves(t, cond):
    if isc(t):
        return [(cond, t)]
    c = t.a[0]
    return iteleaves(t.a[1], T.and_(cond, c, 1)) + iteleaves(t.a[2], T.and_(cond, T.not_(c), 1))


def byte_of(v, n, k):
    if isinstance(v, Undef):
        return v
    if isc(v):
        return (v >> (8 * k)) & 255
    if v.w == T.FLOAT:
        raise MergeAbort()
    return T.slice_(v, 8 * n, 8 * k, 8)


def narrow(t, l, h):
    if l > t.lo:
        t.lo = min(l, t.hi)
    if h < t.hi:
        t.hi = max(h, t.lo)
    # push through injective wrappers
    if t.op == "zext":
        narrow(t.a[0], t.lo, t.hi)
    elif t.op == "trunc" and t.a[0].hi <= M(t.w):
        narrow(t.a[0], t.lo, t.hi)
    elif t.op == "add" and isc(t.a[1]) and not isc(t.a[0]):
        x, k = t.a
        if x.lo + k == x.lo + k and x.hi + k <= M(t.w):
            narrow(x, max(0, t.lo - k), max(0, t.hi - k))


def i2f(x):
    if isc(x):
        return struct.unpack("<d", struct.pack("<Q", x))[0]
    if x.op == "fbitsof":
        return x.a[0]
    if x.op == "ite":
        return T.ite(x.a[0], i2f(x.a[1]), i2f(x.a[2]), T.FLOAT)
    return T.fraw("bits", (x,), -math.inf, math.inf)


def zero(ty):
    if ty[0] == "f":
        return 0.0
    if ty[0] in ("i", "ptr"):
        return 0
    n = ty[1] if ty[0] in ("arr", "vec") else len(ty[2])
    return tuple(zero(elem_ty(ty, i)) for i in range(n))


def vec_to_int(v, ew):
    r, rw = v[-1], ew
    for x in reversed(v[:-1]):
        r = T.concat(r, rw, x, ew)
        rw += ew
    return r


def int_to_vec(x, w, ew):
    return tuple(T.slice_(x, w, i * ew, ew) for i in range(w // ew))


_ops = {"add": T.add, "sub": T.sub, "mul": T.mul, "udiv": T.udiv, "urem": T.urem, "sdiv": T.sdiv, "srem": T.srem, "shl": T.shl, "lshr": T.lshr,
        "ashr": T.ashr, "and": T.and_, "or": T.or_, "xor": T.xor}


def vbin(op, a, b, w):
    f = _ops[op]
    return tuple(f(x, y, w) for x, y in zip(a, b))


def icmp(pred, x, y, w):
    return {"eq": lambda: T.eq(x, y, w), "ne": lambda: T.ne(x, y, w), "ult": lambda: T.ult(x, y, w), "ule": lambda: T.ule(x, y, w),
            "ugt": lambda: T.ult(y, x, w), "uge": lambda: T.ule(y, x, w), "slt": lambda: T.slt(x, y, w), "sle": lambda: T.sle(x, y, w),
            "sgt": lambda: T.slt(y, x, w), "sge": lambda: T.sle(y, x, w)}[pred]()


def vicmp(pred, a, b, w):
    return tuple(icmp(pred, x, y, w) for x, y in zip(a, b))


def fbin(op, a, b, bits):
    if bits == 32:
        if not (isinstance(a, float) and isinstance(b, float)):
            raise Unsupported("symbolic f32")
        return struct.unpack("<f", struct.pack("<f", T.f_bin(op, a, b)))[0]
    return T.f_bin(op, a, b)


def insval(agg, v, ix):
    if not ix:
        return v
    l = list(agg)
    l[ix[0]] = insval(l[ix[0]], v, ix[1:])
    return tuple(l)


def ovf(op, a, b, w):
    if isc(a) and isc(b):
        if op[0] == "u":
            r = {"add": a + b, "sub": a - b, "mul": a * b}[op[1:]]
            return (r & M(w), int(r < 0 or r > M(w)))
        x, y = T.tosigned(a, w), T.tosigned(b, w)
        r = {"add": x + y, "sub": x - y, "mul": x * y}[op[1:]]
        return (r & M(w), int(not -(1 << (w - 1)) <= r < 1 << (w - 1)))
    if op == "uadd":
        if T.hi(a) + T.hi(b) <= M(w):
            return (T.add(a, b, w), 0)
        s = T.add(T.zext(a, w, w + 1), T.zext(b, w, w + 1), w + 1)
        return (T.trunc(s, w + 1, w), T.eq(T.lshr(s, w, w + 1), 1, w + 1))
    if op == "usub":
        return (T.sub(a, b, w), T.ult(a, b, w))
    if op == "umul":
        if T.hi(a) * T.hi(b) <= M(w):
            return (T.mul(a, b, w), 0)
        p = T.mul(T.zext(a, w, 2 * w), T.zext(b, w, 2 * w), 2 * w)
        return (T.trunc(p, 2 * w, w), T.ult(M(w), p, 2 * w))
    if op in ("sadd", "ssub"):
        f = T.add if op == "sadd" else T.sub
        s = f(T.sext(a, w, w + 1), T.sext(b, w, w + 1), w + 1)
        r = T.trunc(s, w + 1, w)
        return (r, T.ne(T.sext(r, w, w + 1), s, w + 1))
    s = T.mul(T.sext(a, w, 2 * w), T.sext(b, w, 2 * w), 2 * w)
    r = T.trunc(s, 2 * w, w)
    return (r, T.ne(T.sext(r, w, 2 * w), s, 2 * w))


_panic_cache = {}


def is_panic_fn(name):
    r = _panic_cache.get(name)
    if r is None:
        r = _panic_cache[name] = bool(re.search(
            r"panicking|unwrap_failed|expect_failed|slice_error_fail|slice_index_fail|handle_error|handle_alloc_error|capacity_overflow|rust_panic|begin_panic|assert_failed|precondition_check|len_mismatch_fail|_index_len_fail|rust_begin_unwind|abort_internal|index_order_fail|split_at_fail|do_index_len_fail", name))
    return r


_hasff = {}


def has_ffp(t):
    """does the term contain a field polynomial?"""
    if isc(t):
        return False
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _hasff:
            stack.pop()
            continue
        if x.op == "ffp":
            _hasff[x.id] = True
            stack.pop()
            continue
        todo = [y for y in x.a if isinstance(y, T.T) and y.id not in _hasff]
        if todo:
            stack.extend(todo)
            continue
        _hasff[x.id] = any(isinstance(y, T.T) and _hasff[y.id] for y in x.a)
        stack.pop()
    return _hasff[t.id]


# ---------------------------------------------------------------- builtins
def b_alloc(E, size, align=1, zero=False):
    size = E.conc(size, 64)
    if size > 1 << 30:
        E.unsupported("allocation of %d bytes" % size)
    return E.new(size, "heap#%d" % len(E.objs), "heap", None if zero else bytearray(size))


def b_free(E, p, *_):
    p = E.conc(p, 64)
    if p == 0:
        return
    if E.journal is not None:
        return  # keep it simple: memory stays alive inside merges
    E.freed(p)
    o = E.objs[p >> 32]
    if o.freed:
        E.bad("double free")
    o.freed = True


def b_realloc(E, p, old, align, new):
    new = E.conc(new, 64)
    q = b_alloc(E, new)
    n = min(E.conc(old, 64), new)
    E.memcpy(q, p, n)
    b_free(E, p)
    return q


def b_crealloc(E, p, new):
    if isc(p) and p == 0:
        return b_alloc(E, new)
    return b_realloc(E, p, len(E.objs[p >> 32].data), 16, new)


def b_memalign(E, pp, align, size):
    E.store(pp, b_alloc(E, size), 8, 64)
    return 0


def b_getrandom(E, buf, n, flags=0):
    n = E.conc(n, 64)
    for i in range(n):
        E.rand = (E.rand * 6364136223846793005 + 1442695040888963407) & M(64)
        E.store(buf + i, E.rand >> 56, 1, 8)
    return n


def b_syscall(E, nr, *a):
    if nr == 318:
        return b_getrandom(E, *a[:2])
    if nr == 202:
        return E.futex(*a)
    E.unsupported("syscall %r" % (nr,))


BUILTIN = {
    "@sym_u8": lambda E: E.fresh(8), "@sym_u16": lambda E: E.fresh(16), "@sym_u32": lambda E: E.fresh(32),
    "@sym_u64": lambda E: E.fresh(64), "@sym_usize": lambda E: E.fresh(64),
    "@sym_fork": lambda E, x: E.concretize(x, 64),
    "@sym_assume": Engine.h_assume, "@sym_check": Engine.h_check, "@sym_out": Engine.h_out, "@sym_panic_ok": Engine.h_panic_ok, "@sym_cut": Engine.h_cut,
    "@malloc": b_alloc, "@free": b_free, "@calloc": lambda E, n, s: b_alloc(E, T.mul(n, s, 64), 1, True),
    "@realloc": b_crealloc, "@posix_memalign": b_memalign, "@aligned_alloc": lambda E, al, s: b_alloc(E, s),
    "@memcpy": lambda E, d, s, n: (E.memcpy(d, s, n), d)[1], "@memmove": lambda E, d, s, n: (E.memcpy(d, s, n), d)[1],
    "@memset": lambda E, d, v, n: (E.memset(d, T.trunc(v, 32, 8), n), d)[1],
    "@bcmp": lambda E, a, b, n: E.memcmp(a, b, n, True), "@memcmp": lambda E, a, b, n: E.memcmp(a, b, n, False),
    "@getrandom": b_getrandom, "@syscall": b_syscall, "@abort": lambda E: E.do_panic("abort"),
    "@__cxa_thread_atexit_impl": lambda E, *a: 0, "@pthread_key_create": lambda E, *a: 0, "@pthread_setspecific": lambda E, *a: 0,
    "@pthread_getspecific": lambda E, *a: 0, "@pthread_atfork": lambda E, *a: 0,
    "@exp": lambda E, x: math.exp(x), "@log": lambda E, x: math.log(x), "@pow": lambda E, x, y: math.pow(x, y),
    "@round": lambda E, x: T.f_round(x), "@floor": lambda E, x: T.f_round(x, "floor"), "@ceil": lambda E, x: T.f_round(x, "ceil"), "@trunc": lambda E, x: T.f_round(x, "trunc"),
    "@rint": lambda E, x: T.f_round(x, "rint"),
}
BUILTIN.update(ff.BUILTIN)
BUILTIN.update(uf.BUILTIN)
SPECIAL = [
    (re.compile(r"___rust_alloc$|7___rustc12___rust_alloc$|___rdl_alloc$"), lambda E, s, a: b_alloc(E, s)),
    (re.compile(r"___rust_alloc_zeroed$|___rdl_alloc_zeroed$"), lambda E, s, a: b_alloc(E, s, 1, True)),
    (re.compile(r"___rust_dealloc$|___rdl_dealloc$"), b_free),
    (re.compile(r"___rust_realloc$|___rdl_realloc$"), b_realloc),
    (re.compile(r"___rust_no_alloc_shim_is_unstable"), lambda E, *a: None),
]


class Sched:
    """token pool shared by the processes of a run"""

    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, b"x" * max(0, n - 1))

    def try_acquire(self):
        try:
            return os.read(self.r, 1) == b"x"
        except BlockingIOError:
            return False

    def release(self):
        os.write(self.w, b"x")
