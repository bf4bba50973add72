"""Encoders term -> SMT-LIB and solver portfolio.

BV encoder: exact (bit-vectors + IEEE doubles).
Int encoder: linear integer arithmetic over the base variables, quotients and
products; wrap-arounds are elided where interval analysis excludes them, and a
product of two symbolic values is an uninterpreted integer constrained by
McCormick bounds and by the definitional equations multiplied through
(reformulation-linearisation).  The Int encoding over-approximates, so 'unsat'
is sound; 'sat' is accepted only after exact evaluation of the model."""

import math
import os
import re
import subprocess
import tempfile
import time

import terms as T
from terms import isc, lo, hi, mask


class EncFail(Exception):
    pass


def postorder(roots, deps=None):
    out, seen = [], set()
    stack = [r for r in roots if not isc(r) and not isinstance(r, float)]
    while stack:
        t = stack[-1]
        if t.id in seen:
            stack.pop()
            continue
        todo = [x for x in (t.a if deps is None else deps(t)) if isinstance(x, T.T) and x.id not in seen]
        if todo:
            stack.extend(todo)
        else:
            seen.add(t.id)
            out.append(t)
            stack.pop()
    return out


# ---------------------------------------------------------------- bit-vectors
class BV:
    def __init__(self):
        self.lines = []
        self.vars = {}
        self.fp = False
        self.ufs = {}

    def lit(self, v, w):
        if w == 1:
            return "true" if v else "false"
        return "(_ bv%d %d)" % (v & mask(w), w)

    def flit(self, x):
        import struct
        b = struct.unpack("<Q", struct.pack("<d", x))[0]
        return "((_ to_fp 11 53) (_ bv%d 64))" % b

    def r(self, x, w):
        if isinstance(x, float):
            return self.flit(x)
        if isc(x):
            return self.lit(x, w)
        return self.n[x.id]

    def bv1(self, x):
        """BitVec 1 view of a width-1 value"""
        if isc(x):
            return "(_ bv%d 1)" % x
        return "(ite %s (_ bv1 1) (_ bv0 1))" % self.n[x.id]

    def encode(self, asserts):
        self.n = {}
        for t in postorder(asserts):
            self.n[t.id] = self.define(t)
        for a in asserts:
            self.lines.append("(assert %s)" % self.r(a, 1))

    def define(self, t):
        op, w, a, e = t.op, t.w, t.a, t.extra
        name = "t%d" % t.id
        if op == "var":
            v = e
            self.lines.append("(declare-fun %s () %s)" % (v, "Bool" if w == 1 else "(_ BitVec %d)" % w))
            self.vars[e] = w
            if w > 1:
                if t.hi < mask(w):
                    self.lines.append("(assert (bvule %s %s))" % (v, self.lit(t.hi, w)))
                if t.lo > 0:
                    self.lines.append("(assert (bvuge %s %s))" % (v, self.lit(t.lo, w)))
            return v
        if w == T.FLOAT or op in ("ftoint", "fcmp", "fbitsof"):
            return self.fdefine(t, name)
        r = self.r
        if op == "ffp":
            return self.ffp(t, name)
        if op == "uf":
            self.decl_uf(e, [x.w if not isc(x) else None for x in a], a, w)
            s = "(%s %s)" % (self.ufs[e], " ".join(r(x, wd) for x, wd in zip(a, self.ufw[e])))
        elif op in ("add", "sub", "shl", "lshr", "ashr", "and", "or", "xor") and w > 1:
            s = "(%s %s %s)" % ({"add": "bvadd", "sub": "bvsub", "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr", "and": "bvand", "or": "bvor", "xor": "bvxor"}[op], r(a[0], w), r(a[1], w))
        elif op in ("and", "or", "xor"):
            s = "(%s %s %s)" % (op, r(a[0], 1), r(a[1], 1))
        elif op in ("mul", "udiv", "urem"):
            f = {"mul": "bvmul", "udiv": "bvudiv", "urem": "bvurem"}[op]
            if op == "mul":
                nb = (hi(a[0]) * hi(a[1])).bit_length()
            else:
                nb = max(hi(a[0]).bit_length(), hi(a[1]).bit_length())
            nb = max(nb, 1)
            if nb < w:
                ex = lambda x: "(_ bv%d %d)" % (x, nb) if isc(x) else "((_ extract %d 0) %s)" % (nb - 1, r(x, w))
                s = "((_ zero_extend %d) (%s %s %s))" % (w - nb, f, ex(a[0]), ex(a[1]))
            else:
                s = "(%s %s %s)" % (f, r(a[0], w), r(a[1], w))
        elif op in ("sdiv", "srem"):
            s = "(%s %s %s)" % ("bvsdiv" if op == "sdiv" else "bvsrem", r(a[0], w), r(a[1], w))
        elif op == "not":
            s = "(not %s)" % r(a[0], 1)
        elif op == "zext":
            if e == 1:
                s = "(ite %s %s %s)" % (r(a[0], 1), self.lit(1, w), self.lit(0, w))
            else:
                s = "((_ zero_extend %d) %s)" % (w - e, r(a[0], e))
        elif op == "sext":
            s = "((_ sign_extend %d) %s)" % (w - e, r(a[0], e))
        elif op == "trunc":
            if w == 1:
                s = "(= ((_ extract 0 0) %s) (_ bv1 1))" % r(a[0], e)
            else:
                s = "((_ extract %d 0) %s)" % (w - 1, r(a[0], e))
        elif op == "concat":
            wl = e
            wh = w - e
            h = self.bv1(a[0]) if wh == 1 else r(a[0], wh)
            l = self.bv1(a[1]) if wl == 1 else r(a[1], wl)
            s = "(concat %s %s)" % (h, l)
        elif op == "ite":
            s = "(ite %s %s %s)" % (r(a[0], 1), r(a[1], w), r(a[2], w))
        elif op == "eq":
            s = "(= %s %s)" % (r(a[0], e), r(a[1], e))
        elif op in ("ult", "ule", "slt", "sle"):
            if e == 1:
                x, y = r(a[0], 1), r(a[1], 1)
                s = {"ult": "(and (not %s) %s)", "ule": "(or (not %s) %s)", "slt": "(and %s (not %s))", "sle": "(or %s (not %s))"}[op] % (x, y)
            else:
                s = "(bv%s %s %s)" % (op, r(a[0], e), r(a[1], e))
        else:
            raise EncFail("bv " + op)
        self.lines.append("(define-fun %s () %s %s)" % (name, "Bool" if w == 1 else "(_ BitVec %d)" % w, s))
        return name

    ufw = {}

    def ffp(self, t, name):
        p, items = t.extra
        P = self.lit(p, 64)
        at = {x.id: self.r(x, 64) for x in t.a}
        memo = {}
        if p >> 31 or len(items) > 3000:
            raise EncFail("large field polynomial")

        def mono(m):
            if len(m) == 1:
                return at[m[0]]
            if m not in memo:
                inner = mono(m[:-1])
                n = "%s_m%d" % (name, len(memo))
                self.lines.append("(define-fun %s () (_ BitVec 64) (bvurem (bvmul %s %s) %s))" % (n, inner, at[m[-1]], P))
                memo[m] = n
            return memo[m]

        acc = self.lit(0, 64)
        n = 0
        for m, c in items:
            x = self.lit(c, 64) if m == () else mono(m) if c == 1 else "(bvmul %s %s)" % (mono(m), self.lit(c, 64))
            acc = "(bvadd %s %s)" % (acc, x)
            n += 1
            if n % 4 == 0 or n == len(items):
                self.lines.append("(define-fun %s_%d () (_ BitVec 64) (bvurem %s %s))" % (name, n, acc, P))
                acc = "%s_%d" % (name, n)
        return acc

    def decl_uf(self, e, ws, a, w):
        if e in self.ufs:
            return
        n = "|uf_%s|" % (e if isinstance(e, str) else "_".join(map(str, e)))
        import uf
        argw = uf.argwidths(e, len(a))
        self.ufw = dict(self.ufw)
        self.ufw[e] = argw
        self.ufs[e] = n
        self.lines.append("(declare-fun %s (%s) (_ BitVec %d))" % (n, " ".join("(_ BitVec %d)" % x for x in argw), w))

    def fdefine(self, t, name):
        self.fp = True
        op, w, a, e = t.op, t.w, t.a, t.extra
        r = self.r
        if op == "Fofint":
            s = "((_ to_fp_unsigned 11 53) RNE %s)" % r(a[0], e)
        elif op in ("Fadd", "Fsub", "Fmul", "Fdiv"):
            s = "(fp.%s RNE %s %s)" % (op[1:], r(a[0], w), r(a[1], w))
        elif op in ("Fround", "Ffloor", "Fceil", "Ftrunc", "Frint", "Froundeven", "Fnearbyint"):
            rm = {"round": "RNA", "floor": "RTN", "ceil": "RTP", "trunc": "RTZ"}.get(op[1:], "RNE")
            s = "(fp.roundToIntegral %s %s)" % (rm, r(a[0], w))
        elif op == "Fneg":
            s = "(fp.neg %s)" % r(a[0], w)
        elif op == "Fabs":
            s = "(fp.abs %s)" % r(a[0], w)
        elif op == "Fite":
            s = "(ite %s %s %s)" % (r(a[0], 1), r(a[1], w), r(a[2], w))
        elif op == "Fbits":
            s = "((_ to_fp 11 53) %s)" % r(a[0], 64)
        elif op == "fcmp":
            x, y = r(a[0], T.FLOAT), r(a[1], T.FLOAT)
            p = e[1:]
            if e in ("ord", "uno"):
                s = "(or (fp.isNaN %s) (fp.isNaN %s))" % (x, y)
                self.lines.append("(define-fun %s () Bool %s)" % (name, s if e == "uno" else "(not %s)" % s))
                return name
            s = {"lt": "(fp.lt %s %s)", "le": "(fp.leq %s %s)", "eq": "(fp.eq %s %s)", "gt": "(fp.gt %s %s)", "ge": "(fp.geq %s %s)", "ne": "(not (fp.eq %s %s))"}[p] % (x, y)
            if e == "one":
                s = "(and %s (not (fp.isNaN %s)) (not (fp.isNaN %s)))" % (s, x, y)
            if e[0] == "u":
                s = "(or (fp.isNaN %s) (fp.isNaN %s) %s)" % (x, y, s)
            self.lines.append("(define-fun %s () Bool %s)" % (name, s))
            return name
        elif op == "ftoint":
            x = r(a[0], T.FLOAT)
            M = mask(w)
            l, h = (0, M) if e == "u" else (-(1 << (w - 1)), M >> 1)
            al, ah = T.flo(a[0]), T.fhi(a[0])
            s = "((_ fp.to_%sbv %d) RTZ %s)" % ("u" if e == "u" else "s", w, x)
            if not (al > l - 1 and ah < h):
                s = "(ite (fp.isNaN %s) %s (ite (fp.leq %s %s) %s (ite (fp.geq %s %s) %s %s)))" % (
                    x, self.lit(0, w), x, self.flit(float(l)), self.lit(l, w), x, self.flit(float(h + 1)), self.lit(h, w), s)
            self.lines.append("(define-fun %s () (_ BitVec %d) %s)" % (name, w, s))
            return name
        elif op == "fbitsof":
            raise EncFail("fbitsof")
        else:
            raise EncFail("fp " + op)
        self.lines.append("(define-fun %s () (_ FloatingPoint 11 53) %s)" % (name, s))
        return name

    def logic(self):
        if self.ufs:
            return "QF_UFBV"
        return "QF_BVFP" if self.fp else "QF_BV"

    def text(self):
        return "\n".join(self.lines)


# ---------------------------------------------------------------- integers
class Int:
    def __init__(self):
        self.lines = []
        self.vars = {}
        self.bounds = {}
        self.defs = {}
        self.lin = {}
        self.b = {}
        self.monos = set()
        self.mono_queue = []
        self.divs = {}
        self.zs = {}
        self.cnt = 0
        self.named = {}
        self.qforms = {}

    # --- linear forms
    def newvar(self, l, h, p="k"):
        self.cnt += 1
        n = "%s%d" % (p, self.cnt)
        self.decl(n, l, h)
        return n

    def decl(self, n, l, h):
        self.lines.append("(declare-fun %s () Int)" % n)
        if l == h:
            self.lines.append("(assert (= %s %s))" % (n, num(l)))
        else:
            self.lines.append("(assert (and (<= %s %s) (<= %s %s)))" % (num(l), n, n, num(h)))
        self.bounds[n] = (l, h)

    def s(self, L):
        ts = []
        for m, c in L.items():
            if m == ():
                if c:
                    ts.append(num(c))
                continue
            v = self.mono(m)
            ts.append(v if c == 1 else "(* %s %s)" % (num(c), v))
        if not ts:
            return "0"
        return ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)

    def mono(self, m):
        if len(m) == 1:
            return m[0]
        n = "p_" + "_".join(m)
        if m not in self.monos:
            self.monos.add(m)
            # left-associated: m = rest * last
            a = m[:-1]
            x = self.mono(a)
            y = m[-1]
            (al, ah), (bl, bh) = self.bounds[x], self.bounds[y]
            c = [al * bl, al * bh, ah * bl, ah * bh]
            self.decl(n, min(c), max(c))
            # McCormick
            for (p, q, sgn) in ((al, bl, 1), (ah, bh, 1), (al, bh, -1), (ah, bl, -1)):
                # (x-p)(y-q) >=0 or <=0
                L = {(n,): 1, (x,): -q, (y,): -p, (): p * q}
                t = "(+ %s (* %s %s) (* %s %s) %s)" % (n, num(-q), x, num(-p), y, num(p * q))
                self.lines.append("(assert (%s %s 0))" % (">=" if sgn > 0 else "<=", t))
            self.mono_queue.append(m)
        return n

    def rng(self, L):
        l = h = 0
        for m, c in L.items():
            if m == ():
                l += c
                h += c
                continue
            bl, bh = self.bounds[self.mono(m)]
            if c > 0:
                l += c * bl
                h += c * bh
            else:
                l += c * bh
                h += c * bl
        return l, h

    def key(self, L):
        return frozenset((m, c) for m, c in L.items() if c)

    def wrap(self, L, l, h, w):
        P = 1 << w
        if l >= 0 and h < P:
            return L
        # the residue does not depend on multiples of 2^w
        N = {m: c for m, c in L.items() if c % P}
        if len(N) != len(L):
            l, h = self.rng(N)
            if l >= 0 and h < P:
                return N
        kl, kh = l >> w, h >> w
        if kl == kh:
            return addl(N, {(): -kl * P})
        k = self.elim(N, P)
        if k is not None:
            return k
        if (self.key(N), P) not in self.divs and kh - kl > 0 and len(N) > 1:
            for V in self.variants(N, P):
                k = self.lpfix(V, P)
                if k is not None:
                    # N - V is a multiple of 2^w
                    self.divs[(self.key(N), P)] = addl(scale_div(addl(N, scale(V, -1)), P), {(): k})
                    break
        return self.divq(N, P, kl, kh)[1]

    def elim(self, N, P):
        """bounds of N with a quotient q = floor(L/d) replaced by (L - e)/d: fixes the wrap count of
        forms in which a quotient nearly cancels"""
        for m in N:
            if len(m) != 1 or m[0] not in self.defs:
                continue
            L, d = self.defs[m[0]]
            c = N[m]
            rest = dict(N)
            del rest[m]
            for cc in (c, c - P if c > 0 else c + P):
                F = addl(scale(rest, d), scale(L, cc))
                best = {}
                for k, v in F.items():
                    # other coefficients may be shifted by multiples of 2^w
                    o = v
                    if k != () and k in rest:
                        for sft in (-P, P):
                            if abs(v + sft * d) < abs(o):
                                o = v + sft * d
                    best[k] = o
                l, h = self.rng(best)
                if cc > 0:
                    l -= cc * (d - 1)
                else:
                    h -= cc * (d - 1)
                l, h = -((-l) // d), h // d
                if l // P == h // P:
                    # value = N' - (l // P) * P where N' is N with the shifted coefficients
                    R = dict(N)
                    R[m] = cc
                    for k, v in best.items():
                        if v != F[k]:
                            R[k] = R[k] + (v - F[k]) // d
                    return addl({k: v for k, v in R.items() if v}, {(): -(l // P) * P})
        return None

    def variants(self, N, P):
        import itertools
        ch = []
        for m, c in N.items():
            o = [c]
            if m != () and abs(c) * 2 >= P:
                f = c // P
                for a in (f, f + 1):
                    if c - a * P not in o:
                        o.append(c - a * P)
            ch.append([(m, x) for x in o])
        n = 0
        for combo in itertools.product(*ch):
            n += 1
            if n > 12:
                return
            yield {m: x for m, x in combo if x}

    # --- real relaxation: decides a wrap count that linear reasoning fixes
    def lpfix(self, L, P):
        if self.lp_off:
            return None
        z3 = z3mod()
        if self.lp is None:
            self.lp = z3.SolverFor("QF_LRA")
            self.lp.set("rlimit", 400000)
            self.lpdecl = {}
            self.lppos = 0
            self.lptime = 0.0
        t0 = time.time()
        s = self.s(L)
        new = self.lines[self.lppos:]
        self.lppos = len(self.lines)
        body = []
        for ln in new:
            if ln.startswith("(declare-fun "):
                n, ty = re.match(r"\(declare-fun (\S+) \(\) (\w+)\)", ln).groups()
                self.lpdecl[n] = z3.Bool(n) if ty == "Bool" else z3.Real(n)
            elif ln.startswith("(define-fun "):
                n, rest = re.match(r"\(define-fun (\S+) \(\) Bool (.*)\)$", ln).groups()
                self.lpdecl[n] = z3.Bool(n)
                body.append("(assert (= %s %s))" % (n, rest))
            else:
                body.append(ln)
        try:
            self.lp.add(z3.parse_smt2_string("\n".join(body), decls=self.lpdecl))
            q = z3.Real("lpq%d" % self.lppos)
            d = dict(self.lpdecl)
            d[q.decl().name()] = q
            ex = z3.parse_smt2_string("(assert (= %s %s))" % (q.decl().name(), s), decls=d)
            self.lp.push()
            try:
                self.lp.add(ex)
                if self.lp.check() != z3.sat:
                    return None
                v = self.lp.model()[q]
                k = (v.numerator_as_long() // v.denominator_as_long()) // P
                self.lp.add(z3.Or(q <= k * P - 1, q >= (k + 1) * P))
                if self.lp.check() == z3.unsat:
                    return k
                return None
            finally:
                self.lp.pop()
        except z3.Z3Exception:
            return None
        finally:
            self.lptime += time.time() - t0
            if self.lptime > 20:
                self.lp_off = True

    lp = None
    lp_off = False

    def divmod_(self, L, d, ql, qh):
        A, B = {}, {}
        for m, c in L.items():
            if m == ():
                k, r = divmod(c, d)
                if k:
                    A[m] = k
                if r:
                    B[m] = r
            elif c % d == 0:
                A[m] = c // d
            else:
                B[m] = c
        if A:
            l, h = self.rng(B)
            ql, qh = l // d, h // d
        q, r = self.divq(B, d, ql, qh)
        return addl(A, q), r

    def divq(self, L, d, ql, qh):
        k = (self.key(L), d)
        q = self.divs.get(k)
        if q is None:
            if ql == qh:
                q = {(): ql}
                R = addl(L, {(): -ql * d})
                self.lines.append("(assert (and (<= 0 %s) (<= %s %s)))" % (self.s(R), self.s(R), num(d - 1)))
            else:
                v = self.newvar(ql, qh, "q")
                q = {(v,): 1}
                self.defs[v] = (L, d)
                R = addl(L, {(v,): -d})
                self.lines.append("(assert (and (<= 0 %s) (<= %s %s)))" % (self.s(R), self.s(R), num(d - 1)))
            self.divs[k] = q
        return q, addl(L, scale(q, -d))

    def z(self, c):
        """0/1 variable for a boolean term"""
        if isc(c):
            return {(): c}
        if c.op == "not":
            return addl({(): 1}, scale(self.z(c.a[0]), -1))
        v = self.zs.get(c.id)
        if isinstance(v, dict):
            return v
        if v is None:
            L = self.zlin(c)
            if L is not None:
                self.zs[c.id] = L
                return L
            v = self.newvar(0, 1, "z")
            b = self.b[c.id] if c.id in self.b else self.boolean(c)
            self.lines.append("(assert (ite %s (= %s 1) (= %s 0)))" % (b, v, v))
            self.zs[c.id] = v
        return {(v,): 1}

    def zlin(self, c):
        """a 0/1 linear form for a boolean that is a bit of some value"""
        a = c.a
        if c.op == "eq" and c.extra != 1 and isc(a[1]) and not isc(a[0]) and a[1] <= 1 and a[0].lo == 0 and a[0].hi == 1:
            L = self.num(a[0])
            return L if a[1] else addl({(): 1}, scale(L, -1))
        if c.op == "trunc" and not isc(a[0]):
            if hi(a[0]) <= 1:
                return self.num(a[0])
            return self.divmod_(self.num(a[0]), 2, lo(a[0]) // 2, hi(a[0]) // 2)[1]
        if c.op == "ult" and c.extra != 1:
            p = self.pow2cmp(c)
            if p is not None:
                q, v = p
                return q if v else addl({(): 1}, scale(q, -1))
        return None

    def pow2cmp(self, c):
        """x >= 2^k or x < 2^k for x < 2^(k+1): (quotient form, value it must have)"""
        a = c.a
        if isc(a[0]) and not isc(a[1]):
            k, X, v = a[0] + 1, a[1], 1
        elif isc(a[1]) and not isc(a[0]):
            k, X, v = a[1], a[0], 0
        else:
            return None
        if k > 1 and k & (k - 1) == 0 and hi(X) < 2 * k:
            return self.divmod_(self.num(X), k, 0, 1)[0], v
        return None

    def name(self, L, l, h):
        """a single base variable equal to L"""
        if len(L) == 1:
            (m, c), = L.items()
            if c == 1 and len(m) == 1:
                return m[0]
        k = self.key(L)
        v = self.named.get(k)
        if v is None:
            v = self.newvar(l, h, "n")
            self.lines.append("(assert (= %s %s))" % (v, self.s(L)))
            self.named[k] = v
        return v

    def mulL(self, A, B, ra, rb):
        """product of two linear forms"""
        A = {m: c for m, c in A.items() if c}
        B = {m: c for m, c in B.items() if c}
        da = max([len(m) for m in A] or [0])
        db = max([len(m) for m in B] or [0])
        if da and db and (len(A) * len(B) > 40 or da + db > 3):
            if len(A) > 1 and (len(A) >= len(B) or da > 1):
                A = {(self.name(A, *ra),): 1}
            if len(A) * len(B) > 40 or max([len(m) for m in B] or [0]) + 1 > 3:
                B = {(self.name(B, *rb),): 1}
        R = {}
        for m1, c1 in A.items():
            for m2, c2 in B.items():
                m = tuple(sorted(m1 + m2))
                R[m] = R.get(m, 0) + c1 * c2
        return {m: c for m, c in R.items() if c}

    # --- terms
    def num(self, t):
        if isc(t):
            return {(): t}
        if t.w == 1:
            return self.z(t)
        return self.lin[t.id]

    def encode(self, asserts):
        work = list(asserts)
        for t in postorder(work, self.deps):
            self.visit(t)
        for a in asserts:
            self.lines.append("(assert %s)" % (self.b[a.id] if not isc(a) else ("true" if a else "false")))
        self.rlt()

    def visit(self, t):
        if t.id in self.lin or t.id in self.b:
            return
        if t.w == T.FLOAT:
            raise EncFail("float")
        if t.w == 1:
            self.b[t.id] = self.boolean(t)
        else:
            L = self.integer(t)
            self.lin[t.id] = {m: c for m, c in L.items() if c}

    def sub(self, t):
        """encode a freshly built term"""
        for x in postorder([t], self.deps):
            self.visit(x)
        return self.num(t)

    def integer(self, t):
        op, w, a, e = t.op, t.w, t.a, t.extra
        N = self.num
        P = 1 << w
        if op == "var":
            n = e
            self.decl(n, t.lo, t.hi)
            self.vars[e] = w
            return {(n,): 1}
        if op in ("add", "sub"):
            q = self.qform(t)
            if q is not None:
                L = {(): q[1]}
                for c, x in q[0]:
                    L = addl(L, scale(N(x), c))
                return L
        if op == "add":
            return self.wrap(addl(N(a[0]), N(a[1])), lo(a[0]) + lo(a[1]), hi(a[0]) + hi(a[1]), w)
        if op == "sub":
            return self.wrap(addl(N(a[0]), scale(N(a[1]), -1)), lo(a[0]) - hi(a[1]), hi(a[0]) - lo(a[1]), w)
        if op == "mul":
            if isc(a[1]):
                k = a[1]
                if hi(a[0]) * k >= P and (P - k) * 4 < P:
                    # multiplication by a negative constant
                    k -= P
                    return self.wrap(scale(N(a[0]), k), hi(a[0]) * k, lo(a[0]) * k, w)
                return self.wrap(scale(N(a[0]), k), lo(a[0]) * k, hi(a[0]) * k, w)
            L = self.mulL(N(a[0]), N(a[1]), (lo(a[0]), hi(a[0])), (lo(a[1]), hi(a[1])))
            return self.wrap(L, lo(a[0]) * lo(a[1]), hi(a[0]) * hi(a[1]), w)
        if op in ("udiv", "urem"):
            if isc(a[1]):
                q, r = self.divmod_(N(a[0]), a[1], lo(a[0]) // a[1], hi(a[0]) // a[1])
                return q if op == "udiv" else r
            n, d = a
            k = ("sym", n if isc(n) else n.id, d if isc(d) else d.id)
            q = self.divs.get(k)
            if q is None:
                q = self.newvar(0, hi(n), "q")
                self.divs[k] = q
                dq = self.mulL(N(d), {(q,): 1}, (lo(d), hi(d)), (0, hi(n)))
                R = addl(N(n), scale(dq, -1))
                self.lines.append("(assert (and (<= 0 %s) (< %s %s)))" % (self.s(R), self.s(R), self.s(N(d))))
            if op == "udiv":
                return {(q,): 1}
            dq = self.mulL(N(d), {(q,): 1}, (lo(d), hi(d)), (0, hi(n)))
            return addl(N(n), scale(dq, -1))
        if op == "shl":
            if isc(a[1]):
                return self.wrap(scale(N(a[0]), 1 << a[1]), lo(a[0]) << a[1], hi(a[0]) << a[1], w)
            return self.enumshift(t, T.shl)
        if op == "lshr":
            if isc(a[1]):
                d = 1 << a[1]
                return self.divmod_(N(a[0]), d, lo(a[0]) // d, hi(a[0]) // d)[0]
            return self.enumshift(t, T.lshr)
        if op == "ashr":
            if not isc(a[1]):
                raise EncFail("ashr")
            sg = T.ule(1 << (w - 1), a[0], w)
            return self.sub(T.ite(sg, T.or_(T.lshr(a[0], a[1], w), mask(w) ^ mask(w - a[1]), w), T.lshr(a[0], a[1], w), w))
        if op in ("and", "or", "xor"):
            return self.bitop(t)
        if op == "zext":
            return N(a[0])
        if op == "sext":
            z = self.z2(T.ule(1 << (e - 1), a[0], e))
            return addl(N(a[0]), scale(z, (1 << w) - (1 << e)))
        if op == "trunc":
            return self.wrap(N(a[0]), lo(a[0]), hi(a[0]), w)
        if op == "concat":
            return addl(scale(N(a[0]), 1 << e), N(a[1]))
        if op == "ite":
            A, B = self.arm(a[0], 1, a[1], w), self.arm(a[0], 0, a[2], w)
            D = addl(A, scale(B, -1))
            if not D or set(D) == {()}:
                return addl(B, scale(self.z(a[0]), D.get((), 0)))
            v = self.newvar(t.lo, t.hi, "v")
            b = self.bs(a[0])
            self.lines.append("(assert (ite %s (= %s %s) (= %s %s)))" % (b, v, self.s(A), v, self.s(B)))
            return {(v,): 1}
        if op == "uf":
            raise EncFail("uf")
        if op in ("sdiv", "srem"):
            raise EncFail(op)
        raise EncFail("int " + op)

    def clamp(self, c, taken, t, w):
        """(x, k) for an arm x - k of a conditional whose condition implies x >= k"""
        if isc(t) or t.op != "add" or not isc(t.a[1]) or isc(c) or c.op != "ult" or c.extra != w:
            return None
        x, k = t.a[0], (1 << w) - t.a[1]
        if taken and c.a[1] is x and isc(c.a[0]) and c.a[0] + 1 >= k or not taken and c.a[0] is x and isc(c.a[1]) and c.a[1] >= k:
            return x, k
        return None

    def arm(self, c, taken, t, w):
        r = self.clamp(c, taken, t, w)
        return self.num(t) if r is None else addl(self.num(r[0]), {(): -r[1]})

    def qform(self, t):
        r = self.qforms.get(t.id, 0)
        if r == 0:
            a, r = t.a, None
            if lo(a[0]) - hi(a[1]) < 0 if t.op == "sub" else hi(a[0]) + hi(a[1]) > mask(t.w):
                r = T.quotient_form(((1, a[0]), (1 if t.op == "add" else -1, a[1])), t.w)
            self.qforms[t.id] = r
        return r

    def deps(self, t):
        if t.op in ("add", "sub") and t.w > 1:
            q = self.qform(t)
            if q is not None:
                return [x for _, x in q[0]]
        if t.op == "ite" and t.w > 1:
            d = [t.a[0]]
            for k in (1, 2):
                r = self.clamp(t.a[0], k == 1, t.a[k], t.w)
                d.append(t.a[k] if r is None else r[0])
            return d
        return t.a

    def z2(self, c):
        if isc(c):
            return {(): c}
        for x in postorder([c], self.deps):
            self.visit(x)
        return self.z(c)

    def enumshift(self, t, f):
        x, s = t.a
        if hi(s) - lo(s) > 130:
            raise EncFail("shift")
        r = 0
        w = t.w
        for k in range(lo(s), min(hi(s), w) + 1):
            r = T.ite(T.eq(s, k, w), f(x, k, w), r, w)
        if not isc(r) and r is t:
            raise EncFail("shift")
        return self.sub(r)

    def bitop(self, t):
        op, w, (x, y) = t.op, t.w, t.a
        if isc(y):
            A = self.andc(x, y, w)
        else:
            nb = min(hi(x).bit_length(), hi(y).bit_length())
            if nb > 16:
                raise EncFail("symbolic bit operation")
            A = {}
            for i in range(nb):
                c = T.and_(T.trunc(T.lshr(x, i, w), w, 1), T.trunc(T.lshr(y, i, w), w, 1), 1)
                A = addl(A, scale(self.z2(c), 1 << i))
        if op == "and":
            return A
        S = addl(self.num(x), self.num(y))
        return addl(S, scale(A, -1 if op == "or" else -2))

    def andc(self, x, m, w):
        R = {}
        X = self.num(x)
        i = 0
        while m >> i:
            if not (m >> i) & 1:
                i += 1
                continue
            j = i
            while (m >> j) & 1:
                j += 1
            # bits i..j-1
            d = 1 << i
            q = self.divmod_(X, d, lo(x) // d, hi(x) // d)[0] if i else X
            l, h = lo(x) // d, hi(x) // d
            r = self.wrap(q, l, h, j - i)
            R = addl(R, scale(r, d))
            i = j
        return R

    def bs(self, c):
        if isc(c):
            return "true" if c else "false"
        return self.b[c.id]

    def boolean(self, t):
        op, a, e = t.op, t.a, t.extra
        bs = self.bs
        if op == "var":
            n = e
            self.lines.append("(declare-fun %s () Bool)" % n)
            self.vars[e] = 1
            return n
        if op == "not":
            s = "(not %s)" % bs(a[0])
        elif op in ("and", "or", "xor"):
            s = "(%s %s %s)" % (op, bs(a[0]), bs(a[1]))
        elif op == "eq":
            if e == 1:
                s = "(= %s %s)" % (bs(a[0]), bs(a[1]))
            else:
                D = addl(self.num(a[0]), scale(self.num(a[1]), -1))
                if not D:
                    return "true"
                # a difference that is k + g*(integer) and cannot leave one period of g
                k = D.get((), 0)
                g = 0
                for m, c in D.items():
                    if m != ():
                        g = math.gcd(g, c)
                if g > 1:
                    l, h = lo(a[0]) - hi(a[1]), hi(a[0]) - lo(a[1])
                    l2, h2 = self.rng(D)
                    l, h = max(l, l2), min(h, h2)
                    # multiples of g shifted by k within [l, h]
                    first = l + (k - l) % g
                    if first > h or k % g:
                        return "false"
                    if first == 0 and first + g > h:
                        return "true"
                s = "(= %s 0)" % self.s(D)
        elif op in ("ult", "ule"):
            if e == 1:
                s = ("(and (not %s) %s)" if op == "ult" else "(or (not %s) %s)") % (bs(a[0]), bs(a[1]))
            else:
                p = self.pow2cmp(t) if op == "ult" else None
                if p is not None:
                    s = "(= %s %d)" % (self.s(p[0]), p[1])
                else:
                    D = addl(self.num(a[0]), scale(self.num(a[1]), -1))
                    s = "(%s %s 0)" % ("<" if op == "ult" else "<=", self.s(D))
        elif op in ("slt", "sle"):
            w = e
            H = 1 << (w - 1)
            sv = lambda x: {(): T.tosigned(x, w)} if isc(x) else addl(self.num(x), scale(self.z2(T.ule(H, x, w)), -(1 << w)))
            D = addl(sv(a[0]), scale(sv(a[1]), -1))
            s = "(%s %s 0)" % ("<" if op == "slt" else "<=", self.s(D))
        elif op == "ite":
            s = "(ite %s %s %s)" % (bs(a[0]), bs(a[1]), bs(a[2]))
        elif op == "trunc":
            x = a[0]
            if hi(x) <= 1:
                s = "(= %s 1)" % self.s(self.num(x))
            else:
                r = self.divmod_(self.num(x), 2, lo(x) // 2, hi(x) // 2)[1]
                s = "(= %s 1)" % self.s(r)
        else:
            raise EncFail("bool " + op)
        if len(s) < 40:
            return s
        n = "b%d" % t.id
        self.lines.append("(define-fun %s () Bool %s)" % (n, s))
        return n

    def rlt(self):
        done = set()
        for depth in range(2):
            q, self.mono_queue = self.mono_queue, []
            for m in q:
                if len(m) != 2:
                    continue
                for v, y in ((m[0], m[1]), (m[1], m[0])):
                    d = self.defs.get(v)
                    if d is None or (v, y) in done:
                        continue
                    done.add((v, y))
                    yl, yh = self.bounds[y]
                    if yl < 0:
                        continue
                    L, dd = d
                    if max([len(k) for k in L] or [0]) > 1 or len(L) > 12:
                        continue
                    R = {}
                    for k, c in list(L.items()) + [((v,), -dd)]:
                        kk = tuple(sorted(k + (y,)))
                        R[kk] = R.get(kk, 0) + c
                    s = self.s({k: c for k, c in R.items() if c})
                    self.lines.append("(assert (and (<= 0 %s) (<= %s (* %s %s))))" % (s, s, num(dd - 1), y))

    def logic(self):
        return "QF_LIA"

    def text(self):
        return "\n".join(self.lines)


def num(c):
    return str(c) if c >= 0 else "(- %d)" % -c


def addl(A, B):
    if len(B) > len(A):
        A, B = B, A
    R = dict(A)
    for m, c in B.items():
        v = R.get(m, 0) + c
        if v:
            R[m] = v
        else:
            R.pop(m, None)
    return R


def scale_div(A, d):
    return {m: c // d for m, c in A.items()}


def scale(A, k):
    if k == 1:
        return A
    if k == 0:
        return {}
    return {m: c * k for m, c in A.items()}


# ---------------------------------------------------------------- solving
ENC = {"bv": BV, "int": Int}


def build(kind, asserts):
    e = ENC[kind]()
    e.encode(asserts)
    return e


_z3 = [None]


def z3mod():
    if _z3[0] is None:
        import z3
        _z3[0] = z3
    return _z3[0]


def check_model(m, asserts, evalf):
    try:
        return all((evalf(a, m) if not isc(a) else a) for a in asserts)
    except NotImplementedError:
        return False


def inproc(e, rlimit, timeout=None):
    z3 = z3mod()
    try:
        s = z3.SolverFor(e.logic())
    except z3.Z3Exception:
        s = z3.Solver()
    s.set("rlimit", rlimit)
    if timeout:
        s.set("timeout", timeout)
    try:
        s.from_string(e.text())
        r = s.check()
    except z3.Z3Exception as ex:
        return "unknown", str(ex)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()
        env = {}
        for d in m.decls():
            n = d.name()
            if n in e.vars:
                v = m[d]
                if z3.is_bool(v):
                    env[n] = int(z3.is_true(v))
                else:
                    env[n] = v.as_long()
        for n in e.vars:
            env.setdefault(n, 0)
        return "sat", env
    return "unknown", s.reason_unknown()


def parse_values(txt, vars):
    env = {}
    for m in re.finditer(r"\(\s*\|?([^|\s()]+)\|?\s+(#x[0-9a-fA-F]+|#b[01]+|true|false|-?[0-9]+|\(- [0-9]+\)|\(_ bv[0-9]+ [0-9]+\))\s*\)", txt):
        n, v = m.group(1), m.group(2)
        if n not in vars:
            continue
        if v.startswith("#x"):
            env[n] = int(v[2:], 16)
        elif v.startswith("#b"):
            env[n] = int(v[2:], 2)
        elif v in ("true", "false"):
            env[n] = int(v == "true")
        elif v.startswith("(_"):
            env[n] = int(v.split()[1][2:])
        elif v.startswith("(-"):
            env[n] = -int(v[2:-1])
        else:
            env[n] = int(v)
    for n in vars:
        env.setdefault(n, 0)
    return env


def solver_cmd(s, f, timeout):
    if s == "z3":
        return ["z3-new", "-T:%d" % timeout, f]
    if s == "z3old":
        return ["z3", "-T:%d" % timeout, f]
    return ["cvc5", "--tlimit=%d" % (timeout * 1000), "--produce-models", f]


def portfolio(encs, asserts, evalf, timeout):
    """encs: {kind: encoder}.  First conclusive verified answer wins."""
    d = tempfile.mkdtemp(prefix="q", dir=os.environ.get("VERIF_TMP"))
    procs = []
    try:
        for kind, e in encs.items():
            f = os.path.join(d, kind + ".smt2")
            with open(f, "w") as fh:
                fh.write("(set-option :produce-models true)\n(set-logic %s)\n" % (e.logic() if not (kind == "bv" and e.fp) else "QF_BVFP"))
                fh.write(e.text())
                fh.write("\n(check-sat)\n")
                if e.vars:
                    fh.write("(get-value (%s))\n" % " ".join("%s" % v for v in e.vars))
            for s in ("z3", "cvc5"):
                p = subprocess.Popen(solver_cmd(s, f, timeout), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                procs.append((p, kind, s, e))
        t0 = time.time()
        live = list(procs)
        why = []
        while live and time.time() - t0 < timeout + 5:
            for x in list(live):
                p, kind, s, e = x
                if p.poll() is None:
                    continue
                live.remove(x)
                out = p.stdout.read()
                first = out.strip().split("\n")[0] if out.strip() else ""
                if first == "unsat":
                    return "unsat", None, "%s/%s" % (s, kind)
                if first == "sat":
                    m = parse_values(out[3:], e.vars)
                    if check_model(m, asserts, evalf):
                        return "sat", m, "%s/%s" % (s, kind)
                    why.append("%s/%s: spurious" % (s, kind))
                else:
                    why.append("%s/%s: %s" % (s, kind, first[:60]))
            time.sleep(0.005)
        return "unknown", "; ".join(why) or "timeout", ""
    finally:
        for p, _, _, _ in procs:
            if p.poll() is None:
                p.kill()
            p.stdout.close()
            p.wait()
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def solve(asserts, o, evalf, quick=False, pf=True):
    """(result, model, how).  quick: one cheap in-process attempt; pf: allow the solver portfolio"""
    asserts = [a for a in asserts if not (isc(a) and a)]
    if any(isc(a) for a in asserts):
        return "unsat", None, "const"
    asserts = list(dict.fromkeys(asserts))
    encs = {}
    for kind in o["enc"]:
        try:
            encs[kind] = build(kind, asserts)
        except EncFail as ex:
            continue
        rl = o["rlimit"]
        if quick:
            rl //= 8
        if kind == "bv" and o["enc"][0] != "bv":
            if quick:
                break
            rl = rl // 3
        if kind == "bv" and encs[kind].fp:
            continue
        r, m = inproc(encs[kind], rl, 3000 if quick else None)
        if r == "unsat":
            return r, None, "inproc/" + kind
        if r == "sat":
            if check_model(m, asserts, evalf):
                return r, m, "inproc/" + kind
    if os.environ.get("DUMPQ"):
        for k, e in encs.items():
            open("%s.%s.smt2" % (os.environ["DUMPQ"], k), "w").write("(set-logic %s)\n%s\n(check-sat)\n" % (e.logic(), e.text()))
    if not encs:
        return "unknown", "no encoding", ""
    if quick or not pf:
        return "unknown", "budget", ""
    return portfolio(encs, asserts, evalf, o["timeout"])
