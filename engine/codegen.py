"""Compiles one LLVM-IR function into Python block functions (concrete fast path,
terms.* on symbolic operands)."""

import re
from llir import *
import llir

_MD = re.compile(r",\s*!(?:[-a-zA-Z$._0-9]+)\s+!(?:[0-9]+|\{[^}]*\}|DIArgList\([^)]*\))")

FLAGS = {"nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign",
         "inbounds", "nneg", "nusw", "volatile", "atomic", "nofpclass", "inrange"}
BIN = {"add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}


class Compiled:
    __slots__ = ("name", "nregs", "code", "params", "entry", "ipdom", "panicblk", "phis", "names", "succ", "ninstr", "nblk", "src", "phitys", "retty")


class FnGen:
    def __init__(self, E, fn):
        self.E, self.fn = E, fn
        fn.parse()
        self.slot = {}
        self.src = []

    def s(self, name):
        r = self.slot.get(name)
        if r is None:
            r = self.slot[name] = len(self.slot) + 1  # slot 0 = return value
        return r

    # python expression for an operand, and whether it is a compile-time constant
    def val(self, v, ty):
        k = v[0]
        if k == "r":
            return "R[%d]" % self.s(v[1]), False
        c = self.E.const(v, ty)
        return pylit(c), True

    def gen(self):
        fn = self.fn
        C = Compiled()
        C.name = fn.name
        C.params = []
        C.retty = fn.retty
        for ty, name, byval in fn.params:
            C.params.append(self.s(name))
        idx = {b: i for i, b in enumerate(fn.order)}
        # phis per block
        self.phis = {}
        for b in fn.order:
            ph = []
            for st in fn.blocks[b]:
                m = re.match(r"(%(?:\"[^\"]*\"|[-a-zA-Z$._0-9]+)) = phi ", st)
                if not m:
                    break
                t = Toks(_MD.sub("", st[m.end():]))
                while t.peek() in FLAGS:
                    t.next()
                ty = parse_type(t)
                inc = {}
                while True:
                    t.expect("[")
                    v = parse_value(t, ty)
                    t.expect(",")
                    p = unq(t.next())
                    t.expect("]")
                    inc[p] = v
                    if not t.accept(","):
                        break
                ph.append((unq(m.group(1)), ty, inc))
            self.phis[b] = ph
        self.idx = idx
        succ = {}
        lines = []
        C.ninstr = 0
        C.code = []
        terms = {}
        for b in fn.order:
            body = fn.blocks[b][len(self.phis[b]):]
            C.ninstr += len(fn.blocks[b])
            self.out = ["def b%d(E,R):" % idx[b]]
            self.cur = b
            self.succs = []
            self.edgefns = []
            for st in body:
                try:
                    self.instr(st)
                except Exception as e:
                    raise RuntimeError("codegen of %r in %s: %r" % (st, fn.name, e)) from e
            if len(self.out) == 1:
                self.out.append(" pass")
            lines += self.edgefns
            lines += self.out
            succ[idx[b]] = [idx[x] for x in self.succs]
            terms[idx[b]] = body[-1]
        src = "\n".join(lines)
        C.src = src
        C.nregs = len(self.slot) + 1
        C.succ = succ
        C.entry = 0
        C.nblk = len(fn.order)
        C.phis = {idx[b]: [self.s(n) for n, _, _ in self.phis[b]] for b in fn.order}
        C.phitys = {idx[b]: [t for _, t, _ in self.phis[b]] for b in fn.order}
        C.names = fn.order
        loc = dict(self.E.ns)
        exec(compile(src, fn.name, "exec"), loc)
        C.code = [loc["b%d" % i] for i in range(len(fn.order))]
        # panic blocks: all paths end in unreachable without branching
        pb = set()
        for i in range(C.nblk):
            if terms[i].startswith("unreachable"):
                pb.add(i)
        changed = True
        while changed:
            changed = False
            for i in range(C.nblk):
                if i not in pb and succ[i] and all(x in pb for x in succ[i]):
                    pb.add(i)
                    changed = True
        C.panicblk = pb
        C.ipdom = ipdoms(C.nblk, succ, pb)
        return C

    def label(self, t):
        t.expect("label")
        return unq(t.next())

    def edge(self, to):
        """python statements performing the phi moves for the edge cur->to"""
        d, e = [], []
        for n, ty, inc in self.phis[to]:
            v = inc[self.cur]
            x, c = self.val(v, ty)
            t = "R[%d]" % self.s(n)
            if x != t:
                d.append(t)
                e.append(x)
        if not d:
            return ""
        return "%s=%s" % (",".join(d), ",".join(e))

    def edgefn(self, to):
        st = self.edge(to)
        nm = "e%d_%d" % (self.idx[self.cur], self.idx[to])
        if not any(x.startswith("def %s(" % nm) for x in self.edgefns):
            self.edgefns.append("def %s(R):" % nm)
            self.edgefns.append(" %s" % (st or "pass"))
        return nm

    def goto(self, to, ind):
        st = self.edge(to)
        self.out.append(ind + (st + "; " if st else "") + "return %d" % self.idx[to])

    def instr(self, st):
        st = _MD.sub("", st)
        st = re.sub(r"(, !srcloc.*| #\d+)+$", lambda m: re.sub(r"#\d+", "", m.group(0)), st)
        m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', st)
        dst = None
        if m:
            dst = unq(m.group(1))
            st = st[m.end():]
        t = Toks(st)
        op = t.next()
        if op in ("tail", "musttail", "notail"):
            op = t.next()
        o = self.out
        if dst is not None:
            D = "R[%d]" % self.s(dst)
        if op in BIN:
            while t.peek() in FLAGS:
                t.next()
            ty = parse_type(t)
            a = parse_value(t, ty)
            t.expect(",")
            b = parse_value(t, ty)
            x, xc = self.val(a, ty)
            y, yc = self.val(b, ty)
            if ty[0] == "vec":
                o.append(" %s=vbin(%r,%s,%s,%d)" % (D, op, x, y, bits_of(ty[2])))
                return
            w = ty[1]
            M = (1 << w) - 1
            f = {"add": "(x+y)&%d" % M, "sub": "(x-y)&%d" % M, "mul": "(x*y)&%d" % M, "and": "x&y", "or": "x|y", "xor": "x^y",
                 "shl": "(x<<y)&%d if y<%d else 0" % (M, w), "lshr": "x>>y",
                 "udiv": "x//y", "urem": "x%y"}.get(op)
            fn = {"and": "T_and", "or": "T_or"}.get(op, "T_" + op)
            if op in ("udiv", "urem", "sdiv", "srem"):
                if not (yc and y != "0"):
                    o.append(" E.nonzero(%s,%d)" % (y, w))
            if f is None:
                o.append(" %s=%s(%s,%s,%d)" % (D, fn, x, y, w))
                return
            tests = []
            if not xc:
                o.append(" x=%s" % x)
                x = "x"
                tests.append("x.__class__ is int")
            if not yc:
                o.append(" y=%s" % y)
                y = "y"
                tests.append("y.__class__ is int")
            f = re.sub(r"\bx\b", x, f)
            f = re.sub(r"\by\b", y, f)
            if op == "shl" and yc:
                f = "(%s<<%s)&%d" % (x, y, M) if int(y) < w else "0"
            o.append(" %s=(%s) if %s else %s(%s,%s,%d)" % (D, f, " and ".join(tests) or "True", fn, x, y, w))
        elif op == "icmp":
            while t.peek() in FLAGS:
                t.next()
            pred = t.next()
            ty = parse_type(t)
            a = parse_value(t, ty)
            t.expect(",")
            b = parse_value(t, ty)
            x, xc = self.val(a, ty)
            y, yc = self.val(b, ty)
            if ty[0] == "vec":
                o.append(" %s=vicmp(%r,%s,%s,%d)" % (D, pred, x, y, bits_of(ty[2])))
                return
            w = bits_of(ty)
            tests = []
            if not xc:
                o.append(" x=%s" % x)
                x = "x"
                tests.append("x.__class__ is int")
            if not yc:
                o.append(" y=%s" % y)
                y = "y"
                tests.append("y.__class__ is int")
            H = 1 << (w - 1)
            f = {"eq": "%s==%s", "ne": "%s!=%s", "ult": "%s<%s", "ule": "%s<=%s", "ugt": "%s>%s", "uge": "%s>=%s"}.get(pred)
            if f:
                f = f % (x, y)
            else:
                f = {"slt": "(%s^%d)<(%s^%d)", "sle": "(%s^%d)<=(%s^%d)", "sgt": "(%s^%d)>(%s^%d)", "sge": "(%s^%d)>=(%s^%d)"}[pred] % (x, H, y, H)
            g = {"eq": "T_eq(%s,%s,%d)", "ne": "T_ne(%s,%s,%d)", "ult": "T_ult(%s,%s,%d)", "ule": "T_ule(%s,%s,%d)",
                 "ugt": "T_ult(%s,%s,%d)", "uge": "T_ule(%s,%s,%d)", "slt": "T_slt(%s,%s,%d)", "sle": "T_sle(%s,%s,%d)",
                 "sgt": "T_slt(%s,%s,%d)", "sge": "T_sle(%s,%s,%d)"}[pred]
            g = g % ((y, x, w) if pred[1] == "g" else (x, y, w))
            o.append(" %s=(1 if %s else 0) if %s else %s" % (D, f, " and ".join(tests) or "True", g))
        elif op in FBIN:
            while t.peek() in FLAGS:
                t.next()
            ty = parse_type(t)
            a = parse_value(t, ty)
            t.expect(",")
            b = parse_value(t, ty)
            o.append(" %s=fbin(%r,%s,%s,%d)" % (D, op, self.val(a, ty)[0], self.val(b, ty)[0], ty[1]))
        elif op == "fneg":
            while t.peek() in FLAGS:
                t.next()
            ty = parse_type(t)
            o.append(" %s=T_fneg(%s)" % (D, self.val(parse_value(t, ty), ty)[0]))
        elif op == "fcmp":
            while t.peek() in FLAGS:
                t.next()
            pred = t.next()
            ty = parse_type(t)
            a = parse_value(t, ty)
            t.expect(",")
            b = parse_value(t, ty)
            o.append(" %s=T_fcmp(%r,%s,%s)" % (D, pred, self.val(a, ty)[0], self.val(b, ty)[0]))
        elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc", "fpext", "addrspacecast", "ptrtoaddr"):
            while t.peek() in FLAGS:
                t.next()
            ty = parse_type(t)
            a = parse_value(t, ty)
            t.expect("to")
            dt = parse_type(t)
            x, xc = self.val(a, ty)
            if op == "zext" and ty[0] == "i":
                o.append(" x=%s" % x)
                o.append(" %s=x if x.__class__ is int else T_zext(x,%d,%d)" % (D, ty[1], dt[1]))
            elif op == "trunc" and ty[0] == "i":
                o.append(" x=%s" % x)
                o.append(" %s=x&%d if x.__class__ is int else T_trunc(x,%d,%d)" % (D, (1 << dt[1]) - 1, ty[1], dt[1]))
            elif op == "sext" and ty[0] == "i":
                o.append(" %s=T_sext(%s,%d,%d)" % (D, x, ty[1], dt[1]))
            elif op in ("ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"):
                if op == "ptrtoint" and dt[1] < 64:
                    o.append(" %s=T_trunc(%s,64,%d)" % (D, x, dt[1]))
                else:
                    o.append(" %s=%s" % (D, x))
            else:
                o.append(" %s=E.cast(%r,%s,%r,%r)" % (D, op, x, ty, dt))
        elif op == "getelementptr":
            while t.peek() in FLAGS:
                t.next()
            st_ = parse_type(t)
            t.expect(",")
            pt = parse_type(t)
            base = parse_value(t, pt)
            cur, first = st_, True
            coff = 0
            dyn = []
            while t.accept(","):
                it = parse_type(t)
                v = parse_value(t, it)
                if first:
                    sz = size_of(cur)
                    first = False
                elif cur[0] == "st":
                    coff += field_off(cur, v[1])
                    cur = elem_ty(cur, v[1])
                    continue
                else:
                    cur = cur[2]
                    sz = size_of(cur)
                if v[0] == "c":
                    i = v[1]
                    if i >> (it[1] - 1):
                        i -= 1 << it[1]
                    coff += i * sz
                else:
                    dyn.append((self.val(v, it)[0], it[1], sz))
            b, bc = self.val(base, pt)
            if not dyn:
                coff &= (1 << 64) - 1
                if coff >> 63:
                    coff -= 1 << 64
                o.append(" x=%s" % b)
                o.append(" %s=x%+d if x.__class__ is int and x else T_add(x,%d,64)" % (D, coff, coff & ((1 << 64) - 1)))
            else:
                o.append(" x=%s" % b)
                for (e, w, sz) in dyn:
                    o.append(" x=E.gep(x,%s,%d,%d)" % (e, w, sz))
                if coff:
                    o.append(" x=T_add(x,%d,64)" % (coff & ((1 << 64) - 1)))
                o.append(" %s=x" % D)
        elif op == "load":
            atomic = False
            while t.peek() in FLAGS:
                atomic |= t.next() == "atomic"
            ty = parse_type(t)
            t.expect(",")
            pt = parse_type(t)
            p = self.val(parse_value(t, pt), pt)[0]
            if ty[0] in ("i", "ptr"):
                w = bits_of(ty)
                o.append(" %s=E.%s(%s,%d,%d)" % (D, "aload" if atomic else "load", p, (w + 7) // 8, w))
            else:
                o.append(" %s=E.loadty(%s,%r)" % (D, p, ty))
        elif op == "store":
            atomic = False
            while t.peek() in FLAGS:
                atomic |= t.next() == "atomic"
            ty = parse_type(t)
            v = self.val(parse_value(t, ty), ty)[0]
            t.expect(",")
            pt = parse_type(t)
            p = self.val(parse_value(t, pt), pt)[0]
            if ty[0] in ("i", "ptr"):
                w = bits_of(ty)
                o.append(" E.%s(%s,%s,%d,%d)" % ("astore" if atomic else "store", p, v, (w + 7) // 8, w))
            else:
                o.append(" E.storety(%s,%s,%r)" % (p, v, ty))
        elif op == "alloca":
            while t.peek() in FLAGS:
                t.next()
            ty = parse_type(t)
            n = 1
            if t.accept(",") and is_type_start(t.peek()) and t.peek() != "align":
                it = parse_type(t)
                v = parse_value(t, it)
                assert v[0] == "c"
                n = v[1]
            o.append(" %s=E.alloca(%d)" % (D, size_of(ty) * n))
        elif op == "select":
            while t.peek() in FLAGS:
                t.next()
            ct = parse_type(t)
            c = parse_value(t, ct)
            t.expect(",")
            ty = parse_type(t)
            a = parse_value(t, ty)
            t.expect(",")
            ty2 = parse_type(t)
            b = parse_value(t, ty2)
            o.append(" x=%s" % self.val(c, ct)[0])
            o.append(" %s=(%s if x else %s) if x.__class__ is int else E.sel(x,%s,%s,%r)" % (
                D, self.val(a, ty)[0], self.val(b, ty)[0], self.val(a, ty)[0], self.val(b, ty)[0], ty))
        elif op == "br":
            if t.peek() == "label":
                to = self.label(t)
                self.succs.append(to)
                self.goto(to, " ")
            else:
                ty = parse_type(t)
                c = parse_value(t, ty)
                t.expect(",")
                a = self.label(t)
                t.expect(",")
                b = self.label(t)
                self.succs += [a, b]
                ea, eb = self.edgefn(a), self.edgefn(b)
                o.append(" x=%s" % self.val(c, ty)[0])
                o.append(" if x.__class__ is int:")
                o.append("  if x:")
                self.goto(a, "   ")
                o.append("  else:")
                self.goto(b, "   ")
                o.append(" return E.symbr(R,%d,((x,%d,%s),(T_not(x),%d,%s)))" % (self.idx[self.cur], self.idx[a], ea, self.idx[b], eb))
        elif op == "switch":
            ty = parse_type(t)
            c = parse_value(t, ty)
            t.expect(",")
            d = self.label(t)
            t.expect("[")
            cases = []
            while not t.accept("]"):
                vt = parse_type(t)
                v = parse_value(t, vt)
                t.expect(",")
                cases.append((v[1], self.label(t)))
            self.succs.append(d)
            for _, l in cases:
                if l not in self.succs:
                    self.succs.append(l)
            o.append(" x=%s" % self.val(c, ty)[0])
            ef = {}
            for l in self.succs:
                ef[l] = self.edgefn(l)
            tab = "{%s}" % ",".join("%d:(%d,%s)" % (v, self.idx[l], ef[l]) for v, l in cases)
            o.append(" if x.__class__ is int:")
            o.append("  b,e=%s.get(x,(%d,%s)); e(R); return b" % (tab, self.idx[d], ef[d]))
            o.append(" return E.symswitch(R,%d,x,%d,[%s],(%d,%s))" % (
                self.idx[self.cur], ty[1], ",".join("(%d,%d,%s)" % (v, self.idx[l], ef[l]) for v, l in cases), self.idx[d], ef[d]))
        elif op == "ret":
            ty = parse_type(t)
            if ty != VOID:
                o.append(" R[0]=%s" % self.val(parse_value(t, ty), ty)[0])
            o.append(" return -1")
        elif op == "unreachable":
            o.append(" E.unreachable()")
        elif op in ("call", "invoke"):
            self.call(t, op, dst)
        elif op == "extractvalue":
            ty = parse_type(t)
            v = self.val(parse_value(t, ty), ty)[0]
            ix = ""
            while t.accept(","):
                ix += "[%s]" % t.next()
            o.append(" %s=%s%s" % (D, v, ix))
        elif op == "insertvalue":
            ty = parse_type(t)
            v = self.val(parse_value(t, ty), ty)[0]
            t.expect(",")
            et = parse_type(t)
            e = self.val(parse_value(t, et), et)[0]
            ix = []
            while t.accept(","):
                ix.append(int(t.next()))
            o.append(" %s=insval(%s,%s,%r)" % (D, v, e, ix))
        elif op == "extractelement":
            ty = parse_type(t)
            v = self.val(parse_value(t, ty), ty)[0]
            t.expect(",")
            it = parse_type(t)
            i = self.val(parse_value(t, it), it)[0]
            o.append(" %s=%s[%s]" % (D, v, i))
        elif op == "insertelement":
            ty = parse_type(t)
            v = self.val(parse_value(t, ty), ty)[0]
            t.expect(",")
            et = parse_type(t)
            e = self.val(parse_value(t, et), et)[0]
            t.expect(",")
            it = parse_type(t)
            i = self.val(parse_value(t, it), it)[0]
            o.append(" %s=insval(%s,%s,[%s])" % (D, v, e, i))
        elif op == "shufflevector":
            ty = parse_type(t)
            a = self.val(parse_value(t, ty), ty)[0]
            t.expect(",")
            ty2 = parse_type(t)
            b = self.val(parse_value(t, ty2), ty2)[0]
            t.expect(",")
            mt = parse_type(t)
            mk = self.E.const(parse_value(t, mt), mt)
            o.append(" x=%s+%s" % (a, b))
            o.append(" %s=tuple([x[i] for i in %r])" % (D, tuple(mk)))
        elif op == "freeze":
            ty = parse_type(t)
            o.append(" %s=%s" % (D, self.val(parse_value(t, ty), ty)[0]))
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            while t.peek() in FLAGS:
                t.next()
            k = t.next()
            pt = parse_type(t)
            p = self.val(parse_value(t, pt), pt)[0]
            t.expect(",")
            ty = parse_type(t)
            v = self.val(parse_value(t, ty), ty)[0]
            o.append(" %s=E.rmw(%r,%s,%s,%d)" % (D, k, p, v, bits_of(ty)))
        elif op == "cmpxchg":
            while t.peek() in FLAGS or t.peek() == "weak":
                t.next()
            pt = parse_type(t)
            p = self.val(parse_value(t, pt), pt)[0]
            t.expect(",")
            ty = parse_type(t)
            c = self.val(parse_value(t, ty), ty)[0]
            t.expect(",")
            ty = parse_type(t)
            n = self.val(parse_value(t, ty), ty)[0]
            o.append(" %s=E.cmpxchg(%s,%s,%s,%d)" % (D, p, c, n, bits_of(ty)))
        elif op in ("landingpad", "resume"):
            o.append(" E.unsupported('unwinding')")
        else:
            raise SyntaxError("instruction " + op)

    def call(self, t, op, dst):
        o = self.out
        # skip attributes up to the return type
        while not is_type_start(t.peek()) or t.peek() == "range":
            x = t.next()
            if t.peek() == "(":
                t.skip_parens()
        rt = parse_type(t)
        if t.peek() == "(":  # full function type
            t.skip_parens()
        asm = None
        if t.peek() == "asm":
            t.next()
            while t.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                t.next()
            a = t.next()
            t.expect(",")
            c = t.next()
            asm = (a, c)
            callee = None
        else:
            x = t.next()
            if x in ("null", "undef", "poison"):
                callee = ("c", 0)
            elif x[0] == "@":
                callee = ("g", unq(x), 0)
            else:
                callee = ("r", unq(x))
        t.expect("(")
        args = []
        tys = []
        if not t.accept(")"):
            while True:
                ty = parse_type(t)
                if ty[0] == "metadata":
                    d = 0
                    while not (d == 0 and t.peek() in (",", ")")):
                        x = t.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                    v = "None"
                else:
                    # attributes
                    while True:
                        p = t.peek()
                        if p in ("noundef", "nonnull", "noalias", "readonly", "writeonly", "readnone", "nocapture", "signext", "zeroext", "inreg",
                                 "immarg", "nofree", "returned", "nest", "allocptr", "dead_on_return", "noext", "nosync", "inalloca", "allocalign"):
                            t.next()
                        elif p in ("align", ):
                            t.next()
                            if t.peek() == "(":
                                t.skip_parens()
                            else:
                                t.next()
                        elif p in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "sret", "byval", "initializes", "elementtype", "nofpclass", "preallocated", "byref", "dead_on_return"):
                            t.next()
                            t.skip_parens()
                        else:
                            break
                    v = self.val(parse_value(t, ty), ty)[0]
                args.append(v)
                tys.append(ty)
                if t.accept(")"):
                    break
                t.expect(",")
        al = ",".join(args)
        if asm is not None:
            ex = "E.asm(%r,%r,[%s])" % (asm[0], asm[1], al)
        elif callee[0] == "g":
            name = callee[1]
            if name.startswith("@llvm."):
                ex = self.intrinsic(name[1:], args, tys, rt)
                if ex is None:
                    return
            else:
                ex = "E.call(%r,(%s%s))" % (name, al, "," if al else "")
        else:
            ex = "E.callptr(%s,(%s%s))" % (self.val(callee, PTR)[0], al, "," if al else "")
        if dst is not None:
            o.append(" R[%d]=%s" % (self.s(dst), ex))
        else:
            o.append(" " + ex)
        if op == "invoke":
            while t.peek() != "to":
                t.next()
            t.next()
            to = self.label(t)
            self.succs.append(to)
            self.goto(to, " ")

    def intrinsic(self, name, args, tys, rt):
        if re.match(r"llvm\.(lifetime|experimental\.noalias|dbg|assume|donothing|invariant|prefetch|x86\.sse2\.pause|va_|sideeffect)", name):
            return None
        return "E.intrinsic(%r,(%s),%r,%r)" % (name, "".join(a + "," for a in args), tuple(tys), rt)


def pylit(c):
    if isinstance(c, float):
        if c != c:
            return "NAN"
        if c in (float("inf"), float("-inf")):
            return "INF" if c > 0 else "(-INF)"
        return repr(c)
    if isinstance(c, tuple):
        return "(" + "".join(pylit(x) + "," for x in c) + ")"
    return repr(c)


def ipdoms(n, succ, pb):
    """immediate post-dominators; node n is the virtual exit (function return).
    Panic blocks are left out: paths into them are proof obligations."""
    X = n
    S = {}
    for i in range(n):
        if i in pb:
            continue
        ss = [x for x in succ[i] if x not in pb]
        S[i] = ss or [X]
    S[X] = []
    pred = {i: [] for i in S}
    for i in S:
        for x in S[i]:
            pred[x].append(i)
    order, seen = [], set()
    stack = [(X, iter(pred[X]))]
    seen.add(X)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(pred[v])))
                break
        else:
            order.append(u)
            stack.pop()
    order.reverse()
    num = {u: k for k, u in enumerate(order)}
    idom = {X: X}
    changed = True
    while changed:
        changed = False
        for u in order[1:]:
            new = None
            for s in S[u]:
                if s in idom and s in num:
                    if new is None:
                        new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(u) != new:
                idom[u] = new
                changed = True
    return idom
