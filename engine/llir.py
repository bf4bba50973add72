"""Parser for the subset of textual LLVM IR that rustc emits."""

import re
import struct

# types: ('i',n) | ('ptr',) | ('f',64|32) | ('void',) | ('arr',n,T) | ('vec',n,T) | ('st',packed,[T..]) | ('fn',)
PTR = ("ptr",)
VOID = ("void",)

_tok = re.compile(
    r'\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[@%!#$](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)|-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?|[+-](?:inf|[qs]?nan(?:\(0x[0-9a-fA-F]+\))?)|f?0x[HKLMR]?[0-9A-Fa-f]+|-?[0-9]+|[a-zA-Z_][-a-zA-Z0-9_.]*|<\{|\}>|\.\.\.|[][(){}<>,=*|:!])')


class Toks:
    __slots__ = ("t", "p")

    def __init__(self, s):
        self.t = []
        pos = 0
        s = s.rstrip()
        n = len(s)
        while pos < n:
            m = _tok.match(s, pos)
            if not m:
                if s[pos:].strip().startswith(";"):
                    break
                raise SyntaxError("token at %r" % s[pos:pos + 60])
            self.t.append(m.group(1))
            pos = m.end()
            if pos < n and s[pos:pos + 2].lstrip().startswith(";"):
                break
        self.p = 0

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else None

    def next(self):
        x = self.t[self.p]
        self.p += 1
        return x

    def accept(self, x):
        if self.p < len(self.t) and self.t[self.p] == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError("expected %r got %r in %r" % (x, y, " ".join(self.t)[:300]))

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1


NAMED = {}
_ity = re.compile(r"i[0-9]+$")


def is_type_start(x):
    return x is not None and (_ity.match(x) or x in ("ptr", "double", "float", "void", "[", "{", "<", "<{", "label", "metadata", "token", "half", "fp128") or x[0] == "%")


def parse_type(t):
    x = t.next()
    if _ity.match(x):
        r = ("i", int(x[1:]))
    elif x == "ptr":
        r = PTR
    elif x == "double":
        r = ("f", 64)
    elif x == "float":
        r = ("f", 32)
    elif x == "half":
        r = ("f", 16)
    elif x == "fp128":
        r = ("f", 128)
    elif x == "void":
        r = VOID
    elif x in ("label", "metadata", "token"):
        r = (x,)
    elif x == "[":
        n = int(t.next())
        t.expect("x")
        e = parse_type(t)
        t.expect("]")
        r = ("arr", n, e)
    elif x == "<":
        n = int(t.next())
        t.expect("x")
        e = parse_type(t)
        t.expect(">")
        r = ("vec", n, e)
    elif x in ("{", "<{"):
        close = "}" if x == "{" else "}>"
        fs = []
        if not t.accept(close):
            while True:
                fs.append(parse_type(t))
                if t.accept(close):
                    break
                t.expect(",")
        r = ("st", x == "<{", tuple(fs))
    elif x[0] == "%":
        r = NAMED[x]
    else:
        raise SyntaxError("type %r in %r" % (x, " ".join(t.t)[:200]))
    if t.peek() == "addrspace":
        t.next()
        t.skip_parens()
    return r


_sz = {}


def align_of(ty):
    k = ty[0]
    if k == "i":
        b = (ty[1] + 7) // 8
        a = 1
        while a < b:
            a *= 2
        return min(a, 16)
    if k == "ptr":
        return 8
    if k == "f":
        return ty[1] // 8
    if k == "arr":
        return align_of(ty[2])
    if k == "vec":
        return min(size_of(ty), 16)
    if k == "st":
        return 1 if ty[1] or not ty[2] else max(align_of(f) for f in ty[2])
    raise TypeError(ty)


def size_of(ty):
    """allocation size"""
    r = _sz.get(ty)
    if r is not None:
        return r
    k = ty[0]
    if k == "i":
        b = (ty[1] + 7) // 8
        a = align_of(ty)
        r = (b + a - 1) // a * a
    elif k == "ptr":
        r = 8
    elif k == "f":
        r = ty[1] // 8
    elif k == "arr":
        r = ty[1] * size_of(ty[2])
    elif k == "vec":
        r = (ty[1] * bits_of(ty[2]) + 7) // 8
    elif k == "st":
        o = 0
        for f in ty[2]:
            if not ty[1]:
                a = align_of(f)
                o = (o + a - 1) // a * a
            o += size_of(f)
        if not ty[1]:
            a = align_of(ty)
            o = (o + a - 1) // a * a
        r = o
    else:
        raise TypeError(ty)
    _sz[ty] = r
    return r


def store_size(ty):
    if ty[0] == "i":
        return (ty[1] + 7) // 8
    return size_of(ty)


def bits_of(ty):
    if ty[0] == "i":
        return ty[1]
    if ty[0] == "ptr":
        return 64
    if ty[0] == "f":
        return ty[1]
    raise TypeError(ty)


def field_off(ty, i):
    if ty[0] == "arr" or ty[0] == "vec":
        return i * size_of(ty[2])
    o = 0
    for j, f in enumerate(ty[2]):
        if not ty[1]:
            a = align_of(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(f)
    raise IndexError(i)


def elem_ty(ty, i):
    return ty[2] if ty[0] in ("arr", "vec") else ty[2][i]


# values (operands): ('r', name) | ('c', pyvalue) | ('g', name, offset) | ('agg', [values]) | ('undef',) | ('expr', ...)
def cstring(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def unq(name):
    """@"x" -> @x"""
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


def parse_float(tok, bits):
    if tok.startswith("f0x"):
        tok = tok[1:]
    if "nan" in tok:
        return float("nan")
    if tok.startswith("0x"):
        v = struct.unpack("<d", struct.pack("<Q", int(tok, 16)))[0]
    else:
        v = float(tok)
    return v


def parse_value(t, ty):
    x = t.next()
    if x[0] == "%":
        return ("r", unq(x))
    if x[0] == "@":
        return ("g", unq(x), 0)
    if x in ("true", "false"):
        return ("c", int(x == "true"))
    if x == "null":
        return ("c", 0)
    if x in ("undef", "poison"):
        return ("undef", ty)
    if x == "zeroinitializer":
        return ("zero", ty)
    if x == "none":
        return ("c", 0)
    if ty[0] == "f":
        return ("c", parse_float(x, ty[1]))
    if re.match(r"-?[0-9]+$", x):
        return ("c", int(x) & ((1 << ty[1]) - 1) if ty[0] == "i" else int(x))
    if x[:2] == 'c"':
        return ("bytes", cstring(x))
    if x in ("[", "{", "<", "<{"):
        close = {"[": "]", "{": "}", "<": ">", "<{": "}>"}[x]
        vs = []
        if not t.accept(close):
            while True:
                vt = parse_type(t)
                vs.append((vt, parse_value(t, vt)))
                if t.accept(close):
                    break
                t.expect(",")
        return ("agg", ty, vs)
    if x == "splat":
        t.expect("(")
        vt = parse_type(t)
        v = parse_value(t, vt)
        t.expect(")")
        return ("agg", ty, [(vt, v)] * ty[1])
    if x == "getelementptr":
        while t.peek() != "(":
            if t.next() == "inrange":
                t.skip_parens()
        t.expect("(")
        st = parse_type(t)
        t.expect(",")
        ops = []
        while True:
            vt = parse_type(t)
            ops.append((vt, parse_value(t, vt)))
            if t.accept(")"):
                break
            t.expect(",")
        base = ops[0][1]
        off = 0
        cur = st
        for n, (vt, v) in enumerate(ops[1:]):
            assert v[0] == "c", v
            i = v[1]
            if vt[0] == "i" and i >> (vt[1] - 1):
                i -= 1 << vt[1]
            if n == 0:
                off += i * size_of(cur)
            else:
                off += field_off(cur, i)
                cur = elem_ty(cur, i)
        if base[0] == "g":
            return ("g", base[1], base[2] + off)
        return ("c", (base[1] + off) & ((1 << 64) - 1))
    if x in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "addrspacecast"):
        t.expect("(")
        vt = parse_type(t)
        v = parse_value(t, vt)
        t.expect("to")
        dt = parse_type(t)
        t.expect(")")
        if v[0] == "g" and x != "trunc":
            return v
        return ("cexpr", x, vt, v, dt)
    if x in ("sub", "add", "mul", "xor", "and"):
        while t.peek() != "(":
            t.next()
        t.expect("(")
        at = parse_type(t)
        a = parse_value(t, at)
        t.expect(",")
        bt = parse_type(t)
        b = parse_value(t, bt)
        t.expect(")")
        return ("cbin", x, at, a, b)
    raise SyntaxError("value %r (%r) in %r" % (x, ty, " ".join(t.t)[:300]))


class Function:
    def __init__(self, name, header, lines):
        self.name, self.header, self.lines = name, header, lines
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        t = Toks(self.header)
        # return type and params
        self.retty = VOID
        while not t.peek().startswith("@"):
            if t.peek() in ("range", "align", "dereferenceable", "dereferenceable_or_null", "nofpclass") and t.peek(1) == "(":
                t.next()
                t.skip_parens()
            elif is_type_start(t.peek()):
                self.retty = parse_type(t)
            else:
                t.next()
        t.next()
        t.expect("(")
        self.params = []
        auto = 0
        if not t.accept(")"):
            while True:
                if t.accept("..."):
                    t.expect(")")
                    break
                ty = parse_type(t)
                name = None
                d = 0
                byval = None
                while not (d == 0 and t.peek() in (",", ")")):
                    x = t.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                    elif x[0] == "%" and d == 0:
                        name = unq(x)
                    elif x == "byval" and d == 0:
                        byval = True
                if name is None:
                    name = "%%%d" % auto
                if re.match(r"%[0-9]+$", name):
                    auto = int(name[1:]) + 1
                self.params.append((ty, name, byval))
                if t.next() == ")":
                    break
        self.blocks = {}
        self.order = []
        cur = None
        i = 0
        L = self.lines
        n = len(L)
        while i < n:
            s = L[i]
            i += 1
            if not s or s[0] == ";" or s.isspace():
                continue
            if s[0] != " " and s[0] != "\t":
                m = re.match(r'(?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+)):', s)
                if not m:
                    raise SyntaxError(s)
                cur = "%" + (m.group(1) or m.group(2))
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = "%" + str(auto)
                # entry block without a label
                self.blocks[cur] = []
                self.order.append(cur)
            st = s.strip()
            if st[0] == ";" or st.startswith("#dbg"):
                continue
            if re.match(r"(%\S+ = )?(tail |musttail |notail )?(switch|invoke|landingpad)\b", st):
                if "switch " in st[:8]:
                    while "]" not in st:
                        st += " " + L[i].strip()
                        i += 1
                elif "invoke " in st[:60] and re.match(r"(%\S+ = )?invoke ", st):
                    while not re.search(r"\bunwind label \S+", st):
                        st += " " + L[i].strip()
                        i += 1
                else:
                    while i < n and re.match(r"\s+(cleanup|catch|filter)\b", L[i]):
                        st += " " + L[i].strip()
                        i += 1
            self.blocks[cur].append(st)
        del self.lines
        return self


class Module:
    def __init__(self, path):
        self.functions = {}
        self.globals = {}
        self.declares = set()
        self.aliases = {}
        text = re.sub(r"/\*[^*\n]*\*/", "", open(path).read()).split("\n")
        i, n = 0, len(text)
        while i < n:
            s = text[i]
            i += 1
            if not s:
                continue
            c = s[0]
            if c == "d" and s.startswith("define "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', s)
                name = unq("@" + m.group(1))
                j = i
                while text[j] != "}":
                    j += 1
                self.functions[name] = Function(name, s, text[i:j])
                i = j + 1
            elif c == "d" and s.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', s)
                self.declares.add(unq("@" + m.group(1)))
            elif c == "@":
                m = re.match(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', s)
                self.globals[unq(m.group(1))] = m.group(2)
            elif c == "%":
                m = re.match(r"(%\S+) = type (.*)$", s)
                if m:
                    if m.group(2) == "opaque":
                        NAMED[m.group(1)] = ("st", False, ())
                    else:
                        NAMED[m.group(1)] = parse_type(Toks(m.group(2)))

    def global_init(self, name):
        """(type, value or None, constant?)"""
        s = self.globals[name]
        m = re.search(r"(?:^|\s)(global|constant|alias|ifunc)\s", s)
        kind = m.group(1)
        if kind == "alias":
            x = re.match(r"[^()]*\([^()]*\), ", s[m.end():])    # alias of a function
            t = Toks(s[m.end():] if not x else s[m.end():][x.end():])
            if not x:
                parse_type(t)
                t.expect(",")
            ty = parse_type(t)
            v = parse_value(t, ty)
            return kind, ty, v, "thread_local" in s
        t = Toks(s[m.end():])
        ty = parse_type(t)
        ext = re.search(r"\b(external|extern_weak)\b", s[:m.start()])
        v = None if ext else parse_value(t, ty)
        return kind, ty, v, "thread_local" in s[:m.start()]
