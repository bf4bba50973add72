"""Inline assembly: a small interpreter for Intel-syntax integer instructions on register operands."""
import re

import terms as T


def run(E, tmpl, cons, args):
    tmpl, cons = tmpl.strip('"'), cons.strip('"')
    tmpl = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), tmpl)
    outs, ins = [], []
    for c in cons.split(","):
        if c.startswith("~"):
            continue
        (outs if c.startswith("=") else ins).append(c)
    n = len(outs)
    if tmpl.strip() == "" and not outs:
        return None
    if any("*" in c or "m" in c.strip("=&") for c in outs + ins):
        E.unsupported("inline assembly with memory operands")
    regs = {}
    for k, (c, a) in enumerate(zip(ins, args)):
        if c.isdigit():
            regs[int(c)] = a
        else:
            regs[n + k] = a
    flags = {"c": None}

    def operand(s):
        s = s.strip()
        m = re.fullmatch(r"\$\{(\d+):([a-z])\}|\$(\d+)", s)
        if m:
            k = int(m.group(1) or m.group(3))
            w = {None: 64, "e": 32, "k": 32, "r": 64, "q": 64}.get(m.group(2))
            if w is None:
                E.unsupported("inline assembly operand " + s)
            return k, w
        E.unsupported("inline assembly operand " + s)

    def get(k, w):
        if k not in regs:
            E.unsupported("inline assembly reads an undefined register")
        v = regs[k]
        return v if w == 64 else T.trunc(v, 64, w)

    def put(k, w, v):
        regs[k] = v if w == 64 else T.zext(v, w, 64)

    def carry():
        if flags["c"] is None:
            E.unsupported("inline assembly reads an undefined flag")
        return flags["c"]

    for ln in re.split(r"[\n;]", tmpl):
        ln = ln.split("#")[0].split("//")[0].strip()
        if not ln:
            continue
        m = re.fullmatch(r"(\w+)\s+([^,]+)(?:,\s*(.+))?", ln)
        if not m or m.group(1) not in ("add", "sub", "adc", "sbb", "mov", "xor", "and", "or", "neg") or (m.group(3) is None) != (m.group(1) == "neg"):
            E.unsupported("inline assembly " + ln)
        op = m.group(1)
        d, w = operand(m.group(2))
        if op == "neg":
            v = get(d, w)
            flags["c"] = T.ne(v, 0, w)
            put(d, w, T.sub(0, v, w))
            continue
        s3 = m.group(3).strip()
        if re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", s3):
            y = int(s3, 0) & T.mask(w)
            same = False
        else:
            k2, w2 = operand(s3)
            if w2 != w:
                E.unsupported("inline assembly operand sizes " + ln)
            same = k2 == d
            y = None if same and op in ("sbb", "xor") and k2 not in regs else get(k2, w)
        if op == "mov":
            put(d, w, y)
        elif op in ("add", "adc"):
            x = get(d, w)
            ci = T.zext(carry(), 1, w + 1) if op == "adc" else 0
            full = T.add(T.add(T.zext(x, w, w + 1), T.zext(y, w, w + 1), w + 1), ci, w + 1)
            r = T.trunc(full, w + 1, w)
            flags["c"] = T.ult(r, x, w) if op == "add" else T.trunc(T.lshr(full, w, w + 1), w + 1, 1)
            put(d, w, r)
        elif op in ("sub", "sbb"):
            if op == "sbb" and same:
                c = carry()
                put(d, w, T.ite(c, T.mask(w), 0, w))
                continue
            x = get(d, w)
            if op == "sub":
                flags["c"] = T.ult(x, y, w)
                put(d, w, T.sub(x, y, w))
            else:
                ci = T.zext(carry(), 1, w + 1)
                full = T.sub(T.sub(T.zext(x, w, w + 1), T.zext(y, w, w + 1), w + 1), ci, w + 1)
                flags["c"] = T.trunc(T.lshr(full, w, w + 1), w + 1, 1)
                put(d, w, T.trunc(full, w + 1, w))
        else:
            if same and op == "xor":
                r = 0
            else:
                r = {"xor": T.xor, "and": T.and_, "or": T.or_}[op](get(d, w), y, w)
            flags["c"] = 0
            put(d, w, r)
    res = tuple(regs[k] for k in range(n))
    return res if n > 1 else res[0]
