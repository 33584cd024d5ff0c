"""C07: meaning of expressions."""
from front import *
import wasmsem as ws
import c03, c04

TECHNIQUE = "abstract interpretation of expression translation and code generation (MIR), value terms compared with the meaning of the C expression"
RULE = ("For every expression form, every operator and every combination of operand types, `convert_expression_to_ir` is interpreted abstractly "
        "on a syntax tree whose operands are opaque subtrees (arbitrary instructions and an operand of the given type); the instructions it "
        "builds are lowered with the code generator and composed over all paths into terms over the memory at entry. Result type, result value, "
        "memory written and the subtrees evaluated must be those of the C expression.")
ASSUMPTIONS = ["conversions out of range are undefined in C and not constrained", "slots of different variables do not overlap (C13, C17)",
               "the operands' own instructions do not change the other operands (their order of evaluation is unspecified in C)"]
ALL = list(INTS) + list(FLOATS)
PI32, PI8, PU64 = ("PointerTo", "I32"), ("PointerTo", "I8"), ("PointerTo", "U64")
SIZES = {"I8": 1, "U8": 1, "I16": 2, "U16": 2, "I32": 4, "U32": 4, "I64": 8, "U64": 8, "F32": 4, "F64": 8}
NORMAL = ["Mult", "Div", "Mod", "Add", "Sub", "BitwiseAnd", "BitwiseOr", "BitwiseXor"]
COMPARE = ["LessThan", "GreaterThan", "LessThanEq", "GreaterThanEq", "Equal", "NotEqual"]
INTONLY = ("Mod", "BitwiseAnd", "BitwiseOr", "BitwiseXor")


def loaded(t, w):
    return w if t in FLOATS else ext(sign(t), 64 if size_bits(t) == 64 else 32, w)


def cast(s, d, v):
    """alternatives for the value of type d of the value v of type s"""
    return [loaded(d, w) for w in c04.conv(s, d, v)]


def promoted(t):
    return t if t in FLOATS or size_bits(t) >= 32 else "I32"


def sizeof(t):
    return 4 if isinstance(t, tuple) else SIZES[t]


class T:
    """one abstract run of an expression"""

    def __init__(self, ck, F):
        self.ck, self.F = ck, F
        F.reset()
        self.st = State()
        self.names = []

    def named(self, n, t, where="local"):
        v = self.F.var(t, where, "LValue")
        self.names.append((n, v, t))
        return v

    def child(self, n, t, mark=True, vt="LValue"):
        v = self.F.var(t, "local", vt)
        return self.F.kid(n, self.F.src(v), mark), v

    def go(self, e, ret=None, funs=(), **md):
        F = self.F
        prog = getattr(self, "prog", None) or F.program(self.st, **md)
        ctx = F.context(self.st, [(n, v, F.B.irty(t) if not (isinstance(t, tuple) and t and t[0] == "e") else t) for n, v, t in self.names], funs, ret)
        return F.expr(e, self.st, prog, ctx)


def stores_ok(F, m, allowed, user):
    """Every store of m to something other than a temporary must be one of `allowed` {address: (width, alternatives)}, each exactly once."""
    left = dict(allowed)
    for r, o, w, v, a in m.stores:
        if F.own((r, o, w, v, a)):
            continue
        if a in left:
            ww, alts = left.pop(a)
            if w != ww:
                return f"{w} bits are written at {ws.sh(a)}, expected {ww}"
            if v not in alts:
                return f"{ws.sh(v)} is written at {ws.sh(a)}, expected {ws.sh(alts[0])}"
        elif a in user:
            return f"{ws.sh(a)}, which is not assigned to by the expression, is written"
        elif a in allowed:
            return f"{ws.sh(a)} is written twice"
        elif a not in F.temps:
            return f"{ws.sh(a)} is written"
    if left:
        return f"nothing is written at {ws.sh(next(iter(left)))}"
    return None


def judge(ck, F, cls, key, build):
    """build(t) -> (expression, spec); spec: type, alts (values), stores {addr: (width, alternatives)}, kids [names, each evaluated once], err"""
    def one():
        t = T(ck, F)
        e, spec = build(t)
        user = {F.addr(v) for v, _ in F.types}
        outs = t.go(e, **spec.get("go", {}))
        where = ck.where(F.cexpr.name)
        desc = spec["desc"]
        ck.ob(cls, key + "/outcome", bool(outs), f"{desc}: the compiler panics", where)
        for o in outs:
            if spec.get("err"):
                ck.ob(cls, key, o[1] == "Err", f"{desc}: must be rejected, but is accepted", where, f"{desc} is rejected")
                continue
            if o[1] == "Err":
                ck.ob(cls, key, bool(spec.get("mayreject")), f"{desc}: rejected with {o[2][2]}", where)
                continue
            _, _, instrs, src, md = o
            F.adopt(md)
            F.temps = {F.addr(v) for v, _ in F.types} - user
            try:
                paths = F.paths(instrs, md)
            except ws.StackError as ex:
                ck.ob(cls, key, False, f"{desc}: the generated code is not valid: {ex}", where)
                continue
            bad = None
            for conds, events, m in paths:
                bad = bad or verdict(F, spec, conds, events, m, src, md, user)
            if bad is None and "paths" in spec and len(paths) != spec["paths"]:
                bad = f"the code has {len(paths)} paths, expected {spec['paths']}"
            ck.ob(cls, key, bad is None, f"{desc}: {bad}", where, f"{desc}: {len(instrs)} instructions")
    ck.guard(cls, key, one)


def verdict(F, spec, conds, events, m, src, md, user):
    if "case" in spec:
        sp = spec["case"](conds)
        if sp is None:
            return f"there is a path under the conditions {[(ws.sh(a), b) for a, b in conds]}"
        spec = {**spec, **sp}
    kids = [x for x in events if isinstance(x, str)]
    if "order" in spec:
        if kids != spec["order"]:
            return f"the operands {kids} are evaluated, expected {spec['order']} in this order"
    elif sorted(kids) != sorted(spec["kids"]):
        return f"the operands {kids} are evaluated, expected each of {spec['kids']} exactly once"
    calls = [x for x in events if isinstance(x, tuple)]
    if "calls" in spec:
        b = spec["calls"](calls)
        if b:
            return b
    elif calls:
        return f"the code calls or returns: {calls[0][0]}"
    b = stores_ok(F, m, spec.get("stores", {}), user)
    if b:
        return b
    if "type" in spec and spec["type"] is not None:
        if src[2] == "Constant":
            if "const" in spec:
                return None if src[3][0][3][0] == c(spec["const"]) or src[3][0][3][0] == spec["const"] else f"the value is {src[3][0][3][0]}"
            got = None
        else:
            if src[2] != "Var":
                return f"the result is a {src[2]}"
            ty = F.type_of(md, src[3][0])
            got = F.tdesc(ty)
            if got != spec["type"] and ty != spec["type"]:
                return f"the result has type {got}, expected {spec['type']}"
        if "alts" in spec:
            tt = spec["type"]
            if isinstance(tt, tuple) and tt[0] in ("Struct", "Union"):
                v = F.addr(src[3][0])
            elif src[2] == "Var":
                v = F.read_src(m, src, md, "U32" if isinstance(tt, tuple) else tt)
            else:
                v = F.constant(src[3][0][3][0], "U32" if isinstance(tt, tuple) else tt)
            if v not in spec["alts"]:
                return f"the value is {ws.sh(v)}, expected {ws.sh(spec['alts'][0])}"
    return None


def scaled(ti, vi, size):
    """byte offset of vi elements"""
    w = cast(ti, "U32", vi)[0] if not (ti in INTS and size_bits(ti) == 32) else vi
    return ws.iop("Mul", 32, [w, num(32, size)])


def binary(ck, F):
    for op in NORMAL + COMPARE:
        for a in ALL:
            for b in ALL:
                def build(t, op=op, a=a, b=b):
                    ea, va = t.child("$a", a)
                    eb, vb = t.child("$b", b)
                    sp = {"desc": f"{a} {op} {b}", "kids": ["$a", "$b"]}
                    if op in INTONLY and (a in FLOATS or b in FLOATS):
                        sp["err"] = True
                        return F.bin(op, ea, eb), sp
                    T_ = c04.common(a, b)
                    sp["type"] = "I32" if op in COMPARE else T_
                    sp["alts"] = [c03.meaning(op, T_, x, y) for x in cast(a, T_, F.value(va, a)) for y in cast(b, T_, F.value(vb, b))]
                    return F.bin(op, ea, eb), sp
                judge(ck, F, "binary", f"{op}/{a},{b}", build)
    for op in ("LeftShift", "RightShift"):
        for a in ALL:
            for b in ALL:
                def build(t, op=op, a=a, b=b):
                    ea, va = t.child("$a", a)
                    eb, vb = t.child("$b", b)
                    sp = {"desc": f"{a} {op} {b}", "kids": ["$a", "$b"]}
                    if a in FLOATS or b in FLOATS:
                        sp["err"] = True
                        return F.bin(op, ea, eb), sp
                    T_ = promoted(a)
                    sp["type"] = T_
                    sp["alts"] = [c03.meaning(op, T_, x, y) for x in cast(a, T_, F.value(va, a)) for y in cast(b, T_, F.value(vb, b))]
                    return F.bin(op, ea, eb), sp
                judge(ck, F, "shift", f"{op}/{a},{b}", build)


def constants(ck, F):
    """a constant operand has at least type int, and keeps its value"""
    for n in (0, 1, 5, 127, 128, 200, 255, 256, 40000, 65535, 65536, 2147483647):
        for b in ALL:
            for op in ("Add", "LessThan", "Div"):
                for flip in (0, 1):
                    def build(t, op=op, n=n, b=b, flip=flip):
                        eb, vb = t.child("$b", b)
                        T_ = c04.common("I32", b)
                        x = cast("I32", T_, num(32, n))
                        if b in FLOATS:
                            x = x + [ws.fconst(FLOATS[b], c(float(n))), ws.fconst(FLOATS[b], c(n))]
                        y = cast(b, T_, F.value(vb, b))
                        ab = [(p, r) for p in x for r in y]
                        sp = {"desc": f"{n} {op} {b}" if not flip else f"{b} {op} {n}", "kids": ["$b"], "type": "I32" if op in COMPARE else T_}
                        sp["alts"] = [c03.meaning(op, T_, *(xy if not flip else xy[::-1])) for xy in ab]
                        e = F.bin(op, F.int(n), eb) if not flip else F.bin(op, eb, F.int(n))
                        return e, sp
                    judge(ck, F, "constant", f"{op}/{n},{b}/{flip}", build)


def wide_constants(ck, F):
    """a decimal constant that an int can't hold has type long"""
    for n in (2147483648, 4294967295):
        def build(t, n=n):
            ea, va = t.child("$a", "I32")
            return F.bin("LessThan", ea, F.int(n)), {"desc": f"int < {n}", "kids": ["$a"], "type": "I32",
                                                     "alts": [c03.meaning("LessThan", "I64", x, num(64, n)) for x in cast("I32", "I64", F.value(va, "I32"))]}
        judge(ck, F, "wide", str(n), build)


def constant_operands(ck, F):
    """constants in the places of other operands: assigned, converted, selected, shifted, used as an index or an argument"""
    NS = (0, 1, 100, 127, 128, 200, 255, 256, 32768, 65535, 65536, 2147483647, 4294967296, 9223372036854775807)
    for n in NS:
        N = "I32" if n < 1 << 31 else "I64"
        v = num(32 if N == "I32" else 64, n)
        for d in ALL:
            fl = [ws.fconst(FLOATS[d], c(float(n))), ws.fconst(FLOATS[d], c(n))] + c04.conv(N.replace("I", "U"), d, v) if d in FLOATS else []
            for place in ("variable", "pointee"):
                def build(t, n=n, N=N, v=v, d=d, place=place, fl=fl):
                    kids = []
                    if place == "pointee":
                        pt = ("PointerTo", d)
                        ep, vp = t.child("$p", pt)
                        e, addr = F.un("Dereference", ep), F.value(vp, pt)
                        kids.append("$p")
                    else:
                        x = t.named("x", d)
                        e, addr = F.name("x"), F.addr(x)
                    words = c04.conv(N, d, v) + fl
                    return F.E("Assignment", box(e), box(F.int(n))), {"desc": f"{place} {d} = {n}", "kids": kids, "type": d,
                                                                      "alts": [loaded(d, w) for w in words], "stores": {addr: (size_bits(d), words)}, "anytype": True}
                judge(ck, F, "constants", f"{d}={n}/{place}", build)

            def build(t, n=n, N=N, v=v, d=d, fl=fl):
                return F.E("Cast", F.typename(AST[d]), box(F.int(n))), {"desc": f"({d}) {n}", "kids": [], "type": d, "alts": cast(N, d, v) + fl}
            judge(ck, F, "constants", f"({d}){n}", build)
            for flip in (0, 1):
                def build(t, n=n, N=N, v=v, d=d, flip=flip, fl=fl):
                    ec, vc = t.child("$c", "I32")
                    ex, vx = t.child("$x", d)
                    T_ = c04.common(N, d)
                    x = c03.boolean("I32", F.value(vc, "I32"))

                    def case(conds):
                        if len(conds) != 1:
                            return None
                        k = F.implied(conds, x)
                        if k is None:
                            return None
                        if k != bool(flip):
                            return {"order": ["$c"], "alts": cast(N, T_, v) + fl}
                        return {"order": ["$c", "$x"], "alts": cast(d, T_, F.value(vx, d)) if d != T_ else [F.value(vx, d)]}
                    arms = (F.int(n), ex) if not flip else (ex, F.int(n))
                    return F.E("Ternary", box(ec), box(arms[0]), box(arms[1])), {"desc": f"int ? {n} : {d}" if not flip else f"int ? {d} : {n}", "kids": [],
                                                                               "type": T_, "case": case, "paths": 2}
                judge(ck, F, "constants", f"ternary/{n},{d}/{flip}", build)
        for a in INTS:
            if n > 31: break
            for op in ("LeftShift", "RightShift"):
                def build(t, n=n, a=a, op=op):
                    ea, va = t.child("$a", a)
                    T_ = promoted(a)
                    return F.bin(op, ea, F.int(n)), {"desc": f"{a} {op} {n}", "kids": ["$a"], "type": T_,
                                                     "alts": [c03.meaning(op, T_, x, y) for x in cast(a, T_, F.value(va, a)) for y in cast("I32", T_, v)]}
                judge(ck, F, "constants", f"{op}/{a},{n}", build)

                def build(t, n=n, a=a, op=op):
                    ea, va = t.child("$a", a)
                    return F.bin(op, F.int(n), ea), {"desc": f"{n} {op} {a}", "kids": ["$a"], "type": "I32",
                                                     "alts": [c03.meaning(op, "I32", v, y) for y in cast(a, "I32", F.value(va, a))]}
                judge(ck, F, "constants", f"{op}/{n},{a}", build)
        for p in (PI8, PI32, PU64):
            if n > 65536: break
            size = sizeof(p[1])
            pn = f"*{tname(p[1])}"
            for op in ("Add", "Sub"):
                def build(t, n=n, p=p, op=op, size=size, pn=pn):
                    ep, vp = t.child("$p", p)
                    return F.bin(op, ep, F.int(n)), {"desc": f"{pn} {op} {n}", "kids": ["$p"], "type": p,
                                                     "alts": [ws.iop(op, 32, [F.value(vp, p), scaled("I32", v, size)])]}
                judge(ck, F, "constants", f"{op}/{pn},{n}", build)

            def build(t, n=n, p=p, size=size, pn=pn):
                ep, vp = t.child("$p", p)
                a = ws.iop("Add", 32, [F.value(vp, p), scaled("I32", v, size)])
                return F.E("Index", box(ep), box(F.int(n))), {"desc": f"{pn}[{n}]", "kids": ["$p"], "type": p[1], "alts": [loaded(p[1], ("mem", size * 8, a, 0))]}
            judge(ck, F, "constants", f"{pn}[{n}]", build)


def pointers(ck, F):
    for p in (PI8, PI32, PU64, ("PointerTo", PI8), ("PointerTo", "F64")):
        size = sizeof(p[1])
        pn = f"*{tname(p[1])}"
        for i in INTS:
            for op in ("Add", "Sub"):
                for flip in ((0, 1) if op == "Add" else (0,)):
                    def build(t, p=p, i=i, op=op, flip=flip, size=size, pn=pn):
                        ep, vp = t.child("$p", p)
                        ei, vi = t.child("$i", i)
                        off = scaled(i, F.value(vi, i), size)
                        sp = {"desc": f"{pn} {op} {i}" if not flip else f"{i} {op} {pn}", "kids": ["$p", "$i"], "type": p,
                              "alts": [ws.iop("Add" if op == "Add" else "Sub", 32, [F.value(vp, p), off])]}
                        return (F.bin(op, ep, ei) if not flip else F.bin(op, ei, ep)), sp
                    judge(ck, F, "pointer", f"{op}/{pn},{i}/{flip}", build)

            def build(t, p=p, i=i, size=size, pn=pn):
                ep, vp = t.child("$p", p)
                ei, vi = t.child("$i", i)
                a = ws.iop("Add", 32, [F.value(vp, p), scaled(i, F.value(vi, i), size)])
                e = p[1]
                m = ("mem", size * 8, a, 0)
                return F.E("Index", box(ep), box(ei)), {"desc": f"{pn}[{i}]", "kids": ["$p", "$i"], "type": e, "alts": [loaded(e, m)]}
            judge(ck, F, "index", f"{pn},{i}", build)

            def build(t, p=p, i=i, size=size, pn=pn):
                ep, vp = t.child("$p", p)
                ei, vi = t.child("$i", i)
                es, vs = t.child("$s", p[1])
                a = ws.iop("Add", 32, [F.value(vp, p), scaled(i, F.value(vi, i), size)])
                return F.E("Assignment", box(F.E("Index", box(ep), box(ei))), box(es)), {
                    "desc": f"{pn}[{i}] = value", "kids": ["$p", "$i", "$s"], "type": p[1], "alts": [F.value(vs, p[1])],
                    "stores": {a: (size * 8, [F.stored(None, p[1], F.value(vs, p[1]))])}}
            judge(ck, F, "index", f"{pn},{i}/store", build)

            def build(t, p=p, i=i, size=size, pn=pn):
                ep, vp = t.child("$p", p)
                ei, vi = t.child("$i", i)
                a = ws.iop("Add", 32, [F.value(vp, p), scaled(i, F.value(vi, i), size)])
                return F.un("AddressOf", F.E("Index", box(ep), box(ei))), {"desc": f"&{pn}[{i}]", "kids": ["$p", "$i"], "type": p, "alts": [a]}
            judge(ck, F, "index", f"{pn},{i}/address", build)

        for n in (0, 1, 3, 100, 200, 255, 256, 70000):
            for op in ("Add", "Sub"):
                def build(t, p=p, n=n, op=op, size=size, pn=pn):
                    ep, vp = t.child("$p", p)
                    return F.bin(op, ep, F.int(n)), {"desc": f"{pn} {op} {n}", "kids": ["$p"], "type": p,
                                                     "alts": [ws.iop(op, 32, [F.value(vp, p), num(32, n * size)])]}
                judge(ck, F, "pointer", f"{op}/{pn},constant{n}", build)

            def build(t, p=p, n=n, size=size, pn=pn):
                ep, vp = t.child("$p", p)
                m = ("mem", size * 8, ws.iop("Add", 32, [F.value(vp, p), num(32, n * size)]), 0)
                return F.E("Index", box(ep), box(F.int(n))), {"desc": f"{pn}[{n}]", "kids": ["$p"], "type": p[1], "alts": [loaded(p[1], m)]}
            judge(ck, F, "index", f"{pn},constant{n}", build)

        def build(t, p=p, size=size, pn=pn):
            ep, vp = t.child("$p", p)
            eq, vq = t.child("$q", p)
            d = ws.iop("Sub", 32, [F.value(vp, p), F.value(vq, p)])
            return F.bin("Sub", ep, eq), {"desc": f"{pn} - {pn}", "kids": ["$p", "$q"], "type": "I32",
                                          "alts": [ws.iop("DivS", 32, [d, num(32, size)])] + ([d] if size == 1 else [])}
        judge(ck, F, "pointer", f"difference/{pn}", build)
        for op in COMPARE:
            def build(t, p=p, op=op, pn=pn):
                ep, vp = t.child("$p", p)
                eq, vq = t.child("$q", p)
                return F.bin(op, ep, eq), {"desc": f"{pn} {op} {pn}", "kids": ["$p", "$q"], "type": "I32",
                                           "alts": [c03.meaning(op, "U32", F.value(vp, p), F.value(vq, p))]}
            judge(ck, F, "pointer", f"{op}/{pn}", build)
        for op in ("Equal", "NotEqual"):
            def build(t, p=p, op=op, pn=pn):
                ep, vp = t.child("$p", p)
                return F.bin(op, ep, F.int(0)), {"desc": f"{pn} {op} 0", "kids": ["$p"], "type": "I32",
                                                 "alts": [c03.meaning(op, "U32", F.value(vp, p), num(32, 0))]}
            judge(ck, F, "pointer", f"{op}/{pn},0", build)
        for op in ("Mult", "Div", "Mod", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "LeftShift", "RightShift"):
            def build(t, p=p, op=op, pn=pn):
                ep, vp = t.child("$p", p)
                ei, vi = t.child("$i", "I32")
                return F.bin(op, ep, ei), {"desc": f"{pn} {op} int", "kids": [], "err": True}
            judge(ck, F, "pointer", f"{op}/{pn},I32", build)

        def build(t, p=p, size=size, pn=pn):
            ep, vp = t.child("$p", p)
            m = ("mem", size * 8, F.value(vp, p), 0)
            return F.un("Dereference", ep), {"desc": f"*({pn})", "kids": ["$p"], "type": p[1], "alts": [loaded(p[1], m)]}
        judge(ck, F, "pointer", f"dereference/{pn}", build)

        def build(t, p=p, size=size, pn=pn):
            ep, vp = t.child("$p", p)
            return F.un("AddressOf", F.un("Dereference", ep)), {"desc": f"&*({pn})", "kids": ["$p"], "type": p, "alts": [F.value(vp, p)]}
        judge(ck, F, "pointer", f"address/{pn}", build)
    for a in ALL:
        for where in ("local", "global"):
            def build(t, a=a, where=where):
                v = t.named("x", a, where)
                return F.un("AddressOf", F.name("x")), {"desc": f"address of a {where} {a}", "kids": [], "type": ("PointerTo", a), "alts": [F.addr(v)]}
            judge(ck, F, "pointer", f"address/{a}/{where}", build)

        def build(t, a=a):
            ea, va = t.child("$a", a)
            return F.un("Dereference", ea), {"desc": f"*({a})", "kids": [], "err": True}
        judge(ck, F, "pointer", f"dereference/{a}", build)


def unary(ck, F):
    for a in ALL:
        for op in ("Plus", "Minus", "BitwiseNot", "LogicalNot"):
            def build(t, a=a, op=op):
                ea, va = t.child("$a", a)
                T_ = promoted(a)
                sp = {"desc": f"{op} {a}", "kids": ["$a"], "type": T_}
                if op == "BitwiseNot" and a in FLOATS:
                    sp["err"] = True
                    return F.un(op, ea), sp
                w = 64 if size_bits(T_) == 64 else 32
                alts = []
                for v in cast(a, T_, F.value(va, a)):
                    if op == "Plus":
                        # adding -0.0 is the identity; adding 0.0 is not (+(-0.0) is -0.0)
                        alts += [v] + ([c03.meaning("Add", T_, ws.fconst(w, c(-0.0)), v)] if a in FLOATS else [])
                    elif op == "Minus":
                        if a in FLOATS:
                            alts += [c03.meaning("Sub", T_, ws.fconst(w, c(-0.0)), v), ("fop", "neg", w, v)]
                        else:
                            alts.append(ws.iop("Sub", w, [num(w, 0), v]))
                    elif op == "BitwiseNot":
                        alts.append(ws.bitop("xor", w, v, num(w, -1)))
                    else:
                        alts.append(ws.bnot(c03.boolean(T_, v)))
                if op == "LogicalNot":
                    sp["type"] = "I32"
                sp["alts"] = alts
                return F.un(op, ea), sp
            judge(ck, F, "unary", f"{op}/{a}", build)

    def build(t):
        ep, vp = t.child("$p", PI32)
        return F.un("LogicalNot", ep), {"desc": "!pointer", "kids": ["$p"], "type": "I32", "alts": [ws.bnot(c03.boolean("U32", F.value(vp, PI32)))]}
    judge(ck, F, "unary", "LogicalNot/pointer", build)
    for op in ("Plus", "Minus", "BitwiseNot"):
        def build(t, op=op):
            ep, vp = t.child("$p", PI32)
            return F.un(op, ep), {"desc": f"{op} pointer", "kids": [], "err": True}
        judge(ck, F, "unary", f"{op}/pointer", build)


def increments(ck, F):
    for form in ("PostfixIncrement", "PostfixDecrement", "PrefixIncrement", "PrefixDecrement"):
        for a in ALL + [PI8, PI32, PU64]:
            for place in ("variable", "global", "pointee"):
                def build(t, form=form, a=a, place=place):
                    ptr = isinstance(a, tuple)
                    kids = []
                    if place == "pointee":
                        pt = ("PointerTo", a)
                        ep, vp = t.child("$p", pt)
                        e, addr, kids = F.un("Dereference", ep), F.value(vp, pt), ["$p"]
                    else:
                        v = t.named("x", a, "local" if place == "variable" else "global")
                        e, addr = F.name("x"), F.addr(v)
                    old = loaded("U32" if ptr else a, ("mem", size_bits(a), addr, 0))
                    op = "Add" if "Increment" in form else "Sub"
                    if ptr:
                        new = [ws.iop(op, 32, [old, num(32, sizeof(a[1]))])]
                        st = new
                    else:
                        P = promoted(a)
                        one = [ws.fconst(FLOATS[P], c(1)), ws.fconst(FLOATS[P], c(1.0))] if P in FLOATS else [num(64 if size_bits(P) == 64 else 32, 1)]
                        res = [c03.meaning(op, P, x, o) for x in cast(a, P, old) for o in one]
                        st = [w for r in res for w in c04.conv(P, a, r)]
                        new = [loaded(a, w) for w in st]
                    return F.E(form, box(e)), {"desc": f"{form} of a {place} {tname(a)}", "kids": kids, "type": a,
                                               "alts": new if form.startswith("Prefix") else [old],
                                               "stores": {addr: (size_bits(a), st)}}
                judge(ck, F, "increment", f"{form}/{tname(a)}{tname(a[1]) if isinstance(a, tuple) else ''}/{place}", build)
        def build(t, form=form):
            return F.E(form, box(F.int(3))), {"desc": f"{form} of a constant", "kids": [], "err": True}
        judge(ck, F, "increment", f"{form}/constant", build)


def assignments(ck, F):
    for d in ALL:
        for s_ in ALL:
            for place in ("variable", "global", "pointee"):
                def build(t, d=d, s_=s_, place=place):
                    es, vs = t.child("$s", s_)
                    kids = ["$s"]
                    if place == "pointee":
                        pt = ("PointerTo", d)
                        ep, vp = t.child("$p", pt)
                        e, addr = F.un("Dereference", ep), F.value(vp, pt)
                        kids.append("$p")
                    else:
                        v = t.named("x", d, "local" if place == "variable" else "global")
                        e, addr = F.name("x"), F.addr(v)
                    words = c04.conv(s_, d, F.value(vs, s_))
                    sp = {"desc": f"{place} {d} = {s_}", "kids": kids, "type": d, "alts": [loaded(d, w) for w in words],
                          "stores": {addr: (size_bits(d), words)}, "mayreject": narrowing(s_, d)}
                    return F.E("Assignment", box(e), box(es)), sp
                judge(ck, F, "assignment", f"{d}={s_}/{place}", build)
    for what in ("constant", "sum"):
        def build(t, what=what):
            ea, va = t.child("$a", "I32")
            lhs = F.int(1) if what == "constant" else F.bin("Add", ea, F.int(1))
            return F.E("Assignment", box(lhs), box(F.int(2))), {"desc": f"assignment to a {what}", "kids": [], "err": True}
        judge(ck, F, "assignment", f"to-{what}", build)
    for p in (PI8, PI32, PU64):
        def build(t, p=p):
            es, vs = t.child("$s", p)
            v = t.named("x", p)
            return F.E("Assignment", box(F.name("x")), box(es)), {"desc": "pointer = pointer", "kids": ["$s"], "type": p, "alts": [F.value(vs, p)],
                                                                  "stores": {F.addr(v): (32, [F.value(vs, p)])}}
        judge(ck, F, "assignment", f"pointer/{tname(p[1])}", build)


def narrowing(s_, d):
    """conversions the compiler does not support; it rejects them (recorded under C04)"""
    return s_ in FLOATS and s_ != d and not (s_ == "F32" and d == "F64")


def casts(ck, F):
    for d in ALL:
        for s_ in ALL:
            def build(t, d=d, s_=s_):
                es, vs = t.child("$s", s_)
                return F.E("Cast", F.typename(AST[d]), box(es)), {"desc": f"({d}) {s_}", "kids": ["$s"], "type": d,
                                                                  "alts": cast(s_, d, F.value(vs, s_)), "mayreject": narrowing(s_, d)}
            judge(ck, F, "cast", f"{s_}->{d}", build)

    def build(t):
        es, vs = t.child("$s", PI32)
        return F.E("Cast", F.typename(("PointerTo", AST["I8"])), box(es)), {"desc": "(char *) pointer", "kids": ["$s"], "type": PI8, "alts": [F.value(vs, PI32)]}
    judge(ck, F, "cast", "pointer", build)
    for i in INTS:
        def build(t, i=i):
            es, vs = t.child("$s", i)
            return F.E("Cast", F.typename(("PointerTo", AST["I8"])), box(es)), {
                "desc": f"(char *) {i}", "kids": ["$s"], "type": PI8, "alts": [scaled(i, F.value(vs, i), 1)], "mayreject": True}
        judge(ck, F, "cast", f"{i}->pointer", build)


def control(ck, F):
    """&&, ||, ?: and the comma operator"""
    for a in ALL + [PI32]:
        for b in ("I32", "F64", "U8", "I64", PI32):
            for op in ("LogicalAnd", "LogicalOr"):
                for mark in (True, False):
                    def build(t, a=a, b=b, op=op, mark=mark):
                        ea, va = t.child("$a", a)
                        eb, vb = t.child("$b", b, mark)
                        x = c03.boolean("U32" if a == PI32 else promoted(a), F.value(va, a))
                        y = c03.boolean("U32" if b == PI32 else promoted(b), F.value(vb, b))
                        both = ws.bcomb("and" if op == "LogicalAnd" else "or", x, y)
                        short = num(32, 0 if op == "LogicalAnd" else 1)

                        def case(conds):
                            if not conds:
                                return {"order": ["$a"] + (["$b"] if mark else []), "alts": [both]} if not mark else None
                            if len(conds) != 1:
                                return None
                            k = F.implied(conds, x)
                            if k is None:
                                return None
                            if k == (op == "LogicalAnd"):
                                return {"order": ["$a", "$b"][:2 if mark else 1], "alts": [y]}
                            return {"order": ["$a"], "alts": [short]}
                        return F.bin(op, ea, eb), {"desc": f"{tname(a)} {op} {tname(b)}", "kids": [], "type": "I32", "case": case}
                    judge(ck, F, "logical", f"{op}/{tname(a)},{tname(b)}/{mark}", build)
    for cnd in ALL + [PI32]:
        arms = [("I32", "I32"), ("I8", "U8"), ("I64", "U32"), ("F64", "I32"), ("F32", "U64"), (PI32, PI32), ("U16", "I64")]
        for a, b in arms + [(x, y) for x in ALL for y in ALL if cnd == "I32" and (x, y) not in arms]:
            def build(t, cnd=cnd, a=a, b=b):
                ec, vc = t.child("$c", cnd)
                ea, va = t.child("$a", a)
                eb, vb = t.child("$b", b)
                T_ = a if isinstance(a, tuple) else c04.common(a, b)
                x = c03.boolean("U32" if cnd == PI32 else promoted(cnd), F.value(vc, cnd))

                def case(conds):
                    if len(conds) != 1:
                        return None
                    k = F.implied(conds, x)
                    if k is None:
                        return None
                    n, ty, v = ("$a", a, va) if k else ("$b", b, vb)
                    return {"order": ["$c", n], "alts": cast(ty, T_, F.value(v, ty)) if ty != T_ else [F.value(v, ty)]}
                return F.E("Ternary", box(ec), box(ea), box(eb)), {"desc": f"{tname(cnd)} ? {tname(a)} : {tname(b)}", "kids": [], "type": T_,
                                                                   "case": case, "paths": 2}
            judge(ck, F, "ternary", f"{tname(cnd)}?{tname(a)}:{tname(b)}", build)
    for b in ALL:
        def build(t, b=b):
            ea, va = t.child("$a", "I64")
            eb, vb = t.child("$b", b)
            return F.E("ExpressionList", box(ea), box(eb)), {"desc": f"long, {b}", "kids": [], "order": ["$a", "$b"], "type": b, "alts": [F.value(vb, b)]}
        judge(ck, F, "comma", b, build)


MEMBERS = [("c", "I8"), ("s", "I16"), ("i", "I32"), ("d", "F64"), ("p", PI32), ("u", "U16"), ("l", "I64"), ("f", "F32"), ("b", "U8")]


def members(ck, F):
    for kind in ("Struct", "Union"):
        off = 0
        for n, mt in MEMBERS:
            for form in ("direct", "indirect", "deref", "global"):
                for act in ("read", "write", "address", "increment"):
                    def build(t, kind=kind, n=n, mt=mt, form=form, act=act, off=off):
                        t.prog = F.program(t.st)
                        ty = F.struct(t.st, t.prog, MEMBERS, kind)
                        # the program's own metadata now has the type; variables are added to it
                        kids = []
                        if form in ("direct", "global"):
                            v = F.var(ty, "local" if form == "direct" else "global", "LValue")
                            base, o = F.addr(v), F.name("o")
                            t.names.append(("o", v, ty))
                        else:
                            pt = F.B.new("IrType", "PointerTo", box(ty))
                            v = F.var(pt, "local", "LValue")
                            base = F.value(v, PI32)
                            o = F.kid("$p", F.src(v))
                            kids = ["$p"]
                        md = F.B.get(F.I.freeze(t.st, t.prog), "program_metadata")
                        vt = list(F.B.get(md, "var_types")[2]) + [x for x in F.types if x not in F.B.get(md, "var_types")[2]]
                        pr = F.I.freeze(t.st, t.prog)
                        F.I.store(t.st, t.prog[1], (), F.B.upd(pr, program_metadata=F.B.upd(md, var_types=F.B.map(vt))))
                        if form == "indirect":
                            e = F.E("IndirectMemberSelection", box(o), F.ident(n))
                        elif form == "deref":
                            e = F.E("DirectMemberSelection", box(F.un("Dereference", o)), F.ident(n))
                        else:
                            e = F.E("DirectMemberSelection", box(o), F.ident(n))
                        addr = ws.add(32, base, num(32, 0 if kind == "Union" else off))
                        mem = ("mem", size_bits(mt), addr, 0)
                        lt = "U32" if isinstance(mt, tuple) else mt
                        sp = {"desc": f"{act} of member {n} of a {kind.lower()} ({form})", "kids": kids, "type": mt, "alts": [loaded(lt, mem)]}
                        if act == "write":
                            es, vs = t.child("$s", mt)
                            md = F.B.get(F.I.freeze(t.st, t.prog), "program_metadata")
                            F.I.store(t.st, t.prog[1], (), F.B.upd(F.I.freeze(t.st, t.prog), program_metadata=F.B.upd(
                                md, var_types=F.B.map(list(F.B.get(md, "var_types")[2]) + [F.types[-1]]))))
                            val = F.value(vs, mt)
                            sp.update(kids=kids + ["$s"], alts=[val], stores={addr: (size_bits(mt), [F.stored(None, lt, val)])})
                            e = F.E("Assignment", box(e), box(es))
                        elif act == "address":
                            sp.update(type=("PointerTo", mt), alts=[addr])
                            e = F.un("AddressOf", e)
                        elif act == "increment":
                            old = loaded(lt, mem)
                            if isinstance(mt, tuple):
                                words = [ws.iop("Add", 32, [old, num(32, 4)])]
                            else:
                                P = promoted(mt)
                                one = [ws.fconst(FLOATS[P], c(1)), ws.fconst(FLOATS[P], c(1.0))] if P in FLOATS else [num(64 if size_bits(P) == 64 else 32, 1)]
                                words = [w for x in cast(mt, P, old) for o_ in one for w in c04.conv(P, mt, c03.meaning("Add", P, x, o_))]
                            sp.update(alts=[old], stores={addr: (size_bits(mt), words)})
                            e = F.E("PostfixIncrement", box(e))
                        return e, sp
                    judge(ck, F, "member", f"{kind}/{n}/{form}/{act}", build)
            off += sizeof(mt)

        def build(t, kind=kind):
            t.prog = F.program(t.st)
            ty = F.struct(t.st, t.prog, MEMBERS, kind)
            v = F.var(ty, "local", "LValue")
            t.names.append(("o", v, ty))
            md = F.B.get(F.I.freeze(t.st, t.prog), "program_metadata")
            F.I.store(t.st, t.prog[1], (), F.B.upd(F.I.freeze(t.st, t.prog), program_metadata=F.B.upd(
                md, var_types=F.B.map(list(F.B.get(md, "var_types")[2]) + [F.types[-1]]))))
            return F.E("DirectMemberSelection", box(F.name("o")), F.ident("nosuchmember")), {"desc": "selection of a member that does not exist", "kids": [], "err": True}
        judge(ck, F, "member", f"{kind}/absent", build)


def sizes(ck, F):
    for a in ALL + [PI8, PI32]:
        def build(t, a=a):
            ea, va = t.child("$a", a)
            return F.E("SizeOfExpr", box(ea)), {"desc": f"sizeof({tname(a)} expression)", "kids": [], "type": None, "value": sizeof(a)}
        judge_size(ck, F, f"expression/{tname(a)}{tname(a[1]) if isinstance(a, tuple) else ''}", build)

        def build(t, a=a):
            return F.E("SizeOfType", F.typename(("PointerTo", AST[a[1]]) if isinstance(a, tuple) else AST[a])), {
                "desc": f"sizeof({tname(a)})", "kids": [], "type": None, "value": sizeof(a)}
        judge_size(ck, F, f"type/{tname(a)}{tname(a[1]) if isinstance(a, tuple) else ''}", build)


def judge_size(ck, F, key, build):
    """a sizeof expression is a constant of an integer type and evaluates nothing"""
    def b2(t):
        e, sp = build(t)
        want = sp["value"]
        sp["alts"] = [num(32, want), num(64, want)]
        sp["anytype"] = True
        return e, sp
    judge(ck, F, "sizeof", key, b2)


def calls(ck, F):
    """arguments are converted to the parameter types, evaluated once, and the result has the return type"""
    B = F.B
    for ret in ["Void"] + ALL + [PI8]:
        for params, args, var in (((), (), False), (("I32",), ("I8",), False), (("F64", "I64"), ("I32", "U32"), False),
                                  (("U8", "F32", PI32), ("I32", "I32", PI32), False), (("I32",), ("I64",), False),
                                  ((PI8,), (PI8, "I8", "U16", "F32", "I64", "F64"), True), (("U64", "I16"), ("I16", "U64"), False)):
            def build(t, ret=ret, params=params, args=args, var=var):
                kids, es, want = [], [], []
                for k, a in enumerate(args):
                    e, v = t.child(f"$a{k}", a)
                    kids.append(f"$a{k}")
                    es.append(e)
                    P = params[k] if k < len(params) else ("F64" if a == "F32" else promoted(a) if not isinstance(a, tuple) else a)
                    want.append((P, [F.value(v, a)] if P == a else cast(a, P, F.value(v, a))))
                t.prog = F.program(t.st)
                fid = F.function(t.st, t.prog, "f", ret, params, var)

                def calls_ok(cs):
                    if len(cs) != 1 or cs[0][0] != "call":
                        return f"the code makes {len(cs)} calls"
                    _, f, av, r = cs[0]
                    if f != fid:
                        return "another function is called"
                    if len(av) != len(want):
                        return f"{len(av)} arguments are passed, expected {len(want)}"
                    for k, ((ty, v), (wt, wv)) in enumerate(zip(av, want)):
                        if ty != wt and tname(ty) != tname(wt):
                            return f"argument {k} is passed as {ty}, expected {wt}"
                        if v not in wv:
                            return f"argument {k} is {ws.sh(v)}, expected {ws.sh(wv[0])}"
                    return None
                sp = {"desc": f"call of {tname(ret)}({', '.join(tname(p) for p in params)}{', ...' if var else ''}) with {', '.join(tname(a) for a in args)}",
                      "kids": kids, "calls": calls_ok, "type": ret, "go": {"funs": [("f", fid)]}}
                return F.E("FunctionCall", box(F.name("f")), q(*es)), sp
            judge(ck, F, "call", f"{tname(ret)}({','.join(tname(p) for p in params)}{'...' if var else ''})/{','.join(tname(a) for a in args)}", build)


def atoms(ck, F):
    for n in (0, 1, 127, 255, 256, 65536, 2**31 - 1, 2**31, 2**40):
        def build(t, n=n):
            return F.int(n), {"desc": f"constant {n}", "kids": [], "type": "const", "const": n}
        judge(ck, F, "atom", f"int/{n}", build)
    for a in ALL + [PI8]:
        for where in ("local", "global"):
            def build(t, a=a, where=where):
                v = t.named("x", a, where)
                return F.name("x"), {"desc": f"{where} variable of type {tname(a)}", "kids": [], "type": a, "alts": [F.value(v, a)]}
            judge(ck, F, "atom", f"variable/{tname(a)}/{where}", build)

    def build(t):
        return F.name("nosuchname"), {"desc": "an undeclared name", "kids": [], "err": True}
    judge(ck, F, "atom", "undeclared", build)


AST = {}


def check(ck):
    F = Front(ck)
    arith_names(F)
    binary(ck, F)
    constants(ck, F)
    wide_constants(ck, F)
    constant_operands(ck, F)
    pointers(ck, F)
    unary(ck, F)
    increments(ck, F)
    assignments(ck, F)
    casts(ck, F)
    control(ck, F)
    members(ck, F)
    sizes(ck, F)
    calls(ck, F)
    atoms(ck, F)
    for k, n in (("binary", 1000), ("shift", 150), ("constant", 300), ("constants", 600), ("pointer", 120), ("index", 80), ("unary", 40), ("increment", 100),
                 ("assignment", 250), ("cast", 80), ("logical", 100), ("ternary", 150), ("member", 100), ("sizeof", 20), ("call", 60), ("atom", 25)):
        ck.floor(k, n)


def arith_names(F):
    """names of the syntax tree's arithmetic types, by the intermediate type they denote"""
    AST.update({"I8": "I8", "U8": "U8", "I16": "I16", "U16": "U16", "I32": "I32", "U32": "U32", "I64": "I64", "U64": "U64", "F32": "F32", "F64": "F64"})
