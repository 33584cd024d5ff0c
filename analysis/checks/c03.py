"""C03: operator selection."""
from gen import *
import wasmsem as ws

TECHNIQUE = "abstract interpretation of the code generator (MIR), value terms of the emitted WebAssembly compared with the operator's meaning"
RULE = ("For every intermediate operator, operand type and operand kind (variable in a frame slot, global variable, constant), "
        "`convert_ir_instr_to_wasm` is interpreted abstractly with symbolic slots and constants; the emitted sequence is normalised to a "
        "term over the memory at entry and must equal the operator's meaning at that type, stored in the destination and nowhere else.")
ASSUMPTIONS = ["slots of different variables do not overlap (C13, C17, C29)", "WebAssembly instructions mean what the specification says"]

ARITH = {"Mult": "Mul", "Div": "Div", "Mod": "Rem", "Add": "Add", "Sub": "Sub"}
SHIFT = {"LeftShift": "Shl", "RightShift": "Shr"}
BITS = {"BitwiseAnd": "And", "BitwiseOr": "Or", "BitwiseXor": "Xor"}
CMP = {"LessThan": "Lt", "GreaterThan": "Gt", "LessThanEq": "Le", "GreaterThanEq": "Ge", "Equal": "Eq", "NotEqual": "Ne"}
# small types are promoted before any operator is applied (C07), so operands are never narrower than int
ITYPES = ["I32", "U32", "I64", "U64"]


def meaning(op, t, a, b):
    """term of a op b, both values of type t"""
    if t in FLOATS:
        w = FLOATS[t]
        if op in ARITH:
            o = {"Mult": "mul", "Div": "div", "Add": "add", "Sub": "sub"}[op]
            xs = (a, b)
            if o in ("add", "mul"):
                xs = tuple(sorted(xs, key=ws.key))
            return ("fop", o, w) + xs
        return {"LessThan": lambda: ws.batom(("flt", w, a, b)), "GreaterThan": lambda: ws.batom(("flt", w, b, a)),
                "LessThanEq": lambda: ws.batom(("fle", w, a, b)), "GreaterThanEq": lambda: ws.batom(("fle", w, b, a)),
                "Equal": lambda: ws.feq(w, a, b), "NotEqual": lambda: ws.bnot(ws.feq(w, a, b))}[op]()
    w = 64 if size_bits(t) == 64 else 32
    s = sign(t)
    sg = "s" if s == "s" else "u"
    if op in ("Div", "Mod"):
        return ws.iop(ARITH[op] + sg.upper(), w, [a, b])
    if op in ARITH:
        return ws.iop(ARITH[op], w, [a, b])
    if op == "LeftShift":
        return ws.iop("Shl", w, [a, b])
    if op == "RightShift":
        return ws.iop("Shr" + sg.upper(), w, [a, b])
    if op in BITS:
        return ws.bitop(BITS[op].lower(), w, a, b)
    return {"LessThan": lambda: ws.lt(sg, w, a, b), "GreaterThan": lambda: ws.lt(sg, w, b, a),
            "LessThanEq": lambda: ws.bnot(ws.lt(sg, w, b, a)), "GreaterThanEq": lambda: ws.bnot(ws.lt(sg, w, a, b)),
            "Equal": lambda: ws.eq(w, a, b), "NotEqual": lambda: ws.bnot(ws.eq(w, a, b))}[op]()


def boolean(t, v):
    return ws.ftrue(FLOATS[t], v) if t in FLOATS else ws.to_bool(64 if size_bits(t) == 64 else 32, v)


KINDS = ["local", "global", "const"]


def operand(G, t, kind, name):
    """(Src, value term) or None"""
    if kind == "const":
        if t in FLOATS:
            n = G.I.sym("const_" + name, ("prim", "f64"))
            return G.const(n, "Float"), G.constant(n, t)
        n = G.I.sym("const_" + name, ("prim", "i128"))
        return G.const(n), G.constant(n, t)
    v = G.var(t, kind)
    return G.src(v), G.value(v, t)


def judge(ck, G, cls, key, instr, dest, dt, want, desc):
    def one():
        outs = G.code(instr)
        ck.ob(cls, key + "/compiles", bool(outs), f"{desc}: no code can be generated (the compiler panics)", ck.where(G.conv.name))
        for st, items in outs:
            try:
                m = G.machine(items)
            except ws.StackError as e:
                ck.ob(cls, key, False, f"{desc}: the generated code is not valid: {e}", ck.where(G.conv.name))
                continue
            exp = G.stored(dest, dt, want)
            bad = None
            if m.stack:
                bad = "a value is left on the operand stack"
            elif m.ended or m.effects:
                bad = "the code transfers control"
            elif len(m.stores) != 1:
                bad = f"the code writes memory {len(m.stores)} times"
            else:
                r, o, w, t, a = m.stores[0]
                if a != G.addr(dest):
                    bad = f"the result is written to {ws.sh(a)}, not to the destination {ws.sh(G.addr(dest))}"
                elif w != size_bits(dt):
                    bad = f"{w} bits are written to a destination of type {tname(dt)}"
                elif t != exp:
                    bad = f"the value stored is {ws.sh(t)}, expected {ws.sh(exp)}"
            ck.ob(cls, key, bad is None, f"{desc}: {bad}", ck.where(G.conv.name), f"{desc} -> {ws.sh(exp)}")
    ck.guard(cls, key, one)


def check(ck):
    G = Gen(ck)
    types = ITYPES + list(FLOATS)
    combos = [("local", "local"), ("local", "const"), ("const", "local"), ("global", "local"), ("local", "global"), ("const", "const")]
    for op in list(ARITH) + list(SHIFT) + list(BITS):
        for t in types:
            if t in FLOATS and (op == "Mod" or op not in ARITH):
                continue
            for ka, kb in combos:
                for dk in ("local", "global"):
                    if dk == "global" and (ka, kb) != ("local", "local"):
                        continue
                    G.reset()
                    d = G.var(t, dk)
                    (sa, va), (sb, vb) = operand(G, t, ka, "a"), operand(G, t, kb, "b")
                    judge(ck, G, "arith", f"{op}/{t}/{ka},{kb},{dk}", G.instr(op, d, sa, sb), d, t, meaning(op, t, va, vb),
                          f"{op} of {t} ({ka}, {kb})")
    # pointer arithmetic: already scaled by the front end (C07)
    for op in ("Add", "Sub"):
        for ka, kb in combos[:3]:
            G.reset()
            d = G.var(PTR)
            (sa, va), (sb, vb) = operand(G, PTR, ka, "a"), operand(G, "I32", kb, "b")
            judge(ck, G, "arith", f"{op}/Ptr/{ka},{kb}", G.instr(op, d, sa, sb), d, PTR, meaning(op, "U32", va, vb), f"{op} of pointers ({ka}, {kb})")
    for op in CMP:
        for t in types + [PTR]:
            for ka, kb in combos:
                if (ka, kb) == ("const", "const"):
                    continue
                G.reset()
                d = G.var("I32")
                (sa, va), (sb, vb) = operand(G, t, ka, "a"), operand(G, t, kb, "b")
                judge(ck, G, "compare", f"{op}/{tname(t)}/{ka},{kb}", G.instr(op, d, sa, sb), d, "I32",
                      meaning(op, "U32" if t == PTR else t, va, vb), f"{op} of {tname(t)} ({ka}, {kb})")
    # !, &&, ||: operands keep their own types, the result is an int
    lts = ["I8", "U8", "I16", "U16"] + types + [PTR]
    for t in lts:
        for k in ("local", "global"):
            G.reset()
            d = G.var("I32")
            sa, va = operand(G, t, k, "a")
            judge(ck, G, "logical", f"LogicalNot/{tname(t)}/{k}", G.instr("LogicalNot", d, sa), d, "I32", ws.bnot(boolean(t, va)),
                  f"! of {tname(t)} ({k})")
        for op in ("LogicalAnd", "LogicalOr"):
            if not G.B.has("Instruction", op):
                continue
            for t2 in lts:
                G.reset()
                d = G.var("I32")
                (sa, va), (sb, vb) = operand(G, t, "local", "a"), operand(G, t2, "local", "b")
                f = ws.bcomb("and" if op == "LogicalAnd" else "or", boolean(t, va), boolean(t2, vb))
                judge(ck, G, "logical", f"{op}/{tname(t)},{tname(t2)}", G.instr(op, d, sa, sb), d, "I32", f, f"{op} of {tname(t)} and {tname(t2)}")
    for t in ITYPES:
        for k in KINDS:
            G.reset()
            d = G.var(t)
            sa, va = operand(G, t, k, "a")
            w = 64 if size_bits(t) == 64 else 32
            judge(ck, G, "arith", f"BitwiseNot/{t}/{k}", G.instr("BitwiseNot", d, sa), d, t, ws.bitop("xor", w, va, num(w, -1)), f"~ of {t} ({k})")
    ck.floor("arith", 300)
    ck.floor("compare", 150)
    ck.floor("logical", 100)
