"""One instance of every kind of intermediate instruction for every type and kind of operand the middle end gives it."""
import re
from gen import *

SCALARS = list(INTS) + list(FLOATS) + [PTR]
WIDE = ["I32", "U32", "I64", "U64"]
BINOPS = ["Mult", "Div", "Mod", "Add", "Sub", "LeftShift", "RightShift", "BitwiseAnd", "BitwiseOr", "BitwiseXor"]
COMPARES = ["LessThan", "GreaterThan", "LessThanEq", "GreaterThanEq", "Equal", "NotEqual"]
KINDS = ("local", "global", "const")
AST_ARITH = {"i8": "I8", "u8": "U8", "i16": "I16", "u16": "U16", "i32": "I32", "u32": "U32", "i64": "I64", "u64": "U64", "f32": "F32", "f64": "F64", "ptr": PTR}


def conversion(name):
    m = re.match(r"^([IUFiuf]\d+|[Pp]tr)[tT]o([IUFiuf]\d+|[Pp]tr)$", name)
    if not m:
        return None
    return AST_ARITH[m.group(1).lower()], AST_ARITH[m.group(2).lower()]


def operand(G, t, kind, n):
    if kind == "const":
        if t in FLOATS:
            return G.const(G.I.sym("const_" + n, ("prim", "f64")), "Float")
        return G.const(G.I.sym("const_" + n, ("prim", "i128")))
    return G.src(G.var(t, kind))


def corpus(G):
    """[(variant, key, build)]; build() -> an instruction, over fresh variables of G. The last element tells which operands are written."""
    out = []

    def add_(variant, key, build):
        out.append((variant, key, build))

    for t in SCALARS:
        for k in KINDS:
            for dk in ("local", "global"):
                add_("SimpleAssignment", f"{tname(t)}/{k}/{dk}", lambda t=t, k=k, dk=dk: G.instr("SimpleAssignment", G.var(t, dk), operand(G, t, k, "a")))
        for k in ("local", "global"):
            add_("LoadFromAddress", f"{tname(t)}/{k}", lambda t=t, k=k: G.instr("LoadFromAddress", G.var(t), operand(G, ("PointerTo", t), k, "a")))
            for k2 in KINDS:
                add_("StoreToAddress", f"{tname(t)}/{k}/{k2}",
                     lambda t=t, k=k, k2=k2: G.instr("StoreToAddress", G.var(("PointerTo", t), k), operand(G, t, k2, "a")))
            add_("AddressOf", f"{tname(t)}/{k}", lambda t=t, k=k: G.instr("AddressOf", G.var(("PointerTo", t)), operand(G, t, k, "a")))
        add_("DeclareVariable", tname(t), lambda t=t: G.instr("DeclareVariable", G.var(t)))
        add_("ReferenceVariable", tname(t), lambda t=t: G.instr("ReferenceVariable", G.var(t)))
        for k in ("local", "global"):
            add_("LogicalNot", f"{tname(t)}/{k}", lambda t=t, k=k: G.instr("LogicalNot", G.var("I32"), operand(G, t, k, "a")))
        for t2 in SCALARS:
            for op in ("LogicalAnd", "LogicalOr"):
                add_(op, f"{tname(t)},{tname(t2)}",
                     lambda t=t, t2=t2, op=op: G.instr(op, G.var("I32"), operand(G, t, "local", "a"), operand(G, t2, "local", "b")))
    add_("AllocateVariable", "const", lambda: G.instr("AllocateVariable", G.var(ARR), operand(G, "I32", "const", "a")))
    for k in ("local", "global"):
        add_("AllocateVariable", k, lambda k=k: G.instr("AllocateVariable", G.var(ARR), operand(G, "I32", k, "a")))
    for op in BINOPS:
        for t in WIDE + list(FLOATS):
            if t in FLOATS and op not in ("Mult", "Div", "Add", "Sub"):
                continue
            for ka in KINDS:
                for kb in KINDS:
                    add_(op, f"{t}/{ka},{kb}", lambda op=op, t=t, ka=ka, kb=kb: G.instr(op, G.var(t), operand(G, t, ka, "a"), operand(G, t, kb, "b")))
    for op in ("Add", "Sub"):
        for ka, kb in (("local", "local"), ("local", "const"), ("global", "local")):
            add_(op, f"pointer/{ka},{kb}", lambda op=op, ka=ka, kb=kb: G.instr(op, G.var(PTR), operand(G, PTR, ka, "a"), operand(G, "I32", kb, "b")))
    for op in COMPARES:
        for t in WIDE + list(FLOATS) + [PTR]:
            for ka in KINDS:
                for kb in KINDS:
                    if ka == kb == "const":
                        continue
                    add_(op, f"{tname(t)}/{ka},{kb}",
                         lambda op=op, t=t, ka=ka, kb=kb: G.instr(op, G.var("I32"), operand(G, t, ka, "a"), operand(G, t, kb, "b")))
    for t in WIDE:
        for k in KINDS:
            add_("BitwiseNot", f"{t}/{k}", lambda t=t, k=k: G.instr("BitwiseNot", G.var(t), operand(G, t, k, "a")))
    for name in G.B.variants("Instruction"):
        cv = conversion(name)
        if cv:
            for k in KINDS:
                for dk in ("local", "global"):
                    add_(name, f"{k}/{dk}", lambda name=name, cv=cv, k=k, dk=dk: G.instr(name, G.var(cv[1], dk), operand(G, cv[0], k, "a")))

    def fun(r, ps, var=False):
        return G.fun(("Function", r, list(ps), var), 42)

    def null(t):
        G.null = G.var(t)
        return G.null

    for r in ["Void"] + SCALARS:
        for ps, args, var in (((), (), False), ((r if r != "Void" else "I8",), None, False), (("I32", "F64"), None, False), ((PTR,), (PTR, "F64", "I64", "U32"), True)):
            for k in KINDS:
                a = args if args is not None else ps
                if k == "const" and not a:
                    continue
                kinds = [k if n < len(ps) or k != "const" else "local" for n in range(len(a))]
                key = f"{tname(r)}({','.join(tname(p) for p in ps)}{'...' if var else ''})/{k}"
                if r != "Void":
                    add_("Call", key, lambda r=r, ps=ps, a=a, var=var, kinds=kinds:
                         G.instr("Call", G.var(r), fun(r, ps, var), q(*[operand(G, t, kd, f"a{n}") for n, (t, kd) in enumerate(zip(a, kinds))])))
                add_("Call", key + "/unused", lambda r=r, ps=ps, a=a, var=var, kinds=kinds:
                     G.instr("Call", null(r), fun(r, ps, var), q(*[operand(G, t, kd, f"a{n}") for n, (t, kd) in enumerate(zip(a, kinds))])))
                add_("TailCall", key, lambda r=r, ps=ps, a=a, var=var, kinds=kinds:
                     G.instr("TailCall", fun(r, ps, var), q(*[operand(G, t, kd, f"a{n}") for n, (t, kd) in enumerate(zip(a, kinds))])))
    for t in SCALARS:
        for k in ("local", "global"):
            add_("Ret", f"{tname(t)}/{k}", lambda t=t, k=k: G.instr("Ret", some(operand(G, t, k, "a"))))
    add_("Ret", "none", lambda: G.instr("Ret", NONE))
    for n in (7, 200, 70000, 2**31, 2**40):
        add_("Ret", f"constant{n}", lambda n=n: G.instr("Ret", some(G.const(c(n)))))
    add_("Ret", "constant-float", lambda: G.instr("Ret", some(G.const(c(2.5), "Float"))))

    def lit(k):
        v = G.B.id("StringLiteralId", 3)
        G.strs = [(v, Sym("in", ("literal",), ("prim", "u32")))]
        return G.instr("PointerToStringLiteral", G.var(("PointerTo", "U8"), k), v)
    for k in ("local", "global"):
        add_("PointerToStringLiteral", k, lambda k=k: lit(k))
    add_("Nop", "", lambda: G.instr("Nop"))
    return out


#: handled with the blocks around them
STRUCTURED = {"Break", "Continue", "EndHandledBlock", "IfEqElse", "IfNotEqElse"}
#: replaced by the relooper before code is generated
UNSTRUCTURED = {"Label", "Br", "BrIfEq", "BrIfNotEq"}


def uncovered(G, items):
    have = {v for v, _, _ in items} | STRUCTURED | UNSTRUCTURED
    return [v for v in G.B.variants("Instruction") if v not in have]
