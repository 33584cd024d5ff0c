"""C06: generated code type-checks."""
import re
from corpus import *
import wasmsem as ws
import asm
import c07
import c08
import flow
from front import Front

TECHNIQUE = "abstract interpretation of code generation and translation (MIR), WebAssembly's validation rules as a type system over the generated sequences"
RULE = ("The WebAssembly validation algorithm runs on the instruction sequences that code generation builds: for every intermediate instruction "
        "with every operand type and kind, for every structured block, the function prologue, the program entry, and for the instructions that "
        "translation emits for every C expression and statement form over all pairs of operand types. Each sequence must find operands of the "
        "right types, branch only to enclosing constructs, and leave exactly the stack its block type declares.")
ASSUMPTIONS = ["functions have the types C02 shows are declared for them"]


def types_ok(W, items, **kw):
    """None, or what is wrong"""
    try:
        r = W.typecheck(items, **kw)
    except ws.StackError as e:
        return str(e)
    want = list(kw.get("result", ()))
    if r is not None and r != want:
        return f"the code ends with {r or 'nothing'} on the stack, expected {want or 'nothing'}"
    return None


def instructions(ck):
    G = Gen(ck)
    W = ws.Wasm(G.B)
    items = corpus(G)
    ck.ob("instruction", "every-kind", not uncovered(G, items), f"instructions without a rule: {uncovered(G, items)}", ck.where(G.conv.name))
    for v, k, build in items:
        def one():
            G.reset()
            ins = build()
            outs = G.code(ins)
            ck.ob("instruction", f"{v}/{k}/compiles", bool(outs), f"{v} {k}: no code can be generated (the compiler panics)", ck.where(G.conv.name))
            for st, code in outs:
                bad = types_ok(W, code)
                ck.ob("instruction", f"{v}/{k}", bad is None, f"{v} of {k}: {bad}", ck.where(G.conv.name), f"{v} {k}: {len(code)} instructions")
        ck.guard("instruction", f"{v}/{k}", one)
    branches(ck, G, W)
    blocks(ck, G, W)


def branches(ck, G, W):
    n = 0
    for v in ("IfEqElse", "IfNotEqElse"):
        for t in ["I8", "U8", "I16", "U16"] + SCALARS + [ARR]:
            for ka, kb in (("local", "const"), ("global", "const"), ("local", "local"), ("zero", "local"), ("local", "zero"), ("zero", "zero")):
                if (ka, t) == ("zero", ARR) or ka == "zero" and t not in ("U8",):
                    continue        # a constant on the left is a constant condition: its own type
                def one():
                    G.reset()
                    op = lambda k, n: G.const(c(0)) if k == "zero" else operand(G, t, k, n)
                    arm = lambda: q(G.instr("SimpleAssignment", G.var("I32"), operand(G, "I32", "local", "x")))
                    for st, code in G.code(G.instr(v, op(ka, "a"), op("zero" if kb == "const" else kb, "b"), arm(), arm())):
                        bad = types_ok(W, code)
                        ck.ob("branch", f"{v}/{tname(t)}/{ka},{kb}", bad is None, f"{v} of {tname(t)} ({ka}, {kb}): {bad}", ck.where(G.conv.name))
                ck.guard("branch", f"{v}/{tname(t)}/{ka},{kb}", one)


def blocks(ck, G, W):
    B = G.B
    ids = iter(range(100, 10000))

    def work():
        return G.instr("SimpleAssignment", G.var("I64"), operand(G, "I64", "local", "x"))

    def simple(*ins, next=None):
        return B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", next_id()), q(*ins)), next=some(box(next)) if next else NONE)

    def next_id():
        return __import__("builtins").next(ids)

    def loop(f, next=None):
        i = B.id("LoopBlockId", next_id())
        return B.new("Block", "Loop", id=i, inner=box(f(i)), next=some(box(next)) if next else NONE)

    def multi(fs, next=None):
        i = B.id("MultipleBlockId", next_id())
        return B.new("Block", "Multiple", id=i, pre_handled_blocks_instrs=q(), handled_blocks=q(*[f(i) for f in fs]), next=some(box(next)) if next else NONE)

    def cond(a, b):
        return G.instr("IfEqElse", operand(G, "I32", "local", "c"), G.const(c(0)), q(*a), q(*b))
    br = lambda i: G.instr("Break", i)
    co = lambda i: G.instr("Continue", i)
    eh = lambda i: G.instr("EndHandledBlock", i)
    shapes = {
        "simple": lambda: simple(work()),
        "empty": lambda: simple(),
        "next": lambda: simple(work(), next=simple(work(), next=simple())),
        "return": lambda: simple(work(), G.instr("Ret", NONE), next=simple(work())),
        "loop": lambda: loop(lambda i: simple(work(), cond([br(i)], [co(i)])), simple(work())),
        "loop/straight": lambda: loop(lambda i: simple(work(), br(i))),
        "loop/next": lambda: loop(lambda i: simple(cond([work()], [br(i)]), next=simple(work(), co(i)))),
        "loop/return": lambda: loop(lambda i: simple(cond([G.instr("Ret", NONE)], []), next=simple(work(), co(i)))),
        "loop/nested": lambda: loop(lambda i: loop(lambda j: simple(work(), cond([br(j)], [cond([br(i)], [co(i)])])), simple(work(), co(i))), simple(work())),
        "multiple/1": lambda: multi([lambda m: simple(work(), eh(m))], simple(work())),
        "multiple/3": lambda: multi([lambda m: simple(work(), eh(m))] * 3, simple(work())),
        "multiple/no-next": lambda: multi([lambda m: simple(work(), eh(m)), lambda m: simple(work())]),
        "multiple/loops": lambda: multi([lambda m: loop(lambda i: simple(cond([br(i)], [co(i)])), simple(work(), eh(m))),
                                         lambda m: simple(cond([eh(m)], [work()]), next=simple(work(), eh(m)))], simple(work())),
        "multiple/nested": lambda: multi([lambda m: multi([lambda n: simple(work(), eh(n)), lambda n: simple(cond([eh(m)], [eh(n)]))], simple(work(), eh(m))),
                                          lambda m: simple(work(), eh(m))], simple(work())),
        "loop/multiple": lambda: loop(lambda i: simple(work(), next=multi([lambda m: simple(work(), cond([co(i)], [br(i)])), lambda m: simple(eh(m))],
                                                                          simple(work(), co(i)))), simple(work())),
    }
    f = G.I.find(CG + "convert_block_to_wasm")
    for k, mk in shapes.items():
        def one():
            G.reset()
            lv = G.var("U64")
            b = mk()
            outs = G.block(b, label_variable=lv)
            ck.ob("block", k + "/compiles", bool(outs), f"{k}: no code can be generated (the compiler panics)", ck.where(f.name))
            for st, code in outs:
                bad = types_ok(W, code)
                ck.ob("block", k, bad is None, f"blocks {k}: {bad}", ck.where(f.name), f"{k}: {len(code)} instructions")
        ck.guard("block", k, one)


def functions(ck):
    def entry():
        for prof in (0, 1):
            A = asm.Assembly(ck, prof)
            for st, mod in A.outs:
                bad = types_ok(ws.Wasm(A.B), A.entry(mod), result=("i32",), locals_=("i32", "i32"), splice=lambda t, labels: None)
                ck.ob("function", f"entry/{prof}", bad is None, f"program entry: {bad}", ck.where(A.f.name))
                for items, e in A.bodies(mod):
                    if e:
                        continue
                    bad = types_ok(ws.Wasm(A.B), items, splice=lambda t, labels: None)
                    ck.ob("function", f"body/{prof}", bad is None, f"function body: {bad}", ck.where(A.f.name))
    ck.guard("function", "entry", entry)


def lower(F, W, instrs, md):
    """what is wrong with the code of the instructions translation built, or None"""
    known = {f for f, _, _ in F.funs}
    for k, (f, t) in enumerate(F.B.get(md, "function_types")[2]):
        if f not in known:
            F.funs.append((f, t, F.B.new("FuncIdx", None, c(50 + k))))
    for i in instrs:
        n = i[2]
        if n in ("Label", "Br", "Nop"):
            continue
        if n in ("BrIfEq", "BrIfNotEq"):
            a = [x for x in i[3] if isinstance(x, tuple) and x[0] == "e" and x[1].endswith("::Src")]
            i = F.instr("IfEqElse" if n == "BrIfEq" else "IfNotEqElse", a[0], a[1], q(), q())
        outs = F.code(i, md=md)
        if not outs:
            return f"no code can be generated for {n} (the compiler panics)"
        for st, code in outs:
            bad = types_ok(W, code)
            if bad:
                return f"the code for {n}: {bad}"
    return None


def translated(ck):
    F = Front(ck)
    W = ws.Wasm(F.B)
    c07.arith_names(F)

    def judge(ck, F, cls, key, build):
        def one():
            t = c07.T(ck, F)
            e, spec = build(t)
            for o in t.go(e, **spec.get("go", {})):
                if o[1] == "Err":
                    continue
                F.adopt(o[4])
                bad = lower(F, W, o[2], o[4])
                ck.ob("expression", f"{cls}/{key}", bad is None, f"{spec['desc']}: {bad}", ck.where(F.cexpr.name), f"{spec['desc']}: {len(o[2])} instructions")
        ck.guard("expression", f"{cls}/{key}", one)

    old = c07.judge
    c07.judge = judge
    try:
        for f in (c07.binary, c07.pointers, c07.unary, c07.increments, c07.assignments, c07.casts, c07.control, c07.members, c07.calls, c07.atoms):
            f(ck, F)
    finally:
        c07.judge = old

    def run(instrs, md, key, desc):
        F.adopt(md)
        bad = lower(F, W, instrs, md)
        ck.ob("statement", key, bad is None, f"{desc}: {bad}", ck.where(F.cstmt.name))

    def each(ck, F, cls, key, prog, types=None, ret=None, const=None, desc=None):
        def one():
            for o in c08.translate(ck, F, prog, types, ret, const)[0]:
                if o[1] == "Ok":
                    run(o[2], o[3], f"{cls}/{key}", desc or key)
        ck.guard("statement", f"{cls}/{key}", one)
    old = c08.compare, c08.rejected, c08.functions
    c08.compare, c08.rejected, c08.functions = each, lambda *a, **k: None, lambda *a, **k: None
    fl = ck.floor
    ck.floor = lambda *a: None
    try:
        c08.check_with(ck, F)
    finally:
        c08.compare, c08.rejected, c08.functions = old
        ck.floor = fl


def check(ck):
    instructions(ck)
    functions(ck)
    translated(ck)
    for k, n in (("instruction", 1200), ("branch", 50), ("block", 25), ("function", 4), ("expression", 2500), ("statement", 300)):
        ck.floor(k, n)
