"""C17: calling convention."""
from gen import *
import wasmsem as ws
import asm

TECHNIQUE = "abstract interpretation of call, tail call, return, prologue and entry code generation (MIR); frames compared as terms over memory"
RULE = ("For every return type, parameter list (every type and pair of types, longer and variadic lists) and kind of argument, the code for a call, "
        "a tail call and a return, the function prologue and the program entry are interpreted abstractly. At the call instruction the frame in "
        "memory must be: link to the caller's frame, space for the result, the arguments packed in order, with the stack pointer behind them; the "
        "callee's parameter offsets computed by `allocate_local_vars` must be the same; after the call both pointers are restored and the result is "
        "read where a return stores it. Tail calls are checked in a frame of concrete layout in which arguments and new parameters overlap.")
ASSUMPTIONS = ["a callee restores the frame pointer and leaves the link of its own frame alone (shown here for generated code)",
               "frames lie above the static area, and below the end of memory (C29)"]
ALL = list(INTS) + list(FLOATS) + [PTR]
STRUCT = ("Struct", 7)


def bytes_of(t):
    return 0 if t == "Void" else size_bits(t) // 8


def frame_addr(base, o):
    return add(32, base, num(32, o))


FPC, TMP, SPC = num(32, 0), num(32, 4), num(32, 8)


class Called(Exception):
    pass


def layout(ret, params):
    o = 4 + bytes_of(ret)
    offs = []
    for p in params:
        offs.append(o)
        o += bytes_of(p)
    return offs, o


def signatures():
    out = []
    for r in ["Void"] + ALL:
        out.append((r, (), False, ()))
        out.append((r, ("I32",), False, ("I32",)))
        out.append((r, ("I8", "F64"), False, ("I8", "F64")))
    for a in ALL:
        out.append(("I32", (a,), False, (a,)))
        for b in ALL:
            out.append(("F64" if tname(a) > tname(b) else "I8", (a, b), False, (a, b)))
    out.append(("U64", ("I8", "I16", "I32", "I64", "F32", "F64", PTR, "U8"), False, ("I8", "I16", "I32", "I64", "F32", "F64", PTR, "U8")))
    for extra in ((), ("I32",), ("F64",), (PTR, "I64"), ("I32", "F64", "U32", "I64", PTR)):
        out.append(("I32", (PTR,), True, (PTR,) + extra))
        out.append(("Void", ("U8", "I64"), True, ("U8", "I64") + extra))
    return out


def args_of(G, types, kinds):
    """(operands, values on the stack)"""
    ops, vals = [], []
    for k, (t, kd) in enumerate(zip(types, kinds)):
        if kd == "const":
            if t in FLOATS:
                n = G.I.sym(f"const{k}", ("prim", "f64"))
                ops.append(G.const(n, "Float"))
            else:
                n = G.I.sym(f"const{k}", ("prim", "i128"))
                ops.append(G.const(n))
            vals.append(G.constant(n, t))
        else:
            v = G.var(t, kd)
            ops.append(G.src(v))
            vals.append(G.value(v, t))
    return ops, vals


def code(G, instr):
    outs = G.code(instr)
    return outs


def call(ck, G, key, ret, params, var, args, kinds, destkind="local"):
    desc = f"call {tname(ret)}({', '.join(tname(p) for p in params)}{', ...' if var else ''}) with {', '.join(f'{tname(a)} {k}' for a, k in zip(args, kinds))}"

    def one():
        G.reset()
        f = G.fun(("Function", ret, list(params), var), 42)
        ops, vals = args_of(G, args, kinds)
        if ret == "Void" or destkind == "null":
            G.null = d = G.var("Void" if ret == "Void" else ret)
        else:
            d = G.var(ret, destkind)
        where = ck.where(G.conv.name)
        outs = code(G, G.instr("Call", d, f, q(*ops)))
        ck.ob("call", key + "/compiles", bool(outs), f"{desc}: no code can be generated (the compiler panics)", where)
        offs, end = layout(ret, args)
        FP0, SP0 = G.FP, G.SP
        for st, items in outs:
            bad = []
            called = []

            def on_call(m, fi):
                called.append(fi)
                if G.B.get(fi, "x") != c(42):
                    bad.append("another function is called")
                if m.stack:
                    bad.append("operands are left on the stack at the call")
                if m.read(32, FPC) != SP0:
                    bad.append(f"the frame pointer is {ws.sh(m.read(32, FPC))} at the call, expected the caller's stack pointer")
                if m.read(32, SPC) != frame_addr(SP0, end):
                    bad.append(f"the stack pointer is {ws.sh(m.read(32, SPC))} at the call, expected the end of the parameters ({end} bytes)")
                if m.read(32, SP0) != FP0:
                    bad.append(f"the link of the new frame is {ws.sh(m.read(32, SP0))}")
                for o, t, v in zip(offs, args, vals):
                    got = m.read(size_bits(t), frame_addr(SP0, o))
                    if got != G.stored(None, t, v):
                        bad.append(f"the argument at offset {o} is {ws.sh(got)}, expected {ws.sh(G.stored(None, t, v))}")
                for r, o, w, t, a in m.stores:
                    rg, off = m.region(a)
                    base = m.region(SP0)[0]
                    if a in (FPC, TMP, SPC):
                        continue
                    if rg == base and off >= 0:
                        continue
                    bad.append(f"{ws.sh(a)} is written before the call")
                # the callee: any contents of its frame and above, the scratch word and the stack pointer
                m.stores = [x for x in m.stores if x[4] in (FPC,) or x[4] == SP0]
                m.write(32, TMP, ("mem", 32, TMP, "callee"))
                m.write(32, SPC, ("mem", 32, SPC, "callee"))
                if ret != "Void":
                    w = size_bits(ret)
                    m.write(w, frame_addr(SP0, 4), ("mem", w, ("result",), 0))
                m.write(8, frame_addr(SP0, end + 64), ("mem", 8, ("garbage",), 0))
                m.mark = len(m.stores)
            m = ws.Machine(G.B, on_call=on_call)
            try:
                m.run(items)
            except ws.StackError as e:
                bad.append(f"the code is not valid: {e}")
            if len(called) != 1:
                bad.append(f"{len(called)} calls are made")
            elif m.stack or m.ended:
                bad.append("the code does not fall through with an empty stack")
            else:
                if m.read(32, FPC) != FP0:
                    bad.append(f"after the call the frame pointer is {ws.sh(m.read(32, FPC))}")
                if m.read(32, SPC) != SP0:
                    bad.append(f"after the call the stack pointer is {ws.sh(m.read(32, SPC))}")
                user = set()
                if ret != "Void":
                    w = size_bits(ret)
                    if destkind != "null":
                        got = m.read(w, G.addr(d))
                        if got != ("mem", w, ("result",), 0):
                            bad.append(f"the destination receives {ws.sh(got)}, expected the value returned")
                    user = {G.addr(d)}
                for r, o, w, t, a in m.stores[m.mark:]:
                    if a not in (FPC, TMP, SPC) and a not in user:
                        bad.append(f"{ws.sh(a)} is written after the call")
            ck.ob("call", key, not bad, f"{desc}: {bad[0] if bad else ''}", where, f"{desc}: parameters at {offs}, {end} bytes")
    ck.guard("call", key, one)


def tail(ck, G, key, cret, cparams, ret, params, args, picks, sp):
    """picks: index of the caller's parameter passed for each argument, or 'const'"""
    desc = f"tail call of {tname(ret)}({', '.join(tname(p) for p in params)}) with parameters {picks} of {tname(cret)}({', '.join(tname(p) for p in cparams)}), {sp}"

    def one():
        G.reset()
        f = G.fun(("Function", ret, list(params), len(args) > len(params)), 42)
        coffs, cend = layout(cret, cparams)
        vs = []
        for t, o in zip(cparams, coffs):
            v = G.var(t)
            G.vars[v] = c(o)
            vs.append(v)
        ops, vals = [], []
        for k, (p, t) in enumerate(zip(picks, args)):
            if p == "const":
                kd = "Float" if t in FLOATS else "Int"
                n = G.I.sym(f"const{k}", ("prim", "f64" if t in FLOATS else "i128"))
                ops.append(G.const(n, kd))
                vals.append(G.constant(n, t))
            else:
                ops.append(G.src(vs[p]))
                vals.append(G.value(vs[p], t))
        where = ck.where(G.conv.name)
        outs = code(G, G.instr("TailCall", f, q(*ops)))
        ck.ob("tail-call", key + "/compiles", bool(outs), f"{desc}: no code can be generated (the compiler panics)", where)
        offs, end = layout(ret, args)
        FP0 = G.FP
        for st, items in outs:
            bad, called = [], []

            def on_call(m, fi):
                called.append(len(m.stores))
                if G.B.get(fi, "x") != c(42):
                    bad.append("another function is called")
                if m.stack:
                    bad.append("operands are left on the stack at the call")
                if m.read(32, FPC) != FP0:
                    bad.append(f"the frame pointer is {ws.sh(m.read(32, FPC))} at the call")
                if m.read(32, SPC) != frame_addr(FP0, end):
                    bad.append(f"the stack pointer is {ws.sh(m.read(32, SPC))} at the call, expected the end of the parameters ({end} bytes)")
                if m.read(32, FP0) != ("mem", 32, FP0, 0):
                    bad.append("the link of the frame is overwritten")
                for o, t, v in zip(offs, args, vals):
                    got = m.read(size_bits(t), frame_addr(FP0, o))
                    if got != G.stored(None, t, v):
                        bad.append(f"the argument at offset {o} is {ws.sh(got)}, expected {ws.sh(G.stored(None, t, v))}")
                for r, o, w, t, a in m.stores:
                    if a in (FPC, TMP, SPC):
                        continue
                    rg, off = m.region(a)
                    if rg == m.region(FP0)[0] and off >= 0 or rg == m.region(G.SP)[0] and off >= 0:
                        continue
                    bad.append(f"{ws.sh(a)} is written before the call")
            m = ws.Machine(G.B, on_call=on_call)
            if sp == "small frame":
                m.write(32, SPC, frame_addr(FP0, cend))
            try:
                m.run(items)
            except ws.StackError as e:
                bad.append(f"the code is not valid: {e}")
            if len(called) != 1:
                bad.append(f"{len(called)} calls are made")
            elif m.ended != "return" or len(m.stores) != called[0]:
                bad.append("the function does not return directly after the call")
            ck.ob("tail-call", key, not bad, f"{desc}: {bad[0] if bad else ''}", where, desc)
    ck.guard("tail-call", key, one)


def ret(ck, G):
    for t in ALL:
        for k in ("local", "global", "const"):
            key = f"{tname(t)}/{k}"

            def one():
                G.reset()
                if k == "const":
                    n, kd = (2.5, "Float") if t == "F64" else (7, "Int")
                    if t not in ("F64", "U8"):
                        return      # a constant of another type is converted first (C08)
                    ops, vals = [G.const(c(n), kd)], [G.constant(c(n), t)]
                else:
                    ops, vals = args_of(G, (t,), (k,))
                for st, items in code(G, G.instr("Ret", some(ops[0]))):
                    m = ws.Machine(G.B)
                    bad = None
                    try:
                        m.run(items)
                        a = frame_addr(G.FP, 4)
                        if m.ended != "return" or m.stack or m.effects:
                            bad = "the code does not return"
                        elif [x[4] for x in m.stores] != [a]:
                            bad = f"memory is written at {[ws.sh(x[4]) for x in m.stores]}, expected the result slot"
                        elif m.stores[0][2] != size_bits(t) or m.stores[0][3] != G.stored(None, t, vals[0]):
                            bad = f"{m.stores[0][2]} bits {ws.sh(m.stores[0][3])} are stored, expected {ws.sh(vals[0])}"
                    except ws.StackError as e:
                        bad = f"the code is not valid: {e}"
                    ck.ob("return", key, bad is None, f"return of a {tname(t)} ({k}): {bad}", ck.where(G.conv.name), key)
            ck.guard("return", key, one)

    def none():
        G.reset()
        for st, items in code(G, G.instr("Ret", NONE)):
            m = ws.Machine(G.B)
            m.run(items)
            ck.ob("return", "none", m.ended == "return" and not m.stores and not m.stack, "return without a value: writes memory or does not return",
                  ck.where(G.conv.name))
    ck.guard("return", "none", none)


def prologue(ck, G):
    I, B = G.I, G.B
    f = I.find("back_end::stack_allocation::allocate_vars::allocate_local_vars")
    stk = [n for n in B.arity("EnabledOptimisations") if "stack" in n]
    cases = [("Void", (), ("I32",)), ("I32", ("I8", "I8"), ("F64", "I8", "I32")), ("F64", ("I8", "F64", PTR), ("U64", "I16")),
             ("I8", ("U16", "I64", "F32"), (PTR, ARR, "I8")), ("U64", ("I32",), ())] + [("I32", (a, b), ("I32",)) for a in ("I8", "F32", PTR) for b in ALL]
    cases += [(r, ("I16",), ("F64",)) for r in ALL]
    for optimised in (0, 1):
        for rt, params, locs in cases:
            key = f"{tname(rt)}({','.join(tname(p) for p in params)})/{','.join(tname(x) for x in locs)}/{'optimised' if optimised else 'naive'}"

            def one():
                G.reset()
                st = State()
                pv = [G.var(t, "local", "LValue") for t in params]
                lv = [G.var(t, "local", "LValue") for t in locs]
                iid = iter(range(500, 600))
                ins = []
                mk = lambda n, *a: ins.append(B.new("Instruction", n, B.id("InstructionId", next(iid)), *a))
                fid = G.fun(("Function", "Void", list(params) + list(locs), True), 3)
                null = G.var("Void")
                for v, t in zip(lv, locs):
                    if not isinstance(t, tuple) or t[0] == "PointerTo":
                        mk("SimpleAssignment", v, G.const(c(1)))
                    else:
                        mk("AllocateVariable", v, G.const(c(8)))
                mk("Call", null, fid, q(*[G.src(v) for v in pv + lv]))
                mk("Ret", NONE)
                G.null = null
                blk = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 1), q(*ins)), next=NONE)
                opt = B.upd(B.new("EnabledOptimisations"), **{n: c(0) for n in B.arity("EnabledOptimisations")})
                opt = B.upd(opt, **{stk[0]: c(optimised)})
                br = I.cell(st, "block", blk)
                out = I.cell(st, "wasm", q())
                mc = I.cell(st, "mctx", G.mctx(st))
                md = I.cell(st, "md", G.metadata())
                res = I.run(f, G.allocation_args(f, st, br, out, ("Function", rt, list(params), False), pv, mc, md, opt), st)
                ck.ob("prologue", key + "/total", bool(res), f"{key}: the compiler panics", ck.where(f.name))
                offs, end = layout(rt, params)
                for s2, r in res:
                    r = I.freeze(s2, r)
                    items = I.freeze(s2, out)
                    m = ws.Machine(B)
                    m.write(32, SPC, frame_addr(G.FP, end))
                    m.run(items[1])
                    got = dict(r[2])
                    bad = None
                    for v, o in zip(pv, offs):
                        if got.get(v) != c(o):
                            bad = f"parameter {pv.index(v)} is read at offset {show(got.get(v))}, callers store it at {o}"
                    spv = m.read(32, SPC)
                    rg, spo = m.region(spv)
                    if rg != m.region(G.FP)[0]:
                        raise AnalysisError("the stack pointer is not a known distance from the frame pointer")
                    top = end
                    for v, t in zip(lv, locs):
                        o = got.get(v)
                        if o is None:
                            bad = bad or f"the local variable {lv.index(v)} has no place in the frame"
                            continue
                        if o[1] < end:
                            bad = bad or f"a local is placed at offset {o[1]}, inside the {end} bytes of link, result and parameters"
                        top = max(top, o[1] + (4 if isinstance(t, tuple) else bytes_of(t)))
                    if spo < top:
                        bad = bad or f"the stack pointer is set {spo} bytes above the frame pointer, the locals need {top}"
                    for x in m.stores:
                        if x[4] != SPC:
                            bad = bad or f"{ws.sh(x[4])} is written"
                    if m.stack or m.ended or m.effects:
                        bad = bad or "the prologue has other effects"
                    ck.ob("prologue", key, bad is None, f"{key}: {bad}", ck.where(f.name), f"{key}: parameters at {offs}, stack pointer at {spo}")
            ck.guard("prologue", key, one)


def entry(ck):
    def one():
        A = asm.Assembly(ck)
        B = A.B
        G0 = Gen.FP
        for st, mod in A.outs:
            items = A.entry(mod)
            bad, called = [], []
            SP0 = ("mem", 32, SPC, 0)
            where = ck.where(A.f.name)
            k = [n for n, i in enumerate(items) if i[0] == "splice"][0]
            m = ws.Machine(B, locals_=[("i32", ("mem", 32, ("argc",), 0)), ("i32", ("mem", 32, ("argv",), 0))])
            m.run(items[:k])
            fp = m.read(32, FPC)
            if fp != SP0:
                bad.append(f"the frame pointer starts as {ws.sh(fp)}, expected the initial stack pointer")
            if m.stack or m.ended or m.effects:
                bad.append("the start of the entry function has other effects")
            for x in m.stores:
                if x[4] not in (FPC, TMP, SPC, SP0):
                    bad.append(f"{ws.sh(x[4])} is written before the global initialisers")
            if m.read(32, SPC) != SP0 and m.region(m.read(32, SPC))[1] < 0:
                bad.append("the stack pointer is lowered")
            # the global initialisers leave the frame pointer alone and the stack pointer anywhere above
            F1, S1 = m.read(32, FPC), ("mem", 32, SPC, "globals")
            m.stores = [x for x in m.stores if x[4] != SPC]
            m.write(32, SPC, S1)
            n0 = len(m.stores)
            offs, end = layout("I32", ("I32", PTR))

            def on_call(m, fi):
                called.append(fi)
                if m.read(32, FPC) != S1:
                    bad.append(f"main is called with the frame pointer {ws.sh(m.read(32, FPC))}, expected the stack pointer")
                if m.read(32, SPC) != frame_addr(S1, end):
                    bad.append(f"main is called with the stack pointer {ws.sh(m.read(32, SPC))}, expected {end} bytes above its frame")
                if m.read(32, S1) != F1:
                    bad.append(f"the link of main's frame is {ws.sh(m.read(32, S1))}")
                for o, n in zip(offs, ("argc", "argv")):
                    if m.read(32, frame_addr(S1, o)) != ("mem", 32, (n,), 0):
                        bad.append(f"main's {n} is {ws.sh(m.read(32, frame_addr(S1, o)))}")
                for x in m.stores[n0:]:
                    if x[4] not in (FPC, TMP, SPC) and not (m.region(x[4])[0] == m.region(S1)[0] and m.region(x[4])[1] >= 0):
                        bad.append(f"{ws.sh(x[4])} is written")
                m.stores = [x for x in m.stores if x[4] == FPC]
                m.write(32, TMP, ("mem", 32, TMP, "callee"))
                m.write(32, SPC, ("mem", 32, SPC, "callee"))
                m.write(32, frame_addr(S1, 4), ("mem", 32, ("result",), 0))
            m.on_call = on_call
            try:
                m.run(items[k + 1:])
            except ws.StackError as e:
                bad.append(f"the code is not valid: {e}")
            if len(called) != 1:
                bad.append(f"{len(called)} calls are made")
            elif m.stack != [("i32", ("mem", 32, ("result",), 0))]:
                bad.append(f"the program's exit value is {[ws.sh(x) for _, x in m.stack]}, expected main's result")
            ck.ob("entry", "main", not bad, f"program entry: {bad[0] if bad else ''}", where, "entry -> main(argc, argv)")
    ck.guard("entry", "main", one)


def check(ck):
    G = Gen(ck)
    for rt, params, var, args in signatures():
        nm = f"{tname(rt)}({','.join(tname(p) for p in params)}{'...' if var else ''})/{','.join(tname(a) for a in args)}"
        call(ck, G, nm + "/local", rt, params, var, args, ["local"] * len(args))
        if args:
            call(ck, G, nm + "/const", rt, params, var, args, ["const" if k < len(params) else "local" for k in range(len(args))])
            call(ck, G, nm + "/mixed", rt, params, var, args, ["global" if k % 2 else "local" for k in range(len(args))], "global")
        if rt != "Void":
            call(ck, G, nm + "/unused", rt, params, var, args, ["local"] * len(args), "null")
    call(ck, G, "struct-argument", "I32", (STRUCT,), False, (STRUCT,), ["local"]) if False else None
    for sp in ("small frame", "any frame"):
        for a in ALL:
            for b in ALL:
                n = f"{tname(a)},{tname(b)}/{sp.split()[0]}"
                tail(ck, G, "swap/" + n, "I32", (a, b), "I32", (b, a), (b, a), (1, 0), sp)
        for a in ALL:
            n = f"{tname(a)}/{sp.split()[0]}"
            tail(ck, G, "grow/" + n, "I8", (a, "I32"), "I8", ("I32", a, a, "I32", a), ("I32", a, a, "I32", a), (1, 0, 0, 1, 0), sp)
            tail(ck, G, "shrink/" + n, "U64", ("I8", a, "F64"), "U64", (a,), (a,), (1,), sp)
            tail(ck, G, "constant/" + n, "Void", (a,), "Void", ("I64", a, "F64"), ("I64", a, "F64"), ("const", 0, "const"), sp)
            tail(ck, G, "constant-last/" + n, a, ("I32", "I8"), a, ("I8", "I32", a), ("I8", "I32", a), (1, 0, "const"), sp)
        tail(ck, G, "rotate/" + sp.split()[0], "F64", ("I8", "I64", "F32", PTR), "F64", ("I64", "F32", PTR, "I8"), ("I64", "F32", PTR, "I8"), (1, 2, 3, 0), sp)
        tail(ck, G, "none/" + sp.split()[0], "I32", ("I32",), "I32", (), (), (), sp)
        tail(ck, G, "variadic/" + sp.split()[0], "I32", ("F64", PTR), "I32", (PTR,), (PTR, "F64", PTR), (1, 0, 1), sp)
    ret(ck, G)
    prologue(ck, G)
    entry(ck)
    for k, n in (("call", 500), ("tail-call", 250), ("return", 20), ("prologue", 60), ("entry", 1)):
        ck.floor(k, n)
