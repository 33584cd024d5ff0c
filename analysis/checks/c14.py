"""C14: dead-code removal."""
from dataflow import *
from corpus import corpus
from c11 import Rec, simple
from c13 import pointer_version

TECHNIQUE = "abstract interpretation of dead-code removal and code generation (MIR) on structured blocks; liveness derived from the blocks' own transition relation"
RULE = ("Stack allocation with its dead-code removal is interpreted abstractly on the blocks the relooper makes of every enumerated control-flow graph and, "
        "one at a time, on every kind of instruction with every operand type and kind. The block afterwards must be the block before without some "
        "instructions, each of which, by the code generated for it, does nothing but write a local variable whose address is not taken and which no path "
        "reads afterwards; the only other change allowed is that a call's unread result goes nowhere. Block structure, conditionals, branches, stores, "
        "calls and returns stay in place and in order.")
ASSUMPTIONS = ["what single instructions define and read is right (C11)"]


def harmless(G, ins):
    """the variables this instruction writes, if it has no other effect; else None"""
    outs = G.code(ins)
    called = []
    allowed = {G.addr(v): v for v, _ in G.types}
    sp = ("mem", 32, ws.num(32, 8), 0)
    w = set()
    for o in outs:
        m = Rec(G.B, on_call=lambda m, f: called.append(f))
        try:
            m.run(o[1])
        except (ws.StackError, AnalysisError):
            return None
        if called or m.ended is not None or m.effects:
            return None
        for x in m.stores:
            if x[4] in allowed:
                w.add(allowed[x[4]])
            elif not (ins[2] == "AllocateVariable" and x[4] == ws.num(32, 8)):
                return None
    return w


def call_version(W, instrs):
    """the list with calls whose results are used, unused and used only by something unused"""
    G = W.G
    f = G.fun(("Function", "I32", ["I32"], False), 3)
    t, u, w = G.var("I32"), G.var("I32"), G.var("I32")
    out = list(instrs)
    last = max(n for n, i in enumerate(out) if i[2] not in ("Label", "Br", "BrIfEq", "BrIfNotEq", "Ret"))
    # t is read by the next call; w only by an assignment nobody reads
    out[last + 1:last + 1] = [G.instr("Call", t, f, q(G.const(c(5)))), G.instr("Call", u, f, q(G.src(t))), G.instr("Call", w, f, q(G.const(c(7)))),
                              W.set(G.var("I32"), w)]
    return W.number(out)


def compare_blocks(G, F, b, after, md, pure):
    """[message]"""
    B = G.B
    old = {i[3][0]: i for i in blocks_in(b)}
    new = {i[3][0]: i for i in blocks_in(after)}
    null = B.get(md, "null_dest_var")
    null = null[3][0] if null[2] == "Some" else None
    bad = []
    if set(new) - set(old):
        return ["an instruction is added"]
    gone = set(old) - set(new)
    swap = {}
    for k in new:
        if new[k] != old[k] and old[k][2] not in ("IfEqElse", "IfNotEqElse"):
            i, j = old[k], new[k]
            if i[2] == j[2] == "Call" and j[3][1] == null and i[3][2:] == j[3][2:]:
                swap[k] = j
            else:
                bad.append(f"{i[2]} is changed")
    if without(b, gone, swap) != after:
        bad.append("something else of the code is changed or moved")
    ref = without(b, (), swap)
    live = liveness(F, *F.automaton(ref), skip=gone)
    taken = set().union(*[set(vars_of(i[3][2:])) for i in old.values() if i[2] == "AddressOf"])
    for k in list(gone) + list(swap):
        i = old[k]
        if k in gone and i[2] not in pure:
            bad.append(f"{i[2]}, which does more than compute a value, is removed")
            continue
        for v in def_use(i)[0]:
            what = f"{i[2]}{'' if k in gone else ' result'} of variable {G.vid(v)}"
            if v in G.globals:
                bad.append(f"{what} is removed although the variable is global")
            if v in taken:
                bad.append(f"{what} is removed although the variable's address is taken")
            if k in live and v in live[k][2]:
                bad.append(f"{what} is removed although it may be read afterwards")
    return bad


def check(ck):
    W = Data(ck)
    W.I.max_steps = 20_000_000
    G, B = W.G, W.B
    where = ck.where("back_end::dataflow_analysis::dead_code_analysis::remove_dead_vars")
    pure = {}
    items = corpus(G)

    # --- single instructions
    def single(n):
        v, k, build = items[n]

        def one():
            for use in ("dead", "read", "pointer"):
                G.reset()
                ins = build()
                w = harmless(G, ins)
                vs = [x for x, _ in G.types]
                d = {v for v in w if v in vs} if w is not None else None
                mk = lambda j, i: ("e", i[1], i[2], (B.id("InstructionId", j),) + tuple(i[3][1:]))
                code = [mk(2, ins)]
                dest = ins[3][1] if len(ins[3]) > 1 and isinstance(ins[3][1], tuple) and ins[3][1][1].endswith("::VarId") else None
                if dest is None and use != "dead":
                    continue
                if use == "pointer":
                    p = G.var(("PointerTo", "I32"))
                    code = [mk(1, G.instr("AddressOf", p, G.src(dest)))] + code + [mk(3, G.instr("StoreToAddress", p, G.const(c(1))))]
                if use == "read":
                    code += [mk(3, G.instr("StoreToAddress", G.var(("PointerTo", "I32"), "global"), G.src(dest)))]
                code.append(mk(9, G.instr("Ret", NONE)))
                for offs, after, size, md in allocate(G, simple(G, code, 1), 1):
                    left = {i[3][0]: i for i in blocks_in(after)}
                    bad = []
                    for i in code:
                        j = left.get(i[3][0])
                        null = B.get(md, "null_dest_var")
                        if j == i:
                            continue
                        if i is not code[0] and i[3][0] != B.id("InstructionId", 2):
                            bad.append(f"{i[2]} is {'removed' if j is None else 'changed'}")
                        elif j is not None:
                            if not (i[2] == j[2] == "Call" and i[3][2:] == j[3][2:] and null[2] == "Some" and j[3][1] == null[3][0]):
                                bad.append(f"{i[2]} is changed")
                            elif use != "dead" or dest in G.globals:
                                bad.append(f"the result of {i[2]} is dropped although it is {'global' if dest in G.globals else use}")
                        else:
                            if w is None:
                                bad.append(f"{i[2]}, which does more than compute a value, is removed")
                            elif any(x in G.globals for x in w):
                                bad.append(f"{i[2]} to a global variable is removed")
                            elif use != "dead" and i[2] not in ("DeclareVariable", "ReferenceVariable"):
                                bad.append(f"{i[2]} is removed although its result is {'read' if use == 'read' else 'reachable through a pointer'}")
                    if use != "dead" and code[-2][3][0] not in left:
                        bad.append(f"{code[-2][2]} is removed")
                    ck.ob("instruction", f"{v}/{k}/{use}", not bad, f"{v} {k}, result {use}: {bad[:1] and bad[0]}", where,
                          f"{v} {k}, result {use}: {'removed' if B.id('InstructionId', 2) not in left else 'kept'}")
        ck.guard("instruction", f"{v}/{k}", one)

    # kinds of instruction of the graphs that only compute
    for n, (v, k, build) in enumerate(items):
        if v in ("SimpleAssignment", "AddressOf", "Add", "LoadFromAddress", "StoreToAddress", "Call") and pure.get(v, True) and (v not in pure or v == "Call"):
            G.reset()
            pure[v] = harmless(G, build()) is not None
    pure = {v for v, p in pure.items() if p}

    def graph(case):
        cls, key, mk = case

        def go():
            for ver in ("plain", "pointer", "calls"):
                W.begin()
                G.globals = {}
                instrs = mk()
                if ver == "pointer":
                    instrs = pointer_version(W, instrs)
                    g = W.xv[W.size - 1]
                    if g is not W.xv[1] and g is not W.xv[0]:
                        G.globals[g] = G.vars.pop(g)
                if ver == "calls":
                    instrs = call_version(W, instrs)
                for b, lv in W.structured(instrs):
                    F = Flow(B, lv)
                    for offs, after, n, md in allocate(G, b, 1, "I32", ("U64",), (W.xv[0],)):
                        bad = compare_blocks(G, F, b, after, md, pure)
                        gone = len(list(blocks_in(b))) - len(list(blocks_in(after)))
                        ck.ob(cls, f"{key}/{ver}", not bad, f"{key}/{ver}: {bad[:1] and bad[0]}", where, f"{key}/{ver}: {gone} instructions removed")
        ck.guard(cls, key, go)

    ck.parallel(lambda x: single(x) if isinstance(x, int) else graph(x), list(range(len(items))) + cases(W, ck.tier == "thorough"))
    for k, n in (("graph/2", 40), ("graph/3", 400), ("graph/large", 50), ("list", 60), ("instruction", 3000)):
        ck.floor(k, n)
