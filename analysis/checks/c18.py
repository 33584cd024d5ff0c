"""C18: stack-pointer profiling."""
from corpus import *
import wasmsem as ws
import asm

TECHNIQUE = "abstract interpretation of code generation (MIR) with and without profiling; effect analysis of every store to the stack pointer in the generated sequences"
RULE = ("Code generation is interpreted abstractly with profiling on and off for every intermediate instruction with every operand type and kind, "
        "for the function prologue and for the whole module. With profiling on, each store whose address is the stack pointer must be followed "
        "directly by a call of the logging function, and that function may be called nowhere else; with those calls removed the code must be "
        "identical to the code with profiling off. The import of the logging function must be present exactly when profiling is on.")
ASSUMPTIONS = ["stores through pointers of the program do not reach the stack pointer word at address 8 (C05, C29)"]
LOG = 77
SPA = num(32, 8)


class Rec(ws.Machine):
    """also records which stores write the stack pointer"""

    def write(self, w, addr, t):
        self.last = addr
        return super().write(w, addr, t)


def seqs(B, items):
    """the sequence and all sequences nested in it"""
    yield items
    for i in items:
        if i[0] == "e" and i[2] in ("Block", "Loop", "IfElse"):
            for f in (("if_instrs", "else_instrs") if i[2] == "IfElse" else ("instrs",)):
                yield from seqs(B, list(B.get(i, f)[1]))


def is_log(B, i, log):
    return i[0] == "e" and i[2] == "Call" and B.get(B.get(i, "func_idx"), "x") == c(log)


def logged(B, items, log, locals_=()):
    """(what is wrong or None, number of stack pointer changes)"""
    n = 0
    for s_ in seqs(B, items):
        m = Rec(B, on_call=lambda m, f: None, locals_=list(locals_))
        due = False
        for i in s_:
            if i[0] == "splice":
                if due:
                    return "a change of the stack pointer is not reported", n
                continue
            if is_log(B, i, log):
                if not due:
                    return "the stack pointer is reported where it has not just changed", n
                due = False
                continue
            if due:
                return "a change of the stack pointer is not reported directly afterwards", n
            if i[2] in ("Block", "Loop", "Br", "BrIf") or i[2] == "IfElse" and not m.w.blocktype(i):
                if i[2] in ("IfElse", "BrIf"):
                    m.stack.pop()
                continue
            m.last = None
            m.ended = None
            m.step(i)
            if m.last == SPA:
                due = True
                n += 1
        if due:
            return "a change of the stack pointer is not reported", n
    return None, n


def strip(B, items, log):
    out = []
    for i in items:
        if i[0] == "e" and is_log(B, i, log):
            continue
        if i[0] == "e" and i[2] in ("Block", "Loop", "IfElse"):
            i = B.upd(i, **{f: q(*strip(B, list(B.get(i, f)[1]), log)) for f in (("if_instrs", "else_instrs") if i[2] == "IfElse" else ("instrs",))})
        out.append(i)
    return out


def check(ck):
    G = Gen(ck)
    B = G.B
    where = ck.where(G.conv.name)
    total = 0

    def judge(cls, key, desc, off, on):
        nonlocal total
        ck.ob(cls, key + "/outcomes", len(off) == len(on) and bool(on), f"{desc}: {len(off)} outcomes without profiling, {len(on)} with", where)
        for (_, a), (_, b) in zip(off, on):
            bad, n = logged(B, b, LOG)
            total += n
            ck.ob(cls, key, bad is None, f"{desc} with profiling: {bad}", where, f"{desc}: {n} changes of the stack pointer")
            ck.ob(cls, key + "/same", strip(B, b, LOG) == list(a), f"{desc}: the code with profiling differs from the code without it by more than the reports", where)

    for v, k, build in corpus(G):
        def one():
            G.reset()
            ins = build()
            judge("instruction", f"{v}/{k}", f"{v} {k}", G.code(ins), G.code(ins, profiling=1, logidx=LOG))
        ck.guard("instruction", f"{v}/{k}", one)
    ck.ob("instruction", "every-kind", not uncovered(G, corpus(G)), f"instructions without a rule: {uncovered(G, corpus(G))}", where)

    # instructions nested in conditionals and blocks
    for v in ("IfEqElse", "IfNotEqElse"):
        def one():
            G.reset()
            mk = lambda n: G.instr("AllocateVariable", G.var(ARR), G.const(c(n)))
            ins = G.instr(v, operand(G, "I32", "local", "c"), G.const(c(0)), q(mk(4)), q(mk(8), mk(12)))
            judge("nested", v, v, G.code(ins), G.code(ins, profiling=1, logidx=LOG))
            lab = lambda n, *i: B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", n), q(*i)), next=NONE)
            lv = G.var("U64")
            loop = B.new("Block", "Loop", id=B.id("LoopBlockId", 3), inner=box(lab(1, mk(16))), next=some(box(lab(2, mk(20)))))
            blk = B.new("Block", "Multiple", id=B.id("MultipleBlockId", 4), pre_handled_blocks_instrs=q(), handled_blocks=q(loop, lab(5, ins)), next=NONE)
            judge("nested", "blocks/" + v, "blocks", G.block(blk, label_variable=lv), G.block(blk, label_variable=lv, profiling=1, logidx=LOG))
        ck.guard("nested", v, one)
    prologue(ck, G, judge)
    ck.ob("instruction", "changes", total >= 200, f"only {total} changes of the stack pointer were found", where, f"{total} changes of the stack pointer")

    def module():
        mods = {}
        for p in (0, 1):
            A = asm.Assembly(ck, p)
            ck.ob("module", f"outcomes/{p}", len(A.outs) == 1, f"{len(A.outs)} outcomes of assembling the module", ck.where(A.f.name))
            mods[p] = (A, A.outs[0][1])
        w = ck.where(mods[1][0].f.name)
        names = [[(m, n) for m, n, d in A.imports(mod)] for A, mod in (mods[0], mods[1])]
        logs = [x for x in names[1] if x not in names[0]]
        ck.ob("module", "import", len(logs) == 1 and [x for x in names[1] if x != logs[0]] == names[0],
              f"with profiling the module imports {names[1]}, without it {names[0]}: expected one more function", w, f"profiling imports {logs}")
        if len(logs) != 1:
            return
        A1, m1 = mods[1]
        log = A1.import_index(m1, logs[0][1])
        ck.ob("module", "import-function", log is not None, f"{logs[0]} is not a function", w)
        A0, m0 = mods[0]
        for (ia, ea), (ib, eb) in zip(A0.bodies(m0), A1.bodies(m1)):
            loc = [("i32", ("mem", 32, ("argc",), 0)), ("i32", ("mem", 32, ("argv",), 0))]
            if not ea:
                continue
            bad, n = logged(A1.B, ib, log, loc)
            ck.ob("module", "entry", bad is None, f"program entry with profiling: {bad}", w, f"program entry: {n} changes of the stack pointer")
            ck.ob("module", "entry-changes", n >= 1, "no change of the stack pointer was found in the program entry", w)
            # the indices of defined functions shift by the additional import
            shift = lambda items, d: [A1.B.upd(i, func_idx=A1.B.new("FuncIdx", None, c(A1.B.get(A1.B.get(i, "func_idx"), "x")[1] + d)))
                                      if i[0] == "e" and i[2] == "Call" else i for i in items]
            sa = [i for i in shift(ia, 1) if i[0] == "e"]
            sb = [i for i in strip(A1.B, ib, log) if i[0] == "e"]
            ck.ob("module", "entry/same", sa == sb, "the program entry with profiling differs from the entry without it by more than the reports", w)
        ck.ob("module", "entry-order", [e for _, e in A0.bodies(m0)] == [e for _, e in A1.bodies(m1)], "profiling reorders the functions", w)
        # generated bodies see the profiling switch and the index of the logging function
        for A, on in ((A0, 0), (A1, 1)):
            for st, mod in A.outs:
                for name, args, _ in st.trace:
                    cx = [x for x in args if isinstance(x, tuple) and x[0] == "e" and x[1].endswith("::ModuleContext")]
                    if not cx:
                        continue
                    cx = cx[0]
                    lf = A.B.get(cx, "log_stack_ptr_fun_id")
                    if on:
                        ok_ = lf[2] == "Some"
                        ix = dict(A.B.get(cx, "fun_id_to_func_idx_map")[2]).get(lf[3][0]) if ok_ else None
                        ok_ = ok_ and ix is not None and A.B.get(ix, "x") == c(log)
                        ck.ob("module", f"context/{name.split('::')[-1]}", ok_, f"{name} generates code without the logging function (index {log})", w)
                    else:
                        ck.ob("module", f"context-off/{name.split('::')[-1]}", lf[2] == "None", f"{name} generates code with a logging function", w)
                    ep = A.B.get(cx, "enabled_profiling")
                    ep = A.I.freeze(st, ep)
                    ck.ob("module", f"switch/{on}/{name.split('::')[-1]}", ep[3][0] == c(on), f"{name} sees profiling as {ep[3]}, the switch is {on}", w)
    ck.guard("module", "module", module)
    for k, n in (("instruction", 2000), ("nested", 8), ("prologue", 20), ("module", 12)):
        ck.floor(k, n)


def prologue(ck, G, judge):
    I, B = G.I, G.B
    f = I.find("back_end::stack_allocation::allocate_vars::allocate_local_vars")
    stk = [n for n in B.arity("EnabledOptimisations") if "stack" in n]
    for optimised in (0, 1):
        for rt, params, locs in (("Void", (), ()), ("I32", ("I8", "I8"), ("F64", "I32")), ("F64", (PTR, "I64"), ("I16",)), ("Void", (), ("I32", "I32", "I64"))):
            key = f"{tname(rt)}({','.join(tname(p) for p in params)})/{','.join(locs)}/{optimised}"

            def one():
                res = []
                for prof in (0, 1):
                    G.reset()
                    st = State()
                    pv = [G.var(t, "local", "LValue") for t in params]
                    lv = [G.var(t, "local", "LValue") for t in locs]
                    fid = G.fun(("Function", "Void", list(params) + list(locs), True), 3)
                    G.null = G.var("Void")
                    ins = [B.new("Instruction", "SimpleAssignment", B.id("InstructionId", 500 + n), v, G.const(c(1))) for n, v in enumerate(lv)]
                    ins.append(B.new("Instruction", "Call", B.id("InstructionId", 550), G.null, fid, q(*[G.src(v) for v in pv + lv])))
                    blk = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 1), q(*ins)), next=NONE)
                    opt = B.upd(B.new("EnabledOptimisations"), **{n: c(0) for n in B.arity("EnabledOptimisations")})
                    opt = B.upd(opt, **{stk[0]: c(optimised)})
                    out = I.cell(st, "wasm", q())
                    args = G.allocation_args(f, st, I.cell(st, "block", blk), out, ("Function", rt, list(params), False), pv,
                                             I.cell(st, "mctx", G.mctx(st, prof, LOG)), I.cell(st, "md", G.metadata()), opt)
                    res.append([(s2, list(I.freeze(s2, out)[1])) for s2, r in I.run(f, args, st)])
                judge("prologue", key, f"prologue of {key}", res[0], res[1])
            ck.guard("prologue", key, one)
