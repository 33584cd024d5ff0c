"""C11: data-flow facts."""
from corpus import *
import wasmsem as ws

TECHNIQUE = "abstract interpretation of the definition and reference sets and of code generation (MIR); comparison of the sets with the memory effects of the generated code"
RULE = ("For every kind of intermediate instruction with every operand type and kind, `def_set`, `ref_set` and `get_vars_from_block` are "
        "interpreted abstractly and so is the code generated for the same instruction. The variables whose memory the code writes must be "
        "exactly those in the definition set, and those it reads (or takes the address of) exactly those in the reference set; every variable "
        "written by an instruction, at any depth of blocks and conditionals, must be among the variables given a place in the frame.")
ASSUMPTIONS = ["slots of different variables are different addresses (C13, C17)"]


class Rec(ws.Machine):
    def __init__(self, *a, **k):
        self.reads = []
        super().__init__(*a, **k)

    def read(self, w, addr):
        self.reads.append(addr)
        return super().read(w, addr)


def members(I, st, v):
    v = I.freeze(st, v)
    if v[0] != "m" or v[3] is not None:
        raise AnalysisError("a set of variables is not known")
    return {k for k, _ in v[2]}


def effects(G, instr):
    """(variables written, variables read, variables whose address is used)"""
    G.ck_outs = outs = G.code(instr)
    if len(outs) != 1:
        raise AnalysisError(f"{len(outs)} outcomes of generating code")
    m = Rec(G.B, on_call=lambda m, f: None)
    m.run(outs[0][1])
    where = {G.addr(v): v for v, _ in G.types}
    w = {where[x[4]] for x in m.stores if x[4] in where}
    r = {where[a] for a in m.reads if a in where}
    txt = [x[3] for x in m.stores] + [v for _, v in m.stack]
    taken = {v for a, v in where.items() for t in txt if t == a}
    return w, r, taken


def vars_in(G, blk):
    I, B = G.I, G.B
    st = State()
    f = I.find("back_end::stack_allocation::get_vars_from_block::get_vars_from_block")
    res = I.run(f, B.bind(f, ("Block", I.cell(st, "b", blk)), ("ProgramMetadata", I.cell(st, "md", G.metadata()))), st)
    if len(res) != 1:
        raise AnalysisError(f"{len(res)} outcomes of collecting the variables")
    v = I.freeze(res[0][0], res[0][1])
    return dict(v[2])


def simple(G, ins, n, nxt=None):
    B = G.B
    return B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", n), q(*ins)), next=some(box(nxt)) if nxt else NONE)


def check(ck):
    G = Gen(ck)
    I, B = G.I, G.B
    D = "back_end::dataflow_analysis::instruction_def_ref::"
    fd, fr, fi = I.find(D + "def_set"), I.find(D + "ref_set"), I.find("middle_end::instructions::Instruction::get_instr_id")

    def facts(ins):
        st = State()
        c_ = I.cell(st, "instr", ins)
        out = []
        for f in (fd, fr, fi):
            res = I.run(f, [c_], st)
            if len(res) != 1:
                raise AnalysisError(f"{len(res)} outcomes of {f.name}")
            out.append(res[0])
        return members(I, *out[0]), members(I, *out[1]), I.freeze(*out[2])

    names = lambda G, s_: sorted(tname(G.tdesc(t)) for v, t in G.types if v in s_) if s_ else "nothing"
    items = corpus(G)
    ck.ob("instruction", "every-kind", not uncovered(G, items), f"instructions without a rule: {uncovered(G, items)}", ck.where(G.conv.name))
    for v, k, build in items:
        def one():
            G.reset()
            ins = build()
            d, r, i = facts(ins)
            w, rd, taken = effects(G, ins)
            null = {G.null} if G.null is not None else set()
            if v == "DeclareVariable":
                w = d if len(d) <= 1 and d <= {x for x, _ in G.types} else w       # an undefined value; nothing is executed
            if v == "ReferenceVariable":
                rd = {x for x, _ in G.types}        # keeps a variable alive for the code of the blocks around it
            key = f"{v}/{k}"
            ck.ob("definition", key, d - null == w - null, f"{v} {k}: the definition set has {names(G, d)}, the code writes {names(G, w)}", ck.where(fd.name),
                  f"{key}: defines {names(G, d)}")
            need = rd | (taken - w if v != "AllocateVariable" else set())
            ck.ob("reference", key, r == need, f"{v} {k}: the reference set has {names(G, r)}, the code reads {names(G, need)}", ck.where(fr.name),
                  f"{key}: references {names(G, r)}")
            ck.ob("identity", key, i == B.id("InstructionId", 1), f"{v}: the instruction's id is {show(i, 3)}", ck.where(fi.name))
            vs = vars_in(G, simple(G, [ins], 1))
            ck.ob("place", key, w - null <= set(vs), f"{v} {k}: the written variables {names(G, w - null - set(vs))} get no place in the frame",
                  ck.where("back_end::stack_allocation::get_vars_from_block::get_vars_from_block"))
            tys = dict(G.types)
            ck.ob("place", key + "/type", all(tys[x] == t for x, t in vs.items()), f"{v} {k}: a variable is placed with another type", None)
        ck.guard("instruction", f"{v}/{k}", one)

    # branches: operands are read, the arms' variables are placed; their own facts are the arms' instructions'
    for v in ("IfEqElse", "IfNotEqElse"):
        for ka in KINDS:
            for kb in KINDS:
                if ka == kb == "const":
                    continue
                def one():
                    G.reset()
                    a, b = operand(G, "I32", ka, "a"), operand(G, "I32", kb, "b")
                    ops = {x for x, _ in G.types}
                    mk = lambda n: B.new("Instruction", "SimpleAssignment", B.id("InstructionId", n), G.var("I64"), operand(G, "I64", "const", "x"))
                    arm1, arm2 = [mk(2), mk(3)], [mk(4)]
                    inner = G.instr(v, a, b, q(*arm2), q(mk(5)))
                    ins = B.upd(G.instr(v, a, b, q(*(arm1 + [inner])), q(mk(6))))
                    writes = {x for x, _ in G.types} - ops
                    d, r, i = facts(ins)
                    ck.ob("definition", f"{v}/{ka},{kb}", not d, f"{v}: the definition set has {names(G, d)}", ck.where(fd.name))
                    ck.ob("reference", f"{v}/{ka},{kb}", r == ops, f"{v}: the reference set has {names(G, r)}, the comparison reads {names(G, ops)}", ck.where(fr.name))
                    ck.ob("identity", f"{v}/{ka},{kb}", i == B.id("InstructionId", 1), f"{v}: the instruction's id is {show(i, 3)}", ck.where(fi.name))
                    vs = vars_in(G, simple(G, [ins], 1))
                    ck.ob("place", f"{v}/{ka},{kb}", writes <= set(vs), f"{v}: variables of an arm get no place in the frame", ck.where(fd.name))
                ck.guard("instruction", f"{v}/{ka},{kb}", one)
    for v, idt in (("Break", "LoopBlockId"), ("Continue", "LoopBlockId"), ("EndHandledBlock", "MultipleBlockId")):
        def one():
            G.reset()
            d, r, i = facts(G.instr(v, B.id(idt, 3)))
            ck.ob("definition", v, not d, f"{v}: the definition set is not empty", ck.where(fd.name))
            ck.ob("reference", v, not r, f"{v}: the reference set is not empty", ck.where(fr.name))
            ck.ob("identity", v, i == B.id("InstructionId", 1), f"{v}: the instruction's id is {show(i, 3)}", ck.where(fi.name))
        ck.guard("instruction", v, one)

    def blocks():
        G.reset()
        n = iter(range(10, 100))
        mk = lambda: G.instr("SimpleAssignment", G.var("I32"), operand(G, "I32", "const", "x"))
        lab = lambda nxt=None: simple(G, [mk()], next(n), nxt)
        loop = lambda inner, nxt=None: B.new("Block", "Loop", id=B.id("LoopBlockId", next(n)), inner=box(inner), next=some(box(nxt)) if nxt else NONE)
        mult = lambda hs, nxt=None: B.new("Block", "Multiple", id=B.id("MultipleBlockId", next(n)), pre_handled_blocks_instrs=q(), handled_blocks=q(*hs),
                                          next=some(box(nxt)) if nxt else NONE)
        for k, mkb in {"next": lambda: lab(lab(lab())), "loop": lambda: loop(lab(lab()), lab()), "loop-last": lambda: lab(loop(loop(lab()))),
                       "multiple": lambda: mult([lab(), loop(lab(), lab()), lab(lab())], lab()), "multiple-last": lambda: lab(mult([lab(), mult([lab(), lab()], lab())])),
                       "mixed": lambda: loop(mult([loop(mult([lab()], lab()))], lab()), mult([lab()], loop(lab())))}.items():
            G.reset()
            b = mkb()
            vs = vars_in(G, b)
            missing = {x for x, _ in G.types} - set(vs)
            ck.ob("place", "blocks/" + k, not missing, f"nested blocks ({k}): {len(missing)} variables get no place in the frame",
                  ck.where("back_end::stack_allocation::get_vars_from_block::get_vars_from_block"))
    ck.guard("place", "blocks", blocks)
    for k, n in (("definition", 1000), ("reference", 1000), ("identity", 1000), ("place", 2000)):
        ck.floor(k, n)
