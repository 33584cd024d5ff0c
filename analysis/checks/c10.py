"""C10: branch depths."""
from automata import *
import automata
import c09
import asm

TECHNIQUE = "abstract interpretation of block lowering (MIR); bisimulation of the structured blocks with the generated code, whose branch depths are resolved by nesting"
RULE = ("`convert_block_to_wasm` is interpreted abstractly on the blocks the relooper makes of the enumerated control-flow graphs and on block trees "
        "with every nesting of loops, multiple blocks and conditionals around break, continue, end-of-handled-block and return. In the "
        "generated code every branch depth is resolved by counting the enclosing constructs; the automaton of the code and the automaton of the "
        "blocks are compared by bisimulation over both outcomes of every condition, the label variable's value being tracked exactly.")
ASSUMPTIONS = ["the label variable has a place of its own in the frame (C13)", "stores and loads of single variables are right (C05)"]


def lower(ck, W, b, lab, md=None):
    """None, or how the code of a block differs from the block"""
    G = W.G
    addrs = {G.addr(v): k for v, k in list(W.marks.items()) + list(W.conds.items())}
    addrs[G.addr(lab)] = ("label",)
    A, a0 = W.ir.blocks(b, lab)
    W.I.panics.clear()
    outs = G.block(b, label_variable=lab)
    if not outs:
        return "no code is generated (the compiler panics)" + (f": {W.I.panics[0][2]}" if W.I.panics else "")
    for st, code in outs:
        try:
            Z, z0 = automata.Wasm(G.B, code, addrs).auto()
        except ws.StackError as e:
            return str(e)
        bad = automata.compare(A, a0, Z, z0)
        if bad:
            return bad
    return None


def shapes(W):
    """block trees: name → maker taking the label variable"""
    B, G = W.B, W.G
    ctr = iter(range(1, 10 ** 6))
    lab = G.var("U64")

    def sl(k):
        return G.instr("SimpleAssignment", lab, G.const(c(k)))

    def simple(*ins, next=None, at=None):
        return B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", at if at is not None else 700 + fresh()), q(*ins)), next=opt(next))

    def fresh():
        return __import__("builtins").next(ctr)

    def opt(b):
        return some(box(b)) if b else NONE

    def loop(f, next=None):
        i = B.id("LoopBlockId", fresh())
        return B.new("Block", "Loop", id=i, inner=box(f(i)), next=opt(next))

    def multi(fs, next=None):
        i = B.id("MultipleBlockId", fresh())
        return B.new("Block", "Multiple", id=i, pre_handled_blocks_instrs=q(G.instr("ReferenceVariable", lab)),
                     handled_blocks=q(*[f(i) for f in fs]), next=opt(next))

    def cond(k, a, b, kind="IfEqElse"):
        return G.instr(kind, G.src(W.cv[k]), G.const(c(0)), q(*a), q(*b))
    w = W.work
    br = lambda i: G.instr("Break", i)
    co = lambda i: G.instr("Continue", i)
    eh = lambda i: G.instr("EndHandledBlock", i)
    R = W.ret

    out = {
        "straight": lambda: simple(w(0), next=simple(w(1))),
        "return": lambda: simple(w(0), R(), next=simple(w(1))),
        "branches that fall through": lambda: simple(cond(0, [w(0)], [w(1)]), w(2)),
        "nested conditions": lambda: simple(cond(0, [cond(1, [w(0)], [R()])], [cond(2, [], [w(1)], "IfNotEqElse")]), w(2)),
        "empty loop": lambda: loop(lambda i: simple()),
    }
    # every exit instruction, inside a chain of constructs, with 0-2 conditions around it
    def wrap(n, x, other):
        for k in range(n):
            x = [cond(k, x, [w(other + k)], "IfEqElse" if k else "IfNotEqElse")] if k % 2 == 0 else [cond(k, [w(other + k)], x)]
        return x
    for chain in ("L", "M", "LL", "LM", "ML", "MM", "LLL", "LML", "MLM", "LMM", "MML", "LLM", "MLL", "MMM"):
        for tgt in range(len(chain)):
            for kind in (("Break", "Continue") if chain[tgt] == "L" else ("EndHandledBlock",)) + (("Ret",) if tgt == 0 else ()):
                for n in (0, 1, 2):
                    for side in ("first", "second", "after"):
                        if "M" not in chain and side != "first":
                            continue

                        def mk(chain=chain, tgt=tgt, kind=kind, n=n, side=side):
                            def build(d, ids):
                                if d == len(chain):
                                    x = R() if kind == "Ret" else G.instr(kind, ids[tgt])
                                    lvl = [k for k in range(len(chain)) if chain[k] == "M"]
                                    exits = []
                                    if chain[-1] == "L":
                                        exits = [cond(5, [br(ids[-1])], [])]
                                    if kind == "Continue" or chain[-1] == "L":
                                        # re-entering a dispatch needs a label
                                        pass
                                    return simple(sl(1), w(0), *wrap(n, [sl(2), x], 1), w(4), *exits)
                                if chain[d] == "L":
                                    return loop(lambda i: build(d + 1, ids + [i]), simple(w(5), *([sl(3), cond(4, [], [br(ids[-1])])] if d and chain[d - 1] == "L" else []), at=3))
                                def inner(i):
                                    return build(d + 1, ids + [i])
                                plain = lambda i: simple(w(6), sl(4), eh(i), at=40 + d)
                                arms = {"first": [lambda i: head(inner(i), 1), plain], "second": [plain, lambda i: head(inner(i), 1)],
                                        "after": [plain, lambda i: simple(w(3), cond(3, [sl(4), eh(i)], [w(7)]), at=60 + d), lambda i: head(inner(i), 1)]}[side]
                                return multi(arms, simple(w(7), *([sl(3), cond(4, [], [br(ids[-1])])] if d and chain[d - 1] == "L" else []), at=4))

                            def head(b, k):
                                """the same block entered at label k"""
                                if b[2] == "Simple":
                                    return B.upd(b, internal=B.upd(B.get(b, "internal"), label=B.id("LabelId", k)))
                                return b
                            return simple(sl(1), next=build(0, []))
                        out[f"{chain}/{kind}/{tgt}/{n}/{side}"] = mk
    return lab, out


def contexts(ck):
    """every block is lowered with the label variable of its own code"""
    def one():
        A = asm.Assembly(ck, defined=("main", "f", "g"))
        B = A.B
        want = {}
        for n, (name, b) in enumerate(A.blocks.items()):
            want[b] = (name, B.var(901 + n))
        want[A.gb] = ("the global instructions", B.var(890))
        for st, _ in A.outs:
            seen = {}
            for name, terms, _ in st.trace:
                if name.endswith("::convert_block_to_wasm"):
                    fc = next((t for t in terms if isinstance(t, tuple) and t[0] == "e" and t[1].endswith("FunctionContext")), None)
                    seen[terms[0]] = fc
            for b, (n, v) in want.items():
                fc = seen.get(b)
                ck.ob("context", n, fc is not None and B.get(fc, "label_variable") == v and B.get(fc, "control_flow_stack") == q(),
                      f"the code of {n} is generated with another function's label variable or inside a construct", ck.where(A.f.name), n)
    ck.guard("context", "assembly", one)


def check(ck):
    W = c09.Work(ck)
    f = W.I.find(CG + "convert_block_to_wasm")
    types = list(W.G.types), dict(W.G.vars)

    def one(case):
        if case[0] == "shape":
            _, key, mk = case

            def go():
                bad = lower(ck, W, mk(), lab)
                ck.ob("tree", key, bad is None, f"blocks {key}: {bad}", ck.where(f.name), key)
            ck.guard("tree", key, go)
            return
        cls, key, mk, glob = case

        def go():
            G = W.G
            for rev in (False, True):
                G.types, G.vars = list(types[0]), dict(types[1])
                W.I.reverse_maps = rev
                try:
                    outs = W.reloop(mk(), glob)
                finally:
                    W.I.reverse_maps = False
                for st, b, lv, md in outs:
                    G.types.append((lv, W.B.irty("U64")))
                    G.vars[lv] = Sym("in", ("offlabel",), ("prim", "u32"))
                    bad = lower(ck, W, unbox(b), lv)
                    ck.ob(cls, f"{key}/{'reversed' if rev else 'forward'}", bad is None, f"the blocks of {key}: {bad}", ck.where(f.name), key)
        ck.guard(cls, key, go)
    contexts(ck)
    lab, trees = shapes(W)
    types = list(W.G.types), dict(W.G.vars)
    graphs = [x for x in c09.cases(W) if x[0] != "graph/4" or ck.tier == "thorough"]
    ck.parallel(one, [("shape", k, mk) for k, mk in trees.items()] + graphs)
    for k, n in (("context", 4), ("tree", 300), ("graph/2", 16), ("graph/3", 140), ("graph/large", 60), ("list", 46), ("global", 12)):
        ck.floor(k, n)
