"""C09: structuring of control flow."""
import itertools, os
from automata import *
import automata

TECHNIQUE = "abstract interpretation of the relooper (MIR) on enumerated control-flow graphs; bisimulation of the graph with the structured blocks it is turned into"
RULE = ("`reloop` is interpreted abstractly on instruction lists with opaque work and opaque conditions, for every control-flow graph of up to four labelled "
        "pieces of code (return, jump, conditional jump; up to renaming; fall-through, empty pieces, unreachable code and consecutive labels in further lists), graphs of up to six pieces with "
        "several loops, several entries and several exits, and forward-only graphs as global initialisers. The automaton of the input list and "
        "the automaton of the resulting blocks (label-variable dispatch, break, continue, end of handled block, fall-through) are compared by "
        "bisimulation over both outcomes of every condition, and the same for every iteration order of the maps the algorithm uses that the "
        "analysis distinguishes (insertion order and its reverse).")
ASSUMPTIONS = ["graphs of more than four labelled pieces behave as the combinations of the enumerated ones"]


THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


class Work:
    """builds instruction lists over labels 100.., marks and conditions"""

    def __init__(self, ck):
        self.G = Gen(ck)
        self.I, self.B = self.G.I, self.G.B
        self.f = self.I.find("relooper::relooper::reloop")
        self.marks, self.conds = {}, {}
        G = self.G
        self.mv = [G.var("U64") for _ in range(8)]
        self.cv = [G.var("U64") for _ in range(8)]
        self.marks = {v: k for k, v in enumerate(self.mv)}
        self.conds = {v: chr(97 + k) for k, v in enumerate(self.cv)}
        self.ir = Ir(self.B, self.marks, self.conds)

    def label(self, k):
        return self.G.instr("Label", self.B.id("LabelId", 100 + k))

    def jump(self, k):
        return self.G.instr("Br", self.B.id("LabelId", 100 + k))

    def work(self, k):
        return self.G.instr("SimpleAssignment", self.mv[k], self.G.const(c(k + 1)))

    def cond(self, k, to, kind="BrIfEq"):
        return self.G.instr(kind, self.G.src(self.cv[k]), self.G.const(c(0)), self.B.id("LabelId", 100 + to))

    def ret(self):
        return self.G.instr("Ret", NONE)

    def graph(self, term, kinds=None, work=True):
        """label k: work k (unless left out), then term[k]: () | (x,) | (x, y)"""
        out = []
        for k, t in enumerate(term):
            out += [self.label(k)] + ([self.work(k)] if work is True or k in (work or ()) else [])
            if not t:
                out.append(self.ret())
            elif len(t) == 1:
                out.append(self.jump(t[0]))
            else:
                out += [self.cond(k, t[0], (kinds or {}).get(k, "BrIfEq" if k % 2 else "BrIfNotEq")), self.jump(t[1])]
        return out

    def reloop(self, instrs, glob=False):
        """[(state, block, label variable, metadata)] for a function body or the global instructions"""
        B, I, G = self.B, self.I, self.G
        fid = B.id("FunId", 3)
        md = B.upd(G.metadata(), var_id_generator=B.new("IdGenerator", None, some(B.var(1000))),
                   label_id_generator=B.new("IdGenerator", None, some(B.id("LabelId", 500))),
                   instr_id_generator=B.new("IdGenerator", None, some(B.id("InstructionId", 5000))),
                   function_ids=B.map([(s("f"), fid)]), function_types=B.map([(fid, B.irty(("Function", "I32", [], False)))]))
        fn = B.new("ir::Function", None, instrs=q(*instrs), type_info=B.irty(("Function", "I32", [], False)), param_var_mappings=q(), body_is_defined=c(1))
        pi = B.upd(B.call("middle_end::ir::ProgramInstructions::new"), **({"global_instrs": q(*instrs)} if glob else {"functions": B.map([(fid, fn)])}))
        pr = B.new("ir::Program", None, program_instructions=pi, program_metadata=md)
        I.panics.clear()
        out = []
        for st, r in I.run(self.f, [pr], State()):
            r = I.freeze(st, r)
            pb, md2 = B.get(r, "program_blocks"), B.get(r, "program_metadata")
            if glob:
                b = B.get(pb, "global_instrs")
                gl = [n for n in B.arity("ProgramBlocks") if "label" in n]
            else:
                fs = dict(B.get(pb, "functions")[2])
                if fid not in fs:
                    raise ws.StackError("the function is missing from the result")
                b = B.get(fs[fid], "block")
            if b[2] != "Some":
                raise ws.StackError("no blocks are made")
            old = {v for v, _ in G.types}
            new = [(v, t) for v, t in B.get(md2, "var_types")[2] if v not in old]
            if len(new) != 1:
                raise AnalysisError("more than one new variable")
            if not glob and (B.get(fs[fid], "label_variable")[2] != "Some" or B.get(fs[fid], "label_variable")[3][0] != new[0][0]):
                raise ws.StackError("the function's label variable is not the one its code uses")
            if glob and [B.get(pb, n) for n in gl] != [some(new[0][0])]:
                raise ws.StackError("the label variable of the global instructions is not recorded")
            out.append((st, b[3][0], new[0][0], md2))
        if not out:
            raise ws.StackError("the compiler panics" + (f" ({I.panics[0][2]} in {I.panics[0][0].split('::')[-1]})" if I.panics else ""))
        return out

    def different(self, instrs, glob=False):
        """None, or how the blocks made of the list differ from it"""
        A, a0 = self.ir.listing(instrs)
        try:
            for st, b, lab, md in self.reloop(instrs, glob):
                Z, z0 = self.ir.blocks(unbox(b), lab)
                bad = automata.compare(A, a0, Z, z0)
                if bad:
                    return bad
        except ws.StackError as e:
            return str(e)
        return None


def reachable(term):
    seen, todo = {0}, [0]
    while todo:
        for t in term[todo.pop()]:
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def graphs(n):
    """every graph of n pieces, all reachable from the first, up to renaming of the others"""
    terms = [()] + [(a,) for a in range(n)] + [(a, b) for a in range(n) for b in range(n) if a != b]
    done = set()
    for g in itertools.product(terms, repeat=n):
        if len(reachable(g)) < n:
            continue
        best = None
        for p in itertools.permutations(range(1, n)):
            p = (0,) + p
            inv = [p.index(k) for k in range(n)]
            h = tuple(tuple(p[x] for x in g[inv[k]]) for k in range(n))
            # the two arms of a condition are interchangeable for the algorithm: keep one order
            h = tuple(tuple(sorted(x)) for x in h)
            if best is None or h < best:
                best = h
        if best not in done:
            done.add(best)
            yield best


def show_graph(g):
    return " ".join(f"{k}→{','.join(map(str, t)) or 'ret'}" for k, t in enumerate(g))


BIG = {
    "nested loops": [(1,), (2, 4), (3, 1), (2,), ()],
    "loop with two exits": [(1, 3), (2, 4), (0,), (), ()],
    "exits that meet": [(1, 3), (2, 3), (0, 4), (4,), ()],
    "two entries": [(1, 2), (2, 3), (1, 3), ()],
    "three entries": [(1, 2), (2, 3), (3, 4), (1, 4), ()],
    "switch": [(1, 2), (4,), (3, 4), (4,), ()],
    "diamond in a loop": [(1, 2), (3,), (3,), (0, 4), ()],
    "continue in an inner loop": [(1, 4), (2, 0), (1, 3), (0, 4), ()],
    "break of an outer loop": [(1,), (2, 3), (1, 4), (0, 4), ()],
    "join below": [(1, 2), (3, 4), (3, 4), (4,), ()],
    "loops in both arms": [(1, 2), (1, 3), (2, 4), (4,), ()],
    "loop with inner switch": [(1, 2), (0, 3), (0, 3), (0, 4), ()],
    "return inside a loop": [(1, 4), (2, 3), (0,), (), ()],
    "irreducible in a loop": [(1, 2), (2, 3), (1, 3), (0, 4), ()],
    "endless with exit": [(1,), (1, 2), (0, 3), (3,)],
    "six pieces": [(1, 2), (3, 4), (3, 5), (1, 5), (2, 5), ()],
    "two loops, shared exit": [(1, 2), (1, 5), (3, 5), (2, 4), (2, 5), ()],
}


def lists(W):
    """instruction lists that are not in the labelled form yet"""
    L, J, w, C, R = W.label, W.jump, W.work, W.cond, W.ret
    return {
        "straight line": lambda: [w(0), w(1)],
        "nothing but a return": lambda: [R()],
        "no label at the start": lambda: [w(0), C(0, 1), w(1), L(1), w(2)],
        "fall-through": lambda: [w(0), L(0), w(1), L(1), w(2), C(0, 0), w(3)],
        "consecutive labels": lambda: [w(0), C(0, 2), C(1, 1), w(1), L(0), L(1), L(2), w(2), C(2, 0), C(3, 1), C(4, 2), w(3)],
        "labels at the end": lambda: [w(0), C(0, 1), w(1), L(0), L(1)],
        "label at the start": lambda: [L(0), w(0), C(0, 0), w(1)],
        "labels at the start": lambda: [L(0), L(1), w(0), C(0, 1), C(1, 0), w(1)],
        "condition before a label": lambda: [w(0), C(0, 1), L(0), w(1), L(1), w(2)],
        "condition at the end": lambda: [L(0), w(0), C(0, 0)],
        "condition to the next label": lambda: [w(0), C(0, 0), L(0), w(1)],
        "conditions in sequence": lambda: [w(0), C(0, 0, "BrIfEq"), C(1, 1, "BrIfNotEq"), C(2, 0), w(1), R(), L(0), w(2), R(), L(1), w(3)],
        "return before a label": lambda: [w(0), C(0, 0), R(), L(0), w(1), R()],
        "unreachable code": lambda: [w(0), R(), w(1), L(0), w(2), C(0, 0), J(1), L(1), w(3)],
        "unreachable loop": lambda: [L(0), w(0), C(0, 2), J(3), L(1), w(1), C(1, 0), J(1), L(2), w(2), J(0), L(3), w(3)],
        "unreachable jump into a branch": lambda: [w(0), C(0, 1), w(1), J(2), L(0), w(4), J(1), L(1), w(2), L(2), w(3)],
        "jump to the next instruction": lambda: [w(0), J(0), L(0), w(1), J(1), L(1), R()],
        "empty pieces": lambda: [C(0, 0), J(1), L(0), J(2), L(1), J(2), L(2), C(1, 0), R()],
        "empty loop": lambda: [w(0), L(0), J(0)],
        "empty arms": lambda: [C(0, 0), C(1, 1), J(2), L(0), J(3), L(1), J(3), L(2), J(3), L(3), w(0), C(2, 0), C(3, 2)],
        "empty loop with exits": lambda: [L(0), C(0, 1), C(1, 2), J(0), L(1), w(1), R(), L(2), w(2)],
        "empty continue": lambda: [L(0), C(0, 1), w(0), L(2), C(1, 0), J(3), L(1), J(2), L(3), w(1)],
        "same target twice": lambda: [w(0), C(0, 0), J(0), L(0), w(1), C(1, 0), C(2, 0), J(1), L(1), w(2)],
        "return in each arm": lambda: [C(0, 0), w(0), R(), L(0), C(1, 1), w(1), R(), L(1), w(2), R()],
    }


GLOBALS = [[(1,), ()], [(1, 2), (2,), ()], [(1, 2), (3,), (3,), ()], [(1, 2), (2, 3), (3,), ()], [(1, 2), (3, 4), (3, 4), (4,), ()],
           [(1, 3), (2, 3), (4,), (4,), ()]]


def forward(W, term):
    """a list that ends without a return, as global initialisers do"""
    return W.graph(term)[:-1]


def cases(W):
    """[(class, key, maker, global)]"""
    out = []
    for n in (1, 2, 3, 4):
        for g in graphs(n):
            out.append((f"graph/{n}", show_graph(g), lambda g=g: W.graph(g), False))
            h = [t[::-1] for t in g]
            out.append((f"graph/{n}", show_graph(h) + ", no work", lambda h=h: W.graph(h, work=False), False))
            if n == 3 or n == 4 and THOROUGH:
                out.append((f"graph/{n}", show_graph(g) + ", little work", lambda g=g: W.graph(g, work=(1,)), False))
                out.append((f"graph/{n}", show_graph(h), lambda h=h: W.graph(h), False))
    for k, g in BIG.items():
        out.append(("graph/large", k, lambda g=g: W.graph(g), False))
        out.append(("graph/large", k + ", arms swapped", lambda g=g: W.graph([t[::-1] for t in g]), False))
    for k, mk in lists(W).items():
        out.append(("list", k, mk, False))
    for g in GLOBALS:
        out.append(("global", show_graph(g), lambda g=g: forward(W, g), True))
    return out


def check(ck):
    W = Work(ck)

    def one(case):
        cls, key, mk, glob = case

        def go():
            instrs = mk()
            for rev in (False, True) if cls != "graph/4" or THOROUGH else ("no work" in key,):
                W.I.reverse_maps = rev
                try:
                    bad = W.different(instrs, glob)
                finally:
                    W.I.reverse_maps = False
                o = "reversed" if rev else "forward"
                ck.ob(cls, f"{key}/{o}", bad is None, f"{key} ({o} order of maps): {bad}", ck.where(W.f.name), key)
        ck.guard(cls, key, go)
    ck.parallel(one, cases(W))
    for k, n in (("graph/2", 32), ("graph/3", 500), ("graph/4", 1600), ("graph/large", 60), ("list", 46), ("global", 12)):
        ck.floor(k, n)
