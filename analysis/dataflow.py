"""True liveness of structured blocks: over the paths the blocks can really take, the label variable's value being tracked."""
from automata import *
import c09

JUMPS = ("Break", "Continue", "EndHandledBlock")


def vars_of(x):
    if isinstance(x, tuple):
        if x and x[0] == "e" and x[1].endswith("::VarId"):
            yield x
            return
        for y in x:
            yield from vars_of(y)


def def_use(i):
    """(variables written, variables read) of the simple instructions used in the graphs"""
    n, o = i[2], i[3][1:]
    if n in ("SimpleAssignment", "Call", "AddressOf", "Add", "LoadFromAddress"):
        return set(vars_of(o[0])), set(vars_of(o[1:])) if n != "AddressOf" else set()
    if n in ("StoreToAddress", "Ret", "TailCall", "ReferenceVariable"):
        return set(), set(vars_of(o))
    if n in ("IfEqElse", "IfNotEqElse"):
        return set(), set(vars_of(o[:2]))
    if n in JUMPS + ("Nop", "DeclareVariable"):
        return (set(vars_of(o)) if n == "DeclareVariable" else set()), set()
    raise AnalysisError("no definition and use of " + n)


class Flow(Ir):
    def __init__(self, B, label):
        super().__init__(B, {}, {})
        self.label = label

    def step(self, A, i, nxt):
        return A.new(("obs", i, nxt))

    def automaton(self, block):
        return self.blocks(block, self.label)

    def cond_event(self, i):
        return i

    def assign(self, A, i, nxt, label):
        o = self.ops(i)
        if i[2] == "SimpleAssignment" and o[0] == label and o[1][2] == "Constant":
            nxt = A.new(("set", unbox(o[1][3][0])[3][0][1], nxt))
        return self.step(A, i, nxt)

    def _instrs(self, A, instrs, nxt, env, label):
        for i in reversed(instrs):
            if i[2] in JUMPS + ("Ret", "TailCall"):
                nxt = self.step(A, i, super()._instrs(A, [i], nxt, env, label) if i[2] != "TailCall" else 0)
            else:
                nxt = super()._instrs(A, [i], nxt, env, label)
        return nxt

    def _block(self, A, b, cont, env, label):
        n = super()._block(A, b, cont, env, label)
        if b[2] == "Multiple":
            # the dispatch reads the label variable; instructions that stand for that are not executed
            n = A.new(("obs", ("dispatch",), n))
            for i in reversed(self.B.get(b, "pre_handled_blocks_instrs")[1]):
                n = self.step(A, i, n)
        return n


def instr_id(B, i):
    return i[3][0]


def liveness(F, A, start, skip=frozenset()):
    """{instruction id: (live before, [live after, on each reachable state])} over the reachable states; instructions in skip have no effect"""
    states, order, todo = {}, [], [(start, None)]
    ev = {}
    succ = {}
    while todo:
        s_ = todo.pop()
        if s_ in succ:
            continue
        n, lab = s_
        x = A.nodes[n]
        if x[0] == "jmp":
            nx = [(x[1], lab)]
        elif x[0] == "set":
            nx = [(x[2], x[1])]
        elif x[0] == "disp":
            nx = [(next((t for ls, t in x[1] if lab in ls), x[2]), lab)]
        elif x[0] == "obs":
            nx = [(x[2], lab)]
        elif x[0] == "test":
            nx = [(x[2], lab), (x[3], lab)]
        elif x[0] == "end":
            nx = []
        else:
            raise ws.StackError(x[1])
        succ[s_] = nx
        order.append(s_)
        todo += nx
    pred = {s_: [] for s_ in order}
    for s_, nx in succ.items():
        for t in nx:
            pred[t].append(s_)
    eff = {}
    for s_ in order:
        x = A.nodes[s_[0]]
        if x[0] in ("obs", "test"):
            i = x[1]
            if i == ("dispatch",):
                eff[s_] = (set(), {F.label} - {None}, None)
            elif instr_id(F.B, i) in skip:
                eff[s_] = (set(), set(), i)
            else:
                eff[s_] = def_use(i) + (i,)
        else:
            eff[s_] = (set(), set(), None)
    live = {s_: set() for s_ in order}
    todo = set(order)
    while todo:
        s_ = todo.pop()
        out = set().union(*[live[t] for t in succ[s_]])
        d, r, _ = eff[s_]
        new = (out - d) | r
        if new != live[s_]:
            live[s_] = new
            todo.update(pred[s_])
    res = {}
    for s_ in order:
        d, r, i = eff[s_]
        if i is None:
            continue
        k = instr_id(F.B, i)
        out = set().union(*[live[t] for t in succ[s_]])
        cur = res.setdefault(k, (i, set(), set()))
        cur[1].update(live[s_])
        cur[2].update(out)
    return res


class Data(c09.Work):
    """instruction lists whose pieces compute from one another's variables"""

    TYPES = ("U64", "I8", "I32", "I16", "F64", "U32")

    def __init__(self, ck):
        super().__init__(ck)
        G = self.G
        G.reset()
        self.xv = [G.var(self.TYPES[k % len(self.TYPES)]) for k in range(8)]
        self.tv = [G.var(self.TYPES[k % len(self.TYPES)]) for k in range(8)]
        self.cv = [G.var("U64") for _ in range(8)]
        self.size = 3
        self.base = list(G.types), dict(G.vars)

    def set(self, d, s_):
        return self.G.instr("SimpleAssignment", d, s_ if s_[0] == "e" and s_[1].endswith("Src") else self.G.src(s_))

    def work(self, k):
        """piece k: reads the next variable, writes its own"""
        n = self.size
        a, b = self.xv[k % n], self.xv[(k + 1) % n]
        return [self.set(self.tv[k], b), self.set(a, self.tv[k]), self.set(self.cv[k], a)]

    def ret(self):
        return self.G.instr("Ret", some(self.G.src(self.xv[0])))

    def graph(self, term, kinds=None, work=True, start=True):
        self.size = max(2, len(term))
        out = []
        if start:
            out += [self.set(self.xv[k], self.G.const(c(k))) for k in range(self.size)]
            out += [self.set(self.cv[k], self.G.const(c(1))) for k in range(self.size)] if work is not True else []
        for i in super().graph(term, kinds, work):
            out += i if isinstance(i, list) else [i]
        # the number of every instruction is its place in the list
        return self.number(out)

    def number(self, out):
        B = self.B
        return [("e", i[1], i[2], (B.id("InstructionId", 10 + k),) + tuple(i[3][1:])) for k, i in enumerate(out)]

    def fix(self, lst):
        out = []
        for i in lst:
            out += i if isinstance(i, list) else [i]
        return self.number(out)

    def begin(self):
        G = self.G
        G.types, G.vars = list(self.base[0]), dict(self.base[1])

    def structured(self, instrs):
        """[(block, label variable)]"""
        G = self.G
        out = []
        for st, b, lv, md in self.reloop(instrs):
            G.types.append((lv, self.B.irty("U64")))
            G.vars[lv] = Sym("in", ("offlabel",), ("prim", "u32"))
            out.append((unbox(b), lv))
        return out


def cases(W, deep=False):
    """[(class, key, maker)]"""
    out = []
    for n in (1, 2, 3):
        for g in c09.graphs(n):
            out.append((f"graph/{n}", c09.show_graph(g), lambda g=g: W.graph(g)))
            h = [t[::-1] for t in g]
            out.append((f"graph/{n}", c09.show_graph(h) + ", little work", lambda h=h: W.graph(h, work=(1,))))
    if deep:
        for g in c09.graphs(4):
            out.append(("graph/4", c09.show_graph(g), lambda g=g: W.graph(g)))
    for k, g in c09.BIG.items():
        out.append(("graph/large", k, lambda g=g: W.graph(g)))
        out.append(("graph/large", k + ", arms swapped", lambda g=g: W.graph([t[::-1] for t in g])))
    for k, mk in c09.lists(W).items():
        def go(mk=mk):
            W.size = 5
            return W.fix([[W.set(W.xv[j], W.G.const(c(j))) for j in range(5)]] + mk())
        out.append(("list", k, go))
    return out


def allocate(G, blk, optimised, ret="Void", params=(), pvars=()):
    """[(offsets, block afterwards, bytes added to the stack pointer, metadata)] of giving the block's variables places"""
    I, B = G.I, G.B
    f = I.find("back_end::stack_allocation::allocate_vars::allocate_local_vars")
    st = State()
    names = B.arity("EnabledOptimisations")
    stk = [n for n in names if "stack" in n]
    opt = B.upd(B.new("EnabledOptimisations"), **{n: c(0) for n in names})
    opt = B.upd(opt, **{stk[0]: c(optimised)}) if isinstance(optimised, int) else optimised
    br, out = I.cell(st, "block", blk), I.cell(st, "wasm", q())
    mc, md = I.cell(st, "mctx", G.mctx(st)), I.cell(st, "md", G.metadata())
    I.panics.clear()
    res = []
    for s2, r in I.run(f, G.allocation_args(f, st, br, out, ("Function", ret, list(params), False), list(pvars), mc, md, opt), st):
        m = ws.Machine(B)
        m.run(I.freeze(s2, out)[1])
        old = m.region(("mem", 32, ws.num(32, 8), 0))
        new = m.region(m.read(32, ws.num(32, 8)))
        if old[0] != new[0]:
            raise AnalysisError("the stack pointer is not moved by a known distance")
        offs = {}
        for v, o in I.freeze(s2, r)[2]:
            if o[0] != "c":
                raise AnalysisError("an offset is not known")
            offs[v] = o[1]
        res.append((offs, I.freeze(s2, br), new[1] - old[1], I.freeze(s2, md)))
    if not res:
        raise ws.StackError("the compiler panics" + (f": {I.panics[0][2]} in {I.panics[0][0].split('::')[-1]}" if I.panics else ""))
    return res


def blocks_in(x):
    """every instruction of a block tree, in order, conditionals before their arms"""
    if isinstance(x, tuple) and x and x[0] == "e" and x[1].endswith("::Instruction"):
        yield x
        if x[2] in ("IfEqElse", "IfNotEqElse"):
            for a in x[3][3:5]:
                for i in a[1]:
                    yield from blocks_in(i)
        return
    if isinstance(x, tuple):
        for y in x:
            yield from blocks_in(y)


def without(x, drop, swap):
    """the block tree with the instructions whose id is in drop removed and those in swap replaced"""
    if isinstance(x, tuple) and x and x[0] == "q" and x[1] and all(isinstance(i, tuple) and i[0] == "e" and i[1].endswith("::Instruction") for i in x[1]):
        return q(*[without(swap.get(i[3][0], i), drop, swap) for i in x[1] if i[3][0] not in drop])
    if isinstance(x, tuple):
        return tuple(without(y, drop, swap) for y in x)
    return x


def sizes(G, md):
    from c17 import bytes_of
    out = {}
    for v, t in G.B.get(md, "var_types")[2]:
        d = G.tdesc(t)
        out[v] = 4 if isinstance(d, tuple) else bytes_of(d)
    return out
