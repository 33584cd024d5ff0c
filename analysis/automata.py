"""Control automata: of a list of intermediate instructions, of structured blocks, of generated code; and their comparison.

A node is ("jmp", n) | ("obs", event, n) | ("test", event, n_equal, n_unequal) | ("set", label, n) | ("disp", [(labels, n)], default)
| ("end",) | ("bad", text). The state of a run is a node and the value of the label variable."""
from gen import *
from absint import c, AnalysisError
import wasmsem as ws


class Auto:
    def __init__(self):
        self.nodes = []

    def new(self, n=None):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def step(self, n, lab):
        """the next observable point: (node, label) after silent moves, or ("bad", text)"""
        seen = set()
        while True:
            if (n, lab) in seen:
                return ("silent loop",)
            seen.add((n, lab))
            x = self.nodes[n]
            if x is None:
                raise AnalysisError("unfinished automaton")
            if x[0] == "jmp":
                n = x[1]
            elif x[0] == "set":
                lab, n = x[1], x[2]
            elif x[0] == "disp":
                n = next((t for ls, t in x[1] if lab in ls), x[2])
            elif x[0] == "bad":
                return ("stuck: " + x[1],)
            else:
                return (n, lab)


def compare(a, sa, b, sb, limit=20000):
    """None, or a description of the first point at which b differs from a"""
    start = (a.step(sa, None), b.step(sb, None))
    todo, seen = [(start, ())], {start}
    while todo:
        (x, y), path = todo.pop()
        if len(x) == 1 or len(y) == 1:
            if len(x) == 1 and x == ("silent loop",) and y == x:
                continue
            return f"after {' '.join(path) or 'the start'}: {describe(a, x)} in the source, {describe(b, y)} in the result"
        u, v = a.nodes[x[0]], b.nodes[y[0]]
        if u[0] != v[0] or u[0] in ("obs", "test") and u[1] != v[1]:
            return f"after {' '.join(path) or 'the start'}: {describe(a, x)} in the source, {describe(b, y)} in the result"
        succ = {"obs": [("", 2)], "test": [("=", 2), ("≠", 3)], "end": []}[u[0]]
        for s_, k in succ:
            nx = (a.step(u[k], x[1]), b.step(v[k], y[1]))
            if nx not in seen:
                seen.add(nx)
                todo.append((nx, path + (str(u[1]) + s_,)))
        if len(seen) > limit:
            raise AnalysisError("the automata are too large")
    return None


def describe(a, x):
    if len(x) == 1:
        return x[0]
    n = a.nodes[x[0]]
    return {"obs": "step ", "test": "test ", "end": "return"}[n[0]] + (str(n[1]) if len(n) > 1 else "")


class Ir:
    """automata of intermediate instructions; marks: variable → event name, conds: variable → event name, label: the label variable"""

    def __init__(self, B, marks, conds):
        self.B, self.marks, self.conds = B, marks, conds

    def ops(self, i):
        return i[3][1:]

    def labid(self, v):
        return [x for x in v[3] if isinstance(x, tuple) and x[0] == "c"][0][1]

    def cond_event(self, i):
        s_ = self.ops(i)[0]
        k = self.conds.get(s_[3][0]) if s_[2] in ("Var",) else None
        if k is None or self.ops(i)[1][2] != "Constant":
            raise AnalysisError("an unexpected condition: " + i[2])
        return k

    def assign(self, A, i, nxt, label):
        ops = self.ops(i)
        if i[2] in ("Nop", "ReferenceVariable"):
            return nxt
        if i[2] != "SimpleAssignment":
            return A.new(("bad", "unexpected " + i[2]))
        if label is not None and ops[0] == label:
            if ops[1][2] != "Constant":
                return A.new(("bad", "the label variable is assigned a variable"))
            return A.new(("set", unbox(ops[1][3][0])[3][0][1], nxt))
        k = self.marks.get(ops[0])
        if k is None:
            return A.new(("bad", "an assignment that was not in the source"))
        return A.new(("obs", k, nxt))

    def listing(self, instrs):
        """(automaton, start) of a list with labels and branches"""
        A = Auto()
        end = A.new(("end",))
        at = {}
        for i in instrs:
            if i[2] == "Label":
                at[self.ops(i)[0]] = A.new()
        nxt = end
        for i in reversed(instrs):
            o = self.ops(i)
            if i[2] == "Label":
                A.nodes[at[o[0]]] = ("jmp", nxt)
                nxt = at[o[0]]
            elif i[2] == "Br":
                nxt = A.new(("jmp", at[o[0]]))
            elif i[2] in ("BrIfEq", "BrIfNotEq"):
                t = (at[o[2]], nxt)
                nxt = A.new(("test", self.cond_event(i)) + (t if i[2] == "BrIfEq" else t[::-1]))
            elif i[2] == "Ret":
                nxt = end
            else:
                nxt = self.assign(A, i, nxt, None)
        return A, nxt

    def blocks(self, block, label):
        A = Auto()
        end = A.new(("end",))
        return A, self._block(A, block, end, {}, label)

    def _next(self, A, v, cont, env, label):
        return self._block(A, unbox(v[3][0]), cont, env, label) if v[2] == "Some" else cont

    def _block(self, A, b, cont, env, label):
        g = lambda f: self.B.get(b, f)
        if b[2] == "Simple":
            return self._instrs(A, list(self.B.get(g("internal"), "instrs")[1]), self._next(A, g("next"), cont, env, label), env, label)
        nxt = self._next(A, g("next"), cont, env, label)
        if b[2] == "Loop":
            top = A.new()
            e = dict(env)
            e[("Break", g("id"))] = nxt
            e[("Continue", g("id"))] = top
            A.nodes[top] = ("jmp", self._block(A, unbox(g("inner")), top, e, label))
            return top
        e = dict(env)
        e[("EndHandledBlock", g("id"))] = nxt
        arms = []
        for h in g("handled_blocks")[1]:
            arms.append((self.entries(h), self._block(A, h, nxt, e, label)))
        for k, (ls, _) in enumerate(arms):
            for ls2, _ in arms[:k]:
                if ls & ls2:
                    raise AnalysisError("two handled blocks with the same entry label")
        return A.new(("disp", arms, nxt))

    def entries(self, b):
        g = lambda f: self.B.get(b, f)
        if b[2] == "Simple":
            return {self.labid(self.B.get(g("internal"), "label"))}
        if b[2] == "Loop":
            return self.entries(unbox(g("inner")))
        r = set()
        for h in g("handled_blocks")[1]:
            r |= self.entries(h)
        if g("next")[2] == "Some":
            r |= self.entries(unbox(g("next")[3][0]))
        return r

    def _instrs(self, A, instrs, nxt, env, label):
        for i in reversed(instrs):
            o = self.ops(i)
            if i[2] in ("Break", "Continue", "EndHandledBlock"):
                nxt = env.get((i[2], o[0]))
                if nxt is None:
                    nxt = A.new(("bad", f"{i[2]} of a construct that does not enclose it"))
            elif i[2] in ("Br", "BrIfEq", "BrIfNotEq", "Label"):
                nxt = A.new(("bad", f"{i[2]} left in a block"))
            elif i[2] == "Ret":
                nxt = 0
            elif i[2] in ("IfEqElse", "IfNotEqElse"):
                t = tuple(self._instrs(A, list(x[1]), nxt, env, label) for x in o[2:4])
                nxt = A.new(("test", self.cond_event(i)) + (t if i[2] == "IfEqElse" else t[::-1]))
            else:
                nxt = self.assign(A, i, nxt, label)
        return nxt


class Read(ws.Machine):
    """executes a straight-line piece with the label variable and the condition variables known"""

    def __init__(self, B, addrs, lab, choice):
        super().__init__(B)
        self.addrs, self.lab, self.choice = addrs, lab, choice
        self.asked = set()

    def read(self, w, addr):
        k = self.addrs.get(addr)
        if k is None:
            return super().read(w, addr)
        if k == ("label",):
            if self.lab is None:
                raise ws.StackError("the label variable is read before it is set")
            return ("k", w, self.lab)
        self.asked.add(k)
        return ("k", w, self.choice)


class Wasm:
    """automaton of generated code, explored on demand: nodes are positions, states carry the label value"""

    def __init__(self, B, items, addrs):
        self.B, self.addrs = B, addrs
        self.w = ws.Wasm(B)
        self.code = []       # ("plain", item, next) | ("if", t, f) | ("jmp", n) | ("end",)
        end = self.add(("end",))
        self.end = end
        self.start = self.comp(items, end, [])

    def add(self, n=None):
        self.code.append(n)
        return len(self.code) - 1

    def comp(self, items, nxt, labels):
        for i in reversed(list(items)):
            if i[0] == "splice":
                raise AnalysisError("unknown instructions in the generated code")
            n, f = i[2], self.w.field
            if n == "Block":
                nxt = self.comp(self.w.seq(f(i, "instrs")), nxt, [nxt] + labels)
            elif n == "Loop":
                top = self.add()
                self.code[top] = ("jmp", self.comp(self.w.seq(f(i, "instrs")), nxt, [top] + labels))
                nxt = top
            elif n == "IfElse":
                if self.w.blocktype(i):
                    nxt = self.add(("plain", i, nxt))
                    continue
                a = [self.comp(self.w.seq(f(i, k)), nxt, [nxt] + labels) for k in ("if_instrs", "else_instrs")]
                nxt = self.add(("if", *a))
            elif n in ("Br", "BrIf"):
                d = f(i, "label_idx")[3][0][1]
                if d >= len(labels):
                    to = self.add(("bad", "a branch out of every construct"))
                else:
                    to = labels[d]
                nxt = self.add(("jmp", to)) if n == "Br" else self.add(("if", to, nxt))
            elif n == "Return":
                nxt = self.end
            else:
                nxt = self.add(("plain", i, nxt))
        return nxt

    def auto(self):
        """explicit automaton whose node names are (position, label)"""
        A = Auto()
        ids = {}

        def node(n, lab):
            if (n, lab) not in ids:
                ids[n, lab] = A.new()
                todo.append((n, lab))
            return ids[n, lab]
        todo = []
        s0 = node(self.start, None)
        while todo:
            n, lab = todo.pop()
            me = ids[n, lab]
            r = []
            try:
                r = [self.piece(n, lab, v) for v in (0, 1)]
            except (ws.StackError, ws.Unsupported) as e:
                A.nodes[me] = ("bad", str(e))
                continue
            (ev, to, l2, asked), (ev1, to1, l21, asked1) = r
            if ev == "end":
                A.nodes[me] = ("end",) if not asked else ("bad", "a condition is read without being tested")
            elif ev is not None:
                A.nodes[me] = ("bad", "a condition is read without being tested") if asked else ("obs", ev, node(to, l2))
            elif asked:
                if len(asked) != 1 or asked != asked1:
                    A.nodes[me] = ("bad", "several conditions are tested at once")
                else:
                    A.nodes[me] = ("test", next(iter(asked)), node(to, l2), node(to1, l21))
            else:
                A.nodes[me] = ("jmp", node(to, l2))
            if len(ids) > 20000:
                raise AnalysisError("the automaton is too large")
        return A, s0

    def piece(self, n, lab, v):
        """(event or None, next position, label, conditions read) up to the next store or branch"""
        m = Read(self.B, self.addrs, lab, v)
        while True:
            x = self.code[n]
            if x[0] == "bad":
                raise ws.StackError(x[1])
            if x[0] in ("end", "jmp") and m.stack:
                raise ws.StackError("a value is left on the stack")
            if x[0] == "end":
                return "end", None, lab, m.asked
            if x[0] == "jmp":
                return None, x[1], lab, m.asked
            if x[0] == "if":
                b = ws.to_bool(32, m.pop("i32"))
                if b == ws.bconst(True) or b == ws.bconst(1):
                    t = x[1]
                elif b == ws.bconst(False):
                    t = x[2]
                else:
                    raise ws.StackError("a branch on an unknown value")
                if m.stack:
                    raise ws.StackError("a value is left on the stack")
                return None, t, lab, m.asked
            m.step(x[1])
            n = x[2]
            if m.stores:
                _, _, w, term, addr = m.stores[-1]
                if addr[0] == "k" and addr[2] in (0, 4, 8):
                    m.stores.pop()          # leaving the frame: C17
                    continue
                k = self.addrs.get(addr)
                if k == ("label",):
                    if term[0] != "k":
                        raise ws.StackError("the label variable is set to an unknown value")
                    return None, n, term[2], m.asked
                if m.stack:
                    raise ws.StackError("a value is left on the stack")
                if k is None:
                    raise ws.StackError("a store that is not in the blocks")
                return k, n, lab, m.asked
