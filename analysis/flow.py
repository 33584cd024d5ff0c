"""Meaning of structured C statements as a graph of observable events, and the comparison of generated instructions with it.

Statements: ('ev',$x) opaque statement; ('expr',$x); ('decl',$x); ('if',$c,s); ('ife',$c,a,b); ('while',$c,s); ('do',s,$c);
('for',init,$c|None,$s|None,body) with init None, ('expr',$x) or ('decl',$x); ('block',[s...]); ('break',); ('continue',); ('ret',$x|None);
('switch',$x,s); ('case',value,s); ('default',s); ('label',name,s); ('goto',name); ('empty',)."""
from front import *
import wasmsem as ws
import c03, c04


def syntax(F, s):
    k = s[0]
    S = F.S
    e = lambda n: F.kid(n, F.kids[n]["src"], F.kids[n]["mark"])
    if k == "ev":
        return F.sub(s[1])
    if k == "expr":
        return S("Expr", e(s[1]))
    if k == "if":
        return S("If", e(s[1]), box(syntax(F, s[2])))
    if k == "ife":
        return S("IfElse", e(s[1]), box(syntax(F, s[2])), box(syntax(F, s[3])))
    if k == "while":
        return S("While", e(s[1]), box(syntax(F, s[2])))
    if k == "do":
        return S("DoWhile", box(syntax(F, s[1])), e(s[2]))
    if k == "for":
        ini = NONE
        if s[1] is not None:
            d = s[1][0] == "decl"
            ini = some(F.B.new("ExpressionOrDeclaration", "Declaration" if d else "Expression", box(F.sub(s[1][1])) if d else e(s[1][1])))
        return S("For", ini, some(e(s[2])) if s[2] else NONE, some(e(s[3])) if s[3] else NONE, box(syntax(F, s[4])))
    if k == "block":
        return S("Block", q(*[syntax(F, x) for x in s[1]]))
    if k in ("break", "continue", "empty"):
        return S(k.capitalize())
    if k == "ret":
        return S("Return", some(e(s[1])) if s[1] else NONE)
    if k == "switch":
        return S("Switch", e(s[1]), box(syntax(F, s[2])))
    L = lambda *a: S("Labelled", F.B.new("LabelledStatement", *a))
    if k == "case":
        n = F.int(s[1]) if s[1] >= 0 else F.un("Minus", F.int(-s[1]))
        return L("Case", n, box(syntax(F, s[2])))
    if k == "default":
        return L("Default", box(syntax(F, s[1])))
    if k == "label":
        return L("Named", F.ident(s[1]), box(syntax(F, s[2])))
    if k == "goto":
        return S("Goto", F.ident(s[1]))
    raise KeyError(k)


class Graph:
    def __init__(self, s):
        self.nodes = []
        self.labels = {}
        self.end = self.new(("end",))
        self.start = self.comp(s, self.end, None, None, None)

    def new(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def label(self, n):
        if n not in self.labels:
            self.labels[n] = self.new(("undef", n))
        return self.labels[n]

    def cond(self, c_, t, f):
        return self.new(("ev", c_, self.new(("br", c_, t, f))))

    def comp(self, s, nxt, brk, cont, sw):
        k = s[0]
        if k in ("ev", "expr", "decl"):
            return self.new(("ev", s[1], nxt))
        if k == "if":
            return self.cond(s[1], self.comp(s[2], nxt, brk, cont, sw), nxt)
        if k == "ife":
            return self.cond(s[1], self.comp(s[2], nxt, brk, cont, sw), self.comp(s[3], nxt, brk, cont, sw))
        if k == "while":
            top = self.new(None)
            body = self.comp(s[2], top, nxt, top, sw)
            self.nodes[top] = ("jmp", self.cond(s[1], body, nxt))
            return top
        if k == "do":
            test = self.new(None)
            body = self.comp(s[1], test, nxt, test, sw)
            self.nodes[test] = ("jmp", self.cond(s[2], body, nxt))
            return body
        if k == "for":
            top, step = self.new(None), self.new(None)
            body = self.comp(s[4], step, nxt, step, sw)
            self.nodes[step] = ("ev", s[3], top) if s[3] else ("jmp", top)
            self.nodes[top] = ("jmp", self.cond(s[2], body, nxt) if s[2] else body)
            return self.comp(s[1], top, None, None, None) if s[1] else top
        if k == "block":
            for x in reversed(s[1]):
                nxt = self.comp(x, nxt, brk, cont, sw)
            return nxt
        if k == "break":
            return brk
        if k == "continue":
            return cont
        if k == "empty":
            return nxt
        if k == "ret":
            n = self.new(("ret", s[1]))
            return self.new(("ev", s[1], n)) if s[1] else n
        if k == "switch":
            tab = []
            n = self.new(None)
            self.comp(s[2], nxt, nxt, cont, tab)
            d = [t for v, t in tab if v is None]
            self.nodes[n] = ("sw", s[1], [(v, t) for v, t in tab if v is not None], d[0] if d else nxt)
            return self.new(("ev", s[1], n))
        if k in ("case", "default"):
            b = self.new(None)
            sw.append((s[1] if k == "case" else None, b))
            self.nodes[b] = ("jmp", self.comp(s[-1], nxt, brk, cont, sw))
            return b
        if k == "label":
            n = self.label(s[1])
            self.nodes[n] = ("jmp", self.comp(s[2], nxt, brk, cont, sw))
            return n
        if k == "goto":
            return self.label(s[1])
        raise KeyError(k)


class Mismatch(Exception):
    pass


class Compare:
    """do the instructions and the graph have the same behaviours?"""

    def __init__(self, F, instrs, md, graph, types, ret=None):
        self.F, self.instrs, self.md, self.g, self.types, self.ret = F, instrs, md, graph, types, ret
        self.labels = {}
        for k, i in enumerate(instrs):
            if i[0] == "e" and i[2] == "Label":
                if i[3][1] in self.labels:
                    raise Mismatch("a label is placed twice")
                self.labels[i[3][1]] = k
        names = F.B.get(md, "label_ids")
        self.names = {v: k[1] for k, v in names[2]} if names[0] == "m" else {}
        F._slots = None
        self.pairs = 0
        self.branches = 0

    def snap(self, m):
        d = {}
        for r, o, w, v, a in m.stores:
            d[(r, o)] = (w, v, a)
        return tuple(sorted(d.items(), key=repr))

    def machine(self, snap):
        m = ws.Machine(self.F.B)
        for (r, o), (w, v, a) in snap:
            m.stores.append((r, o, w, v, a))
        return m

    def val(self, kid, counts):
        """(type, value term or python number) of the kid as last evaluated"""
        t = self.types[kid]
        src = self.F.kids[kid]["src"]
        if src[2] == "Constant":
            return t, src[3][0][3][0]
        m = self.machine(counts)
        return t, self.F.read_src(m, src, self.md, "U32" if isinstance(t, tuple) else t)

    def ir(self, pc, snap):
        """next observable event of the instructions: (event, ...)"""
        F = self.F
        m = self.machine(snap)
        seen = set()
        while True:
            if pc >= len(self.instrs):
                return ("end",)
            i = self.instrs[pc]
            here = (pc, self.snap(m)) if i[2] in ("Label",) else None
            if here:
                if here in seen:
                    return ("diverge",)
                seen.add(here)
            pc += 1
            n = F.child_of(i)
            if n:
                return ("ev", n, pc, m)
            k = i[2]
            if k in ("Label", "Nop"):
                continue
            if k == "Br":
                t = i[3][1]
                if t not in self.labels:
                    return ("goto", self.names.get(t, "?"))
                pc = self.labels[t]
                continue
            if k in ("BrIfEq", "BrIfNotEq"):
                b = F.cond(m, i, self.md)
                t = i[3][3]
                if t not in self.labels:
                    raise Mismatch("a conditional branch has an unplaced label as its target")
                if b[0] == "b" and not b[1]:
                    if b[2][0]:
                        pc = self.labels[t]
                    continue
                return ("br", b, self.labels[t], pc, m)
            if k == "Ret":
                o = i[3][1]
                return ("ret", None if o[2] == "None" else F.read_any(m, o[3][0], self.md))
            outs = F.code(i, md=self.md)
            if len(outs) != 1:
                raise AnalysisError(f"{len(outs)} outcomes of generating code for {k}")
            m.run(outs[0][1])
            if m.stack:
                raise Mismatch("the code is not valid: a value is left on the stack")

    def spec(self, n, snap):
        """next observable node of the graph"""
        seen = set()
        while True:
            if n in seen:
                return ("diverge",)
            seen.add(n)
            x = self.g.nodes[n]
            if x[0] == "jmp":
                n = x[1]
                continue
            if x[0] == "ev" and not self.F.kids.get(x[1], {"mark": True})["mark"]:
                n = x[2]
                continue
            if x[0] == "br":
                t, v = self.val(x[1], snap)
                if isinstance(v, tuple) and v[0] == "c":
                    n = x[2] if v[1] else x[3]
                    continue
                return ("br", c03.boolean(t if isinstance(t, str) else "U32", v), x[2], x[3])
            if x[0] == "sw":
                return ("sw",) + x[1:]
            return x

    def run(self):
        F = self.F
        todo = [(0, self.snap(F.stale()), self.g.start, None)]
        seen = set()
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            self.pairs += 1
            if self.pairs > 4000:
                raise AnalysisError("too many states")
            pc, snap, node, left = st
            e = self.ir(pc, snap)
            s_ = self.spec(node, snap) if left is None else ("sw",) + self.g.nodes[node][1:]
            if s_[0] == "sw":
                _, kid, table, dflt = s_
                if left is None:
                    left = frozenset(range(len(table)))
                    for n, x in enumerate(self.g.nodes):
                        if x[0] == "sw" and x[1] == kid:
                            node = n
                t, v = self.val(kid, snap)
                if isinstance(v, tuple) and v[0] == "c":
                    hit = [tg for cv, tg in table if cv == v[1]]
                    todo.append((pc, snap, hit[0] if hit else dflt, None))
                    continue
                P = t if size_bits(t) >= 32 else "I32"
                w = 64 if size_bits(P) == 64 else 32
                alts = []
                from c07 import cast
                for y in cast(t, P, v):
                    alts.append(y)
                if e[0] == "br":
                    hit = None
                    for j in left:
                        for y in alts:
                            q_ = c03.meaning("Equal", P, y, num(w, table[j][0]))
                            q_ = ws.to_bool(32, q_)
                            if e[1] == q_:
                                hit = (j, e[2], e[3])
                            elif e[1] == ws.bnot(q_):
                                hit = (j, e[3], e[2])
                    if hit:
                        self.branches += 1
                        j, yes, no = hit
                        sn = self.snap(e[4])
                        todo.append((yes, sn, table[j][1], None))
                        todo.append((no, sn, node, left - {j}))
                        continue
                # a value that the operand cannot have need not be tested
                left = frozenset(j for j in left if not any(ws.to_bool(32, c03.meaning("Equal", P, y, num(w, table[j][0]))) == ws.bconst(False) for y in alts))
                if left and not all(table[j][1] == dflt for j in left):
                    raise Mismatch(f"the switch leaves without comparing with {sorted(table[j][0] for j in left)}"
                                   + (f"; it tests {ws.sh(e[1])}" if e[0] == "br" else ""))
                todo.append((pc, snap, dflt, None))
                continue
            if e[0] == "br":
                if s_[0] != "br":
                    raise Mismatch(f"the code branches on {ws.sh(e[1])} where the statement {self.say(s_)}")
                self.branches += 1
                sn = self.snap(e[4])
                if e[1] == s_[1]:
                    todo += [(e[2], sn, s_[2], None), (e[3], sn, s_[3], None)]
                elif e[1] == ws.bnot(s_[1]):
                    todo += [(e[2], sn, s_[3], None), (e[3], sn, s_[2], None)]
                else:
                    raise Mismatch(f"the code branches on {ws.sh(e[1])}, expected {ws.sh(s_[1])}")
                continue
            if e[0] == "ev":
                if s_[0] != "ev" or s_[1] != e[1]:
                    raise Mismatch(f"the code runs {e[1]} where the statement {self.say(s_)}")
                m = e[3]
                if e[1] in F.slots():
                    a, w = F.slots()[e[1]]
                    cur = m.read(w, a)
                    F.fresh(m, e[1], 1 if cur == ("mem", w, a, 0) else 0)
                todo.append((e[2], self.snap(m), s_[2], None))
                continue
            if e[0] == "ret":
                if s_[0] != "ret":
                    raise Mismatch(f"the code returns where the statement {self.say(s_)}")
                self.returns(e[1], s_[1], snap)
                continue
            if e[0] == "goto":
                if s_[0] != "undef" or s_[1] != e[1]:
                    raise Mismatch(f"the code jumps to {e[1]} where the statement {self.say(s_)}")
                continue
            if e[0] != s_[0]:
                raise Mismatch(f"the code {'ends' if e[0] == 'end' else 'runs forever'} where the statement {self.say(s_)}")

    def returns(self, got, kid, snap):
        if (got is None) != (kid is None):
            raise Mismatch("a value is returned by only one of the code and the statement")
        if kid is None:
            return
        from c07 import cast
        t, v = self.val(kid, snap)
        R = self.ret
        if got[0] == "const":
            if isinstance(v, tuple) and v[0] == "c" and got[2] == v:
                if (got[1] == "Int") == (R in INTS or isinstance(R, tuple)):
                    return
            raise Mismatch(f"the constant {got} is returned, expected {ws.sh(v)} as {R}")
        if got[0] != R and not (isinstance(R, tuple) and isinstance(got[0], tuple)):
            raise Mismatch(f"a value of type {got[0]} is returned by a function returning {R}")
        if isinstance(R, tuple):
            alts = [v if not (isinstance(v, tuple) and v[0] == "c") else num(32, v[1])]
        elif isinstance(v, tuple) and v[0] == "c":
            alts = [x for x in (cast("I64", R, num(64, v[1])) if t in INTS else [ws.fconst(size_bits(R), v)])]
            if t in INTS:
                alts += cast("I32", R, num(32, v[1])) if -2**31 <= v[1] < 2**31 else []
                alts += cast("U32", R, num(32, v[1])) if 0 <= v[1] < 2**32 else []
                if R in FLOATS:
                    alts += [ws.fconst(FLOATS[R], v), ws.fconst(FLOATS[R], c(float(v[1])))]
        else:
            alts = cast(t, R, v) if isinstance(t, str) else [v]
        if got[1] not in alts:
            raise Mismatch(f"{ws.sh(got[1])} is returned, expected {ws.sh(alts[0])}")

    def say(self, s_):
        return {"ev": lambda: f"runs {s_[1]}", "br": lambda: f"branches on {ws.sh(s_[1])}", "ret": lambda: "returns", "end": lambda: "ends",
                "undef": lambda: f"jumps to {s_[1]}", "diverge": lambda: "runs forever", "sw": lambda: "switches"}[s_[0]]()
