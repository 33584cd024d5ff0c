"""Abstract inputs for the middle end: syntax trees with opaque children, contexts, and the meaning of the IR it builds."""
from gen import *
import wasmsem as ws

AI = "middle_end::ast_to_ir::"
CTX = "middle_end::context::Context::"


class Front(Gen):
    """A child named '$x' stands for an arbitrary subtree: converting it yields opaque instructions and a given operand."""

    def __init__(self, ck, extra=None, **kw):
        self.extra = extra
        Gen.__init__(self, ck, self._pol, **kw)
        self.cexpr = self.I.find(AI + "convert_expression_to_ir")
        self.cstmt = self.I.find(AI + "convert_statement_to_ir")
        self.kids = {}
        self.on_kid = None
        self.structs = []
        self.unions = []
        self.ctx_fields = self.B.arity("Context")

    def reset(self):
        Gen.reset(self)
        self.kids = {}
        self.on_kid = None
        self.structs = []
        self.unions = []

    def _pol(self, name):
        if name == AI + "convert_expression_to_ir":
            return self._expr
        if name == AI + "convert_statement_to_ir":
            return self._stmt
        return self.extra(name) if self.extra else None

    def _name(self, I, st, a):
        """the opaque child an argument stands for"""
        v = I.freeze(st, a)
        while isinstance(v, tuple) and v[0] == "box":
            v = v[1]
        if isinstance(v, tuple) and v[0] == "e" and v[2] in ("Identifier", "Goto") and v[3]:
            n = v[3][0]
            while isinstance(n, tuple) and n[0] == "e" and n[3]:
                n = n[3][0]
            if isinstance(n, tuple) and n[0] == "str" and n[1].startswith("$"):
                return n[1]
        return None

    def marker(self, n):
        """one instruction that stands for all those of the child"""
        return ("e", self.B.path("Instruction"), "Nop", (Sym("child", (n,), ("adt", self.B.path("InstructionId"), ())),))

    def child_of(self, i):
        """the child an instruction stands for, or None"""
        if i[0] == "e" and i[2] == "Nop" and is_sym(i[3][0]) and i[3][0].head == "child":
            return i[3][0].args[0]
        return None

    def _expr(self, I, st, args, dty):
        n = self._name(I, st, args[0])
        if n is None:
            return NotImplemented
        if self.on_kid:
            self.on_kid(I, st, n, args)
        res = self.kids[n]
        if isinstance(res, dict):
            mk, r = res.get("mark", True), res["src"]
        else:
            mk, r = True, res
        self._clear_lhs(I, st, args)
        return [(st, self._ok(("t", (("q", (self.marker(n),)) if mk else q(), r))))]

    def _clear_lhs(self, I, st, args):
        """every expression takes the flag that says it is assigned to"""
        if "directly_on_lhs_of_assignment" in self.ctx_fields:
            cx = I.freeze(st, I.load(st, args[2][1], args[2][2]))
            I.store(st, args[2][1], args[2][2], self.B.upd(cx, directly_on_lhs_of_assignment=c(0)))

    def _stmt(self, I, st, args, dty):
        n = self._name(I, st, args[0])
        if n is None:
            return NotImplemented
        if self.on_kid:
            self.on_kid(I, st, n, args)
        return [(st, self._ok(("q", (self.marker(n),))))]

    def _ok(self, v):
        return ("e", "std::result::Result", "Ok", (v,))

    # ---- syntax
    def E(self, variant, *f):
        return self.B.new("front_end::ast::Expression", variant, *f)

    def S(self, variant, *f):
        return self.B.new("front_end::ast::Statement", variant, *f)

    def ident(self, n):
        return self.B.new("front_end::ast::Identifier", None, s(n))

    def name(self, n):
        return self.E("Identifier", self.ident(n))

    def sub(self, n):
        """opaque statement"""
        return self.S("Goto", self.ident(n))

    def kid(self, n, src, mark=True):
        """opaque expression evaluating to the operand src"""
        self.kids[n] = {"src": src, "mark": mark}
        return self.name(n)

    def un(self, op, e):
        return self.E("UnaryOp", self.B.new("front_end::ast::UnaryOperator", op), box(e))

    def bin(self, op, a, b):
        return self.E("BinaryOp", self.B.new("front_end::ast::BinaryOperator", op), box(a), box(b))

    def int(self, v):
        return self.E("Constant", self.B.new("front_end::ast::Constant", "Int", c(v) if isinstance(v, int) else v))

    def specifier(self, t):
        """SpecifierQualifier of a base type"""
        B = self.B
        if t == "Void":
            ts = B.new("front_end::ast::TypeSpecifier", "Void")
        elif isinstance(t, tuple) and t[0] == "custom":
            ts = B.new("front_end::ast::TypeSpecifier", "CustomType", self.ident(t[1]))
        else:
            ts = B.new("front_end::ast::TypeSpecifier", "ArithmeticType", B.new("front_end::ast::ArithmeticType", t))
        return B.new("SpecifierQualifier", None, type_specifier=ts, storage_class_specifier=NONE, const_=c(0), inline=c(0))

    def typename(self, t):
        """TypeName of an arithmetic type, void, or pointers to them"""
        B = self.B
        depth = 0
        while isinstance(t, tuple) and t[0] == "PointerTo":
            depth += 1
            t = t[1]
        d = NONE
        if depth:
            x = B.new("front_end::ast::Declarator", "AbstractPointerDeclarator")
            for _ in range(depth - 1):
                x = B.new("front_end::ast::Declarator", "PointerDeclarator", box(x))
            d = some(x)
        return B.new("front_end::ast::TypeName", None, self.specifier(t), d)

    # ---- context
    def context(self, st, names=(), funs=(), ret=None, in_fun=False):
        """reference to a Context in which names [(name, var, IrType)] are declared"""
        I = self.I
        r = I.cell(st, "context", self.B.call(CTX + "new"))
        for n, v, t in names:
            self.run1(CTX + "add_variable_to_scope", [r, s(n), v, t], st)
        for n, f in funs:
            self.run1(CTX + "add_function_declaration", [r, s(n), f], st)
        if ret is not None:
            cx = I.load(st, ("G", "context"), ())
            I.store(st, ("G", "context"), (), self.B.upd(cx, function_return_type=some(self.B.irty(ret))))
        return r

    def run1(self, f, args, st):
        """run something that has a single outcome, in place"""
        outs = self.I.run(f, args, st)
        if len(outs) != 1:
            raise AnalysisError(f"{f}: {len(outs)} outcomes")
        s2, r = outs[0]
        if s2 is not st:
            st.__dict__.update(s2.__dict__) if hasattr(st, "__dict__") else [setattr(st, k, getattr(s2, k)) for k in st.__slots__]
        return r

    def struct(self, st, prog, members, kind="Struct"):
        """declare a struct or union type [(name, type)] in the program; returns its python description"""
        I = self.I
        ty = kind + "Type"
        base = self.B.call(f"middle_end::ir_types::{ty}::unnamed", st=st)
        r = I.cell(st, "newtype", base)
        for n, t in members:
            meta = I.cell(st, "md_for_type", self.B.get(I.freeze(st, prog), "program_metadata"))
            self.run1(f"middle_end::ir_types::{ty}::push_member", [r, s(n), t if isinstance(t, tuple) and t and t[0] == "e" else self.B.irty(t), meta], st)
        tv = I.freeze(st, r)
        res = I.freeze(st, self.run1(f"middle_end::ir::Program::add_{kind.lower()}_type", [prog, tv], st))
        return self.B.new("IrType", kind, res[3][0])

    def function(self, st, prog, name, ret, params, variadic=False, var_ids=()):
        """declare a function in the program; returns its FunId"""
        B = self.B
        ft = B.new("IrType", "Function", box(B.irty(ret)), q(*[B.irty(p) for p in params]), c(1 if variadic else 0))
        fn = B.call("middle_end::ir::Function::new", q(), ft, q(*var_ids))
        res = self.I.freeze(st, self.run1("middle_end::ir::Program::new_fun_declaration", [prog, s(name), fn], st))
        return res[3][0]

    # ---- running the front end
    def expr(self, e, st, prog, ctx):
        """[(state, 'Ok', instrs, src, metadata) | (state, 'Err', error)]"""
        I = self.I
        out = []
        for s2, r in I.run(self.cexpr, [e, prog, ctx], st):
            r = I.freeze(s2, r)
            md = self.B.get(I.freeze(s2, prog), "program_metadata")
            if r[2] == "Err":
                out.append((s2, "Err", r[3][0]))
            else:
                instrs, src = r[3][0][1]
                if instrs[0] != "q":
                    raise AnalysisError("the generated instructions are not a known sequence")
                out.append((s2, "Ok", list(instrs[1]), src, md))
        return out

    def stmt(self, e, st, prog, ctx):
        I = self.I
        out = []
        for s2, r in I.run(self.cstmt, [e, prog, ctx], st):
            r = I.freeze(s2, r)
            md = self.B.get(I.freeze(s2, prog), "program_metadata")
            if r[2] == "Err":
                out.append((s2, "Err", r[3][0]))
            else:
                v = r[3][0]
                if v[0] != "q":
                    raise AnalysisError("the generated instructions are not a known sequence")
                out.append((s2, "Ok", list(v[1]), md))
        return out

    # ---- meaning of IR
    def cond(self, m, instr, md):
        """truth value on which a conditional branch is taken"""
        n = instr[2]
        ops = [x for x in instr[3]]
        name = {"BrIfEq": "IfEqElse", "BrIfNotEq": "IfNotEqElse"}[n]
        i = self.instr(name, ops[1], ops[2], q(), q())
        outs = self.code(i, md=md)
        if len(outs) != 1:
            raise AnalysisError(f"{len(outs)} outcomes of generating code for {n}")
        before = len(m.effects)
        m.run(outs[0][1])
        if m.stack or len(m.effects) != before + 1 or m.effects[-1][0] != "if":
            raise AnalysisError("a conditional branch is not a conditional")
        return m.effects.pop()[1]

    # the variable an opaque child leaves its value in is stale until the child has been evaluated
    def slots(self):
        if self._slots is None:
            self._slots = {}
            types = dict(self.types)
            for n, r in self.kids.items():
                if r["src"][2] == "Var" and r.get("mark", True):
                    v = r["src"][3][0]
                    t = self.tdesc(types[v]) if v in types else None
                    if t is not None and not (isinstance(t, tuple) and t[0] in ("Struct", "Union", "Function")) and t != "Void":
                        self._slots[n] = (self.addr(v), size_bits(t))
        return self._slots

    def stale(self):
        m = ws.Machine(self.B)
        for n, (a, w) in self.slots().items():
            m.write(w, a, ("mem", w, a, "stale"))
        return m

    def fresh(self, m, n, k=0):
        """the child n has been evaluated (the k-th time)"""
        if n in self.slots():
            a, w = self.slots()[n]
            m.write(w, a, ("mem", w, a, k))

    def own(self, store):
        """is this store one of those that model the children?"""
        r, o, w, t, a = store
        return t[0] == "mem" and t[2] == a and t[1] == w

    def paths(self, instrs, md, decide=None, limit=64):
        """All paths through a list of IR instructions: [(conditions, events, machine)]; events are child markers, calls and returns."""
        labels = {}
        for k, i in enumerate(instrs):
            if i[0] == "e" and i[2] == "Label":
                labels[i[3][1]] = k
        res = []
        self._slots = None
        work = [(0, (), (), self.stale(), 0)]
        while work:
            pc, conds, events, m, n = work.pop()
            while True:
                n += 1
                if n > 400 or len(res) > limit:
                    raise AnalysisError("the instructions loop")
                if pc >= len(instrs):
                    res.append((conds, events, m))
                    break
                i = instrs[pc]
                pc += 1
                if self.child_of(i):
                    events += (self.child_of(i),)
                    self.fresh(m, self.child_of(i))
                    continue
                k = i[2]
                if k == "Label" or k == "Nop":
                    continue
                if k == "Br":
                    if i[3][1] not in labels:
                        res.append((conds, events + (("goto", i[3][1]),), m))
                        break
                    pc = labels[i[3][1]]
                    continue
                if k in ("BrIfEq", "BrIfNotEq"):
                    b = self.cond(m, i, md)
                    t = i[3][3]
                    if b[0] == "b" and not b[1]:
                        if b[2][0]:
                            pc = labels[t]
                        continue
                    known = self.implied(conds, b)
                    if known is not None:
                        if known:
                            pc = labels[t]
                        continue
                    import copy
                    m2 = copy.copy(m)
                    m2.stack, m2.stores, m2.effects = list(m.stack), list(m.stores), list(m.effects)
                    work.append((labels[t], conds + ((b, True),), events, m2, n))
                    conds += ((b, False),)
                    continue
                if k == "Call":
                    d, f, ps = i[3][1], i[3][2], i[3][3]
                    t = self.type_of(md, d)
                    vals = []
                    for p in ps[1]:
                        vals.append(p)
                    argv = tuple(self.read_any(m, p, md) for p in ps[1])
                    td = self.tdesc(t) if t is not None else "Void"
                    r = Sym("in", ("ret%d" % len(events),), ("prim", "u64"))
                    if td != "Void":
                        w = size_bits(td)
                        m.write(w, self.addr(d), ("n", w, r) if td not in FLOATS else ("mem", w, ("n", 32, r), 0))
                    events += (("call", f, argv, r),)
                    continue
                if k == "Ret":
                    o = i[3][1]
                    v = None if o[2] == "None" else self.read_any(m, o[3][0], md)
                    res.append((conds, events + (("ret", v),), m))
                    break
                outs = self.code(i, md=md)
                if len(outs) != 1:
                    raise AnalysisError(f"{len(outs)} outcomes of generating code for {k}")
                m.run(outs[0][1])
                if m.stack:
                    raise ws.StackError("a value is left on the stack")
        return res

    def implied(self, conds, b):
        for c_, v in conds:
            if c_ == b:
                return v
            if c_ == ws.bnot(b):
                return not v
        return None

    def read_any(self, m, src, md):
        """(type, value term) of an operand"""
        if src[2] == "Constant":
            k = src[3][0]
            return ("const", k[2], k[3][0])
        t = self.tdesc(self.type_of(md, src[3][0]))
        if isinstance(t, tuple) and t[0] in ("Struct", "Union"):
            return (t, ("object", self.addr(src[3][0])))
        return (t, self.read_src(m, src, md, t))
