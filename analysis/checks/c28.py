"""C28: initialisers."""
import itertools
from front import *
import wasmsem as ws
import c04
import c07
from c07 import ALL, INTS, PI8, PI32, PU64, T, narrowing, sizeof, tname
from c26 import array, const, size_of

TECHNIQUE = "abstract interpretation of declarations with initialisers (MIR) and of the code generated for them; the resulting memory is compared with the layout of the object"
RULE = ("`convert_statement_to_ir` is interpreted on declarations of scalars, arrays, structs and their nestings with initialisers whose values are opaque subtrees of every type or constants, and the code generated for the result is "
        "interpreted on a symbolic memory. Afterwards the k-th element or member holds exactly the k-th value converted to its type, every value has been evaluated once, nothing else is written, and the object has room for all "
        "its elements. String literals initialise arrays with their characters and a final NUL; lists that do not fit the type are rejected or leave the rest zero.")
ASSUMPTIONS = ["single conversions are right (C04, C07), members are where C26 shows", "the values' own instructions do not change the object (their order of evaluation is unspecified in C)"]


class Init:
    """one declaration with an initialiser"""

    def __init__(self, ck, F):
        self.F, self.B = F, F.B
        self.t = T(ck, F)
        self.st = self.t.st
        self.prog = F.program(self.st)
        self.ctx = F.context(self.st)
        self.n = 0
        self.leaves = []            # (offset, type, alternatives for the memory word)
        self.kids = []
        self.base = None
        self.dims = []
        self.may = False

    # types: a scalar, ("arr", n or None, type), ("st", [types])
    def ir(self, ty):
        B = self.B
        if isinstance(ty, str):
            return B.irty(ty)
        if ty[0] == "PointerTo":
            return B.new("IrType", "PointerTo", box(B.irty(ty[1])))
        if ty[0] == "arr":
            return array(self.F, self.ir(ty[2]), ty[1])
        key = repr(ty)
        if not hasattr(self, "structs"):
            self.structs = {}
        if key not in self.structs:
            self.structs[key] = self.F.struct(self.st, self.prog, [(f"m{k}", self.ir(m)) for k, m in enumerate(ty[1])], "Struct")
        return self.structs[key]

    def size(self, ty):
        if isinstance(ty, str) or ty[0] == "PointerTo":
            return sizeof(ty)
        if ty[0] == "arr":
            return ty[1] * self.size(ty[2])
        return const(size_of(self.F, self.st, self.ir(ty), self.prog)[0][1])

    def member(self, ty, k):
        F, B = self.F, self.B
        self.ir(ty)
        md = F.I.cell(self.st, "mm", B.get(F.I.freeze(self.st, self.prog), "program_metadata"))
        rec = F.I.freeze(self.st, F.run1("middle_end::ir::ProgramMetadata::get_struct_type", [md, F.I.cell(self.st, "mi", self.ir(ty)[3][0])], self.st))[3][0]
        return const(F.I.freeze(self.st, F.run1("middle_end::ir_types::StructType::get_member_byte_offset", [F.I.cell(self.st, "mr", rec), s(f"m{k}")], self.st))[3][0])

    def declaration(self, ty, init):
        """`ty x = init;`"""
        F, B = self.F, self.B
        D = lambda v, *a: B.new("ast::Declarator", v, *a)
        d, base, dims = D("Identifier", F.ident("x")), ty, []
        while base[0] == "arr":
            dims.append(base[1])
            base = base[2]
        for n in dims:
            d = D("ArrayDeclarator", box(d), NONE if n is None else some(box(F.int(n))))
        if base[0] == "st":
            F.run1(CTX + "add_typedef", [self.ctx, s("S"), self.ir(base)], self.st)
            spec = F.specifier(("custom", "S"))
        elif base[0] == "PointerTo":
            d = D("PointerDeclarator", box(d))
            spec = F.specifier(base[1])
        else:
            spec = F.specifier(base)
        return F.S("Declaration", spec, q(B.new("ast::DeclaratorInitialiser", "Init", d, init)))

    def declare(self):
        """the values' variables have their types in the program"""
        F, B = self.F, self.B
        pr = F.I.freeze(self.st, self.prog)
        md = B.get(pr, "program_metadata")
        have = B.get(md, "var_types")[2]
        vt = list(have) + [v for v in F.types if v[0] not in {h[0] for h in have}]
        F.I.store(self.st, self.prog[1], (), B.upd(pr, program_metadata=B.upd(md, var_types=B.map(vt))))

    def expr(self, e):
        return self.B.new("ast::Initialiser", "Expr", e)

    def list(self, *xs):
        return self.B.new("ast::Initialiser", "List", q(*xs))

    def value(self, src, ty, off):
        """an opaque value of type src for the scalar of type ty at an offset"""
        F = self.F
        n = f"$k{self.n}"
        self.n += 1
        if isinstance(src, int):
            self.leaves.append((off, ty, constant(src, ty)))
            return self.expr(F.int(src))
        e, v = self.t.child(n, src)
        self.kids.append(n)
        self.may = self.may or (not isinstance(src, tuple) and not isinstance(ty, tuple) and narrowing(src, ty))
        val = F.value(v, src)
        self.leaves.append((off, ty, [val] if isinstance(ty, tuple) else c04.conv(src, ty, val)))
        return self.expr(e)

    def tree(self, ty, srcs, off=0):
        """an initialiser for an object of this type, its values' types taken from srcs"""
        if isinstance(ty, str) or ty[0] == "PointerTo":
            return self.value(ty if isinstance(ty, tuple) else next(srcs), ty, off)
        if ty[0] == "arr":
            return self.list(*[self.tree(ty[2], srcs, off + k * self.size(ty[2])) for k in range(ty[1])])
        return self.list(*[self.tree(m, srcs, off + self.member(ty, k)) for k, m in enumerate(ty[1])])


def constant(n, ty):
    if ty in FLOATS:
        fits = [i for i in INTS if n in (range(-2**(size_bits(i) - 1), 2**(size_bits(i) - 1)) if sign(i) == "s" else range(2**size_bits(i)))]
        return [ws.fconst(FLOATS[ty], c(float(n))), ws.fconst(FLOATS[ty], c(n))] + [w for i in fits for w in c04.conv(i, ty, num(64 if size_bits(i) == 64 else 32, n))]
    return [num(size_bits(ty), n)]


def judge(ck, F, cls, key, desc, build, may=False, key2=None):
    """build(x: Init) -> (type of the object, statement); may: the compiler may reject it"""
    def one():
        x = Init(ck, F)
        ty, stmt = build(x)
        w = ck.where(F.cstmt.name)
        user = {F.addr(v) for v, _ in F.types}
        x.declare()
        F.I.panics.clear()
        outs = F.stmt(stmt, x.st, x.prog, x.ctx)
        ck.ob(cls, key, bool(outs) or bool(may), f"{desc}: the compiler panics", w, desc)
        for o in outs:
            if o[1] == "Err":
                ck.ob(cls, key, bool(may or x.may), f"{desc}: rejected with {o[2][2]}", w, desc)
                continue
            st, _, instrs, md = o
            F.adopt(md)
            rs = F.I.run(CTX + "resolve_identifier_to_var_or_const", [x.ctx, s("x")], st)
            r = F.I.freeze(rs[0][0], rs[0][1])
            if len(rs) != 1 or r[2] != "Ok" or r[3][0][2] != "Var":
                raise AnalysisError("the declared name is not a variable")
            var = r[3][0][3][0]
            try:
                paths = F.paths(instrs, md)
            except ws.StackError as ex:
                ck.ob(cls, key, False, f"{desc}: the generated code is not valid: {ex}", w)
                continue
            for conds, events, m in paths:
                bad = verdict(F, x, ty, var, events, m, user, md)
                ck.ob(cls, key, bad is None, f"{desc}: {bad}", w, f"{desc}: {len(instrs)} instructions")
    ck.guard(cls, key, one)


def verdict(F, x, ty, var, events, m, user, md):
    kids = sorted(e for e in events if isinstance(e, str))
    if kids != sorted(x.kids):
        return f"the values {kids} are evaluated, expected each of {sorted(x.kids)} exactly once"
    if any(not isinstance(e, str) for e in events):
        return "the code calls or jumps"
    total = x.size(ty)
    known = {F.addr(v): v for v, _ in F.types}
    allowed = set(known) - user
    if ty[0] == "arr":
        base = m.read(32, F.addr(var))
        sp0 = ("mem", 32, num(32, 8), 0)
        if m.region(base) != m.region(sp0):
            return f"the array is at {ws.sh(base)}, not on top of the stack"
        r, o = m.region(m.read(32, num(32, 8)))
        if r != m.region(base)[0] or o - m.region(base)[1] < total:
            return f"the stack grows by {o - m.region(base)[1]} bytes for an array of {total} bytes"
        allowed.add(num(32, 8))
    else:
        base = F.addr(var)
    reg, off0 = m.region(base)
    mem = {}
    for r, o, w, v, a in m.stores:
        if F.own((r, o, w, v, a)):
            continue
        if r == reg:
            o -= off0
            if ty[0] == "arr" and a == F.addr(var):
                continue
            for o2, (w2, _) in list(mem.items()):
                if o2 < o + w // 8 and o < o2 + w2 // 8:
                    if (o2, w2) != (o, w):
                        return f"a value of {w // 8} bytes is written to byte {o} of the object, over the {w2 // 8} bytes at byte {o2}"
            mem[o] = (w, v)
        elif a not in allowed:
            return f"{ws.sh(a)} is written"
    for o, (w, v) in mem.items():
        if o < 0 or o + w // 8 > total:
            return f"byte {o} is written, the object has {total} bytes"
    left = dict(mem)
    for k, (o, t, alts) in enumerate(x.leaves):
        if o not in left:
            return f"value {k} is not stored at byte {o}; written: {sorted(mem)}"
        w, v = left.pop(o)
        if w != (32 if isinstance(t, tuple) else size_bits(t)):
            return f"value {k} takes {w // 8} bytes instead of the {sizeof(t)} of {tname(t)}"
        if v not in alts:
            return f"value {k}, at byte {o}, is {ws.sh(v)}, expected {ws.sh(alts[0])}"
    if left:
        return f"bytes {sorted(left)} are written, for which there is no value"
    vt = F.type_of(md, var)
    if vt is None:
        return "the variable has no type"
    d = F.tdesc(vt)
    if ty[0] == "arr" and (d[0] != "ArrayOf" or d[2] != ty[1]):
        return f"the variable has the type {d}, not an array of {ty[1]}"
    if isinstance(ty, str) and d != ty:
        return f"the variable has the type {d}, not {ty}"
    return None


def show(ty):
    if isinstance(ty, str) or ty[0] == "PointerTo":
        return tname(ty)
    if ty[0] == "arr":
        return f"{show(ty[2])}[{'' if ty[1] is None else ty[1]}]"
    return "{" + ",".join(map(show, ty[1])) + "}"


A = lambda n, t: ("arr", n, t)
S = lambda *ts: ("st", list(ts))


def scalars(ck, F):
    def one(d):
        for s_ in ALL:
            judge(ck, F, "scalar", f"{d}={s_}", f"{d} x = value of type {s_}", lambda x: (d, x.declaration(d, x.value(s_, d, 0))))
        for n in (0, 1, 5, 200, 40000, 70000, 2**31 - 1, 2**40):
            judge(ck, F, "scalar", f"{d}={n}", f"{d} x = {n}", lambda x: (d, x.declaration(d, x.value(n, d, 0))))
        judge(ck, F, "scalar", f"{d} in braces", f"{d} x = {{value}}", lambda x: (d, x.declaration(d, x.list(x.value(d, d, 0)))), may=True)
    ck.parallel(one, ALL)
    for p in (PI8, PI32, PU64):
        judge(ck, F, "scalar", "pointer to " + tname(p[1]), f"pointer to {tname(p[1])} x = value", lambda x: (p, x.declaration(p, x.value(p, p, 0))))


def arrays(ck, F):
    def one(d):
        for s_ in ALL:
            judge(ck, F, "array", f"{d}[2]/{s_}", f"{d} x[2] = values of type {s_} and {d}", lambda x: (A(2, d), x.declaration(A(2, d), x.tree(A(2, d), iter([s_, d])))))
        for n in (1, 2, 3, 5):
            judge(ck, F, "array", f"{d}[]/{n}", f"{d} x[] with {n} values", lambda x: (A(n, d), x.declaration(A(None, d), x.tree(A(n, d), itertools.cycle([d, "I32"] if d not in FLOATS else [d])))))
        for n in (0, 7, 200, 70000, 2**40):
            judge(ck, F, "array", f"{d}[3]/{n}", f"{d} x[3] with {n}, a value and {n}", lambda x: (A(3, d), x.declaration(A(3, d), x.tree(A(3, d), iter([n, d, n])))))

        def excess(x):
            i = x.tree(A(3, d), itertools.repeat(d))
            return A(2, d), x.declaration(A(2, d), i)

        def few(x):
            i = x.tree(A(2, d), itertools.repeat(d))
            x.leaves.append((2 * sizeof(d), d, constant(0, d)))
            return A(3, d), x.declaration(A(3, d), i)
        judge(ck, F, "array", f"{d}[2]/three values", f"{d} x[2] with three values", excess, may=True)
        judge(ck, F, "array", f"{d}[3]/two values", f"{d} x[3] with two values", few, may=True)
    ck.parallel(one, ALL + [PI32])
    big = A(40, "I16")
    judge(ck, F, "array", "I16[40]", "I16 x[40]", lambda x: (big, x.declaration(big, x.tree(big, itertools.repeat("I16")))))


def structs(ck, F):
    def one(d):
        for s_ in ALL:
            judge(ck, F, "struct", f"I8,{d},I16/{s_}", f"struct of I8, {d}, I16 with a {s_} value", lambda x: (S("I8", d, "I16"), x.declaration(S("I8", d, "I16"), x.tree(S("I8", d, "I16"), iter(["I8", s_, "I16"])))))
        for n in (0, 7, 200, 70000, 2**40):
            judge(ck, F, "struct", f"{d},I16/{n}", f"struct of {d}, I16 with {n}", lambda x: (S(d, "I16"), x.declaration(S(d, "I16"), x.tree(S(d, "I16"), iter([n, "I16"])))))

        def excess(x):
            i = x.tree(S(d, "I8", "I8"), itertools.repeat("I8"))
            return S(d, "I8"), x.declaration(S(d, "I8"), i)

        def few(x):
            i = x.list(x.value("I32", "I32", x.member(S("I32", d), 0)))
            x.leaves.append((x.member(S("I32", d), 1), d, constant(0, d)))
            return S("I32", d), x.declaration(S("I32", d), i)
        judge(ck, F, "struct", f"{d}/excess", f"struct of {d}, I8 with three values", excess, may=True)
        judge(ck, F, "struct", f"{d}/few", f"struct of I32, {d} with one value", few, may=True)
    ck.parallel(one, ALL)
    for ty in (S("F64"), S("I64", "I8"), S("I8", "I64"), S("I8", PI32, "I8"), S("U8", "I8", "U16", "I16", "U32", "I32", "U64", "I64", "F32", "F64", PI8), S(*["I32", "I8"] * 8)):
        judge(ck, F, "struct", show(ty), f"struct {show(ty)}", lambda x: (ty, x.declaration(ty, x.tree(ty, itertools.repeat("I32")))), may=False)


IN = S("I8", "I32", "I16")
NESTED = [S("I16", IN, "I64"), S(IN, IN), S(S(S("I8"), "I16"), "I8"), S(S(S("I8", "I64"), S("I32")), S("I8", S("I16", "F32"))), A(1, IN), A(3, IN), A(2, S("I8", IN, "I8")), A(3, S("I64")), A(2, S("I8", PI32)),
          S("I8", S("I8", S("I8", S("I8", "I16"))), "I32")]
AOA = [A(2, A(3, "I32")), A(3, A(2, "I8")), A(2, A(2, A(2, "I16"))), A(2, A(1, IN)), A(2, A(2, "F64"))]
MEMBER = [S(A(4, "I8")), S("I8", A(2, "I16"), "I32"), S(A(1, "F32"), A(4, "U8"), "I8"), S(A(3, "I32"), "I8"), S("I8", A(3, "I16"), "I32"), S(A(2, IN), "I8"), A(2, S(A(4, "I8"), "I8"))]


def nested(ck, F):
    items = [("nested", show(ty), ty) for ty in NESTED] + [("nested", show(ty), ty) for ty in AOA + MEMBER]

    def one(x_):
        cls, key, ty = x_
        for k, src in enumerate((["I32"], ["I8", "I32", "U16"], [5, "I8", 200])):
            judge(ck, F, cls, key, f"{show(ty)} with {src}", lambda x: (ty, x.declaration(ty, x.tree(ty, itertools.cycle(src)))))
        if ty[0] == "arr":
            judge(ck, F, cls, key, f"{show(ty)} of a length given by the initialiser", lambda x: (ty, x.declaration(A(None, ty[2]), x.tree(ty, itertools.repeat("I32")))))
    ck.parallel(one, items)


def strings(ck, F):
    lit = lambda t: F.E("StringLiteral", s(t))

    def one(t):
        for d in ("I8", "U8"):
            for form in ("x[] = s", "x[] = {s}", "x[n] = s", "x[n] = {s}"):
                def build(x):
                    ty = A(len(t) + 1, d)
                    for k, ch in enumerate(t + "\0"):
                        x.leaves.append((k, d, [num(8, ord(ch))]))
                    i = x.expr(lit(t))
                    return ty, x.declaration(A(None, d) if "[]" in form else ty, x.list(i) if "{" in form else i)
                judge(ck, F, "string", f"{d}/{form}/{t!r}", f"{d} {form} with {t!r}", build, may=ord(max(t or "a")) > 255)
    for t in ("", "a", "abc", "a\0b", "\x7f\x80\xff", "hello, world\n"):
        one(t)

    def longer(x):
        for k, ch in enumerate("ab\0\0\0"):
            x.leaves.append((k, "I8", [num(8, ord(ch))]))
        return A(5, "I8"), x.declaration(A(5, "I8"), x.expr(lit("ab")))

    def shorter(x):
        for k, ch in enumerate("ab"):
            x.leaves.append((k, "I8", [num(8, ord(ch))]))
        return A(2, "I8"), x.declaration(A(2, "I8"), x.expr(lit("abc")))

    def exact(x):
        for k, ch in enumerate("abc"):
            x.leaves.append((k, "I8", [num(8, ord(ch))]))
        return A(3, "I8"), x.declaration(A(3, "I8"), x.expr(lit("abc")))
    judge(ck, F, "string", "longer array", "char x[5] = \"ab\"", longer, may=True)
    judge(ck, F, "string", "shorter array", "char x[2] = \"abc\"", shorter, may=True)
    judge(ck, F, "string", "no room for NUL", "char x[3] = \"abc\"", exact, may=True)


def several(ck, F):
    """several declarators in one declaration"""
    B = F.B

    def build(x):
        a = x.value("I8", "I32", 0)
        leaf = x.leaves.pop()
        b = x.value("I16", "I32", 0)
        d1 = x.declaration("I32", b)
        D = B.new("ast::DeclaratorInitialiser", "Init", B.new("ast::Declarator", "Identifier", F.ident("y")), a)
        e = list(d1[3])
        i = next(k for k, v in enumerate(e) if isinstance(v, tuple) and v[0] == "q")
        e[i] = q(D, *e[i][1])
        return "I32", ("e", d1[1], d1[2], tuple(e))
    judge(ck, F, "scalar", "second declarator", "int y = a, x = b", build)


def check(ck):
    F = Front(ck)
    scalars(ck, F)
    several(ck, F)
    arrays(ck, F)
    structs(ck, F)
    nested(ck, F)
    strings(ck, F)
    for k, n in {"scalar": 150, "array": 150, "struct": 150, "nested": 40, "string": 40}.items():
        ck.floor(k, n)
