"""C26: sizes of objects and offsets of members."""
import itertools
from front import *
from absint import *
import wasmsem as ws
import c07
from c07 import SIZES, judge, loaded, tname, AST, PI32, ALL, T
from c25 import Value, Undefined
from dataflow import cases

TECHNIQUE = "abstract interpretation of the type layout functions (MIR) over all sequences of member types; value terms of sizeof, subscripts and nested member accesses compared with one layout"
RULE = ("The layout functions are interpreted for every type and every sequence of member types up to a bound: a struct's members must be in order and disjoint within its size, a union's must fit in it, an array must have n times the "
        "size of its element (n unknown). The code that `convert_expression_to_ir` and `convert_statement_to_ir` build for sizeof, subscripts, pointer arithmetic, nested member accesses and array allocations is composed into terms "
        "over the memory at entry, which must use exactly these sizes and offsets. Type definitions must list the declared members with the declared types in the declared order.")
ASSUMPTIONS = ["the layout of a struct depends on its members only (it is built by adding the members one by one)"]

SCALARS = list(SIZES)


def size_of(F, st, ty, prog):
    """[(state, 'n' term or None)] of get_byte_size"""
    I = F.I
    cell = I.cell(st, "sized", ty)
    meta = I.cell(st, "md_for_size", F.B.get(I.freeze(st, prog), "program_metadata"))
    out = []
    for s2, r in I.run("middle_end::ir_types::IrType::get_byte_size", [cell, meta], st):
        r = I.freeze(s2, r)
        out.append((s2, r[3][0] if r[2] == "CompileTime" else r))
    return out


def array_size(F, st, ty, prog):
    I = F.I
    cell = I.cell(st, "sized", ty)
    meta = I.cell(st, "md_for_size", F.B.get(I.freeze(st, prog), "program_metadata"))
    return [(s2, I.freeze(s2, r)) for s2, r in I.run("middle_end::ir_types::IrType::get_array_byte_size", [cell, meta], st)]


def const(v):
    if isinstance(v, tuple) and v[0] == "c":
        return v[1]
    raise AnalysisError("a size is not a constant")


def array(F, t, n):
    B = F.B
    size = NONE if n is None else some(B.new("TypeSize", "CompileTime", n if is_sym(n) else c(n)))
    return B.new("IrType", "ArrayOf", box(t), size)


def scalars(ck, F):
    w = ck.where("middle_end::ir_types::IrType::get_byte_size")

    def one(t):
        F.reset()
        st = State()
        pr = F.program(st)
        ty = F.B.new("IrType", "PointerTo", box(F.B.irty(t[1]))) if isinstance(t, tuple) else F.B.irty(t)
        for s2, v in size_of(F, st, ty, pr):
            ck.ob("scalar", tname(t), v == c(c07.sizeof(t)), f"{tname(t)} has {show(v)} bytes; its loads and stores use {c07.sizeof(t)}", w, tname(t))
    for t in SCALARS + [PI32]:
        ck.guard("scalar", tname(t), one, t)


def layouts(ck, F):
    """structs and unions of every sequence of member types"""
    B = F.B
    kinds = [("I8", 1), ("I16", 2), ("I32", 4), ("F64", 8), (PI32, 4), ("S", None), ("U", None)]
    seqs = list(itertools.product(kinds, repeat=1)) + list(itertools.product(kinds, repeat=2)) + [s_ for s_ in itertools.product(kinds, repeat=3) if len({x[0] for x in s_}) == 3 and s_[0][0] in ("I8", "F64", "S", "U")]
    if ck.tier == "quick":
        seqs = [x for i, x in enumerate(seqs) if len(x) < 3 or i % 3 == 0]

    def one(kind, seq):
        F.reset()
        st = State()
        pr = F.program(st)
        I = F.I
        inner = F.struct(st, pr, [("a", "I8"), ("b", "I32"), ("c", "I16")], "Struct")
        union = F.struct(st, pr, [("a", "I16"), ("b", "I8")], "Union")
        key = f"{kind} of " + ", ".join(tname(t) if t not in ("S", "U") else {"S": "struct", "U": "union"}[t] for t, _ in seq)
        tys = [inner if t == "S" else union if t == "U" else B.new("IrType", "PointerTo", box(B.irty(t[1]))) if isinstance(t, tuple) else B.irty(t) for t, _ in seq]
        si = const(size_of(F, st, inner, pr)[0][1])
        su = const(size_of(F, st, union, pr)[0][1])
        sizes = [si if t == "S" else su if t == "U" else n for t, n in seq]
        members = [(f"m{i}", t) for i, t in enumerate(tys)]
        ty = F.struct(st, pr, members, kind)
        w = ck.where(f"middle_end::ir_types::{kind}Type::push_member")
        total = const(size_of(F, st, ty, pr)[0][1])
        md = B.get(I.freeze(st, pr), "program_metadata")
        low = kind.lower()
        rec = I.freeze(st, F.run1(f"middle_end::ir::ProgramMetadata::get_{low}_type", [I.cell(st, "mdx", md), I.cell(st, "idx", ty[3][0])], st))
        cell = I.cell(st, "rec", rec[3][0])
        if kind == "Union":
            ck.ob("layout", key, total >= max(sizes), f"a union of members of {sizes} bytes has {total} bytes", w, key)
            ck.ob("layout", key + "/tight", total == max(sizes) or all(total % k == 0 for k in (1, 2, 4, 8) if k <= max(sizes)), f"a union of members of {sizes} bytes has {total} bytes", w, key)
        pos = 0
        for i, (n, t) in enumerate(members):
            call = lambda f, *a: I.freeze(st, F.run1(f"middle_end::ir_types::{kind}Type::{f}", [cell, *a], st))
            nt = call("get_member_type", s(n))
            ck.ob("layout", f"{key}/{n}/type", nt[2] == "Ok" and unbox(nt[3][0]) == unbox(t), f"member {i} of a {key} has another type than declared", w)
            if kind == "Struct":
                o = const(call("get_member_byte_offset", s(n))[3][0])
                o2 = const(call("get_member_byte_offset_by_index", c(i))[3][0])
                t2 = call("get_member_type_by_index", c(i))
                ck.ob("layout", f"{key}/{n}/index", o == o2 and unbox(t2[3][0]) == unbox(t), f"member {i} of a {key} is found elsewhere by its index ({o2}) than by its name ({o})", w)
                good = o >= pos and (i > 0 or o == 0) and o + sizes[i] <= total
                ck.ob("layout", f"{key}/{n}", good, f"member {i} of a {key} occupies bytes {o} to {o + sizes[i]}; the members before it end at {pos}, the {low} at {total}", w, f"{key} member {i}")
                pos = o + sizes[i]
        dup = I.run(f"middle_end::ir_types::{kind}Type::push_member", [cell, s("m0"), B.irty("I8"), I.cell(st, "mdy", md)], st)
        ck.ob("layout", key + "/duplicate", all(r[2] == "Err" for _, r in dup), f"a second member with the same name is accepted in a {key}", w)
    items = [(k, x) for k in ("Struct", "Union") for x in seqs]
    ck.parallel(lambda x: ck.guard("layout", f"{x[0]}/{[t for t, _ in x[1]]}", one, *x), items)


def arrays(ck, F):
    B = F.B
    w = ck.where("middle_end::ir_types::IrType::get_array_byte_size")
    N = Sym("v", ("n",), ("prim", "u64"))

    def fixed(key, build, elem):
        F.reset()
        st = State()
        pr = F.program(st)
        t = build(st, pr)
        if elem is None:
            elem = const(size_of(F, st, t, pr)[0][1])
        for s2, r in array_size(F, st, array(F, t, N), pr):
            r = r[3][0]
            if r[2] != "CompileTime":
                raise AnalysisError("the size of an array of known length is not known")
            for n in (0, 1, 2, 3, 7, 1000):
                got = Value({"n": n})(r[3][0])
                ck.ob("array", key, got == n * elem, f"an array of {n} elements of {key} has {got} bytes, not {n * elem}", w, f"{n} x {key}")
    for t in SCALARS:
        ck.guard("array", t, fixed, t, lambda st, pr, t=t: B.irty(t), SIZES[t])
    ck.guard("array", "pointer", fixed, "pointer", lambda st, pr: B.new("IrType", "PointerTo", box(B.irty("I8"))), 4)
    ck.guard("array", "struct", fixed, "struct", lambda st, pr: F.struct(st, pr, [("a", "I8"), ("b", "F64")], "Struct"), None)
    ck.guard("array", "union", fixed, "union", lambda st, pr: F.struct(st, pr, [("a", "I8"), ("b", "F64")], "Union"), None)
    ck.guard("array", "array of 3 ints", fixed, "array of 3 ints", lambda st, pr: array(F, B.irty("I32"), 3), 12)

    def member(kind):
        F.reset()
        st = State()
        pr = F.program(st)
        ty = F.struct(st, pr, [("a", array(F, B.irty("I32"), 3))], kind)
        for s2, v in size_of(F, st, ty, pr):
            ck.ob("array", f"member of a {kind.lower()}", const(v) >= 12, f"a {kind.lower()} with an array of 3 ints has {show(v)} bytes", ck.where(f"middle_end::ir_types::{kind}Type::push_member"))
    for kind in ("Struct", "Union"):
        ck.guard("array", "member of a " + kind.lower(), member, kind)

    def runtime(t):
        """the bound is an expression: the size is an expression with the value bound * size"""
        F.reset()
        st = State()
        pr = F.program(st)
        kid = F.E("Identifier", F.ident("$n"))
        at = B.new("IrType", "ArrayOf", box(B.irty(t)), some(B.new("TypeSize", "Runtime", kid)))

        def val(e, n):
            e = unbox(e)
            if e[2] == "Identifier":
                return n
            if e[2] == "Constant":
                return const(e[3][0][3][0])
            if e[2] == "BinaryOp" and e[3][0][2] in ("Mult", "Add"):
                a, b = val(e[3][1], n), val(e[3][2], n)
                return a * b if e[3][0][2] == "Mult" else a + b
            raise AnalysisError(f"size expression {e[2]}")
        for s2, r in array_size(F, st, at, pr):
            e = r[3][0][3][0]
            for n in (0, 1, 5, 1000):
                ck.ob("array", f"runtime/{t}", val(e, n) == n * SIZES[t], f"an array of {n} elements of {t} (a bound computed at run time) has {val(e, n)} bytes", w)
    for t in SCALARS:
        ck.guard("array", f"runtime/{t}", runtime, t)



def nested(ck, F):
    """code for objects of nested types uses the same offsets"""
    B = F.B
    IN = [("c", "I8"), ("i", "I32"), ("s", "I16")]

    def types(t, kind="Struct"):
        t.prog = F.program(t.st)
        inner = F.struct(t.st, t.prog, IN, kind)
        outer = F.struct(t.st, t.prog, [("h", "I16"), ("in", inner), ("t", "I64"), ("p", B.new("IrType", "PointerTo", box(inner)))], "Struct")
        sz = lambda ty: const(size_of(F, t.st, ty, t.prog)[0][1])
        off = lambda ty, n, k="Struct": 0 if k == "Union" else const(F.I.freeze(t.st, F.run1("middle_end::ir_types::StructType::get_member_byte_offset", [F.I.cell(t.st, "r", F.I.freeze(t.st, F.run1("middle_end::ir::ProgramMetadata::get_struct_type", [F.I.cell(t.st, "m", B.get(F.I.freeze(t.st, t.prog), "program_metadata")), F.I.cell(t.st, "i", ty[3][0])], t.st))[3][0]), s(n)], t.st))[3][0])
        return inner, outer, sz, off

    def declare(t):
        md = B.get(F.I.freeze(t.st, t.prog), "program_metadata")
        have = {x[0] for x in B.get(md, "var_types")[2]}
        vt = list(B.get(md, "var_types")[2]) + [x for x in F.types if x[0] not in have]
        pr = F.I.freeze(t.st, t.prog)
        F.I.store(t.st, t.prog[1], (), B.upd(pr, program_metadata=B.upd(md, var_types=B.map(vt))))
    D = lambda e, n: F.E("DirectMemberSelection", box(e), F.ident(n))
    A = lambda e, n: F.E("IndirectMemberSelection", box(e), F.ident(n))
    read = lambda mt, addr: [loaded("U32" if isinstance(mt, tuple) else mt, ("mem", size_bits(mt), addr, 0))]

    def spec(desc, mt, addr, kids=()):
        return {"desc": desc, "kids": list(kids), "type": mt, "alts": read(mt, addr)}
    for kind in ("Struct", "Union"):
        for n, mt in IN:
            for form in ("o.in.m", "p->in.m", "o.p->m", "a[i].m", "p[i].m", "(p + i)->m", "*(p + i).m", "(p - i)->m", "q[i].in.m", "&o.in"):
                def build(t, kind=kind, n=n, mt=mt, form=form):
                    inner, outer, sz, off = types(t, kind)
                    k = off(inner, n, kind)
                    if form in ("o.in.m", "o.p->m", "&o.in"):
                        v = F.var(outer, "local", "LValue")
                        t.names.append(("o", v, outer))
                        declare(t)
                        o = F.name("o")
                        if form == "o.in.m":
                            return D(D(o, "in"), n), spec(f"o.in.{n}", mt, ws.add(32, F.addr(v), num(32, off(outer, "in") + k)))
                        if form == "&o.in":
                            addr = ws.add(32, F.addr(v), num(32, off(outer, "in") + k))
                            return A(F.un("AddressOf", D(o, "in")), n), spec(f"(&o.in)->{n}", mt, addr)
                        p = ("mem", 32, ws.add(32, F.addr(v), num(32, off(outer, "p"))), 0)
                        return A(D(o, "p"), n), spec(f"o.p->{n}", mt, ws.add(32, p, num(32, k)))
                    if form == "p->in.m":
                        pt = B.new("IrType", "PointerTo", box(outer))
                        v = F.var(pt, "local", "LValue")
                        declare(t)
                        return D(A(F.kid("$p", F.src(v)), "in"), n), spec(f"p->in.{n}", mt, ws.add(32, F.value(v, PI32), num(32, off(outer, "in") + k)), ["$p"])
                    elem = outer if form.startswith("q") else inner
                    at = array(F, elem, 9) if form == "a[i].m" else B.new("IrType", "PointerTo", box(elem))
                    v = F.var(at, "local", "LValue")
                    iv = F.var("I32", "local", "LValue")
                    declare(t)
                    p, i = F.kid("$p", F.src(v)), F.kid("$i", F.src(iv))
                    ix = ws.iop("Mul", 32, [F.value(iv, "I32"), num(32, sz(elem))])
                    addr = ws.add(32, F.value(v, PI32), ix)
                    if form == "(p - i)->m":
                        addr = ws.iop("Sub", 32, [F.value(v, PI32), ix])
                    addr = ws.add(32, addr, num(32, k + (off(outer, "in") if form.startswith("q") else 0)))
                    e = {"a[i].m": lambda: D(F.E("Index", box(p), box(i)), n), "p[i].m": lambda: D(F.E("Index", box(p), box(i)), n), "(p + i)->m": lambda: A(F.bin("Add", p, i), n),
                         "*(p + i).m": lambda: D(F.un("Dereference", F.bin("Add", p, i)), n), "(p - i)->m": lambda: A(F.bin("Sub", p, i), n),
                         "q[i].in.m": lambda: D(D(F.E("Index", box(p), box(i)), "in"), n)}[form]()
                    return e, spec(f"{form} ({kind.lower()}, m = {n})", mt, addr, ["$p", "$i"])
                judge(ck, F, "nested", f"{kind}/{form}/{n}", build)
        for form in ("p++", "--p", "p - q"):
            def build(t, kind=kind, form=form):
                inner, outer, sz, off = types(t, kind)
                pt = B.new("IrType", "PointerTo", box(inner))
                v = F.var(pt, "local", "LValue")
                if form == "p - q":
                    v2 = F.var(pt, "local", "LValue")
                    declare(t)
                    d = ws.iop("Sub", 32, [F.value(v, PI32), F.value(v2, PI32)])
                    return F.bin("Sub", F.kid("$p", F.src(v)), F.kid("$q", F.src(v2))), {"desc": "difference of pointers to structs", "kids": ["$p", "$q"], "type": None, "anytype": True,
                                                                                     "alts": [ws.iop("DivS", 32, [d, num(32, sz(inner))]), ws.iop("DivU", 32, [d, num(32, sz(inner))])], "mayreject": True}
                t.names.append(("p", v, pt))
                declare(t)
                old = F.value(v, PI32)
                new = ws.iop("Add" if form == "p++" else "Sub", 32, [old, num(32, sz(inner))])
                return F.E("PostfixIncrement" if form == "p++" else "PrefixDecrement", box(F.name("p"))), {
                    "desc": f"{form} of a pointer to a {kind.lower()}", "kids": [], "type": None, "anytype": True, "alts": [old if form == "p++" else new], "stores": {F.addr(v): (32, [new])}}
            judge(ck, F, "nested", f"{kind}/{form}", build)
    # large objects
    def big(t, target):
        t.prog = F.program(t.st)
        cur, size = F.struct(t.st, t.prog, [("a", "F64"), ("b", "F64")], "Struct"), 16
        while size < target:
            cur = F.struct(t.st, t.prog, [("a", cur), ("b", cur)], "Struct")
            size = const(size_of(F, t.st, cur, t.prog)[0][1])
        outer = F.struct(t.st, t.prog, [("a", cur), ("z", "I32"), ("y", "I8")], "Struct")
        return cur, outer, size, const(size_of(F, t.st, outer, t.prog)[0][1])
    for target in (100, 200, 30000, 60000, 1 << 20):
        for form in ("o.z", "p->z", "o.y", "a[i].z", "p + i", "sizeof", "++p", "a[300]"):
            def build(t, target=target, form=form):
                cur, outer, sz, total = big(t, target)
                mt, k = ("I8", sz + 4) if form == "o.y" else ("I32", sz)
                if form in ("o.z", "o.y", "sizeof"):
                    v = F.var(outer, "local", "LValue")
                    t.names.append(("o", v, outer))
                    declare(t)
                    if form == "sizeof":
                        return F.E("SizeOfExpr", box(F.name("o"))), {"desc": f"sizeof of a struct of {total} bytes", "kids": [], "type": None, "anytype": True, "alts": [num(32, total), num(64, total)]}
                    return D(F.name("o"), form[2:]), spec(f"{form} at offset {k}", mt, ws.add(32, F.addr(v), num(32, k)))
                pt = B.new("IrType", "PointerTo", box(outer))
                v = F.var(pt, "local", "LValue")
                P = F.value(v, PI32)
                if form == "++p":
                    t.names.append(("p", v, pt))
                    declare(t)
                    new = ws.iop("Add", 32, [P, num(32, total)])
                    return F.E("PrefixIncrement", box(F.name("p"))), {"desc": f"++p for objects of {total} bytes", "kids": [], "type": None, "anytype": True, "alts": [new], "stores": {F.addr(v): (32, [new])}}
                iv = F.var("I32", "local", "LValue")
                declare(t)
                p, i = F.kid("$p", F.src(v)), F.kid("$i", F.src(iv))
                if form == "p->z":
                    return A(p, "z"), spec(f"p->z at offset {k}", mt, ws.add(32, P, num(32, k)), ["$p"])
                if form == "a[300]":
                    return D(F.E("Index", box(p), box(F.int(300))), "z"), spec(f"a[300].z for objects of {total} bytes", mt, ws.add(32, P, num(32, 300 * total + k)), ["$p"])
                ix = ws.iop("Mul", 32, [F.value(iv, "I32"), num(32, total)])
                if form == "p + i":
                    return F.bin("Add", p, i), {"desc": f"p + i for objects of {total} bytes", "kids": ["$p", "$i"], "type": None, "anytype": True, "alts": [ws.add(32, P, ix)]}
                return D(F.E("Index", box(p), box(i)), "z"), spec(f"a[i].z for objects of {total} bytes", mt, ws.add(32, ws.add(32, P, ix), num(32, k)), ["$p", "$i"])
            judge(ck, F, "large", f"{target}/{form}", build)
    # sizeof of aggregates
    for form in ("struct", "union", "outer", "array", "array of structs", "element", "member", "nested member", "pointer to struct", "dereference"):
        def build(t, form=form):
            inner, outer, sz, off = types(t, "Union" if form == "union" else "Struct")
            ty, want = {"struct": (inner, None), "union": (inner, None), "outer": (outer, None), "array": (array(F, B.irty("I16"), 7), 14), "array of structs": (array(F, inner, 5), 5 * sz(inner)),
                        "element": (array(F, inner, 5), sz(inner)), "member": (outer, 8), "nested member": (outer, 4), "pointer to struct": (B.new("IrType", "PointerTo", box(outer)), 4),
                        "dereference": (B.new("IrType", "PointerTo", box(outer)), None)}[form]
            v = F.var(ty, "local", "LValue")
            t.names.append(("o", v, ty))
            declare(t)
            o = F.name("o")
            e = {"element": lambda: F.E("Index", box(o), box(F.int(0))), "member": lambda: D(o, "t"), "nested member": lambda: D(D(o, "in"), "i"), "dereference": lambda: F.un("Dereference", o)}.get(form, lambda: o)()
            want = sz(outer if form == "dereference" else ty) if want is None else want
            return F.E("SizeOfExpr", box(e)), {"desc": f"sizeof of {form}", "kids": [], "type": None, "value": want}
        c07.judge_size(ck, F, f"{form}", build)


def definitions(ck, F):
    """struct and union definitions in the source become the declared members"""
    B = F.B
    I = F.I
    D = lambda v, *a: B.new("ast::Declarator", v, *a)
    idd = lambda n: D("Identifier", F.ident(n))
    ptr = lambda d: D("PointerDeclarator", box(d))
    arr = lambda d, n: D("ArrayDeclarator", box(d), some(box(F.int(n))))
    I32, I8 = B.irty("I32"), B.irty("I8")
    P = lambda t: B.new("IrType", "PointerTo", box(t))
    bodies = {"int a; char b;": ([("I32", [idd("a")]), ("I8", [idd("b")])], [("a", I32), ("b", I8)]),
              "int a, *b; char c;": ([("I32", [idd("a"), ptr(idd("b"))]), ("I8", [idd("c")])], [("a", I32), ("b", P(I32)), ("c", I8)]),
              "char **z; int y, x;": ([("I8", [ptr(ptr(idd("z")))]), ("I32", [idd("y"), idd("x")])], [("z", P(P(I8))), ("y", I32), ("x", I32)])}
    f = "middle_end::get_ast_type_info::get_type_info"
    w = ck.where(f)

    def one(kind, key):
        src, want = bodies[key]
        F.reset()
        st = State()
        pr, ctx = F.program(st), F.context(st)
        ms = q(*[B.new("StructMemberDeclaration", None, F.specifier(t), q(*ds)) for t, ds in src])
        at = B.new(f"ast::{kind}Type", "Definition", some(F.ident("tag")), ms)
        sq = lambda x: B.new("SpecifierQualifier", None, type_specifier=B.new("front_end::ast::TypeSpecifier", kind, x), storage_class_specifier=NONE, const_=c(0), inline=c(0))
        outs = I.run(f, [I.cell(st, "sq", sq(at)), NONE, c(0), pr, ctx], st)
        if not outs:
            raise AnalysisError("no outcome")
        for s2, r in outs:
            if r[2] != "Ok":
                ck.ob("definition", f"{kind}/{key}", False, f"{kind.lower()} {{ {key} }} is rejected", w)
                continue
            ty = I.freeze(s2, r)[3][0][3][0][1][0]
            md = B.get(I.freeze(s2, pr), "program_metadata")
            rec = I.freeze(s2, F.run1(f"middle_end::ir::ProgramMetadata::get_{kind.lower()}_type", [I.cell(s2, "m", md), I.cell(s2, "i", ty[3][0])], s2))[3][0]
            cell = I.cell(s2, "rec", rec)
            got = []
            for i, (n, t) in enumerate(want):
                x = I.freeze(s2, F.run1(f"middle_end::ir_types::{kind}Type::get_member_type", [cell, s(n)], s2))
                ck.ob("definition", f"{kind}/{key}/{n}", x[2] == "Ok" and unbox(x[3][0]) == unbox(t), f"member {n} of {kind.lower()} {{ {key} }} has another type", w, f"{key} {n}")
                if kind == "Struct":
                    y = I.freeze(s2, F.run1("middle_end::ir_types::StructType::get_member_byte_offset", [cell, s(n)], s2))
                    got.append(const(y[3][0]))
            ck.ob("definition", f"{kind}/{key}/order", got == sorted(set(got)) and len(got) in (0, len(want)), f"the members of struct {{ {key} }} are not in the declared order: offsets {got}", w)
            # the tag now names this very type
            ref = B.new(f"ast::{kind}Type", "Declaration", F.ident("tag"))
            for s3, r3 in I.run(f, [I.cell(s2, "sq2", sq(ref)), NONE, c(0), pr, ctx], s2.copy()):
                t3 = I.freeze(s3, r3)[3][0][3][0][1][0] if r3[2] == "Ok" else None
                ck.ob("definition", f"{kind}/{key}/tag", t3 == ty, f"{kind.lower()} tag names another type than the one defined", w)
    for kind in ("Struct", "Union"):
        for key in bodies:
            ck.guard("definition", f"{kind}/{key}", one, kind, key)


def check(ck):
    F = Front(ck)
    scalars(ck, F)
    layouts(ck, F)
    arrays(ck, F)
    nested(ck, F)
    definitions(ck, F)
    for k, n in {"scalar": 11, "layout": 300, "array": 70, "nested": 66, "sizeof": 10, "definition": 12, "large": 40}.items():
        ck.floor(k, n)
