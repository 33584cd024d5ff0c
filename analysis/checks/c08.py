"""C08: control-flow statements."""
from flow import *
from c07 import T, ALL

TECHNIQUE = "abstract interpretation of statement translation (MIR), bisimulation of the resulting instruction graph with the statement's control-flow graph"
RULE = ("For every control statement, and for nested combinations of them, `convert_statement_to_ir` is interpreted abstractly on a syntax tree "
        "whose conditions and inner statements are opaque; the instructions it builds (lowered with the code generator) and the control-flow graph "
        "that the C standard gives the statement are compared state by state: the same subtrees run in the same order, every branch tests the "
        "condition's (or the switch operand's) value as last evaluated, and both leave, return, jump away or run forever together.")
ASSUMPTIONS = ["a subtree is one opaque event; its own translation is the subject of C07 and of this check at the subtree's level",
               "slots of different variables do not overlap (C13, C17)", "the cases of a switch are distinct"]

A, B_, C_, D = ("ev", "$A"), ("ev", "$B"), ("ev", "$C"), ("ev", "$D")
BR, CO = ("break",), ("continue",)


def blk(*s):
    return ("block", list(s))


def programs():
    P = {}
    P["if"] = ("if", "$c", A)
    P["ifelse"] = ("ife", "$c", A, B_)
    P["while"] = ("while", "$c", A)
    P["do"] = ("do", A, "$c")
    for i in (None, ("expr", "$i"), ("decl", "$I")):
        for co in (None, "$c"):
            for st in (None, "$s"):
                P[f"for/{i and i[0]}/{co}/{st}"] = ("for", i, co, st, A)
                P[f"for/{i and i[0]}/{co}/{st}/continue"] = ("for", i, co, st, blk(A, ("if", "$d", CO), B_))
                P[f"for/{i and i[0]}/{co}/{st}/break"] = ("for", i, co, st, blk(A, ("if", "$d", BR), B_))
    P["block"] = blk(A, B_, C_)
    P["block/empty"] = blk()
    P["expression"] = blk(("expr", "$i"), A, ("expr", "$s"))
    P["empty"] = blk(A, ("empty",), B_)
    P["while/break"] = blk(("while", "$c", blk(A, ("if", "$d", BR), B_)), C_)
    P["while/continue"] = blk(("while", "$c", blk(A, ("if", "$d", CO), B_)), C_)
    P["do/break"] = blk(("do", blk(A, ("if", "$d", BR), B_), "$c"), C_)
    P["do/continue"] = blk(("do", blk(A, ("if", "$d", CO), B_), "$c"), C_)
    P["while/ifelse"] = ("while", "$c", ("ife", "$d", blk(A, CO), blk(B_, BR)))
    loops = {"while": lambda x, c_: ("while", c_, x), "do": lambda x, c_: ("do", x, c_), "for": lambda x, c_: ("for", ("expr", "$i"), c_, "$s", x)}
    for a in loops:
        for b in loops:
            if a == b == "for":
                inner = ("for", None, "$d", "$t", blk(B_, ("if", "$e", BR), ("if", "$f", CO), C_))
            else:
                inner = loops[b](blk(B_, ("if", "$e", BR), ("if", "$f", CO), C_), "$d")
            P[f"nested/{a}/{b}"] = blk(loops[a](blk(A, inner, ("if", "$g", CO), ("if", "$h", BR), D), "$c"), ("ev", "$E"))
    for a in loops:
        sw = ("switch", "$x", blk(("case", 1, blk(A, BR)), ("case", 2, blk(B_, CO)), ("default", C_)))
        P[f"switch-in-{a}"] = blk(loops[a](blk(sw, D), "$c"), ("ev", "$E"))
        lp = loops[a](blk(B_, ("if", "$e", BR), ("if", "$f", CO), C_), "$d")
        P[f"{a}-in-switch"] = blk(("switch", "$x", blk(("case", 1, blk(lp, BR)), ("case", 7, A))), ("ev", "$E"))
    P["switch/one"] = ("switch", "$x", ("case", 0, A))
    P["switch/fallthrough"] = blk(("switch", "$x", blk(("case", 0, A), ("case", 5, B_), ("case", 200, C_))), D)
    P["switch/breaks"] = blk(("switch", "$x", blk(("case", 0, A), BR, ("case", 70000, B_), BR, ("default", C_), BR)), D)
    P["switch/default-first"] = blk(("switch", "$x", blk(("default", A), ("case", 3, B_), BR, ("case", 4, C_))), D)
    P["switch/default-middle"] = blk(("switch", "$x", blk(("case", 3, A), ("default", B_), ("case", 4, C_))), D)
    P["switch/default-only"] = blk(("switch", "$x", ("default", A)), B_)
    P["switch/no-case"] = blk(("switch", "$x", blk(A)), B_)
    P["switch/empty"] = blk(("switch", "$x", blk()), B_)
    P["switch/shared"] = blk(("switch", "$x", blk(("case", 1, ("case", 2, ("case", 3, A))), BR, ("case", 4, ("default", B_)))), C_)
    P["switch/before-first-case"] = blk(("switch", "$x", blk(A, ("case", 1, B_))), C_)
    P["switch/negative"] = blk(("switch", "$x", blk(("case", -1, A), BR, ("case", 1, B_), BR, ("case", -129, C_))), D)
    P["switch/many"] = blk(("switch", "$x", blk(*[y for k in range(19) for y in (("case", k * 3 - 7, (A, B_, C_, D)[k % 4]), BR)], ("default", ("ev", "$E")))), D)
    P["switch/many-default-first"] = blk(("switch", "$x", blk(("default", ("ev", "$E")), *[("case", k * 40, (A, B_, C_, D)[k % 4]) for k in range(17)])), D)
    P["switch/nested"] = blk(("switch", "$x", blk(("case", 1, blk(A, ("switch", "$y", blk(("case", 1, B_), BR, ("default", C_))), D)), BR,
                                                  ("case", 2, ("ev", "$E")))), ("ev", "$F"))
    P["switch/nested-default"] = blk(("switch", "$x", blk(("case", 1, ("switch", "$y", ("case", 2, B_))), ("default", C_))), D)
    P["switch/case-in-block"] = blk(("switch", "$x", blk(("case", 1, A), blk(("case", 2, B_), ("default", C_)), D)), ("ev", "$E"))
    P["switch/case-in-if"] = blk(("switch", "$x", blk(("case", 1, ("if", "$c", ("case", 2, A))), B_)), C_)
    P["switch/case-in-loop"] = blk(("switch", "$x", ("case", 0, ("do", blk(A, ("case", 1, B_), ("case", 2, C_)), "$c"))), D)
    P["switch/case-in-while"] = blk(("switch", "$x", blk(("case", 0, ("while", "$c", blk(A, ("case", 1, B_), ("default", BR), C_))), D)), ("ev", "$E"))
    P["goto/back"] = blk(("label", "l", A), ("if", "$c", ("goto", "l")), B_)
    P["goto/forward"] = blk(("if", "$c", ("goto", "l")), A, ("label", "l", B_), C_)
    P["goto/skip"] = blk(A, ("goto", "l"), B_, ("label", "l", ("empty",)), C_)
    P["goto/into-loop"] = blk(("if", "$c", ("goto", "l")), ("while", "$d", blk(A, ("label", "l", B_), ("if", "$e", CO), C_)), D)
    P["goto/out-of-loops"] = blk(("while", "$c", ("while", "$d", blk(A, ("if", "$e", ("goto", "out")), B_))), C_, ("label", "out", D))
    P["goto/into-if"] = blk(("goto", "l"), ("ife", "$c", A, blk(("label", "l", B_), C_)), D)
    P["goto/two-labels"] = blk(("label", "a", ("label", "b", A)), ("if", "$c", ("goto", "b")), ("if", "$d", ("goto", "a")), B_)
    P["goto/irreducible"] = blk(("if", "$c", ("goto", "m")), ("label", "l", A), ("label", "m", B_), ("if", "$d", ("goto", "l")), ("if", "$e", ("goto", "m")))
    P["goto/out-of-switch"] = blk(("switch", "$x", blk(("case", 1, A), ("goto", "out"), ("default", B_))), C_, ("label", "out", D))
    P["goto/undefined"] = blk(A, ("if", "$c", ("goto", "nowhere")), B_)
    P["return/none"] = blk(A, ("if", "$c", ("ret", None)), B_)
    P["return/loop"] = blk(("while", "$c", blk(A, ("if", "$d", ("ret", "$r")), B_)), ("ret", "$r2"))
    P["return/switch"] = blk(("switch", "$x", blk(("case", 1, ("ret", "$r")), ("case", 2, A), ("default", ("ret", "$r2")))), B_)
    P["if/chain"] = ("ife", "$c", A, ("ife", "$d", B_, ("ife", "$e", C_, D)))
    P["if/dangling"] = blk(("if", "$c", ("ife", "$d", A, B_)), ("ife", "$e", ("if", "$f", C_), D))
    P["if/empty-arms"] = blk(("ife", "$c", ("empty",), A), ("ife", "$d", B_, ("empty",)), ("if", "$e", ("empty",)), C_)
    P["empty-loops"] = blk(("while", "$c", ("empty",)), ("do", ("empty",), "$d"), ("for", None, None, None, ("if", "$e", BR)))
    P["for/forever"] = blk(A, ("for", None, None, None, ("empty",)), B_)
    P["for/forever-continue"] = ("for", None, None, "$s", ("if", "$c", CO))
    P["for/two"] = blk(("for", ("expr", "$i"), "$c", "$s", A), ("for", ("expr", "$j"), "$d", "$t", B_))
    P["loop/break-first"] = blk(("while", "$c", BR), ("do", BR, "$d"), A)
    P["loop/continue-first"] = blk(("while", "$c", CO), ("do", CO, "$d"), A)
    P["break-after-inner-switch"] = blk(("while", "$c", blk(("switch", "$x", ("case", 1, BR)), BR)), A)
    P["continue-after-inner-loop"] = blk(("for", None, "$c", "$s", blk(("while", "$d", BR), CO, A)), B_)
    P["switch-after-loop"] = blk(("while", "$c", A), ("switch", "$x", blk(("case", 1, BR), ("default", B_))), C_)
    return P


def kids_of(s, out):
    if isinstance(s, (tuple, list)):
        for n, x in enumerate(s):
            if isinstance(x, str) and x.startswith("$"):
                if not (s[0] in ("ev", "decl")):
                    out.append((x, s[0]))
            else:
                kids_of(x, out)
    return out


def translate(ck, F, prog, types=None, ret=None, const=None):
    """(outcomes of translating the statement, type of each opaque expression)"""
    t = T(ck, F)
    ty = {}
    for n, _ in kids_of(prog, []):
        if n in ty:
            continue
        ty[n] = (types or {}).get(n, "I32")
        if const and n in const:
            v = const[n]
            F.kid(n, F.const(c(v), "Float" if isinstance(v, float) else "Int"), False)
        else:
            t.child(n, ty[n])
    st = t.st
    return F.stmt(syntax(F, prog), st, F.program(st), F.context(st, [], (), ret)), ty


def compare(ck, F, cls, key, prog, types=None, ret=None, const=None, desc=None):
    """types: type of each opaque expression (int by default); const: those that are constants"""
    def one():
        outs, ty = translate(ck, F, prog, types, ret, const)
        where = ck.where(F.cstmt.name)
        d = desc or key
        ck.ob(cls, key + "/outcome", bool(outs), f"{d}: the compiler panics", where)
        for o in outs:
            if o[1] == "Err":
                ck.ob(cls, key, False, f"{d}: rejected with {o[2][2]}", where)
                continue
            _, _, instrs, md = o
            F.adopt(md)
            bad = None
            try:
                cmp_ = Compare(F, instrs, md, Graph(prog), ty, ret)
                cmp_.run()
            except Mismatch as ex:
                bad = str(ex)
            except ws.StackError as ex:
                bad = f"the generated code is not valid: {ex}"
            ck.ob(cls, key, bad is None, f"{d}: {bad}", where, None if bad else f"{d}: {len(instrs)} instructions, {cmp_.pairs} states, {cmp_.branches} branches")
    ck.guard(cls, key, one)


def rejected(ck, F, key, prog):
    def one():
        t = T(ck, F)
        for n, _ in kids_of(prog, []):
            if n not in F.kids:
                t.child(n, "I32")
        st = t.st
        outs = F.stmt(syntax(F, prog), st, F.program(st), F.context(st))
        ck.ob("error", key, bool(outs) and all(o[1] == "Err" for o in outs), f"{key}: must be rejected, but is accepted (or panics)",
              ck.where(F.cstmt.name), f"{key} is rejected")
    ck.guard("error", key, one)


def fundef(F, name, body, ret="I32"):
    B = F.B
    d = B.new("front_end::ast::Declarator", "FunctionDeclarator", box(B.new("front_end::ast::Declarator", "Identifier", F.ident(name))), NONE)
    return F.S("FunctionDeclaration", F.specifier(ret), d, box(body))


def functions(ck, F):
    """labels belong to their function"""
    def run(key, progs, ok, desc):
        def one():
            t = T(ck, F)
            for p in progs:
                for n, _ in kids_of(p, []):
                    if n not in F.kids:
                        t.child(n, "I32")
            st = t.st
            pr = F.program(st)
            ctx = F.context(st)
            sts = [(st, True)]
            for k, p in enumerate(progs):
                nxt = []
                for s2, good in sts:
                    if not good:
                        nxt.append((s2, False))
                        continue
                    for o in F.stmt(fundef(F, f"f{k}", syntax(F, p)), s2, pr, ctx):
                        nxt.append((o[0], o[1] == "Ok"))
                sts = nxt
            ck.ob("label", key, bool(sts) and all(g == ok for _, g in sts), f"{desc}: is {'rejected' if ok else 'accepted'} (or panics)",
                  ck.where(F.cstmt.name), desc)
            if not ok:
                return
            for s2, _ in sts:
                p = F.I.freeze(s2, pr)
                md = F.B.get(p, "program_metadata")
                F.adopt(md)
                pis = F.B.get(p, "program_instructions")
                fs = [v for _, v in F.B.get(pis, "functions")[2]]
                bodies = [list(F.B.get(f, "instrs")[1]) for f in fs]
                bodies = [b for b in bodies if b]
                ck.ob("label", key + "/bodies", len(bodies) == len(progs), f"{desc}: {len(bodies)} functions with a body", ck.where(F.cstmt.name))
                for p_, b in zip(progs, bodies):
                    bad = None
                    try:
                        Compare(F, b, md, Graph(p_), {n: "I32" for n, _ in kids_of(p_, [])}, "I32").run()
                    except Mismatch as ex:
                        bad = str(ex)
                    ck.ob("label", key + "/meaning", bad is None, f"{desc}: {bad}", ck.where(F.cstmt.name))
        ck.guard("label", key, one)
    run("undefined", [blk(A, ("goto", "nowhere"))], False, "goto a label that is defined nowhere")
    run("defined", [blk(("goto", "l"), A, ("label", "l", B_))], True, "goto a label defined later in the function")
    run("other-function", [blk(("label", "l", A)), blk(("if", "$c", ("goto", "l")), B_)], False, "goto a label that only another function defines")
    run("later-function", [blk(("if", "$c", ("goto", "l")), B_), blk(("label", "l", A))], False, "goto a label that only a later function defines")
    run("same-name", [blk(("label", "l", A), ("if", "$c", ("goto", "l")), B_), blk(("if", "$d", ("goto", "l")), C_, ("label", "l", D))], True,
        "two functions with a label of the same name")


def check(ck):
    check_with(ck, Front(ck))


def check_with(ck, F):
    for k, p in programs().items():
        compare(ck, F, "statement", k, p, ret="I32")
    one = {"if": ("if", "$c", A), "ifelse": ("ife", "$c", A, B_), "while": ("while", "$c", A), "do": ("do", A, "$c"), "for": ("for", ("expr", "$i"), "$c", "$s", A)}
    for t in ALL + [("PointerTo", "I32")]:
        for k, p in one.items():
            compare(ck, F, "condition", f"{k}/{tname(t)}", p, {"$c": t}, desc=f"{k} with a condition of type {tname(t)}")
    for v in (0, 1, 256, 2**32, 0.0, 0.5):
        for k, p in one.items():
            compare(ck, F, "condition", f"{k}/{v}", p, {"$c": "F64" if isinstance(v, float) else "I64"}, const={"$c": v}, desc=f"{k} with the condition {v}")
    sw = blk(("switch", "$x", blk(("case", 0, A), BR, ("case", 1, B_), BR, ("case", 127, C_), ("case", 128, D), ("case", 255, A), ("case", 40000, B_), BR,
                                  ("case", -1, ("ev", "$E")))), ("ev", "$F"))
    for t in INTS:
        compare(ck, F, "switch", tname(t), sw, {"$x": t}, desc=f"switch over {t}")
    big = blk(("switch", "$x", blk(("case", 2**31 - 1, A), BR, ("case", 2**33, B_))), C_)
    for t in ("I64", "U64"):
        compare(ck, F, "switch", "large/" + t, big, {"$x": t}, desc=f"switch over {t}")
    for v in (0, 1, 255, 70000):
        compare(ck, F, "switch", f"constant/{v}", sw, {"$x": "I32"}, const={"$x": v}, desc=f"switch over the constant {v}")
    for R in ALL:
        for t in ALL:
            if t in FLOATS and (R in INTS or (R, t) == ("F32", "F64")):
                continue    # whether and how these are converted is C04's subject
            compare(ck, F, "return", f"{R}/{t}", ("ret", "$r"), {"$r": t}, R, desc=f"return of {t} from a function returning {R}")
        for v in (0, 1, 100, 200.5) if R == "F64" else (0, 1, 100):
            compare(ck, F, "return", f"{R}/constant{v}", ("ret", "$r"), {"$r": "F64" if isinstance(v, float) else "I32"}, R, const={"$r": v},
                    desc=f"return of {v} from a function returning {R}")
    compare(ck, F, "return", "pointer", ("ret", "$r"), {"$r": ("PointerTo", "I8")}, ("PointerTo", "I8"), desc="return of a pointer")
    compare(ck, F, "return", "null", ("ret", "$r"), {"$r": ("PointerTo", "I8")}, ("PointerTo", "I8"), const={"$r": 0}, desc="return 0 as a pointer")
    for k, p in {"break outside a loop": BR, "continue outside a loop": CO, "case outside a switch": ("case", 1, A), "default outside a switch": ("default", A),
                 "continue in a switch outside a loop": ("switch", "$x", ("case", 1, CO)), "two defaults": ("switch", "$x", blk(("default", A), ("default", B_))),
                 "case in a loop outside a switch": ("while", "$c", ("case", 1, A)), "default in a loop outside a switch": ("while", "$c", ("default", A)),
                 "break after a loop": blk(("while", "$c", A), BR), "break after a switch": blk(("switch", "$x", ("case", 1, A)), BR),
                 "continue after a loop": blk(("do", A, "$c"), CO), "break after a for": blk(("for", None, "$c", None, A), BR),
                 "case after a switch": blk(("switch", "$x", ("case", 1, A)), ("case", 2, B_)),
                 "break in an if": ("if", "$c", BR), "continue in a block": blk(A, CO)}.items():
        rejected(ck, F, k, p)
    functions(ck, F)
    for k, n in (("statement", 120), ("condition", 150), ("switch", 20), ("return", 110), ("error", 15), ("label", 5)):
        ck.floor(k, n)
