"""C29: static data and the initial stack never overlap."""
import asm
from asm import Assembly
from front import *
from dataflow import Data, blocks_in, cases, def_use, vars_of, sizes
from c11 import effects
import corpus as corp

TECHNIQUE = "abstract interpretation of module assembly and global allocation (MIR); the resulting memory image is compared with the addresses the code is given"
RULE = ("`generate_target_code` is interpreted on programs with any of a set of lists of string literals (0 to 5 of them, equal, empty, with embedded "
        "NULs, of lengths around 2^8 and 2^16) and with known and unknown amounts of memory taken by global variables: the memory image must hold the bytes of "
        "every literal and a NUL at the address recorded for it, no two literals may share a byte, none may touch the three reserved pointers, globals start "
        "above them, the initial stack pointer in the image is the end of the globals, and the functions are compiled with these very addresses. "
        "`allocate_global_vars` is interpreted with an unknown start address on every instruction form and enumerated blocks: every variable of "
        "the global code has a place of its size between the start address and the returned end, disjoint from all others. Code that "
        "uses a literal yields the address recorded for it, and translating literals records each under its own identity.")
ASSUMPTIONS = ["literals contain characters below 256 (C24 decides how characters become bytes)"]

CB = asm.CB
LISTS = [[], ["a"], [""], ["hello"], ["ab", "c"], ["", "", ""], ["same", "same"], ["in\0side", "n", "\0"], ["x" * 255], ["x" * 243, "y"], ["x" * 300, "", "zz", "w" * 12, "q"],
         ["\xff\x80\x7f\x01", "\n"], ["a" * 70000, "b"]]
TOPS = [0, 1, 4, 243, 0x01020304, 0xfffe]


def image(ck, strings, top, gblock=True):
    """what assembling a program with these literals does, when global variables take `top` bytes (None: an unknown number)"""
    start = []
    def policy(name):
        if name.endswith("::allocate_global_vars"):
            def f(I, st, args, dty):
                a = [I.freeze(st, x) for x in args]
                start.append([x for x in a if isinstance(x, tuple) and x[0] == "c"])
                t = start[-1][0]
                end = Sym("in", ("end",), ("prim", "u32")) if top is None else c(t[1] + top)
                st.trace = st.trace + (("globals", (t, end), None),)
                return [(st, ("t", (Sym("global addresses", (), dty[1][0]), end)))]
            return f
        return asm.policy(name)
    I = ck.interp(policy)
    I.max_steps = 40_000_000
    return Assembly(ck, strings=[("str", x) for x in strings], I=I)


def key_of(strings):
    return "+".join(f"{len(x)}{'=' if x in strings[:k] else ''}" for k, x in enumerate(strings)) or "none"


def layout_of(ck, strings, top):
    A = image(ck, strings, top)
    B, I = A.B, A.I
    key = f"{key_of(strings)}/{'unknown' if top is None else top}"
    w = ck.where(A.f.name)
    for st, mod in A.outs:
        segs = A.g(mod, "data_section", "data_segments")[1]
        bad = None
        img = {}
        for sg in segs:
            off = A.g(sg, "offset_expr", "instrs")[1]
            if len(off) != 1 or off[0][2] != "I32Const" or off[0][3][0][0] != "c":
                raise AnalysisError("a segment is at an unknown address")
            base = off[0][3][0][1]
            d = A.g(sg, "data")
            for k, x in enumerate(d[1]):
                if isinstance(x, tuple) and x[0] == "splice":
                    raise AnalysisError("the data are not a known sequence")
                if base + k in img:
                    bad = f"address {base + k} is initialised twice"
                img[base + k] = x
        size = max(img, default=-1) + 1
        gl = [t for n, t, _ in st.trace if n == "globals"]
        if len(gl) > 1:
            raise AnalysisError("globals are allocated more than once")
        start, end = gl[0] if gl else (c(size), c(size))
        if gl and not bad:
            if size > start[1]:
                bad = f"the data take {size} bytes, global variables start at address {start[1]}"
            if start[1] < 12:
                bad = f"global variables start at {start[1]}, where the reserved pointers are"
        # the initial stack pointer
        sp = [img.get(8 + k, c(0)) for k in range(4)]
        if not is_sym(end):
            if sp != [c(end[1] >> 8 * k & 255) for k in range(4)] and not bad:
                bad = f"the initial stack pointer is the bytes {[x[1] if x[0] == 'c' else show(x, 3) for x in sp]}, the global variables end at {end[1]}"
        else:
            got = [byte_term(x) for x in sp]
            if None in got:
                ck.notes.append("the bytes of an unknown stack pointer are not recognised; known ones are compared")
            elif not bad and got != [(end, 8 * k) for k in range(4)]:
                bad = f"the initial stack pointer is the bytes {[show(x, 4) for x in sp]}, not those of the end of the global variables"
        # where the literals are
        ctxs = [I.freeze(st, a) for n, t, _ in st.trace if n.startswith(CB + "convert_") for a in t]
        maps = [A.g(a, "string_literal_id_to_ptr_map") for a in ctxs if isinstance(a, tuple) and a[0] == "e" and a[1].endswith("ModuleContext")]
        if not maps:
            raise AnalysisError("no code is generated with a module context")
        for m in maps:
            if m[0] != "m" or len(m) > 3 and m[3] is not None and is_sym(m[3]):
                raise AnalysisError("the literal addresses are not a known map")
            got = {k: p for k, p in m[2]}
            spans = []
            for k, x in enumerate(strings):
                p = got.get(B.id("StringLiteralId", k))
                if p is None or p[0] != "c":
                    bad = bad or f"literal {k} has no known address"
                    continue
                p = p[1]
                want_b = [ord(ch) for ch in x] + [0]
                have = [img.get(p + j) for j in range(len(want_b))]
                if [h and h[1] for h in have] != want_b:
                    bad = bad or f"at address {p}, recorded for literal {k} ({x[:12]!r}), are the bytes {[h and h[1] for h in have][:14]}"
                spans.append((p, p + len(want_b), k))
            for a in spans:
                if a[0] < 12:
                    bad = bad or f"literal {a[2]} is at address {a[0]}, where the reserved pointers are"
                for b in spans:
                    if a[2] < b[2] and a[0] < b[1] and b[0] < a[1] and strings[a[2]] != strings[b[2]]:
                        bad = bad or f"literals {a[2]} and {b[2]} share memory ({a[:2]}, {b[:2]})"
        # functions use the addresses the globals were given
        fcs = [A.g(a, "global_var_addrs") for a in ctxs if isinstance(a, tuple) and a[0] == "e" and a[1].endswith("FunctionContext")]
        if gl and (not fcs or any(not (is_sym(x) and x.head == "global addresses") for x in fcs)):
            bad = bad or f"code is generated with other addresses of the global variables ({[show(x, 2) for x in fcs][:3]}) than they were given"
        n_funs = len({show(A.g(a, "label_variable"), 3) for a in ctxs if isinstance(a, tuple) and a[0] == "e" and a[1].endswith("FunctionContext")})
        if gl and n_funs != 3:
            raise AnalysisError(f"{n_funs} functions' code is generated, not 3")
        ck.ob("image", key, bad is None, f"literals of lengths {key_of(strings)}: {bad}", w, f"{key}: {len(img)} bytes")
        # large enough
        if not is_sym(end):
            mem = [A.g(i, "import_descriptor") for i in A.g(mod, "imports_section", "imports")[1] if A.g(i, "import_descriptor")[2] == "Mem"]
            lims = [A.g(B.get(d, "mem_type"), "limits") for d in mem]
            if len(lims) != 1:
                raise AnalysisError(f"{len(lims)} memories")
            pages = A.g(lims[0], "min")[1]
            ck.ob("memory", "more than 64 KiB" if end[1] > 65536 else key, end[1] <= pages * 65536, f"static data end at address {end[1]}, the memory has {pages} page(s) of 65536 bytes", w, key)


def byte_term(x):
    """(term, shift) of a byte of a term, or None"""
    if not is_sym(x):
        return None
    t, sh, masked = x, 0, x.ty == ("prim", "u8")
    for _ in range(12):
        if not is_sym(t):
            return None
        h = t.head
        a = t.args
        if h == "in":
            return (t, sh) if masked else None
        if h.startswith("cast") or h in ("wrap", "trunc"):
            nxt = [x for x in a if is_sym(x)]
            if len(nxt) != 1:
                return None
            t = nxt[0]
            continue
        k = [x for x in a if isinstance(x, tuple) and x[0] == "c"]
        y = [x for x in a if is_sym(x)]
        if len(k) != 1 or len(y) != 1:
            return None
        op = h.split(":")[-1].split(".")[0]
        if "&" in op or "BitAnd" in h or "and" in op.lower():
            if k[0][1] != 255:
                return None
            masked = True
        elif ">>" in op or "Shr" in h or "shr" in op.lower():
            if not masked and x.ty != ("prim", "u8"):
                return None
            sh += k[0][1]
        elif h == "lin":
            return None
        else:
            return None
        t = y[0]
    return None


def globals_of(ck, G, cls, key, b, need):
    """allocate_global_vars on a block whose code writes or declares the variables in need"""
    I, B = G.I, G.B
    f = I.find("back_end::stack_allocation::allocate_vars::allocate_global_vars")
    st = State()
    base = Sym("in", ("start",), ("prim", "u32"))
    md = G.metadata()
    null = B.get(md, "null_dest_var")
    null = null[3][0] if null[2] == "Some" else None
    args = []
    I.panics.clear()
    for s2, r in I.run(f, [I.cell(st, "block", b), base, I.cell(st, "md", md)], st):
        r = I.freeze(s2, r)
        m, end = r[1]
        size = sizes(G, md)
        need = {v for v in need if v != null}
        bad = None
        spans = []
        addr = dict(m[2])
        for v in sorted(need, key=repr):
            if v not in addr:
                bad = bad or f"variable {G.vid(v)} of the global code has no address"
                continue
            spans.append((dist(addr[v], base), dist(addr[v], base) + size[v], G.vid(v)))
        for v in addr:
            if v not in need:
                spans.append((dist(addr[v], base), dist(addr[v], base) + size[v], G.vid(v)))
        e = dist(end, base)
        for a in spans:
            if a[0] < 0 or a[1] > e:
                bad = bad or f"variable {a[2]} is at {a[:2]} from the start address, outside of the {e} bytes of global variables"
            for z in spans:
                if a[2] < z[2] and a[0] < z[1] and z[0] < a[1]:
                    bad = bad or f"variables {a[2]} and {z[2]} share memory ({a[:2]} and {z[:2]} from the start address)"
        ck.ob(cls, key, bad is None, f"{key}: {bad}", ck.where(f), f"{key}: {len(spans)} variables")
    if I.panics:
        ck.ob(cls, key, False, f"{key}: the compiler panics: {I.panics[0][2]}", ck.where(f), key)


def dist(a, base):
    if a == base:
        return 0
    if is_sym(a) and a.head == "lin":
        k, ts = a.args
        if len(ts) == 1 and ts[0][0] == base and ts[0][1] == 1:
            return k
    raise AnalysisError(f"the address {show(a, 3)} is not at a known distance from the start address")


def check(ck):
    jobs = [(s_, t) for s_ in LISTS for t in ([None] + TOPS if len(s_) in (0, 2) else [None, 4])]
    ck.parallel(lambda j: ck.guard("image", f"{key_of(j[0])}/{j[1]}", layout_of, ck, *j), sorted(jobs, key=lambda j: -sum(map(len, j[0]))))
    # --- places of global variables
    W = Data(ck)
    G = W.G
    W.I.max_steps = 20_000_000
    items = [x for x in corp.corpus(G) if x[0] not in ("Break", "Continue", "EndHandledBlock", "TailCall", "Ret", "BrIfEq", "BrIfNotEq", "Br", "Label")]
    pick = {}
    for v, key, mk in items:
        pick.setdefault(v, []).append((key, mk))

    def form(x):
        v, key, mk = x
        G.reset()
        i = mk()
        for g in list(G.globals):
            G.vars[g] = G.globals.pop(g)
        # next to another variable and in every kind of block
        other = G.var("I64")
        i2 = G.instr("SimpleAssignment", other, G.src(G.const(c(1))))
        new = G.B.new
        lab = lambda *is_: new("Label", None, G.B.id("LabelId", 1), q(*is_))
        simple = lambda *is_, next=NONE: new("Block", "Simple", internal=lab(*is_), next=next)
        need = {other} | effects(G, i)[0] | (set(list(vars_of(i))[:1]) if i[2] in ("DeclareVariable", "AllocateVariable") else set())
        third = G.var("I16")
        i3 = G.instr("DeclareVariable", third)
        blocks = {"simple": simple(i2, i, i3), "next": simple(i2, next=some(box(simple(i3, next=some(box(simple(i))))))),
                  "loop": new("Block", "Loop", id=G.B.id("LoopBlockId", 1), inner=box(simple(i3, next=some(box(simple(i))))), next=some(box(simple(i2)))),
                  "handled": new("Block", "Multiple", id=G.B.id("MultipleBlockId", 1), pre_handled_blocks_instrs=q(), handled_blocks=q(simple(i3), simple(i)), next=some(box(simple(i2))))}
        for k, b in blocks.items():
            globals_of(ck, G, f"globals/{v}", f"{key}/{k}", b, need | {third})
    ck.parallel(lambda x: ck.guard(f"globals/{x[0]}", x[1], form, x), [(v, k, mk) for v, ks in pick.items() for k, mk in ks[::max(1, len(ks) // 12)]])

    def blocks(x):
        cls, key, mk = x
        W.begin()
        G.globals = {}
        for b, lv in W.structured(mk()):
            need = set().union(*[def_use(i)[0] | ({i[3][1]} if i[2] in ("DeclareVariable", "AllocateVariable") else set()) for i in blocks_in(b)])
            globals_of(ck, G, "globals/blocks", f"{cls}/{key}", b, need)
    ck.parallel(lambda x: ck.guard("globals/blocks", f"{x[0]}/{x[1]}", blocks, x), [x for x in cases(W, False) if x[0] in ("graph/1", "graph/2", "graph/large", "list")])
    # --- literals in programs
    F = Front(ck)
    B = F.B

    def lits(texts):
        F.reset()
        st = State()
        pr, ctx = F.program(st), F.context(st)
        got = []
        states = [(st, [], None)]
        for x in texts:
            nxt = []
            for s2, ids, _ in states:
                for o in F.expr(F.E("StringLiteral", s(x)), s2, pr, ctx):
                    if o[1] != "Ok":
                        ck.ob("literal", repr(texts), False, f"the literal {x!r} is rejected: {show(o[2], 2)}", "src/middle_end/ast_to_ir.rs", repr(texts))
                        return
                    ins = [i for i in o[2] if i[2] == "PointerToStringLiteral"]
                    if len(ins) != 1:
                        raise AnalysisError(f"{len(ins)} instructions point to a literal")
                    ids2 = ids + [[y for y in ins[0][3] if isinstance(y, tuple) and y[0] == "e" and y[1].endswith("StringLiteralId")][0]]
                    nxt.append((o[0], ids2, o[4]))
            states = nxt
        for s2, ids, md in states:
            table = dict(B.get(md, "string_literals")[2])
            bad = next((f"literal {k} ({x!r}) is {show(table.get(ids[k]), 2)} in the table of literals" for k, x in enumerate(texts) if table.get(ids[k]) != s(x)), None)
            ck.ob("literal", repr(texts), bad is None, f"literals {texts}: {bad}", "src/middle_end/ast_to_ir.rs", repr(texts))
    for texts in (["a"], [""], ["a", "b"], ["a", "a"], ["a", "b", "a", ""], ["ab", "a", "abc"]):
        ck.guard("literal", repr(texts), lits, texts)
    ck.floor("literal", 6)
    for k in ("globals/blocks", "globals/SimpleAssignment", "globals/Call", "globals/PointerToStringLiteral"):
        ck.floor(k, 8)
    ck.floor("image", 25)
    ck.floor("memory", 20)
