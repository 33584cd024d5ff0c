"""C13: variables never share memory while alive."""
from dataflow import *
from c17 import layout, bytes_of

TECHNIQUE = "abstract interpretation of stack allocation (MIR) on structured blocks; interference derived from least-fixpoint liveness over the blocks' own transition relation"
RULE = ("`allocate_local_vars` is interpreted abstractly, with both schemes and both map orders, on the blocks the relooper makes of every enumerated "
        "control-flow graph, with variables of different sizes, a parameter, a global variable and (in a second version) a variable whose address is taken. "
        "In the resulting layout a variable written by an instruction must not overlap any other variable that some path may still read "
        "afterwards; a variable whose address is taken overlaps nothing; every variable the remaining code uses has room for its type inside the "
        "frame, after the saved frame pointer, return value and parameters; parameters are where callers put them; global variables are not in the frame. "
        "Larger sets of variables with prescribed interference and sizes are laid out too.")
ASSUMPTIONS = ["what single instructions define and read is right (C11)", "callers place parameters as C17 shows"]


def judge(ck, G, cls, key, b, lv, pointed, params, pvars, optimised, where):
    B = G.B
    written = set().union(*[def_use(i)[0] | ({i[3][1]} if i[2] in ("DeclareVariable", "AllocateVariable") else set()) for i in blocks_in(b)])
    for offs, after, n, md in allocate(G, b, optimised, "I32", params, pvars):
        F = Flow(B, lv)
        true = liveness(F, *F.automaton(after))
        size = sizes(G, md)
        null = B.get(md, "null_dest_var")
        null = null[3][0] if null[2] == "Some" else None
        poffs, end = layout("I32", params)
        used = set()
        for i in blocks_in(after):
            d, r = def_use(i)
            used |= d | r | (set(vars_of(i)) if i[2] == "AddressOf" else set())
        bad = []
        rng = {v: (o, o + size[v]) for v, o in offs.items()}
        for v in sorted(used, key=repr):
            if v in G.globals or v == null:
                if v in offs and v in G.globals:
                    bad.append("a global variable is in the frame")
                continue
            if v not in offs:
                if v not in written:        # never declared: not something the front end produces
                    continue
                bad.append(f"{name(G, v)} has no place")
                continue
            if v in pvars:
                if offs[v] != poffs[list(pvars).index(v)]:
                    bad.append(f"a parameter is looked for at offset {offs[v]}, callers put it at {poffs[list(pvars).index(v)]}")
            elif offs[v] < end or rng[v][1] > end + n:
                bad.append(f"{name(G, v)} is at {rng[v]}, the frame's variables are at {(end, end + n)}")
        over = lambda a, z: a in rng and z in rng and rng[a][0] < rng[z][1] and rng[z][0] < rng[a][1]
        for k, (i, before, out) in true.items():
            for v in def_use(i)[0]:
                for w in out:
                    if w != v and over(v, w):
                        bad.append(f"{name(G, v)} at {rng[v]} is written while {name(G, w)} at {rng[w]} may still be read ({i[2]} {k[3][0][1]})")
        for v in pointed & used:
            for w in used:
                if w != v and over(v, w):
                    bad.append(f"{name(G, v)}, whose address is taken, shares memory with {name(G, w)}")
        if not optimised:
            if after != b:
                bad.append("the code is changed although the optimisation is off")
            vs = sorted(used & set(rng), key=repr)
            if any(over(v, w) for v in vs for w in vs if v != w):
                bad.append("two variables overlap although the optimisation is off")
        ck.ob(cls, key, not bad, f"{key}: {bad[:1] and bad[0]}", where, f"{key}: {len(used)} variables in {n} bytes")


def name(G, v):
    return f"variable {G.vid(v)} ({tname(G.tdesc(dict(G.types)[v])) if v in dict(G.types) else '?'})"


def pointer_version(W, instrs):
    """the list with the address of one variable taken early and written through later"""
    G = W.G
    p, t = G.var(("PointerTo", "I32")), G.var("I8")
    out = list(instrs)
    first = [W.G.instr("AddressOf", p, G.src(W.xv[1]))]
    k = next((n for n, i in enumerate(out) if i[2] != "Label"), 0)
    out[k:k] = first
    last = max(n for n, i in enumerate(out) if i[2] not in ("Label", "Br", "BrIfEq", "BrIfNotEq", "Ret"))
    out[last + 1:last + 1] = [W.set(t, G.const(c(3))), G.instr("StoreToAddress", p, G.src(t))]
    return W.number(out)


def check(ck):
    W = Data(ck)
    W.I.max_steps = 20_000_000
    G = W.G
    where = ck.where("back_end::stack_allocation::allocate_vars::allocate_local_vars")

    def one(case):
        cls, key, mk = case
        if cls == "set":
            return ck.guard(cls, key, lambda: sets(ck, W, key, mk, where))

        def go():
            for ptr in (False, True):
                W.begin()
                G.globals = {}
                instrs = mk()
                if ptr:
                    instrs = pointer_version(W, instrs)
                    g = W.xv[W.size - 1]
                    if g is not W.xv[1] and g is not W.xv[0]:
                        G.globals[g] = G.vars.pop(g)
                for b, lv in W.structured(instrs):
                    for optimised, rev in ((1, False), (1, True), (0, False)):
                        if cls == "graph/4" and (rev or not optimised):
                            continue
                        W.I.reverse_maps = rev
                        try:
                            judge(ck, G, cls, f"{key}/{'pointer' if ptr else 'plain'}/{'optimised' if optimised else 'naive'}{'/reversed' if rev else ''}",
                                  b, lv, {W.xv[1]} if ptr else set(), ("U64",), (W.xv[0],), optimised, where)
                        finally:
                            W.I.reverse_maps = False
        ck.guard(cls, key, go)
    work = cases(W, ck.tier == "thorough") + [("set", k, s_) for k, s_ in interferences()]
    ck.parallel(one, work)
    for k, n in (("graph/2", 90), ("graph/3", 800), ("graph/large", 180), ("list", 140), ("set", 370)):
        ck.floor(k, n)


TY = {1: "I8", 2: "U16", 4: "F32", 8: "I64"}


def interferences():
    """[(name, events)]: straight-line life spans: a list of (define | use, variable, size)"""
    import itertools
    import random
    out = []
    rnd = random.Random(7)
    for n in range(190):
        count = 3 + n % 6 if n < 70 else 9 + n % 9
        ev = []
        for v in range(count):
            a, b = sorted(rnd.sample(range(3 * count), 2))
            w = rnd.choice((1, 2, 4, 8))
            ev += [(a, 1, "def", v, w), (b, 0, "use", v, w)] if rnd.random() < .9 else [(a, 1, "def", v, w)]
            if rnd.random() < .3:
                x = rnd.randrange(a, b + 1)
                ev += [(x, 2, "def", v, w)]
        out.append((f"{count} variables, arrangement {n}", [e[2:] for e in sorted(ev)]))
    return out


def sets(ck, W, key, events, where):
    G, B = W.G, W.B
    for rev in (False, True):
        G.reset()
        vs, ins = {}, []
        fid = G.fun(("Function", "Void", [], True), 3)
        null = None
        for what, v, w in events:
            if v not in vs:
                vs[v] = G.var(TY[w])
            if what == "def":
                ins.append(G.instr("SimpleAssignment", vs[v], G.const(c(1))))
            else:
                if null is None:
                    G.null = null = G.var("Void")
                ins.append(G.instr("Call", null, fid, q(G.src(vs[v]))))
        ins.append(G.instr("Ret", NONE))
        b = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 1), q(*W.number(ins))), next=NONE)
        W.I.reverse_maps = rev
        try:
            judge(ck, G, "set", key + ("/reversed" if rev else ""), b, None, set(), (), (), 1, where)
        finally:
            W.I.reverse_maps = False
