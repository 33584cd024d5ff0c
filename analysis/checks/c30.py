"""C30: identifiers generated by the compiler are never reused."""
import itertools
from front import *

TECHNIQUE = "inductive abstract interpretation of the identifier generators (MIR); call-graph multiplicity of the creation of generators; whole-program query for constructions of identifiers"
RULE = ("For every kind of identifier, generating one is interpreted from the initial generator and from an unknown one: each identifier generated has a greater number than all before it, and the generator stays in the same form. "
        "All sequences (to a bound) of the operations that declare things return different identifiers where they declare different things. On the call graph, one compilation creates each generator at most once (longest path over "
        "the control-flow graphs, cycles count as many) and none is copied; no function outside the generators' own steps builds an identifier or overwrites a generator's state.")
ASSUMPTIONS = ["identifiers are numbered with 64 bits (indices with 32), which do not run out"]


MANY = 1 << 20


def kinds(I):
    """{kind: generator adt} of everything that has a first and a next identifier"""
    out = {}
    for first, nxt in (("initial_id", "next_id"), ("initial_idx", "next_idx")):
        for adt in I.trait_impls.get(first, {}):
            out[adt] = (first, nxt)
    return out


def numbers(v):
    """the integer leaves of a value"""
    if is_sym(v) or v[0] == "c":
        return [v]
    if v[0] in ("e",):
        return [n for x in v[3] for n in numbers(x)]
    if v[0] in ("t", "q"):
        return [n for x in v[1] for n in numbers(x)]
    return []


def shifted(v, n, ty):
    """v with n added to its integers"""
    if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
        return Sym("lin", (v[1], ((n, 1),)), n.ty) if v[1] else n
    if v[0] == "e":
        return ("e", v[1], v[2], tuple(shifted(x, n, ty) for x in v[3]))
    if v[0] in ("t", "q"):
        return (v[0], tuple(shifted(x, n, ty) for x in v[1]))
    return v


def number(v, n=None):
    """the one number of an identifier, relative to the unknown n"""
    ns = numbers(v)
    if len(ns) != 1:
        raise AnalysisError(f"an identifier has {len(ns)} numbers")
    x = ns[0]
    if x[0] == "c" if not is_sym(x) else False:
        return x[1] if n is None else ("absolute", x[1])
    if n is not None:
        if x == n:
            return 0
        if x.head == "lin" and x.args[1] == ((n, 1),):
            return x.args[0]
    return ("unknown", show(x, 3))


def generators(ck, F):
    I = F.I
    adts = [a for a in I.prog.adts if a.rsplit("::", 1)[-1] in ("IdGenerator", "WasmIdxGenerator")]
    steps = {"id": [f for f in I.prog.fns if f.endswith("::new_id") and "IdGenerator" in f], "idx": [f for f in I.prog.fns if f.endswith("::new_idx")]}
    for kind, (first, nxt) in sorted(kinds(I).items()):
        name = kind.rsplit("::", 1)[-1]

        def one(kind=kind, name=name, nxt=nxt):
            st = State()
            step = steps["id" if nxt == "next_id" else "idx"]
            if len(step) != 1:
                raise AnalysisError(f"{len(step)} ways of generating identifiers")
            step = I.prog.fns[step[0]]
            gen = step.name.rsplit("::", 1)[0] + "::new"
            sub = {g: ("adt", kind, ()) for g in step.generics}

            def run(fn, args, st):
                outs = I.exec_fn(st, fn, args, sub)
                outs = list(outs) if not isinstance(outs, list) else outs
                if len(outs) != 1:
                    raise AnalysisError(f"generating an identifier has {len(outs)} outcomes")
                return outs[0]
            w = ck.where(step.name)
            st, g = run(I.prog.fns[gen], [], st)
            g = I.freeze(st, g)

            def chain(g, count):
                """[identifier], [state after each]"""
                st = State()
                r = I.cell(st, "generator", g)
                ids, gs = [], []
                for _ in range(count):
                    st, v = run(step, [r], st)
                    ids.append(I.freeze(st, v))
                    gs.append(I.freeze(st, r))
                return ids, gs
            ids, gs = chain(g, 4)
            ns = [number(v) for v in ids]
            good = all(isinstance(x, int) for x in ns) and all(a < b for a, b in zip(ns, ns[1:]))
            ck.ob("generator", f"{name}/first", good, f"the first {name}s are {ns}", w, name)
            # the general case: an unknown number of identifiers exists
            n = Sym("in", ("n",), None)
            width = [t for v in I.prog.adts[kind]["variants"] for _, t in v["fields"]]
            for t in width:
                ty = I.T.get(t)
                if ty[0] == "prim":
                    n = Sym("in", ("n",), ty)
                    ck.ob("generator", f"{name}/width", ty[1] in ("u32", "u64", "usize", "u128", "i64"), f"a {name} is numbered with a {ty[1]}", ck.where(step.name), name)
            g_n = shifted(gs[0], n, None)
            ids, gs2 = chain(g_n, 3)
            ns = [number(v, n) for v in ids]
            base = number(shifted(chain(g, 1)[0][0], n, None), n)
            good = all(isinstance(x, int) for x in ns) and isinstance(base, int) and all(a < b for a, b in zip([base] + ns, ns))
            ck.ob("generator", f"{name}/next", good, f"with n {name}s generated, the next ones have the numbers {ns} from the last one", w, name)
            d = ns[0] - base if good else 0
            form = [shifted_by(gs[0], n, k * d) for k in (1, 2, 3)]
            ck.ob("generator", f"{name}/induction", not good or gs2 == form, f"the {name} generator does not keep its form", w, name)
        ck.guard("generator", name, one)


def shifted_by(v, n, k):
    def go(x):
        if x[0] == "c" and isinstance(x[1], int) and not isinstance(x[1], bool):
            t = x[1] + k
            return Sym("lin", (t, ((n, 1),)), n.ty) if t else n
        if x[0] == "e":
            return ("e", x[1], x[2], tuple(go(y) for y in x[3]))
        if x[0] in ("t", "q"):
            return (x[0], tuple(go(y) for y in x[1]))
        return x
    return go(v)


def operations(ck, F):
    """sequences of the operations that declare things"""
    I, B = F.I, F.B
    P = "middle_end::ir::Program::"
    M = "middle_end::ir::ProgramMetadata::"
    fresh = itertools.count()

    def fn(st, k):
        ft = B.new("IrType", "Function", box(B.irty("I32")), q(), c(0))
        return B.call("middle_end::ir::Function::new", q(), ft, q())

    def struct(st, prog, k, kind):
        r = I.cell(st, f"new{k}", B.call(f"middle_end::ir_types::{kind}Type::unnamed", st=st))
        F.run1(f"middle_end::ir_types::{kind}Type::push_member", [r, s(f"m{k}"), B.irty("I32"), I.cell(st, f"mdt{k}", B.get(I.freeze(st, prog), "program_metadata"))], st)
        return I.freeze(st, r)
    OPS = {
        "var": [(P + "new_var", lambda st, p, k: [B.new("ValueType", ("LValue", "RValue", "None")[k % 3])]), (M + "new_var", lambda st, p, k: [B.new("ValueType", ("RValue", "LValue", "None")[k % 3])])],
        "null": [(M + "init_null_dest_var", lambda st, p, k: [])],
        "label": [(P + "new_label", lambda st, p, k: []), (M + "new_label", lambda st, p, k: []), (P + "new_identifier_label", lambda st, p, k: [s(f"l{k}")]), (M + "new_identifier_label", lambda st, p, k: [s(f"l{k}")])],
        "instr": [(P + "new_instr_id", lambda st, p, k: []), (M + "new_instr_id", lambda st, p, k: [])],
        "string": [(P + "new_string_literal", lambda st, p, k: [s(f"text{k % 2}")])],
        "struct": [(P + "add_struct_type", lambda st, p, k: [struct(st, p, k, "Struct")])],
        "union": [(P + "add_union_type", lambda st, p, k: [struct(st, p, k, "Union")])],
        "fun": [(P + "new_fun_declaration", lambda st, p, k: [s(f"f{k}"), fn(st, k)]), (P + "new_fun_body", lambda st, p, k: [s(f"f{k}"), fn(st, k)])],
    }
    flat = [(kd, f, a) for kd, fs in OPS.items() for f, a in fs]
    w = ck.where(M + "new_var")

    def one(seq):
        st = State()
        pr = I.cell(st, "prog", B.new("Program", None, program_instructions=B.call("middle_end::ir::ProgramInstructions::new"), program_metadata=B.call(M + "new")))
        meta = next(i for i, n in enumerate(B.arity("Program")) if n == "program_metadata")
        got = []
        for k, (kd, f, args) in enumerate(seq):
            recv = pr if f.startswith(P) else (pr[0], pr[1], tuple(pr[2]) + (("f", meta),) if len(pr) > 2 else ())
            outs = I.run(f, [recv] + args(st, pr, k), st)
            if len(outs) != 1:
                raise AnalysisError(f"{f} has {len(outs)} outcomes")
            st, r = outs[0]
            r = I.freeze(st, r)
            if r[0] == "e" and r[2] in ("Ok", "Err") and r[1].endswith("Result"):
                if r[2] == "Err":
                    raise AnalysisError(f"{f} fails: {show(r, 3)}")
                r = r[3][0]
            # which kind of identifier, and its number
            got.append((r[1], number(r), f.rsplit("::", 1)[-1]))
        seen = {}
        bad = None
        for k, (ty, n, f) in enumerate(got):
            if not isinstance(n, int):
                raise AnalysisError(f"{f} returns {n}")
            if (ty, n) in seen and not ("init_null_dest_var" == f == got[seen[ty, n]][2]):
                bad = f"{f} returns the identifier {n} that {got[seen[ty, n]][2]} had returned before"
            seen.setdefault((ty, n), k)
        ck.ob("operations", "+".join(f.rsplit("::", 2)[-2][:8] + "." + f.rsplit("::", 1)[-1] for _, f, _ in seq), bad is None, f"after {[x[2] for x in got]}: {bad}", w, f"{len(seq)} operations")
    seqs = [(a, b, a, b) for a in flat for b in flat] + [tuple(flat) + tuple(flat), tuple(reversed(flat)) * 2]
    # what the analysed program does not offer is not there to be called wrongly
    have = {f for _, f, _ in flat if f in I.prog.fns}
    ck.parallel(lambda x: ck.guard("operations", "sequence", one, x), [x for x in seqs if all(f in have for _, f, _ in x)])
    missing = {f for _, f, _ in flat} - have
    if missing:
        ck.notes.append("operations not present: " + ", ".join(sorted(missing)))
    for kd, fs in OPS.items():
        if not any(f in have for f, _ in fs):
            ck.ob("operations", kd + "/present", False, f"no operation declares a {kd}", w)


# ---- queries over the whole program

def callees(t):
    """function items in a terminator or statement"""
    if isinstance(t, dict):
        if t.get("k") == "fn":
            yield t
        for v in t.values():
            yield from callees(v)
    elif isinstance(t, (list, tuple)):
        for v in t:
            yield from callees(v)


def successors(f):
    out = []
    for b in f.blocks:
        t = b["t"]
        if t[0] == "switch":
            s_ = {tgt for _, tgt in t[2]} | {t[3]}
        else:
            s_ = {t[{"goto": 1, "drop": 2, "assert": 3, "call": 4}[t[0]]]} if t[0] in ("goto", "drop", "assert", "call") else set()
        out.append({x for x in s_ if x is not None})
    return out


def longest(f, weight):
    """greatest sum of the blocks' weights over the paths of a function; blocks on cycles count as many"""
    w = [weight(b) for b in f.blocks]
    if not any(w):
        return 0
    succ = successors(f)
    seen, todo = {0}, [0]
    while todo:
        for y in succ[todo.pop()]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    if not any(w[b] for b in seen):
        return 0
    comp, order = tarjan(succ, seen)
    best = {}
    total = 0
    for k, members in enumerate(order):      # successors first
        own = sum(w[b] for b in members)
        if own and (len(members) > 1 or members[0] in succ[members[0]]):
            own = MANY
        nxt = max([best[comp[y]] for b in members for y in succ[b] if y in seen and comp[y] != k] or [0])
        best[k] = min(MANY, own + nxt)
        total = best[k]
    return best[comp[0]]


def tarjan(succ, nodes):
    index, low, stack, on, comp, order = {}, {}, [], set(), {}, []
    n = itertools.count()
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(sorted(succ[root])))]
        index[root] = low[root] = next(n)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for y in it:
                if y not in index:
                    index[y] = low[y] = next(n)
                    stack.append(y)
                    on.add(y)
                    work.append((y, iter(sorted(succ[y]))))
                    break
                if y in on:
                    low[v] = min(low[v], index[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    ms = []
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        ms.append(x)
                        comp[x] = len(order)
                        if x == v:
                            break
                    order.append(ms)
    return comp, order


def contains(I, ty, adts, seen=()):
    """a value of this type holds one of these adts"""
    if ty is None:
        return False
    if ty[0] == "adt":
        if ty[1] in adts:
            return True
        if any(contains(I, a, adts, seen) for a in ty[2] if isinstance(a, tuple)):
            return True
        if ty[1] in seen or ty[1] not in I.prog.adts:
            return False
        return any(contains(I, I.T.get(t), adts, seen + (ty[1],)) for v in I.prog.adts[ty[1]]["variants"] for _, t in v["fields"])
    if ty[0] == "tuple":
        return any(contains(I, t, adts, seen) for t in ty[1])
    if ty[0] in ("slice", "array"):
        return contains(I, ty[1], adts, seen)
    return False


def queries(ck, F):
    I = F.I
    fns = {n: f for n, f in I.prog.fns.items() if not f.file.endswith("_tests.rs")}
    gens = {a for a in I.prog.adts if a.rsplit("::", 1)[-1] in ("IdGenerator", "WasmIdxGenerator")}
    ids = kinds(I)
    callers = {}
    for n, f in fns.items():
        for b in f.blocks:
            for fo in callees((b["s"], b["t"])):
                for k in ("res", "path"):
                    if fo.get(k):
                        callers.setdefault(fo[k], set()).add(n)

    def aggregates(f):
        for b in f.blocks:
            for st_ in b["s"]:
                if st_[1] == "a" and st_[3][0] == "agg" and st_[3][1] == "adt":
                    yield st_[3][2][0], st_[0]
    # --- the kinds of identifiers that are generated
    made = {}
    for f in fns.values():
        for b in f.blocks:
            for fo in callees((b["s"], b["t"])):
                if (fo.get("path") or "").rsplit("::", 1)[-1] in ("new_id", "new_idx"):
                    for x in fo.get("targs") or []:
                        x = I.T.get(x)
                        if x is not None and x[0] == "adt" and x[1] in ids:
                            made[x[1]] = f.name
    # --- generators are made once
    makers = {n for n, f in fns.items() for a, _ in aggregates(f) if a in gens}
    ck.ob("once", "makers", all("Generator" in n for n in makers), f"a generator is built outside of its own functions: {sorted(makers)}", ck.where(sorted(makers)[0] if makers else "id::IdGenerator::<T>::new"), f"{len(makers)} functions")
    # functions on cycles of the call graph
    calls = {n: sorted({t for b in f.blocks for fo in callees((b["s"], b["t"])) for t in (fo.get("res"), fo.get("path")) if t in fns}) for n, f in fns.items()}
    comp, order = tarjan(calls, calls)
    recursive = {n for n in calls if len(order[comp[n]]) > 1 or n in calls[n]}
    root = next(n for n in fns if n == "run" or n.endswith("::run"))
    for kind in sorted(ids):
        name = kind.rsplit("::", 1)[-1]
        memo, busy, where = {}, set(), []

        def count(n):
            """creations of a generator of this kind by one execution of a function"""
            if n in memo:
                return memo[n]
            if n in busy:
                return 0
            busy.add(n)
            f = fns[n]

            def weight(b):
                k = 0
                for fo in callees((b["s"], b["t"])):
                    t = fo.get("res") or fo.get("path")
                    targs = [I.T.get(x) for x in fo.get("targs") or []]
                    if t in makers:
                        if not targs or any(x == ("adt", kind, ()) or (x is not None and x[0] == "param") for x in targs):
                            k += 1
                            where.append(f"{n}:{b['l']}")
                    elif t in fns and not any(t == g for g in makers):
                        k += count(t)
                    elif (fo.get("path") or "").rsplit("::", 1)[-1] in ("clone", "to_owned", "cloned", "take", "replace", "default"):
                        if any(contains(I, peel_ref(x), gens) and contains_kind(I, peel_ref(x), gens, kind) for x in targs):
                            k += 1
                            where.append(f"{n}:{b['l']}")
                return min(k, MANY)
            memo[n] = longest(f, weight)
            if memo[n] and n in recursive:
                memo[n] = MANY
            busy.discard(n)
            return memo[n]
        # blocks are identified within one function, which is structured by a recursive procedure
        top = [root] if not kind.startswith("relooper::") else sorted(n for n in recursive if n.startswith("relooper::"))
        total = max([count(n) for n in top] + [0])
        ck.ob("once", name, total <= 1, f"one compilation creates {'many' if total >= MANY else total} generators of {name} (at {', '.join(sorted(set(where)))}), which give the same identifiers", ck.where(root), f"{name}: {total}")
        if kind in made and count(root) == 0:
            ck.ob("once", name + "/origin", False, f"identifiers of kind {name} are generated, but no generator is created on the way from {root}", ck.where(root))
    # --- nothing else makes identifiers

    def own(n, kind, seen=()):
        """only the generators' own steps get here"""
        if n in seen:
            return True
        last = n.rsplit("::", 1)[-1].split("~")[0]
        if last in ids[kind] or "as std::clone::Clone>::clone" in n or last == "clone" or last == "to_owned":
            return True
        cs = callers.get(n, set())
        if not cs:
            return n not in reachable
        return all(own(x, kind, seen + (n,)) for x in cs)
    reachable, todo = {root}, [root]
    while todo:
        f = fns[todo.pop()]
        for b in f.blocks:
            for fo in callees((b["s"], b["t"])):
                for k in ("res", "path"):
                    t = fo.get(k)
                    if t in fns and t not in reachable:
                        reachable.add(t)
                        todo.append(t)
    n_built = 0
    for n, f in sorted(fns.items()):
        for a, line in aggregates(f):
            if a in made:
                n_built += 1
                ck.ob("origin", f"{a.rsplit('::', 1)[-1]} in {n}", own(n, a), f"{n} builds a {a.rsplit('::', 1)[-1]} of its own (line {line}), which may be one that exists", ck.where(n), n)
        # writes into generators
        for b in f.blocks:
            for st_ in b["s"]:
                if st_[1] == "a" and len(st_[2]) > 1:
                    ty = place_base(I, f, st_[2])
                    if ty is not None and ty[0] == "adt" and ty[1] in gens:
                        last = n.rsplit("::", 1)[-1]
                        ok = last in ("new_id", "new_idx") or all(x.rsplit("::", 1)[-1] in ("new_id", "new_idx") for x in callers.get(n, ())) and callers.get(n)
                        ck.ob("origin", f"state in {n}", bool(ok), f"{n} changes the state of a generator (line {st_[0]})", ck.where(n), n)
    ck.floor("origin", 20)


def peel_ref(t):
    while t is not None and t[0] == "ref":
        t = t[1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], str) else t[2]
    return t


def contains_kind(I, ty, gens, kind, seen=()):
    if ty is None:
        return False
    if ty[0] == "adt":
        if ty[1] in gens:
            return ("adt", kind, ()) in ty[2] or any(x[0] == "param" for x in ty[2])
        if ty[1] in seen or ty[1] not in I.prog.adts:
            return any(contains_kind(I, a, gens, kind, seen) for a in ty[2] if isinstance(a, tuple))
        return any(contains_kind(I, I.T.get(t), gens, kind, seen + (ty[1],)) for v in I.prog.adts[ty[1]]["variants"] for _, t in v["fields"])
    if ty[0] == "tuple":
        return any(contains_kind(I, t, gens, kind, seen) for t in ty[1])
    return False


def place_base(I, f, pl):
    """the type of what the last field of a place belongs to"""
    t = I.T.get(f.local_ty(pl[0]))
    last = None
    for e in pl[1:]:
        if e[0] == "d":
            t = peel1(t)
        elif e[0] == "f":
            last = t
            t = field_ty(I, t, e[1])
            if t is None:
                return last
        else:
            return None
    return last


def peel1(t):
    if t is None:
        return None
    if t[0] == "ref":
        return peel_ref(t)
    if t[0] == "adt" and t[1].endswith("Box") and t[2]:
        return t[2][0]
    return t


def field_ty(I, t, k):
    if t is None:
        return None
    if t[0] == "tuple":
        return t[1][k]
    if t[0] == "adt" and t[1] in I.prog.adts:
        vs = I.prog.adts[t[1]]["variants"]
        if len(vs) == 1 and k < len(vs[0]["fields"]):
            return I.T.get(vs[0]["fields"][k][1])
    return None


def distinct(ck, key, instrs, where):
    seen, bad = {}, None
    for k, i in enumerate(instrs):
        x = i[3][0]
        if is_sym(x) and x.head == "child":
            continue
        if x in seen and bad is None:
            bad = f"{i[2]} (instruction {k}) has the id of {instrs[seen[x]][2]} (instruction {seen[x]})"
        seen[x] = k
    ck.ob("instructions", key, bad is None, f"{key}: {bad}", where, f"{key}: {len(seen)} ids")


def instructions(ck, F):
    """no two instructions of a program have the same id"""
    from optim import Optim
    import c08
    O = Optim(ck)
    B = O.B
    where = ck.where("middle_end::middle_end_optimiser::tail_call_optimise::tail_call_optimise")

    def tails(n, calls):
        O.reset()
        O.n = 20
        main, other = O.fun(("Function", "I32", [], False), 0), O.fun(("Function", "I32", ["I32"], False), 1)
        funs = {main: (O.number([O.instr("Ret", some(O.const(c(0))))], 1), ("Function", "I32", [], False), [], True),
                other: ([], ("Function", "I32", ["I32"], False), [], False)}
        at = 10
        for m in range(2):
            O.n += 1
            me = B.id("FunId", O.n)
            ps = [O.var("I32") for _ in range(n)]
            d = O.var("I32")
            ins = []
            for j in range(calls):
                lab = B.id("LabelId", 50 + 10 * m + j)
                args = [O.src(ps[(x + 1 + j) % n]) for x in range(n)]
                ins += [O.instr("BrIfEq", O.src(d), O.const(c(j)), lab), O.instr("Call", d, me, q(*args)), O.instr("Ret", some(O.src(d))), O.instr("Label", lab)]
            ins += [O.instr("Call", d, other, q(O.src(d))), O.instr("Ret", some(O.src(d)))]
            funs[me] = (O.number(ins, at), ("Function", "I32", ["I32"] * n, False), ps, True)
            at += len(ins)
        for r in O.optimise(funs, [], {"tail"}, {"main": main}):
            key = f"tail calls/{n} parameters/{calls} calls"
            if r[0] == "Err":
                ck.ob("instructions", key, False, f"{key}: the optimiser fails", where)
                continue
            distinct(ck, key, [i for f in r[1] for i in r[1][f]] + list(r[2]), where)

    def statement(k):
        outs, _ = c08.translate(ck, F, progs[k])
        for o in outs:
            if o[1] != "Err":
                distinct(ck, "statement/" + k, o[2], ck.where(F.cstmt.name))
    progs = c08.programs()
    work = [("tail", n, m) for n in range(9) for m in (1, 2, 3)] + [("statement", k, 0) for k in progs]

    def one(x):
        key = f"{x[0]}/{x[1]}/{x[2]}"
        ck.guard("instructions", key, lambda: tails(x[1], x[2]) if x[0] == "tail" else statement(x[1]))
    ck.parallel(one, work)


def check(ck):
    F = Front(ck)
    instructions(ck, F)
    ck.floor("instructions", 80)
    generators(ck, F)
    operations(ck, F)
    ck.guard("queries", "call graph", queries, ck, F)
    ck.floor("generator", 40)
    ck.floor("operations", 150)
    ck.floor("once", 10)
