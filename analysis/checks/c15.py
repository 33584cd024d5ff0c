"""C15: tail calls."""
import itertools
from optim import *

TECHNIQUE = "abstract interpretation of the intermediate-code optimiser (MIR) on enumerated instruction lists; structural comparison with symbolic simulation of parameter assignments"
RULE = ("`optimise_ir` is interpreted abstractly, tail calls switched on, on every list of up to three instructions (calls to the function itself and "
        "others, whose results go to different variables, returns of different operands, assignments, labels, branches, no-ops) in a function, and on self-calls with "
        "every arrangement of up to three arguments. The result must be the list itself, apart from unused labels and no-ops, where only a call directly followed by "
        "the return of its own result may be replaced: by a tail call of the same function with the same arguments, or, for the function itself, by "
        "assignments that give the parameters the arguments' values simultaneously and a branch to the very start of the function. A function "
        "whose frame is pointed to keeps its calls.")
ASSUMPTIONS = ["tail calls are translated as C17 shows"]


class Bad(Exception):
    pass


def match(O, L, M, me, params, escapes, types, rets):
    """raises Bad unless M is L with allowed replacements; returns their number"""
    B = O.B
    L, M = plain(L), plain(M)
    tg = targets(L)
    start = None
    if M and M[0][2] == "Label" and not (L and same(L[0], M[0])):
        start = M[0][3][1]
        if start in tg or any(i[2] == "Label" and i[3][1] == start for i in L):
            raise Bad("the label of the function's start is one the function uses")
        M = M[1:]
    known = set(types)
    i = j = count = 0
    while i < len(L):
        x = L[i]
        if j < len(M) and same(x, M[j]):
            i, j = i + 1, j + 1
            continue
        if j >= len(M):
            raise Bad(f"{x[2]} is missing")
        if x[2] != "Call":
            raise Bad(f"{x[2]} becomes {M[j][2]}")
        d, f, args = x[3][1:]
        nx = L[i + 1] if i + 1 < len(L) else None
        ok = nx is not None and nx[2] == "Ret" and (nx[3][1] == some(O.src(d)) or (nx[3][1] == NONE and rets.get(f) == "Void"))
        if not ok:
            raise Bad("a call whose result is not returned immediately is replaced")
        if escapes:
            raise Bad("a call is replaced in a function whose frame is pointed to")
        if M[j][2] == "TailCall":
            if M[j][3][1] != f:
                raise Bad("the tail call calls another function")
            if M[j][3][2] != args:
                raise Bad("the tail call passes other arguments")
            j += 1
        else:
            if f != me:
                raise Bad(f"a call of another function becomes {M[j][2]}")
            env = {}
            while j < len(M) and M[j][2] == "SimpleAssignment":
                dst, src = M[j][3][1:]
                if dst in known and dst not in params:
                    raise Bad("a variable of the function that is no parameter is assigned")
                if src[2] == "Var":
                    v = src[3][0]
                    if O.md_types[v] != O.md_types[dst]:
                        raise Bad(f"a {O.tdesc(O.md_types[v])} is assigned to a {O.tdesc(O.md_types[dst])}")
                    env[dst] = env.get(v, src)
                else:
                    env[dst] = src
                j += 1
            if j >= len(M) or M[j][2] != "Br" or M[j][3][1] != start:
                raise Bad("a call of the function itself is not replaced by a jump to its start")
            for p, a in zip(params, args[1]):
                if env.get(p, O.src(p)) != a:
                    raise Bad("a parameter does not get the value of its argument")
            if len(params) != len(args[1]):
                raise Bad("a call with another number of arguments is replaced")
            j += 1
        count += 1
        # up to the next label nothing can be reached
        i += 2
        while i < len(L) and L[i][2] != "Label":
            i += 1
        while j < len(M) and M[j][2] != "Label":
            j += 1
    if j < len(M):
        raise Bad(f"{M[j][2]} is added")
    return count


def check(ck):
    O = Optim(ck)
    B = O.B
    where = ck.where("middle_end::middle_end_optimiser::tail_call_optimise::tail_call_optimise")

    def batch(cls, group):
        """[(key, make(fun id, other functions) -> (instructions, type, params, escapes))]"""
        O.reset()
        O.n = 20
        main = O.fun(("Function", "I32", [], False), 0)
        other = O.fun(("Function", "I32", ["I32"], False), 1)
        void = O.fun(("Function", "Void", ["I32"], False), 2)
        pt = O.fun(("Function", "I32", [("PointerTo", "I32")], False), 3)
        funs = {main: ([O.instr("Ret", some(O.const(c(0))))], ("Function", "I32", [], False), [], True)}
        ext = {"other": other, "void": void, "pt": pt}
        for n, f in ext.items():
            t = {"other": ("Function", "I32", ["I32"], False), "void": ("Function", "Void", ["I32"], False), "pt": ("Function", "I32", [("PointerTo", "I32")], False)}[n]
            funs[f] = ([], t, [], False)
        cases = []
        for k, mk in group:
            O.n += 1
            me = B.id("FunId", O.n)
            ins, t, ps, esc = mk(me, ext)
            funs[me] = (O.number(ins), t, ps, True)
            cases.append((k, me, funs[me], esc))
        types = [v for v, _ in O.types]
        rets = {f: x[1][1] for f, x in funs.items()}
        for r in O.optimise(funs, [], {"tail"}, {"main": main}):
            if r[0] == "Err":
                ck.ob(cls, cases[0][0], False, f"{cases[0][0]}: the optimiser fails", where)
                continue
            O.md_types = dict(B.get(r[3], "var_types")[2])
            for k, me, (ins, t, ps, _), esc in cases:
                try:
                    n = match(O, ins, r[1][me], me, ps, esc, types, rets)
                    ck.ob(cls, k, True, "", where, f"{k}: {n} call(s) replaced")
                except Bad as e:
                    ck.ob(cls, k, False, f"{k}: {e}", where)
                if r[4][me] and list(B.get(r[4][me], "param_var_mappings")[1]) != list(ps):
                    ck.ob(cls, k + "/parameters", False, f"{k}: the function's parameters change", where)
            for f in funs:
                if f not in r[1]:
                    ck.ob(cls, "kept", False, "a function disappears", where)

    SYM = ("other(a)→d", "self(b,a)→d", "other(b)→e", "void(a)", "ret d", "ret e", "ret 1", "ret", "d:=a", "label", "branch", "nop")

    def seq(names, start):
        def mk(me, ext):
            a, b, d, e = O.var("I32"), O.var("I32"), O.var("I32"), O.var("I32")
            v = O.var("Void")
            lab = B.id("LabelId", 50)
            m = {"other(a)→d": lambda: O.instr("Call", d, ext["other"], q(O.src(a))), "self(b,a)→d": lambda: O.instr("Call", d, me, q(O.src(b), O.src(a))),
                 "other(b)→e": lambda: O.instr("Call", e, ext["other"], q(O.src(b))), "void(a)": lambda: O.instr("Call", v, ext["void"], q(O.src(a))),
                 "ret d": lambda: O.instr("Ret", some(O.src(d))), "ret e": lambda: O.instr("Ret", some(O.src(e))), "ret 1": lambda: O.instr("Ret", some(O.const(c(1)))),
                 "ret": lambda: O.instr("Ret", NONE), "d:=a": lambda: O.instr("SimpleAssignment", d, O.src(a)), "label": lambda: O.instr("Label", lab),
                 "branch": lambda: O.instr("BrIfEq", O.src(d), O.src(a), lab), "nop": lambda: O.instr("Nop")}
            ins = [m[n]() for n in names] + [m["ret 1"]()]
            if "label" not in names:
                ins.append(m["label"]())
                ins.append(m["ret e"]())
            if start:
                ins.insert(0, m["d:=a"]())
                if "label" in names:
                    ins.append(m["branch"]())
                    ins.append(m["ret d"]())
            return ins, ("Function", "I32", ["I32", "I32"], False), [a, b], False
        return mk

    def selfcall(ptypes, arr, twice=False):
        def mk(me, ext):
            ps = [O.var(t) for t in ptypes]
            tmp = {t: O.var(t) for t in set(ptypes)}
            g = {t: O.var(t, "global") for t in set(ptypes)}
            d = O.var("I32")
            args = [O.src(ps[x]) if isinstance(x, int) else O.src(tmp[t]) if x == "local" else O.src(g[t]) if x == "global"
                    else O.const(c(7)) if t not in ("F64",) else O.const(c(7), "Float") for x, t in zip(arr, ptypes)]
            call = lambda a=args: [O.instr("Call", d, me, q(*a)), O.instr("Ret", some(O.src(d)))]
            ins = [O.instr("SimpleAssignment", tmp[t], O.src(ps[0])) for t in sorted(tmp) if t == ptypes[0]] + call()
            if twice:
                lab = B.id("LabelId", 51)
                ins = [O.instr("BrIfEq", O.src(d), O.const(c(0)), lab)] + ins + [O.instr("Label", lab)] + call(args[::1]) + \
                      [O.instr("Call", d, ext["other"], q(O.src(d))), O.instr("Ret", some(O.src(d)))]
            return ins, ("Function", "I32", list(ptypes), False), ps, False
        return mk

    def escaping(how, pos, who):
        def mk(me, ext):
            a, d, x = O.var("I32"), O.var("I32"), O.var("I32")
            p = O.var(("PointerTo", "I32"))
            gp = O.var(("PointerTo", ("PointerTo", "I32")), "global")
            take = {"local": lambda: O.instr("AddressOf", p, O.src(x)), "parameter": lambda: O.instr("AddressOf", p, O.src(a)),
                    "array": lambda: O.instr("AllocateVariable", p, O.const(c(16)))}[how]()
            lab = B.id("LabelId", 52)
            call = [O.instr("Call", d, ext["pt"], q(O.src(p))) if who == "argument" else O.instr("Call", d, ext["other"], q(O.src(d)))
                    if who == "global" else O.instr("Call", d, me, q(O.src(d))), O.instr("Ret", some(O.src(d)))]
            leak = [O.instr("StoreToAddress", gp, O.src(p))] if who != "argument" else []
            if pos == "before":
                ins = [take] + leak + [O.instr("SimpleAssignment", d, O.src(a))] + call
            elif pos == "one path":
                ins = [O.instr("BrIfEq", O.src(a), O.const(c(0)), lab), take] + leak + [O.instr("Label", lab)] + call
            else:       # after the call in the list, before it in time
                l2 = B.id("LabelId", 53)
                ins = [O.instr("Br", lab), O.instr("Label", l2)] + call + [O.instr("Label", lab), take] + leak + [O.instr("Br", l2)]
            return ins, ("Function", "I32", ["I32"], False), [a], True
        return mk

    def wide(n, end, tmix):
        """a call of a function with n parameters, whose result is or is not what is returned"""
        def mk(me, ext):
            ts = [tmix[k % len(tmix)] for k in range(n)]
            O.n += 1
            f = me if end == "self" else ext["other"]
            ps = [O.var(t) for t in ts] if end == "self" else [O.var("I32")]
            args = [O.src(p) for p in (ps[1:] + ps[:1] if len(set(ts)) == 1 else ps)] if end == "self" else [O.src(O.var(t)) for t in ts]
            d, e = O.var("I32"), O.var("I32")
            last = {"d": [O.instr("Ret", some(O.src(d)))], "e": [O.instr("Ret", some(O.src(e)))], "const": [O.instr("Ret", some(O.const(c(0))))],
                    "none": [O.instr("Ret", NONE)], "self": [O.instr("Ret", some(O.src(d)))], "argument": [O.instr("Ret", some(args[0] if args else O.const(c(0))))],
                    "use": [O.instr("SimpleAssignment", e, O.src(d)), O.instr("Ret", some(O.src(e)))],
                    "store": [O.instr("StoreToAddress", O.var(("PointerTo", "I32"), "global"), O.src(d)), O.instr("Ret", some(O.src(d)))],
                    "global": [O.instr("SimpleAssignment", O.var("I32", "global"), O.src(d)), O.instr("Ret", some(O.src(d)))]}[end]
            return [O.instr("Call", d, f, q(*args))] + last, ("Function", "I32", ts if end == "self" else ["I32"], False), ps, False
        return mk

    def many(n, every):
        """n calls, every so many of which are tail calls, of alternating functions"""
        def mk(me, ext):
            a, d, e = O.var("I32"), O.var("I32"), O.var("I32")
            ins = []
            for k in range(n):
                lab = B.id("LabelId", 60 + k)
                ins += [O.instr("BrIfNotEq", O.src(a), O.const(c(k)), lab), O.instr("Call", d, me if k % 3 == 0 else ext["other"], q(O.src(e if k % 2 else a))),
                        O.instr("Ret", some(O.src(d if k % every == 0 else e))), O.instr("Label", lab)]
            return ins + [O.instr("Ret", some(O.const(c(0))))], ("Function", "I32", ["I32"], False), [a], False
        return mk

    work = []
    wd = [(f"{n} arguments ({'/'.join(t)}), {e}", wide(n, e, t)) for n in range(8) for e in ("d", "e", "const", "none", "self", "argument", "use", "store", "global")
          for t in (("I32",), ("U8", "F64", "I16"), ("F32", "I64"))]
    wd += [(f"{n} calls, every {k}.", many(n, k)) for n in (2, 3, 5, 8) for k in (1, 2, 3)]
    allseq = [(s_, st_) for n in (1, 2, 3) for s_ in itertools.product(SYM, repeat=n) for st_ in (0, 1)
              if sum(x == "label" for x in s_) <= 1 and any("→" in x or "(" in x for x in s_)]
    deep = [(s_, 0) for s_ in itertools.product(SYM[:8] + SYM[9:11], repeat=4) if sum(x == "label" for x in s_) <= 1 and sum("→" in x for x in s_) == 2]
    for cls, ss in (("list", allseq), ("list/4", deep)):
        group = [("; ".join(s_) + (" (assignment first)" if st_ else ""), seq(s_, st_)) for s_, st_ in ss]
        for k in range(0, len(group), 24):
            work.append((cls, group[k:k + 24]))
    sc = []
    for types in (["I32"], ["U8"], ["F64"], ["I32", "I32"], ["I64", "I64"], ["U8", "F64"], ["I32", "I32", "I32"], ["I16", "I64", "I16"], ["U8", "F32", "U8"]):
        opts = [[j for j, t in enumerate(types) if t == types[k]] + ["local", "global"] + (["const"] if types[k] in ("U8", "F64") else []) for k in range(len(types))]
        for arr in itertools.product(*opts):
            for tw in (False, True):
                sc.append((f"self({', '.join(types)}) with {', '.join(str(x) for x in arr)}{', twice' if tw else ''}", selfcall(types, arr, tw)))
    es = [(f"{h} {p}, {w}", escaping(h, p, w)) for h in ("local", "parameter", "array") for p in ("before", "one path", "after in the list")
          for w in ("argument", "global", "self")]
    for cls, g in (("self", sc), ("frame", es), ("wide", wd)):
        for k in range(0, len(g), 12):
            work.append((cls, g[k:k + 12]))
    ck.parallel(lambda w: ck.guard(w[0], w[1][0][0], lambda: batch(*w)), work)
    for k, n in (("list", 1500), ("self", 150), ("frame", 27), ("wide", 200)):
        ck.floor(k, n)
