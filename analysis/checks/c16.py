"""C16: unreachable procedures."""
import itertools
from optim import *

TECHNIQUE = "abstract interpretation of the intermediate-code optimiser (MIR) on enumerated call graphs; comparison with reachability"
RULE = ("`optimise_ir` is interpreted abstractly, removal of unreachable procedures switched on (alone and with tail calls), on a program for every call graph of "
        "three functions and the entry function, on longer chains, trees, cycles and graphs with declared-only functions, with calls as "
        "direct and tail calls, at the start, middle and end of a function, behind labels and branches and among the instructions run at start-up, and with every numbering order. Every function "
        "reachable from the entry function or from start-up code must be there afterwards with its instructions, type, parameters and name, and so must the entry function.")
ASSUMPTIONS = ["the address of a function cannot be taken: no intermediate code for it is generated (`Use of undeclared identifier`)"]


def reach(edges, roots):
    seen, todo = set(), list(roots)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += edges.get(x, ())
    return seen


def check(ck):
    O = Optim(ck)
    B = O.B
    where = ck.where("middle_end::middle_end_optimiser::unreachable_procedure_elimination::remove_unused_functions")

    def body(kind, x, callees, fid):
        """the instructions of a function calling others"""
        a, d = O.var("I32"), O.var("I32")
        lab = B.id("LabelId", 70)
        call = lambda f, dest=d: O.instr("Call", dest, fid[f], q(O.src(a)))
        ret = [O.instr("Ret", some(O.src(a)))]
        work = O.instr("SimpleAssignment", d, O.src(a))
        if kind == "last tail":
            cs = [call(f) for f in callees[:-1]] + ([O.instr("TailCall", fid[callees[-1]], q(O.src(a)))] if callees else ret)
            return [work] + cs
        if kind == "returned":
            return [work] + [y for f in callees for y in (O.instr("BrIfEq", O.src(a), O.const(c(1)), B.id("LabelId", 80 + f)), call(f),
                             O.instr("Ret", some(O.src(d))), O.instr("Label", B.id("LabelId", 80 + f)))] + ret
        if kind == "branch":
            return [O.instr("BrIfEq", O.src(a), O.const(c(0)), lab), work] + ret + [O.instr("Label", lab)] + [call(f) for f in callees] + ret
        if kind == "spread":
            return [y for f in callees for y in (call(f), work)] + ret
        return [call(f) for f in callees] + ret

    def judge(cls, key, n, edges, kind, order, on, undefined=(), glob=()):
        O.reset()
        O.n = 20
        T = ("Function", "I32", ["I32"], False)
        fid = {}
        for x in order:
            fid[x] = O.fun(T, x)
        funs = {}
        for x in order:
            funs[fid[x]] = ([], T, [], False) if x in undefined else (O.number(body(kind, x, edges.get(x, ()), fid), 10 + 20 * x), T, [], True)
        d = O.var("I32", "global")
        g = O.number([O.instr("SimpleAssignment", d, O.const(c(1)))] + [O.instr("Call", d, fid[f], q(O.const(c(1)))) for f in glob], 400)
        names = {("main" if x == 0 else f"f{x}"): fid[x] for x in order}
        need = reach(edges, [0] + list(glob))
        for r in O.optimise(funs, g, on, names):
            if r[0] == "Err":
                ck.ob(cls, key, False, f"{key}: the optimiser fails", where)
                continue
            _, out, gl, md, full = r
            bad = []
            tp = dict(B.get(md, "function_types")[2])
            nm = {k[1]: v for k, v in B.get(md, "function_ids")[2]}
            pm = dict(B.get(md, "function_param_var_mappings")[2])
            for x in sorted(need):
                f, nme = fid[x], "main" if x == 0 else f"f{x}"
                if f not in out:
                    bad.append(f"{nme}, which is reachable, is removed")
                    continue
                if "tail" not in on and plain(out[f]) != plain(funs[f][0]):
                    bad.append(f"the code of {nme} changes")
                if tp.get(f) != B.irty(T) or f not in pm:
                    bad.append(f"{nme} loses its type or parameters")
                if nm.get(nme) != f:
                    bad.append(f"the name {nme} is lost")
                if B.get(full[f], "body_is_defined") != c(int(x not in undefined)):
                    bad.append(f"{nme} changes between declared and defined")
            if plain(gl) != plain(g):
                bad.append("the start-up code changes")
            ck.ob(cls, key, not bad, f"{key}: {bad[:1] and bad[0]}", where, f"{key}: {len(need)} of {n} reachable, {len(out)} kept")

    work = []
    KINDS = ("plain", "last tail", "returned", "branch", "spread")
    subs = [(), (1,), (2,), (1, 2)]
    k = 0
    for n in (2, 3):
        nodes = list(range(n))
        opts = [tuple(y) for m in range(n + 1) for y in itertools.combinations(nodes, m)]
        for combo in itertools.product(opts, repeat=n):
            edges = dict(zip(nodes, combo))
            k += 1
            order = list(itertools.permutations(nodes))[k % (2 if n == 2 else 6)]
            kind = KINDS[k % 5]
            work.append((f"calls/{n}", f"{show(edges)} ({kind}, order {order})", n, edges, kind, order, {"unreachable"} if k % 3 else {"unreachable", "tail"}))
    big = {"chain": {k: (k + 1,) for k in range(8)}, "chain back": {0: (8,), **{k: (k - 1,) for k in range(2, 9)}}, "tree": {0: (1, 2), 1: (3, 4), 2: (5, 6), 3: (7,), 6: (8,)},
           "two islands": {0: (1,), 1: (2,), 3: (4,), 4: (3, 2)}, "ring": {k: ((k + 1) % 9,) for k in range(9)}, "late": {0: (1, 2, 3, 4, 5, 6, 7), 7: (8,)},
           "diamond": {0: (1, 2), 1: (3,), 2: (3,), 3: (4, 5), 4: (6,), 5: (6,), 6: (7,)}, "shared": {0: (2, 1), 1: (4, 2), 2: (3,), 4: (5,), 5: (4, 6), 6: (6,), 7: (8,)},
           "recursion": {0: (0, 1), 1: (1, 2, 0), 2: (2,)}, "unused caller": {1: (2, 3), 2: (3,)}}
    for nme, e in big.items():
        for kind in KINDS:
            for order in (list(range(9)), list(range(8, -1, -1)), [4, 0, 8, 2, 6, 1, 3, 5, 7]):
                for undef in ((), (8,), (3, 6)):
                    e2 = {a: b for a, b in e.items() if a not in undef}
                    work.append(("large", f"{nme} ({kind}, order {order}, declared only {undef})", 9, e2, kind, order, {"unreachable"}, undef))
            for glob in ((1,), (7,), (3, 8)):
                work.append(("start-up", f"{nme} ({kind}, called at start-up {glob})", 9, e, kind, list(range(9)), {"unreachable"}, (), glob))

    def some_of(ws_):
        for w in ws_:
            for rev in (False, True):
                O.I.reverse_maps = rev
                try:
                    ck.guard(w[0], w[1], lambda: judge(w[0], w[1] + (" reversed" if rev else ""), *w[2:]))
                finally:
                    O.I.reverse_maps = False
    ck.parallel(some_of, [work[i:i + 10] for i in range(0, len(work), 10)])
    for k, n in (("calls/2", 32), ("calls/3", 1000), ("large", 800), ("start-up", 280)):
        ck.floor(k, n)


def show(edges):
    return " ".join(f"{a}→{','.join(map(str, b))}" for a, b in edges.items() if b)
