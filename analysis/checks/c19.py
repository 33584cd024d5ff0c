"""C19: command-line switches."""
import itertools
from optim import *
import asm

TECHNIQUE = "abstract interpretation of the argument definitions, of their conversion to a configuration, and of every stage that consults the configuration (MIR)"
RULE = ("The command-line definition built by clap's derived code is interpreted abstractly into the list of arguments (names, actions, groups); the derived conversion "
        "into the field each argument fills; and `run` up to the stages it passes the configuration to, for every combination of switches. With the optimisation "
        "settings found there, the optimiser, slot allocation and module assembly are interpreted on programs that have a tail call, an unreachable function, dead code "
        "and variables that can share a slot: each feature must show exactly when its switch, or the default, says so.")
ASSUMPTIONS = ["clap parses switches as defined"]

FEATURES = ("tailcall", "unreachable-procedure", "stack-allocation")
SWITCHES = {**{f"opt-{f}": (f, True) for f in FEATURES}, **{f"noopt-{f}": (f, False) for f in FEATURES}, "prof-stack": ("profiling", True), "noprof-stack": ("profiling", False)}
DEFAULT = {"tailcall": True, "unreachable-procedure": True, "stack-allocation": True, "profiling": False}


def subterms(t):
    if isinstance(t, Sym):
        yield t
        for a in t.args:
            yield from subterms(a)
    elif isinstance(t, tuple):
        for a in t:
            yield from subterms(a)


def head(t):
    h = str(t.head)
    return h.split("::")[-1] if h.startswith("call:") else h


def chain(t, base):
    """the builder calls made on a value: [(method, arguments)] and the innermost term"""
    out = []
    while isinstance(t, Sym) and str(t.head).startswith("call:clap") and t.args and head(t) != base:
        out.append((head(t), t.args[1:]))
        t = t.args[0]
    return out[::-1], t


def arguments(ck, I):
    """{argument id: {property: value}}"""
    f = I.find("<CliConfig as clap::Args>::augment_args")
    st = State()
    res = I.run(f, [Sym("app", (), None)], st)
    out = {}
    for s2, r in res:
        for t in subterms(I.freeze(s2, r)):
            if not (str(t.head).startswith("call:clap") and head(t) == "arg"):
                continue
            a = t.args[1]
            ms, inner = chain(a, "new")
            if not (isinstance(inner, Sym) and head(inner) == "new"):
                raise AnalysisError("an argument that is not built from its name")
            p = {"id": inner.args[0][1]}
            for m, args in ms:
                p[m] = args[0] if args else None
            old = out.get(p["id"])
            if old is not None and old != p:
                raise AnalysisError("an argument with two definitions")
            out[p["id"]] = p
    return out


def fields(ck, I):
    """{argument id: field of the configuration}"""
    f = I.find("<CliConfig as clap::FromArgMatches>::from_arg_matches_mut")
    st = State()
    names = [n for n, _ in I.prog.adts["CliConfig"]["variants"][0]["fields"]]
    out = {}
    for s2, r in I.run(f, [I.cell(st, "m", Sym("matches", (), None))], st):
        r = I.freeze(s2, r)
        if r[2] != "Ok":
            continue
        for n, v in zip(names, r[3][0][3]):
            ids = {a[1] for t in subterms(v) if str(t.head).startswith("call:clap") for a in t.args if isinstance(a, tuple) and a and a[0] == "str"}
            if len(ids) != 1:
                raise AnalysisError(f"the field {n} is not one argument's value")
            out[ids.pop()] = n
    return out, names


STAGES = {"preprocess": "preprocessor::preprocess", "parse": "front_end::parser::parse", "convert_to_ir": "middle_end::ast_to_ir::convert_to_ir",
          "optimise_ir": "middle_end::middle_end_optimiser::ir_optimiser::optimise_ir", "reloop": "relooper::relooper::reloop",
          "generate_target_code": "back_end::target_code_generation::generate_target_code", "write_to_file": "back_end::wasm_module::module::WasmModule::write_to_file"}


def stage_policy(name):
    if name in STAGES.values():
        def f(I, st, args, dty):
            terms = tuple(I.freeze(st, I.deref(st, a)) for a in args)
            st.nfresh += 1
            r = Sym("stage:" + name.split("::")[-1], terms, dty)
            st.trace = st.trace + ((name, terms, r),)
            return [(st, r)]
        return f
    return None


def check(ck):
    I = ck.interp(lambda n: "pure" if "clap" in n and "CliConfig" not in n else stage_policy(n))
    B = Build(I)
    where = ck.where("run")

    def definitions():
        args = arguments(ck, I)
        longs = {}
        for a in args.values():
            l = a.get("long")
            if l is not None:
                longs.setdefault(l[1], []).append(a)
        fld, names = fields(ck, I)
        groups = {}
        field_of = {}
        for name, (feat, on) in SWITCHES.items():
            got = longs.get(name, [])
            ck.ob("switch", f"{name}/defined", len(got) == 1, f"--{name} is defined {len(got)} times", where)
            if len(got) != 1:
                continue
            a = got[0]
            ck.ob("switch", f"{name}/action", a.get("action") == ("e", "clap::ArgAction", "SetTrue", ()), f"--{name} is not a switch: {show(a.get('action'), 2)}", where)
            ck.ob("switch", f"{name}/field", a["id"] in fld, f"the value of --{name} is not kept", where)
            field_of[name] = fld.get(a["id"])
            g = a.get("group")
            if g is not None:
                groups.setdefault(g[1], set()).add(feat)
            for other in ("conflicts_with", "conflicts_with_all", "requires", "overrides_with", "exclusive", "required", "hide"):
                v = a.get(other)
                if other in ("required",) and v is not None and (v == c(0) or is_sym(v)):
                    continue
                ck.ob("switch", f"{name}/{other}", v is None, f"--{name} is restricted: {other}", where)
        ck.ob("switch", "fields", len(set(field_of.values())) == len(SWITCHES), "two switches fill the same field", where)
        for g, fs in groups.items():
            ck.ob("switch", f"group/{g}", len(fs) == 1, f"switches of {sorted(fs)} exclude one another", where)
        out = longs.get("output", [])
        ck.ob("switch", "output", len(out) == 1 and fld.get(out[0]["id"]) is not None, "--output is not defined", where)
        pos = [a for a in args.values() if a.get("long") is None and a.get("short") is None]
        ck.ob("switch", "input", len(pos) == 1 and pos[0]["id"] in fld, f"{len(pos)} positional arguments, expected one", where)
        return field_of, names, fld[out[0]["id"]], fld[pos[0]["id"]]

    box_ = {}
    ck.guard("switch", "definitions", lambda: box_.update(zip(("field_of", "names", "output", "input"), definitions())))
    if "names" not in box_:
        return
    field_of, names = box_["field_of"], box_["names"]

    # --- what the switches make of the configuration the stages get
    settings = {}
    combos = list(itertools.product((None, True, False), repeat=4))

    def configuration(combo):
        want = {}
        vals = {n: c(0) for n in names}
        vals[box_["output"]], vals[box_["input"]] = s("OUT"), s("IN")
        for (feat, d), v in zip(DEFAULT.items(), combo):
            want[feat] = d if v is None else v
            for name, (f2, on) in SWITCHES.items():
                if f2 == feat and v is on:
                    vals[field_of[name]] = c(1)
        cfg = B.new("CliConfig", None, **vals)
        run = I.find("run")
        key = " ".join(f"--{n}" for n, (f2, on) in SWITCHES.items() if combo[list(DEFAULT).index(f2)] is on) or "no switches"
        n = 0
        for st, r in I.run(run, [cfg]):
            t = {x[0]: x for x in st.trace}
            for x in st.trace:
                for a in x[1]:
                    for k in ("EnabledOptimisations", "EnabledProfiling"):
                        if isinstance(a, tuple) and a[0] == "e" and a[1].endswith("::" + k):
                            settings.setdefault((k, x[0]), {}).setdefault(a, []).append((key, want))
                            n += 1
            if STAGES["write_to_file"] in t:
                n += 1
                f = t[STAGES["write_to_file"]][1][1]
                ck.ob("output", key, f == s("OUT") or ("str", "OUT") in flat(f), f"{key}: the module is written to {show(f, 3)}", where)
            if STAGES["preprocess"] in t:
                f = t[STAGES["preprocess"]][1][0]
                ck.ob("output", key + "/input", f == s("IN") or ("str", "IN") in flat(f), f"{key}: the source is read from {show(f, 3)}", where)
        ck.ob("output", key + "/reached", n >= 3, f"{key}: the stages do not get the configuration", where)
    for combo in combos:
        ck.guard("output", str(combo), lambda: configuration(combo))

    # --- the optimiser
    O = Optim(ck)
    tw = ck.where("middle_end::middle_end_optimiser::ir_optimiser::optimise_ir")

    def optimiser(value, uses):
        O.reset()
        O.n = 20
        T = ("Function", "I32", ["I32"], False)
        T0 = ("Function", "I32", [], False)
        main, f, g, h = O.fun(T0, 0), O.fun(T, 1), O.fun(T, 2), O.fun(T, 3)
        d, a = O.var("I32"), O.var("I32")
        call = lambda x: [O.instr("Call", d, x, q(O.src(a))), O.instr("Ret", some(O.src(d)))]
        funs = {main: (O.number(call(f)), T0, [], True), f: (O.number([O.instr("BrIfEq", O.src(a), O.const(c(0)), B.id("LabelId", 70))] + call(g) +
                [O.instr("Label", B.id("LabelId", 70))] + call(f), 30), T, [a], True),
                g: (O.number([O.instr("Ret", some(O.src(a)))], 50), T, [a], True), h: (O.number(call(g), 60), T, [a], True)}
        for r in O.optimise(funs, [], value, {"main": main, "f": f, "g": g, "h": h}):
            if r[0] != "Ok":
                raise AnalysisError("the optimiser fails")
            tails = [sum(i[2] == "Call" for i in r[1].get(x, [])) for x in (main, f, h)]
            seen = {"unreachable-procedure": h not in r[1]}
            calls = sum(i[2] == "Call" for x in (main, f) for i in r[1].get(x, []))
            seen["tailcall"] = True if calls == 0 else False if calls == 3 else None
            for key, want in uses:
                for k, v in seen.items():
                    ck.ob("applied", f"{key}/{k}", v == want[k], f"{key}: {k} is {'applied' if v else 'applied to some' if v is None else 'not applied'}", tw,
                          f"{key}: {k} {'on' if v else 'off'}")

    def slots(value, uses):
        W = Data(ck)
        G = W.G
        W.begin()
        vs = [G.var("I64") for _ in range(4)]
        gv = G.var("I64", "global")
        instrs = W.number([x for v in vs for x in (W.set(v, G.const(c(1))), W.set(gv, v), W.set(v, G.const(c(2))))] + [G.instr("Ret", NONE)])
        for b, lv in W.structured(instrs):
            for offs, after, n, md in allocate(G, b, value):
                gone = len(list(blocks_in(b))) - len(list(blocks_in(after)))
                on = True if gone == 4 and n < 32 else False if gone == 0 and n >= 32 else None
                for key, want in uses:
                    ck.ob("applied", f"{key}/stack-allocation", on == want["stack-allocation"], f"{key}: slots take {n} bytes for four variables, {gone} of 4 dead instructions are gone",
                          ck.where("back_end::stack_allocation::allocate_vars::allocate_local_vars"), f"{key}: {n} bytes, {gone} dead instructions removed")

    def assembly(value, uses):
        A = asm.Assembly(ck, opt=value)
        n = 0
        for st, mod in A.outs:
            for name, args, _ in st.trace:
                for a in args:
                    a = A.I.freeze(st, A.I.deref(st, a)) if isinstance(a, tuple) and a and a[0] == "r" else a
                    if isinstance(a, tuple) and a[0] == "e" and a[1].endswith("::EnabledOptimisations"):
                        n += 1
                        ck.ob("assembly", f"{uses[0][0]}/{n}", a == value, f"{uses[0][0]}: {name.split('::')[-1]} gets other settings", ck.where(A.f.name))
        ck.ob("assembly", uses[0][0], n >= 2, f"{uses[0][0]}: slot allocation does not get the settings", ck.where(A.f.name))

    def profiling(value, uses):
        A = asm.Assembly(ck, profiling=value)
        A0 = asm.Assembly(ck, prof=0)
        for st, mod in A.outs:
            on = len(A.imports(mod)) - len(A0.imports(A0.outs[0][1])) == 1
            for key, want in uses:
                ck.ob("applied", f"{key}/profiling", on == want["profiling"], f"{key}: stack profiling is {'on' if on else 'off'}", ck.where(A.f.name), f"{key}: profiling {'on' if on else 'off'}")

    opt = settings.get(("EnabledOptimisations", STAGES["optimise_ir"]), {})
    gen = settings.get(("EnabledOptimisations", STAGES["generate_target_code"]), {})
    prf = settings.get(("EnabledProfiling", STAGES["generate_target_code"]), {})
    for v, uses in opt.items():
        ck.guard("applied", "optimiser/" + uses[0][0], lambda: optimiser(v, uses))
    for v, uses in gen.items():
        ck.guard("applied", "slots/" + uses[0][0], lambda: slots(v, uses))
        ck.guard("assembly", uses[0][0], lambda: assembly(v, uses))
    for v, uses in prf.items():
        ck.guard("applied", "profiling/" + uses[0][0], lambda: profiling(v, uses))
    for k, n in (("switch", 40), ("output", 200), ("applied", 300), ("assembly", 8)):
        ck.floor(k, n)


def flat(t):
    if isinstance(t, Sym):
        for a in t.args:
            yield from flat(a)
    elif isinstance(t, tuple):
        yield t
        for a in t:
            if isinstance(a, (tuple, Sym)):
                yield from flat(a)
