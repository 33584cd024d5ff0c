"""C20: a failed compilation is reported."""
from optim import *
from absint import Interp
from c19 import STAGES, subterms

TECHNIQUE = "abstract interpretation of the driver functions with opaque stages, plus an error-flow analysis of every Result in the compiler's MIR"
RULE = ("The compile function is interpreted with every stage opaque and both outcomes of each stage: stages run in order, a failed stage ends the compilation with that error, and the output is "
        "written last. `main` is interpreted with both outcomes of the compile function: an error is printed and the process exits with a non-zero status. The function that starts the C preprocessor "
        "is interpreted with every operation failing or succeeding. In every other function of the compiler each value of type Result is followed to its uses: it must be propagated, unwrapped, "
        "or matched with an Err arm that returns an error or diverges on every path; scope look-ups whose failure means 'not declared yet' are the only exceptions. "
        "Files are created only by the function that writes the module, and nothing else ends the process or catches panics.")
ASSUMPTIONS = ["an unwinding panic prints its message and gives a non-zero exit status (Rust runtime)", "std and clap report failures as documented", "the generated LALR parser returns the errors its actions and its lexer return"]

ORDER = list(STAGES)
# (module of the caller, called function): a look-up whose failure is an answer, not an error
LOOKUPS = {("middle_end::context", "resolve_struct_tag_to_struct_id"), ("middle_end::context", "resolve_union_tag_to_union_id"), ("middle_end::context", "resolve_identifier_to_fun"),
           ("middle_end::context", "resolve_typedef"), ("middle_end::get_ast_type_info", "resolve_struct_tag_to_struct_id"), ("middle_end::get_ast_type_info", "resolve_union_tag_to_union_id"), ("middle_end::get_ast_type_info", "eval_integral_constant_expression"), ("back_end::dataflow_analysis::dead_code_analysis", "unwrap_var")}
LOSSY = {"ok", "err", "is_ok", "is_err", "is_ok_and", "is_err_and", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "iter", "iter_mut", "into_iter", "or", "or_else", "unwrap_unchecked",
         "into_ok_or_err", "as_ref", "as_mut", "inspect_err", "inspect"}
KEEPS = {"as_ref", "as_mut", "inspect_err", "inspect"}


def module(name):
    """the module a function is defined in"""
    n = name.split("#")[0].lstrip("<")
    if " as " in n:
        n = n.split(" as ")[0]
    parts = [p for p in n.split("::") if p and not p.startswith("{")]
    out = []
    for p in parts:
        if not p[:1].islower():
            break
        out.append(p)
    return "::".join(out if len(out) < len(parts) else out[:-1])


def events(st):
    return [x[1:] for x in st.trace if x[0] == "@"]


class Results:
    """where the Results of one function go"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.blocks = f.blocks
        self.tys = P.types

    def ty(self, place):
        t = self.tys[self.f.local_ty(place[0])]
        for p in place[1:]:
            if p[0] == "d":
                t = self.inner(t)
            elif p[0] == "v":
                continue
            elif p[0] == "f":
                t = self.field(t, p[1])
            else:
                return None
            if t is None:
                return None
        return t

    def inner(self, t):
        for k in ("to", "ty", "inner", "t"):
            if k in t and isinstance(t[k], int):
                return self.tys[t[k]]
        return None

    def field(self, t, i):
        if t.get("k") == "adt" and t["adt"].split("::")[-1] in ("Option", "Poll", "ControlFlow") and t.get("args"):
            return self.tys[t["args"][0]]
        if t.get("k") == "tuple":
            a = t.get("args") or t.get("items") or []
            return self.tys[a[i]] if i < len(a) else None
        return None

    def is_result(self, t):
        return t is not None and t.get("k") == "adt" and t["adt"].split("::")[-1] == "Result"

    def never(self, t):
        """a Result that cannot be an error"""
        return self.is_result(t) and len(t.get("args", [])) > 1 and self.tys[t["args"][1]]["s"].split("::")[-1] == "Infallible" and False

    # --- successors, and which of them matter
    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k in ("return", "unreachable", "resume", "abort", "terminate"):
            return []
        out = []
        for x in t[1:]:
            if isinstance(x, int) and not isinstance(x, bool):
                out.append(x)
        return [x for x in out if x < len(self.blocks) and not self.blocks[x].get("c")]

    def makes_error(self, i):
        b = self.blocks[i]
        for _, k, *r in b["s"]:
            if k == "a" and r[1][0] == "agg" and r[1][1] == "adt" and r[1][2][0].split("::")[-1] == "Result" and r[1][2][2] == "Err":
                return True
        t = b["t"]
        return t[0] == "call" and t[1].get("k") == "fn" and (t[1]["path"].endswith("::from_residual") or t[1]["path"].endswith("::exit"))

    def swallows(self, start):
        """a block at which the function returns, or goes on, from `start` without an error being made"""
        seen, todo = set(), [start]
        while todo:
            i = todo.pop()
            if i in seen or self.makes_error(i):
                continue
            seen.add(i)
            if self.blocks[i]["t"][0] == "return":
                return i
            todo += self.succ(i)
        return None

    def diverges(self, name):
        g = self.P.fns.get(name)
        if g is None:
            return False
        R = Results(self.P, g)
        seen, todo = set(), [0]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if g.blocks[i]["t"][0] == "return":
                return False
            todo += R.succ(i)
        return True

    def uses(self):
        """(origin, how, line): how is None when the Result is dealt with, or what loses it"""
        origin = {}          # place key -> what made it
        start = {}           # place key -> block from which it exists
        used = {}
        key = lambda p: str(p)
        flows = []
        n = 0
        for i, b in enumerate(self.blocks):
            if b.get("c"):
                continue
            for line, k, *r in b["s"]:
                if k != "a":
                    continue
                dest, rv = r[0], r[1]
                if rv[0] in ("use", "cast") or rv[0] == "ref":
                    src = rv[1].get("p") if isinstance(rv[1], dict) else rv[1] if rv[0] == "ref" else None
                    if src and self.is_result(self.ty(src)):
                        origin.setdefault(key(src), (None, line))
                        if rv[0] == "ref":
                            flows.append((key(src), dest[0], line, i))
                        else:
                            used.setdefault(key(src), []).append((None, line))
                            origin.setdefault(key(dest), (("moved", key(src)), line))
                elif rv[0] == "discr" and self.is_result(self.ty(rv[1])):
                    src = rv[1]
                    origin.setdefault(key(src), (None, line))
                    used.setdefault(key(src), []).append((("match", i, dest), line))
                elif rv[0] == "agg":
                    for o in rv[3]:
                        if o.get("p") and self.is_result(self.ty(o["p"])):
                            used.setdefault(key(o["p"]), []).append((None, line))
            t = b["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o.get("k") in ("move", "copy") and self.is_result(self.ty(o["p"])):
                        fn = t[1].get("path", "?") if t[1].get("k") == "fn" else "?"
                        m = fn.split("::")[-1]
                        how = None
                        if "Result::<" in fn or fn.startswith("std::result::Result") or "IntoIterator" in fn:
                            if m in LOSSY and m not in KEEPS:
                                how = ("lossy", m)
                                if m in ("unwrap_or_else", "map_or_else", "or_else") and len(t[2]) > 1:
                                    a = t[2][1]
                                    ct = self.ty(a["p"]) if a.get("p") else self.tys[a["ty"]]
                                    nm = ct and (ct.get("def") or ct.get("path") or ct.get("fn"))
                                    if nm and self.diverges(nm):
                                        how = None
                        used.setdefault(key(o["p"]), []).append((how, b["l"]))
                    fnd = o.get("fn") or {}
                    if isinstance(fnd, dict) and fnd.get("path", "").split("::")[-1] in ("ok", "err", "unwrap_or_default") and "Result" in fnd.get("path", ""):
                        yield "?", ("lossy", fnd["path"].split("::")[-1]), b["l"]
                dest = t[3]
                if dest and len(dest) == 1 and self.is_result(self.ty(dest)):
                    name = t[1].get("res") or t[1].get("path") if t[1].get("k") == "fn" else "a closure"
                    origin[key(dest)] = (("call", name), b["l"])
                    start[key(dest)] = t[4]
                if t[1].get("k") == "fn" and t[1]["path"].split("::")[-1] in ("flatten", "flat_map", "filter_map", "map_while") and dest:
                    d = self.ty(dest)
                    if d and ("Lines<" in d["s"] or "Result<" in d["s"].split("{closure")[0]) and (t[1]["path"].endswith("flatten") or "Result" in str(t[2][1:]) and "::ok" in str(t[2][1:])):
                        yield "?", ("lossy", t[1]["path"].split("::")[-1]), b["l"]
        # references: what is called on them
        refs = {}
        for k2, l, line, i in flows:
            refs.setdefault(l, k2)
        for i, b in enumerate(self.blocks):
            t = b["t"]
            if b.get("c") or t[0] != "call" or t[1].get("k") != "fn":
                continue
            for o in t[2]:
                if o.get("p") and len(o["p"]) == 1 and o["p"][0] in refs:
                    m = t[1]["path"].split("::")[-1]
                    used.setdefault(refs[o["p"][0]], []).append(((("peek", m) if m in LOSSY else ("look", m)), b["l"]))
        for k2, (o, line) in origin.items():
            if k2 == "[0]":
                continue
            us = used.get(k2, [])
            name = o[1] if o and o[0] == "call" else "?"
            if o and o[0] == "moved":
                r = origin.get(o[1], (None, 0))[0]
                name = r[1] if r and r[0] == "call" else "?"
            hows = [u for u, _ in us]
            if any(u is None for u in hows):
                yield name, None, line
                continue
            ms = [u for u in hows if u[0] == "match"]
            first = self.first(start.get(k2, 0), {u[1] for u in ms})
            ms = [u for u in ms if u[1] in first]
            if ms:
                bad = None
                for _, i, d in ms:
                    e = self.err_arm(i, d)
                    if e is not None:
                        bad = self.swallows(e)
                        if bad is not None:
                            break
                yield name, ("ignored", "its Err arm goes on") if bad is not None else None, line
                continue
            lossy = [u for u in hows if u[0] in ("lossy", "peek")]
            if lossy:
                yield name, ("lossy", lossy[0][1]), line
            elif o is not None and o[0] == "call":
                yield name, ("ignored", "it is never looked at"), line

    def first(self, start, matches):
        """the matches reached before any other (the ones after them are drops, or know the variant)"""
        out, seen, todo = set(), set(), [start]
        while todo:
            i = todo.pop()
            if i in seen or i is None:
                continue
            seen.add(i)
            if i in matches:
                out.add(i)
            else:
                todo += self.succ(i)
        return out

    def err_arm(self, i, d):
        # the switch on the discriminant read in block i
        seen = set()
        while i not in seen:
            seen.add(i)
            t = self.blocks[i]["t"]
            if t[0] == "switch" and t[1].get("p") == d:
                for v, x in t[2]:
                    if int(v) == 1:
                        return x
                return t[3]
            s2 = self.succ(i)
            if len(s2) != 1:
                return None
            i = s2[0]
        return None


def check(ck):
    P = ck.lib()
    where = ck.where("run")

    # --- the compile function
    def both(I, st, args, dty, name):
        terms = tuple(I.freeze(st, I.deref(st, a)) for a in args)
        st.nfresh += 1
        if isinstance(dty, tuple) and dty[0] == "adt" and dty[1].split("::")[-1] == "Result":
            out = []
            for v in ("Ok", "Err"):
                s2 = st.copy()
                r = Sym(f"{v}:{name.split('::')[-1]}", (), dty[2][0 if v == "Ok" else 1])
                val = ("e", dty[1], v, (r,))
                s2.trace = s2.trace + (("@", name, terms, v, r),)
                out.append((s2, val))
            return out
        r = Sym("stage:" + name.split("::")[-1], terms, dty)
        st.trace = st.trace + (("@", name, terms, "-", r),)
        return [(st, r)]

    def policy(n):
        if n in STAGES.values():
            return lambda I, st, args, dty: both(I, st, args, dty, n)
        return None

    def driver():
        I = ck.interp(policy)
        B = Build(I)
        names = [n for n, _ in P.adts["CliConfig"]["variants"][0]["fields"]]
        cfg = B.new("CliConfig", None, **{n: Sym("cfg." + n, (), None) if n in ("filepath", "output") else c(0) for n in names})
        want = [STAGES[k] for k in ORDER]
        got = set()
        for st, r in I.run(I.find("run"), [cfg]):
            tr = [x[0] for x in events(st)]
            key = "/".join(x[2] for x in events(st))
            r = I.freeze(st, r)
            got.add(key)
            ck.ob("driver", key + "/order", tr == want[:len(tr)], f"the stages run as {[x.split('::')[-1] for x in tr]}", where)
            failed = [x for x in events(st) if x[2] == "Err"]
            if failed:
                x = failed[0]
                nm = x[0].split("::")[-1]
                ck.ob("driver", key + "/stops", events(st)[-1] == x, f"{tr[-1].split('::')[-1]} runs although {nm} failed", where, f"{nm} fails: nothing else runs, and the error is returned")
                ck.ob("driver", key + "/reports", r[2] == "Err", f"the compilation succeeds although {nm} failed", where)
                ck.ob("driver", key + "/error", r[2] != "Err" or any(t == x[3] for t in subterms(r)), f"the error of {nm} is not the one returned", where)
            else:
                ck.ob("driver", key + "/complete", r[2] == "Ok" and tr == want, f"the compilation {'ends without writing the module' if tr != want else 'fails although no stage failed'}", where)
            for a, b in zip(events(st), events(st)[1:]):
                if a[0] == STAGES["optimise_ir"]:
                    ck.ob("driver", key + "/" + b[0], any(t in list(subterms(b[1][0])) for t in subterms(a[1][0])), f"{b[0].split('::')[-1]} does not get the optimised program", where)
                    continue
                ck.ob("driver", key + "/" + b[0], any(t == a[3] for v in b[1] for t in subterms(v)), f"{b[0].split('::')[-1]} does not get the result of {a[0].split('::')[-1]}", where)
        n = sum(1 for f in STAGES.values() if f in P.fns)
        ck.ob("driver", "stages", n == len(STAGES), "a stage is missing", where)
        ck.ob("driver", "outcomes", len(got) == 7, f"{len(got)} outcomes of the compilation, expected 7", where)
    ck.guard("driver", "run", driver)

    # --- main
    def main():
        M = ck.bin()
        exits = []

        def pol(n):
            if n.endswith("c_to_wasm_compiler::run"):
                return lambda I, st, args, dty: both(I, st, args, dty, "compile")
            if n.endswith("process::exit"):
                def ex(I, st, args, dty):
                    exits.append((st, I.freeze(st, I.deref(st, args[0]))))
                    return []
                return ex
            if "log::Level" in n and n.split("::")[-1] == "le":
                return lambda I, st, args, dty: [(st, c(int(I.freeze(st, I.deref(st, args[0]))[2] == "Error")))]
            if n.endswith("max_level") or "clap" in n or n.endswith("Parser::parse") or n == "pretty_env_logger::init":
                return "pure"
            if "__private_api_log" in n or n.endswith("_eprint"):
                def pr(I, st, args, dty):
                    st.trace = st.trace + (("@", "print", tuple(I.freeze(st, I.deref(st, a)) for a in args), "-", None),)
                    return [(st, ("t", ()))]
                return pr
            if "fmt::" in n:
                return "pure"
            return None
        I = Interp(M, pol)
        ck.interps.append(I)
        outs = list(I.run(M.fns["main"], []))
        mw = "src/main.rs: main"
        for st, r in outs:
            r = I.freeze(st, r)
            v = [x[2] for x in events(st) if x[0] == "compile"]
            bad = isinstance(r, tuple) and r[0] == "e" and r[2] == "Err" or any("FAILURE" in str(t.head) for t in subterms(r))
            ck.ob("main", "return/" + "".join(v), bad if "Err" in v else v == ["Ok"], f"main returns normally after the compilation {'failed' if 'Err' in v else 'was not run'}", mw, "main returns normally when the compilation succeeded")
        for st, code in exits:
            v = [x[2] for x in events(st) if x[0] == "compile"]
            zero = code == c(0) or not (isinstance(code, tuple) and code[0] == "c")
            ck.ob("main", "exit/" + "".join(v), ("Err" in v and not zero) or (v == ["Ok"] and code == c(0)), f"the process exits with status {show(code)} after the compilation {v}", mw, f"status {show(code)} after a failure")
            if "Err" in v:
                e = [x[3] for x in events(st) if x[0] == "compile"][0]
                pr = any(x[0] == "print" and any(str(e.head) in str(t) for t in subterms(x[2 - 1])) for x in events(st))
                ck.ob("main", "message", pr, "the error is not printed", mw, "the error is printed")
        ck.ob("main", "failure", any("Err" in [x[2] for x in events(st) if x[0] == "compile"] for st, _ in exits + outs) or bool(I.panics), "the outcome of the compilation is not looked at", mw)
    ck.guard("main", "main", main)

    # --- the C preprocessor and the output file
    IO = ("std::process::", "std::io::", "std::fs::")

    def io(fn):
        def pol(n):
            m = n.split("::")[-1]
            base = n.split(" as ")[0].lstrip("<")
            if m == "success" and "ExitStatus" in n:
                def succ(I, st, args, dty):
                    s2 = st.copy()
                    st.trace = st.trace + (("@", n, (), "Ok", None),)
                    s2.trace = s2.trace + (("@", n, (), "Err", None),)
                    return [(st, c(1)), (s2, c(0))]
                return succ
            if m == "code" and "ExitStatus" in n:
                def code(I, st, args, dty):
                    out = []
                    for v, lab in ((some(c(0)), "Ok"), (some(c(1)), "Err"), (NONE, "Err")):
                        s2 = st.copy()
                        s2.trace = s2.trace + (("@", n, (), lab, None),)
                        out.append((s2, v))
                    return out
                return code
            if m in ("as_mut", "as_ref", "take") and "Option" in n:
                def opt(I, st, args, dty):
                    v = I.freeze(st, I.deref(st, args[0]))
                    if not (is_sym(v) and v.ty is None):
                        return NotImplemented
                    st.nfresh += 1
                    return [(st.copy(), some(Sym("handle", (v,), None))), (st, NONE)]
                return opt
            if base.startswith(IO) or any(x in n for x in ("std::process", "std::fs::File", "std::io::Write", "String::from_utf8")):
                def f(I, st, args, dty):
                    return both(I, st, args, dty, n)
                return f
            if n.endswith("to_bytes"):
                return "pure"
            return None
        I = ck.interp(pol, assume_ok=False)
        f = P.fns[fn]
        w = ck.where(fn)
        st = State()
        args = []
        for i in range(1, f.args + 1):
            t = P.types[f.local_ty(i)]
            args.append(I.cell(st, f"a{i}", Sym(f"arg{i}", (), None)) if t["k"] == "ref" else Sym(f"arg{i}", (), None))
        outs = list(I.run(f, args, st))
        nerr = nok = 0
        for st, r in outs:
            r = I.freeze(st, r)
            bad = [x for x in events(st) if x[2] == "Err"]
            key = fn + "/" + "".join(x[2][0] for x in events(st))
            if bad:
                nerr += 1
                nm = bad[0][0].split("::")[-1]
                ck.ob("io", key, isinstance(r, tuple) and r[2] == "Err", f"{fn.split('::')[-1]} succeeds although {nm} failed", w, f"{fn.split('::')[-1]}: {nm} fails, an error is returned")
            elif r[2] == "Ok":
                nok += 1
                wr = [x for x in events(st) if x[0].split("::<")[0].split("::")[-1] in ("write_all", "write")]
                src = {str(t.head) for x in wr for a in x[1] for t in subterms(a)}
                ck.ob("io", key + "/input", any("arg1" in h or "to_bytes" in h for h in src), f"{fn.split('::')[-1]} succeeds without writing what it is given", w, f"{fn.split('::')[-1]} writes all of its input")
        ck.ob("io", fn + "/outcomes", nerr + len(I.panics) >= 2 and nok >= 1, f"{fn}: {nerr} failing and {nok} succeeding outcomes", w)

    starts, creates = [], []
    exits = []
    for name, f in P.fns.items():
        for b in f.blocks:
            t = b["t"]
            if t[0] != "call" or t[1].get("k") != "fn" or b.get("c"):
                continue
            p = t[1]["path"]
            if p in ("std::process::Command::spawn", "std::process::Command::output", "std::process::Command::status"):
                starts.append(name)
            if p in ("std::fs::File::create", "std::fs::write", "std::fs::File::create_new", "std::fs::copy", "std::fs::rename") or p.startswith("std::fs::OpenOptions::open"):
                creates.append((name, f, b["l"]))
            if p in ("std::io::Write::write", "std::io::Read::read", "std::io::BufRead::read_line", "std::io::BufRead::fill_buf"):
                ck.ob("effects", f"{name}/{p}", False, f"{name} calls {p}, which may transfer only part of the data", f"{f.file}:{b['l']}: {name}")
            if p.endswith(("process::exit", "process::abort", "panic::catch_unwind", "panic::set_hook")):
                exits.append((name, p, f, b["l"]))
    ck.ob("effects", "starts", len(set(starts)) == 1, f"{sorted(set(starts))} start a process", where)
    for fn in sorted(set(starts)):
        ck.guard("io", fn, lambda: io(fn))
    writer = STAGES["write_to_file"]
    ck.guard("io", writer, lambda: io(writer))
    # functions only the module writer calls
    callers = {}
    for name, f in P.fns.items():
        for b in f.blocks:
            t = b["t"]
            if t[0] == "call" and t[1].get("k") == "fn":
                callers.setdefault(t[1].get("res") or t[1]["path"], set()).add(name.split("::{closure")[0])

    def only_writer(n, seen=()):
        n = n.split("::{closure")[0]
        if n == writer:
            return True
        cs = callers.get(n, set()) - set(seen) - {n}
        return bool(cs) and all(only_writer(x, (*seen, n)) for x in cs)
    for name, f, line in creates:
        ck.ob("effects", f"{name}/create", only_writer(name), f"{name} creates a file", f"{f.file}:{line}: {name}", f"{name.split('::')[-1]} creates the output file")
    ck.ob("effects", "create", len(creates) >= 1, "the module is never written", where)
    for name, p, f, line in exits:
        ck.ob("effects", f"{name}/{p}", False, f"{name} calls {p}", f"{f.file}:{line}: {name}")
    ck.ob("effects", "exits", not exits, "see above", where, "no other function ends the process or catches panics")

    # --- every Result in the compiler
    def flows():
        for name, f in P.fns.items():
            if "c_parser" in f.file or "/out/" in f.file or "#p" in name or "::tests" in name or "_tests::" in name:
                continue
            if name.endswith("::fmt") or "as std::fmt::" in name:
                continue
            ck.fns.add(name)
            R = Results(P, f)
            try:
                for callee, how, line in R.uses():
                    m = module(callee.split("::{")[0]) if callee != "?" else "?"
                    cn = callee.split("::")[-1]
                    if how is not None and (module(name), cn) in LOOKUPS:
                        how = None
                    ck.ob("result", f"{name}/{cn}/{how[1] if how else ''}", how is None, f"{name.split('::')[-1]}: the failure of {cn} is lost: {how and how[1]}", f"{f.file}:{line}: {name}",
                          f"{name.split('::')[-1]} passes on the failure of {cn}")
            except (KeyError, IndexError, TypeError) as e:
                raise AnalysisError(f"{name}: {type(e).__name__} {e}")
    ck.guard("result", "flows", flows)
    for k, n in (("driver", 40), ("main", 3), ("io", 9), ("effects", 3), ("result", 500)):
        ck.floor(k, n)
