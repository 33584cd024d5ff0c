"""C02: module layout."""
import itertools
from absint import Sym, c, is_sym, show, AnalysisError, elem_ty, State
from wasmbytes import *
from irbuild import *
import asm
import c01

TECHNIQUE = "abstract interpretation of the encoders and of module assembly (MIR), byte templates compared with the binary format"
RULE = ("`to_bytes` of the module, every section and every section entry is interpreted abstractly (entry lists of length 0 to 2, symbolic "
        "fields) and its byte template compared with the binary format: header, section order, ids, byte lengths, counts, field order. "
        "`generate_target_code` is interpreted for symbolic function bodies and every combination of 0-2 imported and 1-2 defined functions, "
        "with and without profiling; in the module it builds, every function's code, type and import must stand at the index under which "
        "code generation is told to call it.")
ASSUMPTIONS = ["lists longer than 2 are treated like lists of length 2 (uniform loops)", "HashMap iteration yields every entry once, in any order "
               "(the analysis uses one order)"]
M = BE + "wasm_module::"
WE = BE + "wasm_instructions::WasmExpression"

SECTIONS = [("types", 1), ("imports", 2), ("functions", 3), ("tables", 4), ("memory", 5), ("globals", 6), ("exports", 7), ("start", 8),
            ("element", 9), ("code", 10), ("data", 11)]


def struct(B, st, v):
    return fields(B.I, st, v)


def only(fs, pred, what):
    r = [v for n, v in fs.items() if pred(n)]
    if len(r) != 1:
        raise AnalysisError("no single field for " + what)
    return r[0]


def name_spec(B, st, v):
    v = B.I.freeze(st, v)
    return [("sized", [("raw", v)])]


def entry_spec(B, st, sec, v):
    I = B.I
    last = sec
    if sec == "types":
        f = struct(B, st, v)
        return [("byte", 0x60)] + vec_spec(B, st, WT + "ValType", f["param_types"]) + vec_spec(B, st, WT + "ValType", f["result_types"])
    if sec == "imports":
        f = struct(B, st, v)
        return name_spec(B, st, f["module_name"]) + name_spec(B, st, f["field_name"]) + desc_spec(B, st, f["import_descriptor"])
    if sec == "functions":
        return spec_of(B, st, WIDX + "TypeIdx", v)
    if sec == "tables":
        return spec_of(B, st, WT + "TableType", v)
    if sec == "memory":
        return spec_of(B, st, WT + "MemoryType", v)
    if sec == "globals":
        f = struct(B, st, v)
        return spec_of(B, st, WT + "GlobalType", f["global_type"]) + [("enc", WE, f["init_expr"])]
    if sec == "exports":
        f = struct(B, st, v)
        return name_spec(B, st, f["name"]) + desc_spec(B, st, f["export_descriptor"])
    if sec == "code":
        f = struct(B, st, v)
        body = [("u", len(elems(I, st, f["local_declarations"])))]
        for d in elems(I, st, f["local_declarations"]):
            g = struct(B, st, d)
            body += [("u", g["count"])] + spec_of(B, st, WT + "ValType", g["value_type"])
        return [("sized", body + [("enc", WE, f["function_body"])])]
    if sec == "data":
        k = known_variant(I, st, v)
        if k is None:
            raise Shape("DataSegment")
        f = struct(B, st, v)
        dat = [("sized", [("raw", f["data"])])]
        if k == "ActiveSegmentMemIndexZero":
            return [("u", 0), ("enc", WE, f["offset_expr"])] + dat
        if k == "PassiveSegment":
            return [("u", 1)] + dat
        return [("u", 2)] + spec_of(B, st, WIDX + "MemIdx", f["memory_idx"]) + [("enc", WE, f["offset_expr"])] + dat
    raise AnalysisError(sec)


def desc_spec(B, st, v):
    I = B.I
    k = known_variant(I, st, v)
    if k is None:
        raise Shape("descriptor")
    x = I.deref(st, v)[3][0]
    code = {"Func": 0, "Table": 1, "Mem": 2, "Global": 3}[k]
    xt = I.deref(st, x)
    t = xt.ty if is_sym(xt) else ("adt", xt[1], ())
    return [("byte", code)] + spec_of(B, st, t[1], x)


def encoders(ck, B):
    I, prog = B.I, ck.lib()
    B.opaque = {WE, WT + "ValType"}
    for sec, code in SECTIONS:
        ty = None
        for n in prog.adts:
            if n.startswith(M) and n.split("::")[-1].lower() == sec + "section":
                ty = n
        if ty is None:
            ck.ob("section", sec, False, f"no {sec} section type")
            continue

        def one(sec=sec, code=code, ty=ty):
            val = I.materialise(I.sym(sec, ("adt", ty, ())))
            outs = B.streams(ty, val)
            ck.ob("section", sec + "/total", bool(outs), f"{sec} section has no encoding")
            for st, items in outs:
                fs = struct(B, st, val)
                if sec == "element":
                    bad = None if not items else "content without elements"
                    ck.ob("section", sec, bad is None, f"element section: {bad}", ck.where("<" + ty + TB))
                    continue
                f0 = list(fs.values())[0]
                if sec == "start":
                    k = known_variant(I, st, f0)
                    if k is None:
                        raise Shape("start")
                    sp = [] if k == "None" else [("byte", code), ("sized", spec_of(B, st, WIDX + "FuncIdx", I.deref(st, f0)[3][0]))]
                    bad = B.match(st, items, sp)
                else:
                    es = elems(I, st, f0)
                    body = [("u", len(es))]
                    for e in es:
                        body += entry_spec(B, st, sec, e)
                    sp = [("byte", code), ("sized", body)]
                    bad = B.match(st, items, sp)
                    if bad and not es and not items:
                        bad = None       # an empty section may be left out
                ck.ob("section", sec, bad is None, f"{sec} section is written as {show_items(items)}: {bad}", ck.where("<" + ty + TB),
                      f"{sec} -> {show_items(items)}")
        ck.guard("section", sec, one)

    def module():
        secs = {}
        for n in prog.adts:
            if n.startswith(M) and n.split("::")[-1].endswith("Section"):
                secs[n.split("::")[-1][:-7].lower()] = n
        B.opaque = {WE} | set(secs.values())
        ty = M + "module::WasmModule"
        val = I.materialise(I.sym("module", ("adt", ty, ())))
        for st, items in B.streams(ty, val):
            fs = struct(B, st, val)
            sp = [("byte", b) for b in (0, 0x61, 0x73, 0x6D, 1, 0, 0, 0)]
            for sec, _ in SECTIONS:
                f = [v for v in fs.values() if I.deref(st, v).ty[1] == secs[sec]]
                sp.append(("enc", secs[sec], f[0]))
            bad = B.match(st, items, sp)
            ck.ob("module", "order", bad is None, f"the module is written as {show_items(items)}: {bad}", ck.where("<" + ty + TB), show_items(items))
    ck.guard("module", "order", module)


def assembly(ck):
    prog = ck.lib()
    CB = "back_end::target_code_generation::"

    def policy(name):
        if name.startswith(CB + "convert_") or "::allocate_vars::allocate_" in name:
            def f(I, st, args, dty):
                terms = tuple(I.freeze(st, a) for a in args)
                st.trace = st.trace + ((name, terms, None),)
                if dty == ("tuple", ()):
                    return [(st, ("t", ()))]
                if elem_ty(dty) is not None:
                    return [(st, ("q", (("splice", Sym("code", (terms[0],), dty)),)))]
                if dty[0] == "adt" and dty[1].endswith("HashMap"):
                    return [(st, Sym("alloc", (terms[0],), dty))]
                return NotImplemented
            return f
        return None
    I = ck.interp(policy)
    B = Build(I)
    imports = I.freeze(State(), B.call("program_config::program_constants::get_imported_function_names"))
    inames = [x[1] for x in imports[1]]
    lib_names = [n for n in inames if n != "log_stack_ptr"]
    md0 = B.call("middle_end::ir::ProgramMetadata::new")
    f = I.find("back_end::target_code_generation::generate_target_code")
    for nimp, ndef, prof, own in [x + (0,) for x in itertools.product((0, 1, 2), (1, 2), (0, 1))] + [(1, 2, 0, 1), (2, 3, 0, 1), (1, 3, 1, 1)]:
        key = f"imports={nimp},defined={ndef},profiling={prof}" + (",library name defined" if own else "")

        def one():
            # interleave the ids so that no order of ids and of kinds coincide
            names = ["main"] + ["f%d" % i for i in range(ndef - 1)]
            imps = lib_names[:nimp]
            if own:         # the program has its own function with the name of a library function
                names[-1] = lib_names[nimp]
            order = [x for pair in itertools.zip_longest(imps, names) for x in pair if x]
            fids = {n: B.id("FunId", i) for i, n in enumerate(order)}
            fty = B.irty(("Function", "Void", [], False))
            md = B.upd(md0, function_ids=B.map([(s(n), fids[n]) for n in order]),
                       fun_id_generator=B.new("IdGenerator", None, some(B.id("FunId", len(order) - 1))),
                       function_types=B.map([(fids[n], fty) for n in order]))
            funs = []
            blocks = {}
            for n in order:
                if n in names:
                    b = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 100 + len(blocks)), q()), next=NONE)
                    blocks[n] = b
                    rf = B.new("ReloopedFunction", None, block=some(b), label_variable=some(B.var(900)), type_info=fty,
                               param_var_mappings=q(), body_is_defined=c(1))
                else:
                    rf = B.new("ReloopedFunction", None, block=NONE, label_variable=NONE, type_info=fty, param_var_mappings=q(),
                               body_is_defined=c(0))
                funs.append((fids[n], rf))
            gb = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 99), q()), next=NONE)
            pr = B.new("ReloopedProgram", None, program_blocks=asm.program_blocks(B, funs, gb),
                       program_metadata=md)
            opts = B.new("EnabledOptimisations")
            prf = B.new("EnabledProfiling", None, c(prof))
            for st, r in I.run(f, [pr, I.as_ref(opts), I.as_ref(prf)]):
                r = I.freeze(st, r)
                if r[2] != "Ok":
                    ck.ob("assembly", key + "/result", False, f"generate_target_code fails for {key}: {show(r)}", ck.where(f.name))
                    continue
                verify(ck, I, B, st, r[3][0], key, fids, names, imps, blocks, gb, prof, f)
        ck.guard("assembly", key, one)
    for fn, l, w, sx in I.panics:
        ck.ob("assembly", "panic/" + fn, False, f"module assembly may panic in {fn} ({w})", ck.where(fn))


def verify(ck, I, B, st, mod, key, fids, names, imps, blocks, gb, prof, f):
    g = lambda v, *p: g(B.get(v, p[0]), *p[1:]) if p else v
    w = ck.where(f.name)
    # the function index map code generation works with
    maps = []
    for name, terms, _ in st.trace:
        for t in terms:
            if isinstance(t, tuple) and t[0] == "e" and t[1].endswith("ModuleContext"):
                maps.append(t)
            elif is_sym(t) and t.head == "at":
                raise AnalysisError("module context is not visible")
    mcs = {show(B.get(m, "fun_id_to_func_idx_map"), 20): m for m in maps}
    ck.ob("assembly", key + "/context", len(mcs) == 1, f"code generation sees {len(mcs)} different function index maps", w)
    if len(mcs) != 1:
        return
    fmap = {show(k): B.get(v, "x")[1] for k, v in B.get(maps[0], "fun_id_to_func_idx_map")[2]}
    imports = g(mod, "imports_section", "imports")[1]
    fimps = [i for i in imports if g(i, "import_descriptor")[2] == "Func"]
    mems = [i for i in imports if g(i, "import_descriptor")[2] == "Mem"]
    types = g(mod, "types_section", "function_types")[1]
    ftypes = g(mod, "functions_section", "function_type_idxs")[1]
    codes = g(mod, "code_section", "function_bodies")[1]
    exports = g(mod, "exports_section", "exports")[1]
    want_imps = list(imps) + (["log_stack_ptr"] if prof else [])
    n = len(fimps)

    def tyshape(tidx):
        t = types[tidx[3][0][1]]
        sig = []
        for k in ("param_types", "result_types"):
            sig.append(tuple(x[3][0][2] for x in g(t, k)[1]))
        return tuple(sig)
    ck.ob("assembly", key + "/import-set", sorted(g(i, "field_name")[1] for i in fimps) == sorted(want_imps),
          f"{key}: functions imported are {[g(i, 'field_name')[1] for i in fimps]}, expected {want_imps}", w)
    for i in fimps:
        ck.ob("assembly", key + "/import-module", g(i, "module_name") == s("stdlib"), f"function import from module {show(g(i, 'module_name'))}", w)
        ck.ob("assembly", key + "/import-type", tyshape(g(i, "import_descriptor", "func_type_idx")) == ((), ()), "imported function has the wrong type", w)
    ck.ob("assembly", key + "/memory", len(mems) == 1 and g(mems[0], "module_name") == s("runtime") and g(mems[0], "field_name") == s("memory"),
          f"{key}: the memory import is {[show(x) for x in mems]}", w)
    pos = {g(i, "field_name")[1]: k for k, i in enumerate(fimps)}
    ck.ob("assembly", key + "/counts", len(ftypes) == len(codes) == len(names) + 1,
          f"{key}: {len(ftypes)} function types and {len(codes)} bodies for {len(names) + 1} functions", w)
    for nm in imps:
        ix = fmap.get(show(fids[nm]))
        ck.ob("assembly", key + "/import-index", ix is not None and pos.get(nm) == ix,
              f"{key}: {nm} is called as function {ix} but imported as number {pos.get(nm)}", w, f"{nm}: index {ix}")
    if prof:
        lf = B.get(maps[0], "log_stack_ptr_fun_id")
        ix = fmap.get(show(lf[3][0])) if lf[2] == "Some" else None
        ck.ob("assembly", key + "/profiler-index", ix is not None and pos.get("log_stack_ptr") == ix,
              f"{key}: log_stack_ptr is called as function {ix} but imported as number {pos.get('log_stack_ptr')}", w)
    used = set()

    def has_code(body, block):
        want = Sym
        for it in g(body, "function_body", "instrs")[1]:
            if isinstance(it, tuple) and it[0] == "splice" and is_sym(it[1]) and it[1].head == "code" and it[1].args[0] == block:
                return True
        return False
    for nm in names:
        ix = fmap.get(show(fids[nm]))
        okk = ix is not None and n <= ix < n + len(codes)
        ck.ob("assembly", key + "/defined-index", okk, f"{key}: {nm} is called as function {ix}, outside the defined functions", w)
        if okk:
            used.add(ix)
            ck.ob("assembly", key + "/body", has_code(codes[ix - n], blocks[nm]), f"{key}: the body listed at index {ix} is not that of {nm}", w,
                  f"{nm}: body at index {ix}")
            ck.ob("assembly", key + "/type", tyshape(ftypes[ix - n]) == ((), ()), f"{key}: {nm} is declared with type {tyshape(ftypes[ix - n])}", w)
    ck.ob("assembly", key + "/distinct", len(used) == len(names), f"{key}: two functions share an index", w)
    ck.ob("assembly", key + "/exports", len(exports) == 1 and exports and g(exports[0], "name") == s("main") and
          g(exports[0], "export_descriptor")[2] == "Func", f"{key}: exports are {[show(e) for e in exports]}", w)
    if len(exports) == 1 and g(exports[0], "export_descriptor")[2] == "Func":
        ix = g(exports[0], "export_descriptor", "func_idx", "x")[1]
        okk = n <= ix < n + len(codes) and ix not in used
        ck.ob("assembly", key + "/entry-index", okk, f"{key}: the entry point is exported as function {ix}", w)
        if okk:
            body = codes[ix - n]
            ck.ob("assembly", key + "/entry-body", has_code(body, gb), f"{key}: the exported function does not run the global initialisers", w)
            ck.ob("assembly", key + "/entry-type", tyshape(ftypes[ix - n]) == (("I32", "I32"), ("I32",)),
                  f"{key}: the entry point has type {tyshape(ftypes[ix - n])}", w)
            calls = [B.get(B.get(i, "func_idx"), "x")[1] for i in g(body, "function_body", "instrs")[1]
                     if isinstance(i, tuple) and i[0] == "e" and i[2] == "Call"]
            others = [x for x in calls if not (prof and x == pos.get("log_stack_ptr"))]
            ck.ob("assembly", key + "/calls-main", others == [fmap.get(show(fids["main"]))],
                  f"{key}: the entry point calls functions {others}, main is {fmap.get(show(fids['main']))}", w)


def check(ck):
    B = Bytes(ck)
    encoders(ck, B)
    assembly(ck)
    for n, l, w, sx in B.I.panics:
        ck.ob("total", n + "/" + str(w), False, f"encoding may panic in {n} ({w})", ck.where(n))
    ck.floor("section", 20)
    ck.floor("assembly", 150)
    ck.floor("module", 1)
