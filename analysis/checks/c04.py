"""C04: arithmetic conversions."""
import re
from gen import *
import wasmsem as ws
from c03 import judge

TECHNIQUE = "abstract interpretation of the conversion code and the code generator (MIR), value terms compared with the C conversion"
RULE = ("(1) For each conversion instruction AtoB the emitted code must be the C conversion from A to B. (2) For every ordered pair of "
        "arithmetic types, the instructions `get_type_conversion_instrs` chooses are lowered and composed symbolically; the composed term must "
        "be the C conversion of the source value, and the result must have the target type. (3) The same for the usual arithmetic conversions "
        "of every pair (`binary_convert`), whose common type must be the one C defines, and for the integer promotions.")
ASSUMPTIONS = ["out-of-range float to integer conversions are undefined in C and not constrained", "int is 32 and long 64 bits wide"]
ALL = list(INTS) + list(FLOATS)


def conv(s, d, v):
    """alternatives for the memory word of type d after converting value v (as loaded) of type s"""
    if s == d:
        return [lo(size_bits(d), v) if d not in FLOATS else v]
    if s in FLOATS and d in FLOATS:
        return [ws.convert("F64PromoteF32" if d == "F64" else "F32DemoteF64", v)]
    if d in FLOATS:
        w = 64 if size_bits(s) == 64 else 32
        sg = "S" if sign(s) == "s" else "U"
        r = [ws.convert(f"{d}ConvertI{w}{sg}", v)]
        if size_bits(s) < w:
            # every value of a narrower type is the same number signed and unsigned only when zero-extended
            if sign(s) == "z":
                r.append(ws.convert(f"{d}ConvertI{w}S", v))
        if w == 32:
            x = ext(sign(s), 64, v)
            r += [ws.convert(f"{d}ConvertI64S", x)]
            if sign(s) == "z":
                r += [ws.convert(f"{d}ConvertI64U", x)]
        return r
    if s in FLOATS:
        k, sg = INTS[d]
        srcs = [(s, v)]
        if s == "F32":
            srcs.append(("F64", ws.convert("F64PromoteF32", v)))
        r = []
        for fs, fv in srcs:
            for w in (32, 64):
                for S in "SU":
                    if (sg == "s" and S == "S" and w >= k) or (sg == "z" and (w > k or (w == k and S == "U"))):
                        for sat in ("", "Sat"):
                            r.append(lo(k, ws.convert(f"I{w}Trunc{sat}F{fs[1:]}{S}", fv)))
        return r
    k, _ = INTS[d]
    v64 = ext(sign(s), 64, v) if size_bits(s) < 64 else v
    return [lo(k, v64)]


def common(a, b):
    """usual arithmetic conversions (int 32, long 64 bits)"""
    for f in ("F64", "F32"):
        if f in (a, b):
            return f
    pa, pb = (x if size_bits(x) >= 32 else "I32" for x in (a, b))
    for t in ("U64", "I64", "U32"):
        if t in (pa, pb):
            return t
    return "I32"


def single(ck, G):
    names = [n for n in G.B.variants("Instruction") if re.match(r"^([IUF]\d+|Ptr)to([IUF]\d+|Ptr)$", n, re.I)]
    for n in names:
        s, d = re.split("to", n, flags=re.I)
        ts, td = (PTR if s == "Ptr" else s), (PTR if d == "Ptr" else d)
        for k in ("local", "global", "const"):
            G.reset()
            dest = G.var(td)
            if k == "const":
                if ts in FLOATS:
                    x = G.I.sym("const_a", ("prim", "f64"))
                    src, v = G.const(x, "Float"), G.constant(x, ts)
                else:
                    # a constant operand has a value of its type
                    rt = {"I8": "i8", "U8": "u8", "I16": "i16", "U16": "u16", "I32": "i32", "U32": "u32", "I64": "i64", "U64": "u64"}[
                        "U32" if ts == PTR else ts]
                    x = Sym("in", ("const_a",), ("prim", "i128"))
                    src, v = G.const(x), None
                if v is None:
                    want = None
                    judge_const(ck, G, n, src, x, dest, ts, td)
                    continue
            else:
                a = G.var(ts, k)
                src, v = G.src(a), G.value(a, ts)
            want = conv("U32" if ts == PTR else ts, "U32" if td == PTR else td, v)
            alternatives(ck, G, "instruction", f"{n}/{k}", G.instr(n, dest, src), dest, td, want, f"conversion {n} ({k})")


def judge_const(ck, G, n, src, x, dest, ts, td):
    """constant operands: checked at the corner values of the source type (the code is a single constant)"""
    k, sg = INTS["U32" if ts == PTR else ts]
    lo_, hi = (-(1 << (k - 1)), (1 << (k - 1)) - 1) if sg == "s" else (0, (1 << k) - 1)

    def one():
        for val in sorted({lo_, -1 if sg == "s" else 0, 0, 1, hi}):
            s2 = G.const(c(val))
            v = num(64 if k == 64 else 32, val)
            want = conv("U32" if ts == PTR else ts, "U32" if td == PTR else td, v)
            alternatives(ck, G, "instruction", f"{n}/const", G.instr(n, dest, s2), dest, td, want, f"conversion {n} of constant {val}")
    ck.guard("instruction", n + "/const", one)


def alternatives(ck, G, cls, key, instr, dest, dt, wants, desc):
    def one():
        outs = G.code(instr)
        ck.ob(cls, key + "/compiles", bool(outs), f"{desc}: no code can be generated", ck.where(G.conv.name))
        for st, items in outs:
            try:
                m = G.machine(items)
                bad = None
                if m.stack or m.ended or len(m.stores) != 1 or m.stores[0][4] != G.addr(dest) or m.stores[0][2] != size_bits(dt):
                    bad = "the result is not stored exactly once in the destination"
                elif m.stores[0][3] not in wants:
                    bad = f"the value stored is {ws.sh(m.stores[0][3])}, expected {' or '.join(ws.sh(x) for x in wants[:2])}"
            except ws.StackError as e:
                bad = f"the generated code is not valid: {e}"
            ck.ob(cls, key, bad is None, f"{desc}: {bad}", ck.where(G.conv.name), f"{desc} -> {ws.sh(wants[0])}")
    ck.guard(cls, key, one)


def chains(ck, G):
    I = G.I
    f = I.find("middle_end::type_conversions::get_type_conversion_instrs")
    for s in ALL:
        for d in ALL:
            if s == d:
                continue
            key = f"{s}->{d}"

            def one(s=s, d=d, key=key):
                G.reset()
                a = G.var(s)
                va = G.value(a, s)
                st = State()
                pr = G.program(st)
                outs = I.run(f, [G.src(a), G.B.irty(s), G.B.irty(d), pr], st)
                ck.ob("pair", key + "/total", bool(outs), f"conversion {key} panics", ck.where(f.name))
                for st, r in outs:
                    r = I.freeze(st, r)
                    if r[2] == "Err":
                        ck.ob("pair", key + "/supported", False, f"conversion from {s} to {d} is rejected ({show(r[3][0], 3)})", ck.where(f.name))
                        continue
                    instrs, res = r[3][0][1]
                    md = G.B.get(I.freeze(st, pr), "program_metadata")
                    verify(ck, G, "pair", key, instrs[1], res, md, d, conv(s, d, va), f.name, f"conversion from {s} to {d}")
            ck.guard("pair", key, one)


def verify(ck, G, cls, key, instrs, res, md, d, wants, fn, desc):
    w = ck.where(fn)
    G.adopt(md)
    if res[2] == "Var":
        t = G.type_of(md, res[3][0])
        ck.ob(cls, key + "/type", t is not None and G.tdesc(t) == d, f"{desc}: the result has type {show(t) if t else None}", w)
    try:
        m = G.run_ir(instrs, md)
        raw = m.read(size_bits(d), G.addr(res[3][0])) if res[2] == "Var" else G.stored(None, d, G.constant(res[3][0][3][0], d))
        bad = None if raw in wants else f"the result is {ws.sh(raw)}, expected {' or '.join(ws.sh(x) for x in wants[:2])}"
        if m.ended or m.effects:
            bad = "control is transferred"
    except ws.StackError as e:
        bad = f"the code is not valid: {e}"
    ck.ob(cls, key, bad is None, f"{desc} [{', '.join(i[2] for i in instrs)}]: {bad}", w, f"{desc}: {ws.sh(wants[0])}")


def usual(ck, G):
    I = G.I
    f = I.find("middle_end::type_conversions::binary_convert")
    for s in ALL:
        for d in ALL:
            key = f"{s},{d}"

            def one(s=s, d=d, key=key):
                G.reset()
                a, b = G.var(s), G.var(d)
                va, vb = G.value(a, s), G.value(b, d)
                st = State()
                pr = G.program(st)
                outs = I.run(f, [G.src(a), G.src(b), pr], st)
                ck.ob("usual", key + "/total", bool(outs), f"usual conversions of {key} panic", ck.where(f.name))
                cm = common(s, d)
                for st, r in outs:
                    r = I.freeze(st, r)
                    if r[2] == "Err":
                        ck.ob("usual", key + "/supported", False, f"the usual conversions of {s} and {d} are rejected ({show(r[3][0], 3)})",
                              ck.where(f.name))
                        continue
                    instrs, ra, rb = r[3][0][1]
                    md = G.B.get(I.freeze(st, pr), "program_metadata")
                    verify(ck, G, "usual", key + "/left", instrs[1], ra, md, cm, conv(s, cm, va), f.name, f"left operand of {s} op {d}")
                    verify(ck, G, "usual", key + "/right", instrs[1], rb, md, cm, conv(d, cm, vb), f.name, f"right operand of {s} op {d}")
            ck.guard("usual", key, one)
    f2 = I.find("middle_end::type_conversions::unary_convert")
    for s in ALL:
        def one(s=s):
            G.reset()
            a = G.var(s)
            va = G.value(a, s)
            st = State()
            pr = G.program(st)
            t = s if s in FLOATS or size_bits(s) >= 32 else "I32"
            for st, r in I.run(f2, [G.src(a), pr], st):
                r = I.freeze(st, r)
                if r[2] == "Err":
                    ck.ob("promotion", s, False, f"promotion of {s} is rejected", ck.where(f2.name))
                    continue
                instrs, ra = r[3][0][1]
                md = G.B.get(I.freeze(st, pr), "program_metadata")
                verify(ck, G, "promotion", s, instrs[1], ra, md, t, conv(s, t, va), f2.name, f"promotion of {s}")
        ck.guard("promotion", s, one)


def check(ck):
    G = Gen(ck)
    single(ck, G)
    chains(ck, G)
    usual(ck, G)
    ck.floor("instruction", 80)
    ck.floor("pair", 90)
    ck.floor("usual", 200)
    ck.floor("promotion", 8)
