"""C05: memory accesses."""
from gen import *
import wasmsem as ws
from c03 import judge, operand

TECHNIQUE = "abstract interpretation of the code generator (MIR); the emitted loads, stores and constants as terms over memory"
RULE = ("For every data-moving instruction (assignment, load through a pointer, store through a pointer, address-of, allocation, string "
        "pointer), every type and every operand kind, the code built by `convert_ir_instr_to_wasm` is interpreted abstractly with symbolic "
        "slots; it must write exactly the bytes of the accessed type at exactly the object's address, with the value read at the width and "
        "signedness of its type.")
ASSUMPTIONS = ["slots of different variables do not overlap (C13, C17, C29)", "an int constant is used only where an integer is expected (C07)"]
ALL = list(INTS) + list(FLOATS) + [PTR]
RUST_CORNERS = {8: [0, 1, 127, -128], 16: [0, 1, 32767, -32768], 32: [0, 1, -1, 2**31 - 1, -2**31], 64: [0, -1, 2**63 - 1, -2**63, 2**32 + 7]}


def store_through(ck, G, cls, key, instr, addr, t, want, desc):
    def one():
        outs = G.code(instr)
        ck.ob(cls, key + "/compiles", bool(outs), f"{desc}: no code can be generated (the compiler panics)", ck.where(G.conv.name))
        for st, items in outs:
            try:
                m = G.machine(items)
            except ws.StackError as e:
                ck.ob(cls, key, False, f"{desc}: the generated code is not valid: {e}", ck.where(G.conv.name))
                continue
            exp = G.stored(None, t, want)
            bad = None
            if m.stack or m.ended or m.effects:
                bad = "the code has other effects"
            elif len(m.stores) != 1:
                bad = f"memory is written {len(m.stores)} times"
            else:
                r, o, w, v, a = m.stores[0]
                if a != addr:
                    bad = f"the value is written to {ws.sh(a)}, expected {ws.sh(addr)}"
                elif w != size_bits(t):
                    bad = f"{w} bits are written to an object of type {tname(t)}"
                elif v != exp:
                    bad = f"the value stored is {ws.sh(v)}, expected {ws.sh(exp)}"
            ck.ob(cls, key, bad is None, f"{desc}: {bad}", ck.where(G.conv.name), f"{desc} -> {ws.sh(exp)}")
    ck.guard(cls, key, one)


def through(t, a):
    m = ("mem", size_bits(t), a, 0)
    return m if t in FLOATS else ext(sign(t), 64 if size_bits(t) == 64 else 32, m)


def check(ck):
    G = Gen(ck)
    for t in ALL + [ARR]:
        for dk in ("local", "global"):
            for k in ("local", "global") + (("const",) if t != ARR else ()):
                G.reset()
                d = G.var(t, dk)
                s_, v = operand(G, t, k, "a")
                judge(ck, G, "copy", f"{tname(t)}/{k}->{dk}", G.instr("SimpleAssignment", d, s_), d, t, v, f"assignment of {tname(t)} ({k} to {dk})")
    # constants keep their value over the whole range of the type
    for t in ALL:
        if t in FLOATS:
            continue
        for n in RUST_CORNERS[size_bits(t)]:
            if sign(t) == "z" and n < 0:
                n += 1 << size_bits(t)
            G.reset()
            d = G.var(t)
            judge(ck, G, "constant", f"{tname(t)}/{n}", G.instr("SimpleAssignment", d, G.const(c(n))), d, t,
                  num(64 if size_bits(t) == 64 else 32, n), f"constant {n} of type {tname(t)}")
    for t in ALL:
        pt = ("PointerTo", t)
        for pk in ("local", "global"):
            G.reset()
            p, d = G.var(pt, pk), G.var(t)
            judge(ck, G, "load", f"{tname(t)}/{pk}", G.instr("LoadFromAddress", d, G.src(p)), d, t, through(t, G.value(p, pt)),
                  f"load of {tname(t)} through a pointer")
            for k in ("local", "global", "const"):
                G.reset()
                p = G.var(pt, pk)
                s_, v = operand(G, t, k, "a")
                store_through(ck, G, "store", f"{tname(t)}/{pk},{k}", G.instr("StoreToAddress", p, s_), G.value(p, pt), t, v,
                              f"store of {tname(t)} through a pointer ({k})")
    for t in ALL + [ARR]:
        for k in ("local", "global"):
            for dk in ("local", "global"):
                G.reset()
                pt = ("PointerTo", t)
                d, a = G.var(pt, dk), G.var(t, k)
                judge(ck, G, "address", f"{tname(t)}/{k}->{dk}", G.instr("AddressOf", d, G.src(a)), d, pt, G.addr(a), f"address of a {k} {tname(t)}")
    G.reset()
    d = G.var(("PointerTo", "I8"))
    sid = G.B.id("StringLiteralId", 3)
    ptr = Sym("in", ("straddr",), ("prim", "u32"))
    G.strs.append((sid, ptr))
    judge(ck, G, "address", "string", G.instr("PointerToStringLiteral", d, sid), d, PTR, const_of(32, ptr), "address of a string literal")
    # a narrow object is extended when it is read: the widening instruction of each narrow type shows the value loaded
    for t in ("I8", "U8", "I16", "U16"):
        for k in ("local", "global"):
            for to in ("I32", "U32"):
                if f"{t}to{to}" not in G.B.variants("Instruction"):
                    continue
                G.reset()
                d, a = G.var(to), G.var(t, k)
                judge(ck, G, "extension", f"{t}/{to}/{k}", G.instr(f"{t}to{to}", d, G.src(a)), d, to, G.value(a, t), f"reading a {k} {t} as {to}")
    ck.floor("extension", 8)
    allocation(ck, G)
    ck.floor("copy", 60)
    ck.floor("constant", 40)
    ck.floor("load", 20)
    ck.floor("store", 60)
    ck.floor("address", 40)
    ck.floor("allocation", 8)


def allocation(ck, G):
    for dt in ALL + [ARR, ("Struct", 1), ("Union", 1)]:
        for sk in ("const", "local"):
            key = f"{tname(dt)}/{sk}"

            def one():
                G.reset()
                d = G.var(dt)
                n, v = operand(G, "I32", sk, "size")
                outs = G.code(G.instr("AllocateVariable", d, n))
                ck.ob("allocation", key + "/compiles", bool(outs), "no code can be generated for an allocation", ck.where(G.conv.name))
                for st, items in outs:
                    try:
                        m = G.machine(items)
                        bad = None
                        if m.stack or m.ended or m.effects:
                            bad = "the code has other effects"
                        elif {(ws.key(s_[4]), s_[2]) for s_ in m.stores} != {(ws.key(G.addr(d)), 32), (ws.key(num(32, 8)), 32)}:
                            bad = "something other than the variable and the stack pointer is written"
                        elif m.read(32, G.addr(d)) != G.SP:
                            bad = f"the variable is set to {ws.sh(m.read(32, G.addr(d)))}, not to the old top of the stack"
                        elif m.read(32, num(32, 8)) != add(32, G.SP, v):
                            bad = f"the stack pointer becomes {ws.sh(m.read(32, num(32, 8)))}, not the old one plus the object's size"
                    except ws.StackError as e:
                        bad = f"the generated code is not valid: {e}"
                    ck.ob("allocation", key, bad is None, f"allocation of a {tname(dt)} variable: {bad}", ck.where(G.conv.name))
            ck.guard("allocation", key, one)
