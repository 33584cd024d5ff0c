"""Meaning of WebAssembly instruction sequences the compiler builds: stack typing and value terms.

The sequences are abstract values found in the compiler's code (never executed); they are
normalised to terms over the memory at entry, so that equal terms mean equal behaviour.

Terms (bit vectors, width w):
  ('k', w, n)            known number             ('n', w, Sym)   compile-time number of the compiler, mod 2^w
  ('mem', w, addr, ver)  memory word              ('x', s, w, t)  extension (s 's'/'z')
  ('lo', w, t)           low bits                 ('lin', w, off, ((t, coef), ..))  sum
  ('op', name, w, ..)    other operation          ('b', atoms, table)  truth value 0/1
Floats: ('mem', ..), ('fk', w, v), ('fop', name, w, ..), conversions ('cv', name, t).
"""
import re
from itertools import product
from absint import Sym, is_sym, show as ashow, AnalysisError, INT

W = {"i32": 32, "i64": 64, "f32": 32, "f64": 64}


class StackError(Exception):
    pass


class Unsupported(AnalysisError):
    pass


# ------------------------------------------------------------------ terms
def width(t):
    k = t[0]
    if k in ("k", "n", "mem", "lo", "lin", "fk"):
        return t[1]
    if k in ("x", "op", "fop"):
        return t[2]
    if k == "cv":
        return t[2]
    if k == "b":
        return 32
    if k == "ite":
        return width(t[2])
    if k == "garbled":
        return t[1]
    raise AnalysisError(f"width of {t}")


def key(t):
    return repr_t(t)


def repr_t(t):
    if is_sym(t):
        return f"S{t.id}"
    if isinstance(t, tuple):
        return "(" + ",".join(repr_t(x) for x in t) + ")"
    return repr(t)


def num(w, n):
    return ("k", w, n & ((1 << w) - 1))


def signed(w, n):
    return n - (1 << w) if n >> (w - 1) else n


def const_of(w, v):
    """term of a Rust-level integer value used as a w-bit constant"""
    if isinstance(v, tuple) and v[0] == "c":
        return num(w, v[1])
    if is_sym(v):
        if v.head == "cast":
            x, t = v.args
            if t in INT:
                b, s = INT[t]
                if b >= w:
                    return const_of(w, x)
                return ext("s" if s else "z", w, const_of(b, x))
        if v.head == "lin":
            r = num(w, v.args[0])
            for t, k in v.args[1]:
                r = add(w, r, scale(w, const_of(w, t), k))
            return r
        if v.ty is not None and v.ty[0] == "prim" and v.ty[1] in INT:
            b, s = INT[v.ty[1]]
            if b < w:
                return ext("s" if s else "z", w, ("n", b, v))
        return ("n", w, v)
    raise Unsupported(f"constant {ashow(v)}")


def lin_parts(t):
    if t[0] == "k":
        return t[2], {}
    if t[0] == "lin":
        return t[2], dict(t[3])
    return 0, {t: 1}


def mk_lin(w, off, parts):
    m = (1 << w) - 1
    parts = {t: k & m for t, k in parts.items() if k & m}
    off &= m
    if not parts:
        return ("k", w, off)
    if off == 0 and len(parts) == 1:
        (t, k), = parts.items()
        if k == 1:
            return t
    return ("lin", w, off, tuple(sorted(parts.items(), key=lambda x: key(x[0]))))


def add(w, a, b, sign=1):
    o1, p1 = lin_parts(a)
    o2, p2 = lin_parts(b)
    p = dict(p1)
    for t, k in p2.items():
        p[t] = p.get(t, 0) + sign * k
    return mk_lin(w, o1 + sign * o2, p)


def scale(w, a, k):
    o, p = lin_parts(a)
    return mk_lin(w, o * k, {t: c * k for t, c in p.items()})


def mul(w, a, b):
    if a[0] == "k":
        return scale(w, b, a[2])
    if b[0] == "k":
        return scale(w, a, b[2])
    return ("op", "mul", w) + tuple(sorted((a, b), key=key))


def ext(s, w, t):
    k = width(t)
    if t[0] == "b" or k == w and t[0] != "b":
        return t
    if t[0] == "k":
        return num(w, signed(k, t[2]) if s == "s" else t[2])
    if t[0] == "x" and width(t[3]) < k:
        if t[1] == s:
            return ext(s, w, t[3])
        if t[1] == "z":
            return ext("z", w, t[3])
    return ("x", s, w, t)


def lo(w, t):
    k = t[0]
    if k == "b":
        return t
    tw = width(t)
    if tw <= w:
        return t
    if k == "k":
        return num(w, t[2])
    if k == "n":
        return ("n", w, t[2])
    if k == "x":
        inner = t[3]
        iw = width(inner)
        if iw >= w:
            return lo(w, inner)
        return ext(t[1], w, inner)
    if k == "lo":
        return lo(w, t[2])
    if k == "lin":
        r = num(w, t[2])
        for x, c in t[3]:
            r = add(w, r, scale(w, lo(w, x), c))
        return r
    if k == "op" and t[1] in ("and", "or", "xor", "mul"):
        if t[1] == "mul":
            return mul(w, lo(w, t[3]), lo(w, t[4]))
        return bitop(t[1], w, lo(w, t[3]), lo(w, t[4]))
    return ("lo", w, t)


def bitop(name, w, a, b):
    if a[0] == "b" and b[0] == "b":
        return bcomb(name, a, b)
    if a[0] == "k" and b[0] == "k":
        x, y = a[2], b[2]
        return num(w, x & y if name == "and" else x | y if name == "or" else x ^ y)
    return ("op", name, w) + tuple(sorted((a, b), key=key))


# ---- truth values
def batom(a):
    return ("b", (a,), (0, 1))


def bconst(v):
    return ("b", (), (int(bool(v)),))


def bnorm(atoms, table):
    """drop atoms the table does not depend on"""
    atoms = list(atoms)
    i = 0
    while i < len(atoms):
        n = len(atoms)
        dep = False
        for j, bits in enumerate(product((0, 1), repeat=n)):
            if bits[i] == 0:
                o = list(bits)
                o[i] = 1
                j2 = int("".join(map(str, o)), 2)
                if table[j] != table[j2]:
                    dep = True
                    break
        if dep:
            i += 1
        else:
            table = tuple(table[j] for j, bits in enumerate(product((0, 1), repeat=n)) if bits[i] == 0)
            atoms.pop(i)
    return ("b", tuple(atoms), tuple(table))


def bapply(f, *bs):
    atoms = sorted({a for b in bs for a in b[1]}, key=key)
    if len(atoms) > 10:
        raise Unsupported("truth value over too many conditions")
    table = []
    for bits in product((0, 1), repeat=len(atoms)):
        m = dict(zip(atoms, bits))
        vals = []
        for b in bs:
            i = 0
            for a in b[1]:
                i = 2 * i + m[a]
            vals.append(b[2][i])
        table.append(int(bool(f(*vals))))
    return bnorm(atoms, tuple(table))


def bcomb(name, a, b):
    return bapply({"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[name], a, b)


def bnot(b):
    return bapply(lambda x: 1 - x, b)


def eq(w, a, b):
    if a[0] == "k":
        a, b = b, a
    if a == b:
        return bconst(1)
    if a[0] == "b" and b[0] == "k":
        if b[2] == 0:
            return bnot(a)
        if b[2] == 1:
            return a
        return bconst(0)
    if a[0] == "b" and b[0] == "b":
        return bnot(bcomb("xor", a, b))
    if a[0] == "k" and b[0] == "k":
        return bconst(a[2] == b[2])
    if a[0] == "x" and b[0] == "k":
        inner = a[3]
        iw = width(inner)
        v = signed(w, b[2]) if a[1] == "s" else b[2]
        lo_, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if a[1] == "s" else (0, (1 << iw) - 1)
        if lo_ <= v <= hi:
            return eq(iw, inner, num(iw, v))
        return bconst(0)
    if a[0] == "x" and b[0] == "x" and a[1] == b[1] and width(a[3]) == width(b[3]):
        return eq(width(a[3]), a[3], b[3])
    x, y = sorted((a, b), key=key)
    return batom(("eq", w, x, y))


def lt(sg, w, a, b):
    if a == b:
        return bconst(0)
    return batom(("lt_" + sg, w, a, b))


def to_bool(w, t):
    return t if t[0] == "b" else bnot(eq(w, t, num(w, 0)))


def feq(w, a, b):
    if a[0] == "fk" and b[0] == "fk" and not is_sym(a[2]) and not is_sym(b[2]):
        x, y = (z[2][1] if isinstance(z[2], tuple) else z[2] for z in (a, b))
        return bconst(float(x) == float(y))
    x, y = sorted((a, b), key=key)
    return batom(("feq", w, x, y))


def ftrue(w, t):
    return bnot(feq(w, t, ("fk", w, 0.0)))


# ------------------------------------------------------------------ show
def sh(t, d=7):
    if is_sym(t):
        return ashow(t, 3)
    if d == 0:
        return "…"
    k = t[0]
    if k == "k":
        return str(signed(t[1], t[2]) if t[2] >> (t[1] - 1) else t[2])
    if k == "n":
        return ashow(t[2], 3)
    if k == "fk":
        return str(t[2]) if not is_sym(t[2]) else ashow(t[2], 3)
    if k == "mem":
        return f"mem{t[1]}[{sh(t[2], d - 1)}]" + (f"@{t[3]}" if t[3] else "")
    if k == "x":
        return f"{t[1]}ext{t[2]}({sh(t[3], d - 1)})"
    if k == "lo":
        return f"low{t[1]}({sh(t[2], d - 1)})"
    if k == "lin":
        r = " + ".join((f"{signed(t[1], c)}*" if c != 1 else "") + sh(x, d - 1) for x, c in t[3])
        return "(" + r + (f" + {signed(t[1], t[2])}" if t[2] else "") + ")"
    if k in ("op", "fop"):
        return f"{t[1]}({', '.join(sh(x, d - 1) for x in t[3:])})"
    if k == "cv":
        return f"{t[1]}({sh(t[3], d - 1)})"
    if k == "b":
        if not t[1]:
            return f"bool({t[2][0]})"
        if len(t[1]) == 1:
            a = t[1][0]
            s_ = f"{a[0]}({', '.join(sh(x, d - 1) for x in a[2:])})"
            return s_ if t[2] == (0, 1) else "not " + s_
        return f"bool[{', '.join(a[0] + '(' + ', '.join(sh(x, d - 1) for x in a[2:]) + ')' for a in t[1])} -> {''.join(map(str, t[2]))}]"
    return "<" + " ".join(sh(x, d - 1) if isinstance(x, tuple) else str(x) for x in t) + ">"


# ------------------------------------------------------------------ instruction table
BIN = {"Add", "Sub", "Mul", "DivS", "DivU", "RemS", "RemU", "And", "Or", "Xor", "Shl", "ShrS", "ShrU", "RotL", "RotR", "Div", "Min", "Max",
       "CopySign"}
UN = {"Clz", "Ctz", "PopCnt", "Abs", "Neg", "Ceil", "Floor", "Trunc", "Nearest", "Sqrt", "Extend8S", "Extend16S", "Extend32S"}
CMPI = {"Eq", "Ne", "LtS", "LtU", "GtS", "GtU", "LeS", "LeU", "GeS", "GeU"}
CMPF = {"Eq", "Ne", "Lt", "Gt", "Le", "Ge"}
CONV = {"I32WrapI64": ("i64", "i32"), "I64ExtendI32S": ("i32", "i64"), "I64ExtendI32U": ("i32", "i64"), "F32DemoteF64": ("f64", "f32"),
        "F64PromoteF32": ("f32", "f64"), "I32ReinterpretF32": ("f32", "i32"), "I64ReinterpretF64": ("f64", "i64"),
        "F32ReinterpretI32": ("i32", "f32"), "F64ReinterpretI64": ("i64", "f64")}
for a_ in ("32", "64"):
    for b_ in ("32", "64"):
        for s_ in "SU":
            CONV[f"I{a_}TruncF{b_}{s_}"] = ("f" + b_, "i" + a_)
            CONV[f"I{a_}TruncSatF{b_}{s_}"] = ("f" + b_, "i" + a_)
            CONV[f"F{a_}ConvertI{b_}{s_}"] = ("i" + b_, "f" + a_)


def signature(name):
    """(operand types, result types) of a plain instruction, or None"""
    if name in CONV:
        s_, d_ = CONV[name]
        return [s_], [d_]
    m = re.match(r"^(I32|I64|F32|F64)(.+)$", name)
    if not m:
        return None
    t, o = m.group(1).lower(), m.group(2)
    if o == "Const":
        return [], [t]
    if re.match(r"^Load(8|16|32)?[SU]?$", o):
        return ["i32"], [t]
    if re.match(r"^Store(8|16|32)?$", o):
        return ["i32", t], []
    if o == "Eqz":
        return [t], ["i32"]
    if (o in CMPI and t[0] == "i") or (o in CMPF and t[0] == "f"):
        return [t, t], ["i32"]
    if o in BIN:
        return [t, t], [t]
    if o in UN:
        return [t], [t]
    return None


def mem_width(name):
    m = re.match(r"^(I32|I64|F32|F64)(Load|Store)(8|16|32)?([SU])?$", name)
    t = m.group(1).lower()
    return t, m.group(2), int(m.group(3)) if m.group(3) else W[t], m.group(4)


class Wasm:
    """Reads abstract WasmInstruction values."""

    def __init__(self, B):
        self.B = B

    def field(self, i, name):
        return self.B.get(i, name)

    def memarg(self, i):
        m = self.field(i, "mem_arg")
        al, off = self.B.get(m, "align"), self.B.get(m, "offset")
        if not (isinstance(al, tuple) and isinstance(off, tuple)):
            raise Unsupported("memory argument is not constant")
        return al[1], off[1]

    def blocktype(self, i):
        b = self.field(i, "blocktype")
        if b[2] == "None":
            return []
        if b[2] == "ValType":
            v = b[3][0]
            return [v[3][0][2].lower()]
        raise Unsupported("block type")

    def seq(self, v):
        if not (isinstance(v, tuple) and v[0] == "q"):
            raise Unsupported("instruction sequence " + ashow(v))
        return list(v[1])

    # ---- validation: (stack after, unreachable)
    def typecheck(self, items, stack=None, labels=(), result=(), fn_sigs=None, splice=None, locals_=()):
        """Validate a sequence; returns the stack (list of types) or None when the end is unreachable."""
        st = list(stack or [])
        dead = False

        def pop(t, what):
            if st:
                x = st.pop()
                if x != t and x != "any":
                    raise StackError(f"{what} needs {t} but finds {x} on the stack")
            elif not dead:
                raise StackError(f"{what} needs {t} but the stack is empty")
        for i in items:
            if i[0] == "splice":
                if splice is None:
                    raise Unsupported("unknown instructions " + ashow(i[1]))
                splice(i[1], labels)
                continue
            n = i[2]
            sig = signature(n)
            if sig:
                for t in reversed(sig[0]):
                    pop(t, n)
                st.extend(sig[1])
                if "Load" in n or "Store" in n:
                    al, _ = self.memarg(i)
                    if (1 << al) * 8 > mem_width(n)[2]:
                        raise StackError(f"{n} has alignment 2^{al}, larger than the access")
                continue
            if n == "Nop":
                continue
            if n in ("Block", "Loop", "IfElse"):
                bt = self.blocktype(i)
                if n == "IfElse":
                    pop("i32", "if")
                    arms = [self.seq(self.field(i, "if_instrs")), self.seq(self.field(i, "else_instrs"))]
                else:
                    arms = [self.seq(self.field(i, "instrs"))]
                lab = tuple(bt) if n != "Loop" else ()
                for a in arms:
                    r = self.typecheck(a, [], (lab,) + tuple(labels), result, fn_sigs, splice, locals_)
                    if r is not None and r != bt:
                        raise StackError(f"a {n} of type {bt or 'none'} ends with {r or 'nothing'} on the stack")
                st.extend(bt)
                continue
            if n in ("Br", "BrIf"):
                if n == "BrIf":
                    pop("i32", n)
                d = self.field(i, "label_idx")[3][0]
                if not isinstance(d, tuple):
                    raise Unsupported("branch depth")
                if d[1] > len(labels):
                    raise StackError(f"br {d[1]} leaves more blocks than there are ({len(labels)})")
                need = labels[d[1]] if d[1] < len(labels) else tuple(result)
                if need:
                    raise Unsupported("branch with a value")
                if n == "Br":
                    st, dead = [], True
                continue
            if n == "Return":
                for t in reversed(result):
                    pop(t, "return")
                st, dead = [], True
                continue
            if n == "Unreachable":
                st, dead = [], True
                continue
            if n == "Call":
                a, r = ([], []) if fn_sigs is None else fn_sigs(self.field(i, "func_idx"))
                for t in reversed(a):
                    pop(t, n)
                st.extend(r)
                continue
            if n == "Drop":
                if st:
                    st.pop()
                elif not dead:
                    raise StackError("drop on an empty stack")
                continue
            if n in ("LocalGet", "LocalSet", "LocalTee"):
                x = self.field(i, "local_idx")[3][0]
                if not isinstance(x, tuple) or x[1] >= len(locals_):
                    raise StackError(f"local {ashow(x)} does not exist")
                t = locals_[x[1]]
                if n != "LocalGet":
                    pop(t, n)
                if n != "LocalSet":
                    st.append(t)
                continue
            raise Unsupported("instruction " + n)
        if dead:
            return None if not st else st
        return st


class Machine:
    """Symbolic meaning of a straight-line sequence."""

    def __init__(self, B, on_call=None, locals_=()):
        self.w = Wasm(B)
        self.stack = []
        self.stores = []          # (region, off, width, term, addr)
        self.effects = []
        self.ended = None
        self.on_call = on_call
        self.locals = list(locals_)
        self.epoch = 0
        self.loads = []

    # ---- memory
    def region(self, addr):
        off, parts = lin_parts(addr)
        if off >> 31:
            off -= 1 << 32
        return tuple(sorted(parts.items(), key=lambda x: key(x[0]))), off

    def known_region(self, r):
        """regions assumed pairwise disjoint: the absolute area and frame/stack slots"""
        return True

    def may_alias(self, r1, r2):
        return False

    def read(self, w, addr):
        r, o = self.region(addr)
        for r2, o2, w2, t, _ in reversed(self.stores):
            if r2 == r:
                if o2 == o and w2 == w:
                    return t
                if o2 == o and w2 > w:
                    return lo(w, t)
                if o2 + w2 // 8 <= o or o + w // 8 <= o2:
                    continue
                return ("garbled", w, addr, t, o - o2)
            if self.may_alias(r, r2):
                return ("mem", w, addr, len(self.stores))
        return ("mem", w, addr, self.epoch)

    def write(self, w, addr, t):
        r, o = self.region(addr)
        self.stores.append((r, o, w, lo(w, t) if t[0] not in ("fk", "fop", "cv") else t, addr))

    def pop(self, t):
        if not self.stack:
            raise StackError("empty stack")
        ty, v = self.stack.pop()
        if ty != t:
            raise StackError(f"{t} expected, {ty} found")
        return v

    def push(self, t, v):
        self.stack.append((t, v))

    def run(self, items):
        for i in items:
            if self.ended:
                return
            self.step(i)

    def step(self, i):
        if i[0] == "splice":
            raise Unsupported("unknown instructions " + ashow(i[1]))
        n = i[2]
        if n == "IfElse":
            c_ = to_bool(32, self.pop("i32"))
            bt = self.w.blocktype(i)
            arms = [self.w.seq(self.w.field(i, "if_instrs")), self.w.seq(self.w.field(i, "else_instrs"))]
            if not bt:
                self.effects.append(("if", c_, arms, len(self.stores)))
                return
            vals = []
            ns = len(self.stores)
            for a in arms:
                depth = len(self.stack)
                self.run(a)
                if len(self.stack) != depth + 1 or len(self.stores) != ns or self.ended:
                    raise Unsupported("conditional value with effects")
                vals.append(self.pop(bt[0]))
            self.push(bt[0], self.ite(bt[0], c_, *vals))
            return
        if n == "Return":
            self.ended = "return"
            return
        if n == "Br":
            self.ended = ("br", self.w.field(i, "label_idx")[3][0])
            return
        if n == "Call":
            f = self.w.field(i, "func_idx")
            self.effects.append(("call", f, len(self.stores)))
            if self.on_call:
                self.on_call(self, f)
            return
        if n == "Nop":
            return
        if n == "Drop":
            self.stack.pop()
            return
        if n in ("LocalGet", "LocalSet", "LocalTee"):
            x = self.w.field(i, "local_idx")[3][0][1]
            if n == "LocalGet":
                self.push(*self.locals[x])
            else:
                v = self.pop(self.locals[x][0])
                self.locals[x] = (self.locals[x][0], v)
                if n == "LocalTee":
                    self.push(*self.locals[x])
            return
        sig = signature(n)
        if not sig:
            raise Unsupported("instruction " + n)
        a = [self.pop(t) for t in reversed(sig[0])][::-1]
        r = self.plain(n, i, a)
        if sig[1]:
            self.push(sig[1][0], r)

    def ite(self, ty, c_, a, b):
        if a == b:
            return a
        ab = a if a[0] == "b" else bconst(a[2]) if a[0] == "k" and a[2] in (0, 1) else None
        bb = b if b[0] == "b" else bconst(b[2]) if b[0] == "k" and b[2] in (0, 1) else None
        if ty == "i32" and ab is not None and bb is not None:
            return bapply(lambda c1, x, y: x if c1 else y, c_, ab, bb)
        return ("ite", c_, a, b)

    def plain(self, n, i, a):
        if n in CONV:
            return convert(n, a[0])
        m = re.match(r"^(I32|I64|F32|F64)(.+)$", n)
        t, o = m.group(1).lower(), m.group(2)
        w = W[t]
        if o == "Const":
            v = self.w.field(i, "n" if t[0] == "i" else "z")
            if t[0] == "i":
                return const_of(w, v)
            return fconst(w, v)
        if "Load" in o:
            _, _, mw, sg = mem_width(n)
            _, off = self.w.memarg(i)
            addr = add(32, a[0], num(32, off))
            v = self.read(mw, addr)
            self.loads.append((mw, addr))
            if t[0] == "f":
                return v
            return ext({"S": "s", "U": "z"}.get(sg, "z"), w, v) if mw < w else v
        if "Store" in o:
            _, _, mw, _ = mem_width(n)
            _, off = self.w.memarg(i)
            self.write(mw, add(32, a[0], num(32, off)), a[1])
            return None
        if t[0] == "i":
            if o == "Eqz":
                return eq(w, a[0], num(w, 0))
            if o == "Eq":
                return eq(w, a[0], a[1])
            if o == "Ne":
                return bnot(eq(w, a[0], a[1]))
            if o in CMPI:
                sg = "s" if o[2] == "S" else "u"
                x, y = a
                return {"Lt": lambda: lt(sg, w, x, y), "Gt": lambda: lt(sg, w, y, x), "Ge": lambda: bnot(lt(sg, w, x, y)),
                        "Le": lambda: bnot(lt(sg, w, y, x))}[o[:2]]()
            return iop(o, w, a)
        if o in CMPF:
            x, y = a
            return {"Eq": lambda: feq(w, x, y), "Ne": lambda: bnot(feq(w, x, y)), "Lt": lambda: batom(("flt", w, x, y)),
                    "Gt": lambda: batom(("flt", w, y, x)), "Le": lambda: batom(("fle", w, x, y)), "Ge": lambda: batom(("fle", w, y, x))}[o]()
        if o in ("Add", "Mul", "Min", "Max"):
            return ("fop", o.lower(), w) + tuple(sorted(a, key=key))
        return ("fop", o.lower(), w) + tuple(a)


def iop(o, w, a):
    if o == "Add":
        return add(w, a[0], a[1])
    if o == "Sub":
        return add(w, a[0], a[1], -1)
    if o == "Mul":
        return mul(w, a[0], a[1])
    if o in ("And", "Or", "Xor"):
        return bitop(o.lower(), w, a[0], a[1])
    if o.startswith("Extend"):
        k = int(re.sub(r"\D", "", o))
        return ext("s", w, lo(k, a[0]))
    if o == "Shl" and a[1][0] == "k":
        return scale(w, a[0], 1 << (a[1][2] % w))
    return ("op", re.sub(r"([SU])$", lambda m: "_" + m.group(1).lower(), o).lower() if o[:3] in ("Div", "Rem", "Shr") else o.lower(), w) + tuple(a)


def fconst(w, v):
    if isinstance(v, tuple) and v[0] == "c":
        x = float(v[1])
        return ("fk", w, "-0.0" if x == 0 and str(x) == "-0.0" else x)
    if is_sym(v) and v.head in ("IntToFloat", "FloatToFloat") and v.args[0].__class__ is tuple and v.args[0][0] == "c":
        x = float(v.args[0][1])
        if str(x) == "-0.0":
            return ("fk", w, "-0.0")
        if w == 64 or x == int(x) and abs(x) < 1 << 24:
            return ("fk", w, x)
    if is_sym(v) and v.head == "FloatToFloat" and w == 32:
        return ("cv", "F32DemoteF64", 32, fconst(64, v.args[0]))
    if is_sym(v) and w == 32 and v.ty == ("prim", "f64"):
        return ("cv", "F32DemoteF64", 32, ("fk", 64, v))
    return ("fk", w, v)


def convert(n, x):
    s_, d_ = CONV[n]
    if n == "I32WrapI64":
        return lo(32, x)
    if n.startswith("I64ExtendI32"):
        return ext("s" if n.endswith("S") else "z", 64, x)
    return ("cv", n, W[d_], x)
