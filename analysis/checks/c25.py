"""C25: compile-time evaluation computes the value C assigns to the expression."""
import itertools
import math
from front import *
from absint import *

TECHNIQUE = "abstract interpretation of the constant evaluator (MIR) on every expression form with unknown operand values; the value term and path conditions of each outcome compared with C's operation"
RULE = ("the constant evaluator is interpreted once for every operator and every combination of integer and floating operands whose values are unknown; on every path the resulting value must be C's operation applied to the operands in "
        "order, operands that cannot be evaluated must make the whole expression an error, and expressions with side effects or of unknown value must be rejected; enumerators and array bounds must receive exactly the value evaluated")
ASSUMPTIONS = ["operands and results are representable in the C type of the expression (otherwise C leaves the result undefined or the arithmetic unsigned)",
               "two value terms are compared at every boundary value of the operator and at the constants (and their neighbours) that occur in the path conditions"]
NOTE = "Wrap-around of unsigned constant arithmetic is not decided."

U128, F64 = ("prim", "u128"), ("prim", "f64")
FREE = "free"
GRID = [-(1 << 31), -(1 << 31) + 1, -255, -128, -8, -7, -3, -2, -1, 0, 1, 2, 3, 5, 7, 8, 31, 127, 128, 255, (1 << 31) - 1, 1 << 32]
FGRID = [-1e30, -7.5, -2.0, -1.0, -0.5, -1e-30, -0.0, 0.0, 1e-30, 0.5, 1.0, 2.0, 2.5, 3.0, 1e30]
WIDTHS = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "i64": (64, 1), "u64": (64, 0), "isize": (64, 1), "usize": (64, 0), "i128": (128, 1), "u128": (128, 0)}


class Undefined(Exception):
    pass


def wrap(v, ty):
    if ty not in WIDTHS:
        raise AnalysisError(f"cast to {ty}")
    n, signed = WIDTHS[ty]
    v &= (1 << n) - 1
    return v - (1 << n) if signed and v >> (n - 1) else v


def trunc_div(a, b):
    if b == 0:
        raise Undefined
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def fdiv(a, b):
    if b == 0:
        return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def binary(op, a, b):
    """C's operation"""
    fl = isinstance(a, float) or isinstance(b, float)
    if fl and op in ("Mod", "LeftShift", "RightShift", "BitwiseAnd", "BitwiseOr", "BitwiseXor"):
        return "error"
    if fl and op not in ("LogicalAnd", "LogicalOr"):
        a, b = float(a), float(b)
    if op == "Mult":
        return a * b
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Div":
        if fl:
            return fdiv(a, b)
        return FREE if b == 0 else trunc_div(a, b)
    if op == "Mod":
        return FREE if b == 0 else a - b * trunc_div(a, b)
    if op in ("LeftShift", "RightShift"):
        if not 0 <= b < 32 or (op == "LeftShift" and a < 0):
            return FREE
        return a << b if op == "LeftShift" else a >> b
    r = {"LessThan": lambda: a < b, "GreaterThan": lambda: a > b, "LessThanEq": lambda: a <= b, "GreaterThanEq": lambda: a >= b, "Equal": lambda: a == b, "NotEqual": lambda: a != b,
         "BitwiseAnd": lambda: a & b, "BitwiseOr": lambda: a | b, "BitwiseXor": lambda: a ^ b, "LogicalAnd": lambda: bool(a) and bool(b), "LogicalOr": lambda: bool(a) or bool(b)}[op]()
    return int(r)


def unary(op, a):
    if op == "Plus":
        return a
    if op == "Minus":
        return -a
    if op == "BitwiseNot":
        return "error" if isinstance(a, float) else ~a
    return int(not a)


class Value:
    """terms over the operand values of env"""

    def __init__(self, env):
        self.env = env

    def __call__(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == "c":
                return t[1]
            if t[0] in ("box",):
                return self(t[1])
            if t[0] == "str":
                return t[1]
        if isinstance(t, (int, float)):
            return t
        if not is_sym(t):
            raise AnalysisError(f"value {t!r}"[:200])
        h, a = str(t.head), t.args
        if h in ("v", "fv"):
            return self.env[a[0]]
        if h in ("cast", "IntToInt"):
            v = self(a[0])
            if t.ty is None or t.ty[0] != "prim":
                raise AnalysisError("cast")
            # an operand's value may be negative: it stands for the constant and its negation
            return v if is_sym(a[0]) and a[0].head == "v" else wrap(int(v), t.ty[1])
        if h == "IntToFloat":
            return float(self(a[0]))
        if h == "FloatToInt":
            v = self(a[0])
            return wrap(int(v), "i128") if math.isfinite(v) else 0
        if h == "cmp":
            x, y = self(a[1]), self(a[2])
            return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[a[0]])
        if h == "not":
            v = self(a[0])
            return 1 - v if t.ty == ("prim", "bool") or boolean(a[0]) else ~v
        if h == "lin":
            return a[0] + sum(k * self(x) for x, k in a[1])
        if h == "*" and len(a) == 1:
            return self(a[0])
        op = h.split(":")[-1]
        vs = [self(x) for x in a if not isinstance(x, str)]
        if op in ("Neg", "-") and len(vs) == 1:
            return -vs[0]
        if op == "Not" and len(vs) == 1:
            return 1 - vs[0] if boolean(a[0]) else ~vs[0]
        if len(vs) == 2:
            x, y = vs
            fl = isinstance(x, float) or isinstance(y, float)
            op = op.replace("Unchecked", "").replace("WithOverflow", "")
            if op in ("Add", "+"):
                return x + y
            if op in ("Mul", "*", "mul"):
                return x * y
            if op in ("Sub", "-", "sub"):
                return x - y
            if op == "Div":
                return fdiv(x, y) if fl else trunc_div(x, y)
            if op == "Rem":
                if fl:
                    return math.fmod(x, y)
                return x - y * trunc_div(x, y)
            if op in ("Shl", "Shr"):
                if not 0 <= y < 128:
                    raise Undefined
                return x << y if op == "Shl" else x >> y
            if op in ("BitAnd", "and"):
                return x & y
            if op in ("BitOr", "or"):
                return x | y
            if op == "BitXor":
                return x ^ y
        m = h.split(".")[-1]
        if m == "none" and ".checked_" in h:
            kind = h.split("checked_")[1].split(".")[0]
            x, y = (vs + [0])[:2]
            if kind in ("div", "rem"):
                return int(y == 0)
            if kind in ("shl", "shr"):
                return int(not 0 <= y < 128)
            r = x + y if kind == "add" else x - y if kind == "sub" else x * y if kind == "mul" else -x
            return int(wrap(r, h.split(":")[1].split(".")[0]) != r)
        if len(vs) == 1 and m in ("abs", "wrapping_neg", "neg", "fabs", "signum", "wrapping_abs"):
            return {"abs": abs(vs[0]), "fabs": abs(vs[0]), "wrapping_abs": abs(vs[0]), "signum": (vs[0] > 0) - (vs[0] < 0)}.get(m, -vs[0])
        if len(vs) == 2:
            x, y = vs
            if m in ("wrapping_add", "saturating_add"):
                return x + y
            if m in ("wrapping_sub", "saturating_sub"):
                return x - y
            if m in ("wrapping_mul", "saturating_mul"):
                return x * y
            if m in ("wrapping_div", "wrapping_rem"):
                return trunc_div(x, y) if m == "wrapping_div" else x - y * trunc_div(x, y)
            if m in ("rem_euclid", "div_euclid"):
                r = x % abs(y) if y else None
                if r is None:
                    raise Undefined
                return r if m == "rem_euclid" else (x - r) // y
            if m in ("wrapping_shl", "wrapping_shr"):
                return x << (y & 127) if m == "wrapping_shl" else x >> (y & 127)
            if m in ("min", "max"):
                return min(vs) if m == "min" else max(vs)
            if m == "pow":
                return x ** y if y < 64 else 0
        raise AnalysisError(f"operation {h}")


def boolean(t):
    return is_sym(t) and (t.head == "cmp" or t.ty == ("prim", "bool") or t.head in ("not", "bin:BitAnd", "bin:BitOr") and all(map(boolean, t.args)))


def holds(ev, refine, neq):
    for t, v in refine.items():
        if isinstance(v, tuple) and v and v[0] == "c" and ev(t) != v[1]:
            return False
    for t, vs in neq.items():
        if ev(t) in [x[1] if isinstance(x, tuple) else x for x in vs]:
            return False
    return True


def constants(t, out):
    if is_sym(t):
        for a in t.args:
            constants(a, out)
    elif isinstance(t, tuple) and t and t[0] == "c" and isinstance(t[1], int):
        if abs(t[1]) < 1 << 40:
            out.add(t[1])
    elif isinstance(t, (tuple, list)):
        for a in t:
            constants(a, out)


class Constants(Front):
    def __init__(self, ck):
        Front.__init__(self, ck)
        self.cadt = next(a for a in self.I.prog.adts if a.endswith("ast::Constant"))
        self.eval_int = next((fn for n, fn in ck.lib().fns.items() if n.endswith("compile_time_eval::eval_integral_constant_expression")), None)
        self.eval_any = next((fn for n, fn in ck.lib().fns.items() if n.endswith("compile_time_eval::eval_initialiser_constant_expression")), None)
        self.J = ck.interp(lambda n: None, assume_ok=False)

    def lit(self, n, kind):
        return self.E("Constant", ("e", self.cadt, *(("Int", (Sym("v", (n,), U128),)) if kind == "i" else ("Float", (Sym("fv", (n,), F64),)))))

    def ev(self, e, integral):
        """[(state, value term or None)]"""
        f = self.eval_int if integral else self.eval_any
        self.J.panics.clear()
        out = []
        for st, r in self.J.run(f, [e], State()):
            for s2, v in self.J.split_enum(st, r):
                if v[2] == "Err":
                    out.append((s2, None))
                    continue
                x = self.J.freeze(s2, v[3][0])
                while isinstance(x, tuple) and x and x[0] == "e":
                    x = x[3][0]
                out.append((s2, x))
        return out


def decide(ck, K, key, e, names, reference, integral, where, must=True):
    """the outcomes of e are reference(values)"""
    outs = K.ev(e, integral)
    extra = set()
    for st, v in outs:
        for t, x in st.refine.items():
            constants(t, extra)
            constants(x, extra)
        for t, xs in st.neq.items():
            constants(t, extra)
            extra |= {x[1] if isinstance(x, tuple) else x for x in xs}
        constants(v, extra)
    extra = {y for x in extra if isinstance(x, int) and abs(x) < 1 << 40 for y in (x - 1, x, x + 1)}
    cols = [sorted(set(GRID) | extra) if k == "i" else sorted(set(FGRID) | set(map(float, extra))) for _, k in names]
    n = 0
    for vals in itertools.product(*cols):
        env = {nm: v for (nm, _), v in zip(names, vals)}
        want = reference(*vals)
        if want is FREE or integral and isinstance(want, float):
            continue
        if isinstance(want, int) and not -(1 << 31) <= want < 1 << 31 and all(isinstance(v, int) and -(1 << 31) <= v < 1 << 31 for v in vals):
            continue        # overflow of int
        ev = Value(env)
        hit = []
        try:
            hit = [(st, v) for st, v in outs if holds(ev, st.refine, st.neq)]
        except Undefined:
            pass
        n += 1
        if len(hit) != 1:
            ck.ob("value", key, False, f"{key}: no value when {env}" + (f": {K.J.panics[0]}" if K.J.panics else ""), where)
            return
        got = hit[0][1]
        try:
            got = "error" if got is None else ev(got)
        except Undefined:
            got = "undefined"
        if got == "error" and (want == "error" or not must):
            continue
        same = got == want and (isinstance(got, float) == isinstance(want, float) or isinstance(want, str)) or (isinstance(got, float) and isinstance(want, float) and got != got and want != want)
        if not same:
            ck.ob("value", key, False, f"{key} has the value {got} when {env}, not {want}", where)
            return
    ck.ob("value", key, True, "", where, f"{key}: {len(outs)} paths, {n} combinations of boundary values")


def check(ck):
    K = Constants(ck)
    if K.eval_int is None:
        raise AnalysisError("eval_integral_constant_expression not found")
    w = ck.where(K.eval_int)
    ops = list(K.B.variants("ast::BinaryOperator"))
    uops = list(K.B.variants("ast::UnaryOperator"))
    for op in ops:
        for ka, kb in itertools.product("if", repeat=2):
            for integral in (True, False):
                if not integral and K.eval_any is None:
                    continue
                e = K.bin(op, K.lit("l", ka), K.lit("r", kb))
                # C requires integers to be evaluated; floating operands may be rejected
                ck.guard("value", f"{op}/{ka}{kb}/{integral}", decide, ck, K, f"{'int' if ka == 'i' else 'float'} {op} {'int' if kb == 'i' else 'float'}" + ("" if integral else " (initialiser)"), e,
                         [("l", ka), ("r", kb)], lambda a, b, op=op: binary(op, a, b), integral, w, ka + kb == "ii")
    for op in uops:
        for k in "if":
            for integral in (True, False):
                if not integral and K.eval_any is None:
                    continue
                e = K.un(op, K.lit("l", k))
                ref = (lambda a: "error") if op in ("AddressOf", "Dereference") else (lambda a, op=op: unary(op, a))
                ck.guard("value", f"{op}/{k}/{integral}", decide, ck, K, f"{op} {'int' if k == 'i' else 'float'}" + ("" if integral else " (initialiser)"), e, [("l", k)], ref, integral, w, k == "i")
    for k in "if":
        e = K.lit("l", k)
        ck.guard("value", f"constant/{k}", decide, ck, K, f"constant {k}", e, [("l", k)], lambda a: a, k == "i", w, k == "i")
        e = K.E("Ternary", box(K.lit("p", k)), box(K.lit("l", "i")), box(K.lit("r", "i")))
        ck.guard("value", f"ternary/{k}", decide, ck, K, f"ternary on {k}", e, [("p", k), ("l", "i"), ("r", "i")], lambda p, a, b: a if p else b, True, w, k == "i")
    # nesting: operands that are themselves expressions
    N = [("x", "i"), ("y", "i"), ("z", "i")]
    X, Y, Z = K.lit("x", "i"), K.lit("y", "i"), K.lit("z", "i")
    small = lambda f: lambda *a: FREE if max(map(abs, a)) > 255 else f(*a)
    nests = {"x - (y - z)": (K.bin("Sub", X, K.bin("Sub", Y, Z)), lambda x, y, z: x - (y - z)), "(x - y) * z": (K.bin("Mult", K.bin("Sub", X, Y), Z), lambda x, y, z: (x - y) * z),
             "-(x - y) < z": (K.bin("LessThan", K.un("Minus", K.bin("Sub", X, Y)), Z), lambda x, y, z: int(-(x - y) < z)), "!(x && y) + ~z": (K.bin("Add", K.un("LogicalNot", K.bin("LogicalAnd", X, Y)), K.un("BitwiseNot", Z)), lambda x, y, z: int(not (x and y)) + ~z),
             "(x < y ? y : x) - z": (K.bin("Sub", K.E("Ternary", box(K.bin("LessThan", X, Y)), box(Y), box(X)), Z), lambda x, y, z: (y if x < y else x) - z)}
    for key, (e, ref) in nests.items():
        ck.guard("value", key, decide, ck, K, key, e, N, small(ref), True, w)
    # operands that cannot be evaluated
    bad = {"a variable": K.E("Identifier", K.ident("v")), "a string": K.E("StringLiteral", ("str", "s")), "a call": K.E("FunctionCall", box(K.E("Identifier", K.ident("f"))), q()),
           "an assignment": K.E("Assignment", box(K.E("Identifier", K.ident("v"))), box(K.lit("l", "i"))), "an element": K.E("Index", box(K.E("Identifier", K.ident("v"))), box(K.lit("l", "i"))),
           "a member": K.E("DirectMemberSelection", box(K.E("Identifier", K.ident("v"))), K.ident("m")), "a member of a pointer": K.E("IndirectMemberSelection", box(K.E("Identifier", K.ident("v"))), K.ident("m"))}
    for v in ("PostfixIncrement", "PostfixDecrement", "PrefixIncrement", "PrefixDecrement"):
        bad[v] = K.E(v, box(K.E("Identifier", K.ident("v"))))
    wraps = {"itself": lambda b: b, "left operand": lambda b: K.bin("Add", b, K.lit("r", "i")), "right operand": lambda b: K.bin("Sub", K.lit("r", "i"), b), "operand of -": lambda b: K.un("Minus", b), "condition": lambda b: K.E("Ternary", box(b), box(X), box(Y))}

    def rejected(key, e):
        outs = K.ev(e, True)
        ck.ob("reject", key, bool(outs) and all(v is None for _, v in outs), f"{key} is given the value {show(outs[0][1], 3) if outs else None} at compile time", w, key)
    for name, b in bad.items():
        for wn, f in wraps.items():
            ck.guard("reject", f"{name} as {wn}", rejected, f"{name} as {wn}", f(b))
    # casts, sizeof and the comma operator: rejected, or evaluated correctly
    for t, rng in (("I8", "i8"), ("U8", "u8"), ("I16", "i16"), ("U16", "u16"), ("I32", "i32"), ("U32", "u32"), ("I64", "i64"), ("U64", "u64")):
        ck.guard("value", f"cast/{t}", decide, ck, K, f"cast to {t}", K.E("Cast", box(K.typename(t)), box(X)), N[:1], lambda a, rng=rng: wrap(a, rng), True, w, False)
        size = WIDTHS[rng][0] // 8
        ck.guard("value", f"sizeof/{t}", decide, ck, K, f"sizeof({t})", K.E("SizeOfType", box(K.typename(t))), [], lambda size=size: size, True, w, False)
    ck.guard("value", "comma", decide, ck, K, "x, y", K.E("ExpressionList", box(X), box(Y)), N[:2], lambda a, b: b, True, w, False)
    enumerators(ck, K)
    bounds(ck, K)
    ck.floor("value", 4 * len(ops))
    ck.floor("reject", 50)
    ck.floor("enum", 12)
    ck.floor("bound", 4)


def enumerators(ck, K):
    """each enumerator has its own value, or one more than its predecessor's"""
    f = next((fn for n, fn in ck.lib().fns.items() if n.endswith("get_ast_type_info::get_type_info")), None)
    if f is None:
        raise AnalysisError("get_type_info not found")
    w = ck.where(f)
    B = K.B
    for pat in itertools.product("se", repeat=3):
        def one(pat=pat):
            K.reset()
            st = State()
            pr, ctx = K.program(st), K.context(st)
            items, want, last = [], [], -1
            base = None
            for i, p in enumerate(pat):
                if p == "s":
                    items.append(B.new("ast::Enumerator", "Simple", K.ident(f"e{i}")))
                    last = (last[0], last[1] + 1) if isinstance(last, tuple) else last + 1
                else:
                    items.append(B.new("ast::Enumerator", "WithValue", K.ident(f"e{i}"), K.lit(f"w{i}", "i")))
                    last = (f"w{i}", 0)
                want.append(last)
            ts = B.new("front_end::ast::TypeSpecifier", "Enum", B.new("ast::EnumType", "Definition", NONE, q(*items)))
            sq = B.new("SpecifierQualifier", None, type_specifier=ts, storage_class_specifier=NONE, const_=c(0), inline=c(0))
            cell = K.I.cell(st, "specifier", sq)
            outs = [(s2, r) for s2, r in K.I.run(f, [cell, NONE, c(0), pr, ctx], st)]
            good = [(s2, r) for s2, r in outs if r[0] == "e" and r[2] == "Ok"]
            if not good:
                raise AnalysisError("no outcome")
            for s2, _ in good:
                for i, wv in enumerate(want):
                    for val in (0, 1, -5, 41, (1 << 31) - 3):
                        env = {f"w{j}": val + 100 * j if val < 1 << 20 else val for j in range(3)}
                        ev = Value(env)
                        if not holds(ev, s2.refine, s2.neq):
                            continue
                        for o in K.expr(K.E("Identifier", K.ident(f"e{i}")), s2.copy(), pr, ctx):
                            if o[1] != "Ok" or o[3][2] != "Constant" or o[3][3][0][2] != "Int":
                                raise AnalysisError("an enumerator is not a constant")
                            got = ev(o[3][3][0][3][0])
                            exp = env[wv[0]] + wv[1] if isinstance(wv, tuple) else wv
                            ck.ob("enum", f"{''.join(pat)}/{i}", got == exp, f"enumerator {i} of an enumeration of the form {''.join(pat)} (s: without, e: with a value) has the value {got}, not {exp}", w, f"{''.join(pat)}/{i}")
        ck.guard("enum", "".join(pat), one)


def bounds(ck, K):
    """the bound of an array is the value of its expression"""
    f = next((fn for n, fn in ck.lib().fns.items() if n.endswith("get_ast_type_info::get_type_info")), None)
    w = ck.where(f)
    B = K.B
    D = lambda v, *a: B.new("ast::Declarator", v, *a)

    def one(key, decl, want):
        K.reset()
        st = State()
        pr, ctx = K.program(st), K.context(st)
        sq = K.specifier("I32")
        cell = K.I.cell(st, "specifier", sq)
        n = 0
        for s2, r in K.I.run(f, [cell, some(decl), c(0), pr, ctx], st):
            if r[2] != "Ok":
                continue
            t = K.I.freeze(s2, r)[3][0]
            t = t[3][0][1][0]
            dims = []
            t = unbox(t)
            while t[2] == "ArrayOf":
                size = t[3][1]
                if size[2] == "None":
                    dims.append(None)
                else:
                    size = size[3][0]
                    dims.append(Value({"a": 11, "b": 6})(size[3][0]) if size[2] == "CompileTime" else ("runtime", unbox(size[3][0])[2]))
                t = unbox(t[3][0])
            if not holds(Value({"a": 11, "b": 6}), s2.refine, s2.neq):
                continue
            n += 1
            ck.ob("bound", key, dims == want and t[2] == "I32", f"`int {key}` is given the dimensions {dims} of {t[2]}, not {want}", w, key)
        ck.ob("bound", key, n > 0, f"`int {key}` is not accepted", w)
    x = D("Identifier", K.ident("x"))
    a, b_ = K.lit("a", "i"), K.lit("b", "i")
    A = lambda d, e: D("ArrayDeclarator", box(d), some(box(e)) if e is not None else NONE)
    ck.guard("bound", "x[a]", one, "x[a]", A(x, a), [11])
    ck.guard("bound", "x[]", one, "x[]", A(x, None), [None])
    ck.guard("bound", "x[a][b]", one, "x[a][b]", A(A(x, a), b_), [11, 6])
    ck.guard("bound", "x[a - b]", one, "x[a - b]", A(x, K.bin("Sub", a, b_)), [5])
    ck.guard("bound", "x[v]", one, "x[v]", A(x, K.E("Identifier", K.ident("v"))), [("runtime", "Identifier")])
