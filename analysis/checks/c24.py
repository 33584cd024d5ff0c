"""C24: character constants and string literals denote the bytes C defines."""
import itertools
from front import *
from absint import *
from asm import Assembly
from c22 import Eval, predicate

TECHNIQUE = "abstract interpretation of the escape decoder on unknown characters (MIR), its path conditions split over the character classes; constant propagation through the data segment"
RULE = ("interpret_string is interpreted on texts of unknown characters; every path's condition is evaluated for each combination of character classes, and its result must be the bytes C's escapes denote: each simple, octal and "
        "hexadecimal escape its value, every other character itself, malformed and out-of-range escapes an error. The module assembly is interpreted with literals of every byte: their bytes must be in the data segment, followed by NUL. "
        "The conversion of character constants and of string initialisers is interpreted for every byte.")
ASSUMPTIONS = ["texts of at most 5 characters exhibit every way escapes can follow one another (an escape looks at most at the characters up to the first that cannot belong to it)"]
NOTE = "Hexadecimal escapes longer than the bound are covered by their first digits only."

SIMPLE = {"'": 39, '"': 34, "?": 63, "\\": 92, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}
OCT, HEX = "01234567", "0123456789abcdefABCDEF"
STRING = ("adt", "std::string::String", ())
ERR = "error"
FREE = "free"


def reference(text):
    """the bytes of the text, ERR, or FREE where C leaves it open"""
    out, i, free = [], 0, False
    while i < len(text):
        ch = text[i]
        if ch != "\\":
            out += list(ch.encode())
            i += 1
            continue
        i += 1
        if i >= len(text):
            return ERR
        ch = text[i]
        if ch in SIMPLE:
            out.append(SIMPLE[ch])
            i += 1
        elif ch in OCT:
            j = i
            while j < len(text) and j < i + 3 and text[j] in OCT:
                j += 1
            v = int(text[i:j], 8)
            free |= v > 255
            out.append(v & 255)
            i = j
        elif ch == "x":
            j = i + 1
            while j < len(text) and text[j] in HEX:
                j += 1
            if j == i + 1:
                return ERR
            v = int(text[i + 1:j], 16)
            free |= v > 255
            out.append(v & 255)
            i = j
        else:
            return ERR
    return FREE if free else tuple(out)


class Text(Eval):
    """terms over the characters of a concrete text"""

    def __init__(self, text):
        self.text = text

    def __call__(self, t):
        if is_sym(t):
            h = str(t.head)
            if h == "ch":
                return ord(self.text[t.args[0]])
            if h == "radix":
                s, r, w = t.args[0], t.args[1], t.args[2]
                return int(self.written(s), r)
            if h == "parses":
                try:
                    v = int(self.written(t.args[0]), t.args[1])
                except ValueError:
                    return 0
                return int(0 <= v <= t.args[2])
            if h == "isscalar":
                v = self(t.args[0])
                return int(v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF)
            if h == "fits":
                return int(0 <= self(t.args[0]) <= t.args[1])
            if h == "*":
                return self(t.args[0])
            if h.startswith("char:") or h.startswith("call:"):
                m = h.split(":")[-1]
                if t.args:
                    v = self(t.args[0])
                    if isinstance(v, int):
                        if m in ("to_ascii_lowercase", "to_ascii_uppercase"):
                            return ord(chr(v).lower() if "lower" in m else chr(v).upper())
                        r = predicate("x::" + m, chr(v), [a if isinstance(a, tuple) else None for a in t.args[1:]])
                        if r is not None:
                            return int(r)
            if h in ("cast", "as", "trunc", "zext", "sext") and t.args:
                return self(t.args[-1] if h != "cast" else t.args[0])
            if h in ("strof", "strpush", "strcat"):
                return "".join(chr(x) if isinstance(x, int) else x for x in map(self, t.args))
            if h in ("len", "strlen") and t.args:
                return len(self.written(t.args[0]).encode())
        if isinstance(t, tuple) and t and t[0] == "q":
            return "".join(chr(x) if isinstance(x, int) else x for x in map(self, t[1]))
        return Eval.__call__(self, t)

    def written(self, t):
        v = self(t)
        return chr(v) if isinstance(v, int) else v


class Decoder:
    def __init__(self, ck):
        self.ck = ck
        self.I = ck.interp(self.policy, assume_ok=False)
        self.I.max_steps = 4000000
        self.f = next(fn for n, fn in ck.lib().fns.items() if n.endswith("interpret_string::interpret_string"))

    def policy(self, n):
        m = n.split("::")[-1]
        I = self.I if hasattr(self, "I") else None
        if m in ("chars", "bytes", "as_bytes", "into_bytes", "char_indices"):
            def chars(I, st, a, dty):
                v = I.freeze(st, I.deref(st, a[0]))
                while is_sym(v) and v.head == "*":
                    v = v.args[0]
                if is_sym(v) and v.head == "text":
                    items = tuple(Sym("ch", (i,), ("prim", "char")) for i in range(v.args[0]))
                elif is_sym(v) and v.head in ("strof", "strpush", "strcat"):
                    items = tuple(v.args)
                else:
                    return NotImplemented
                if m in ("as_bytes", "into_bytes"):
                    return [(st, ("q", items))]
                if m == "char_indices":
                    items = tuple(("t", (c(i), x)) for i, x in enumerate(items))
                return [(st, ("it", items))]
            return chars
        if m in ("collect", "from_iter"):
            def coll(I, st, a, dty):
                v = I.deref(st, a[0])
                if not (isinstance(v, tuple) and v[0] == "e" and v[1] in I.trait_impls.get("next", {})):
                    return NotImplemented
                nxt = I.prog.fns[I.trait_impls["next"][v[1]]]
                cell = I.cell(st, ("iter", st.nfresh), v)
                st.nfresh += 1
                out, cur = [], [(st, ())]
                for _ in range(64):
                    new = []
                    for s, acc in cur:
                        for s2, r in I.exec_fn(s, nxt, [cell], {}):
                            for s3, e in I.split_enum(s2, r):
                                if e[2] == "None":
                                    out.append((s3, acc))
                                else:
                                    x = e[3][0]
                                    if dty[1].endswith("Result"):
                                        for s4, y in I.split_enum(s3, x):
                                            if y[2] == "Err":
                                                out.append((s4, y))
                                            else:
                                                new.append((s4, acc + (y[3][0],)))
                                    else:
                                        new.append((s3, acc + (x,)))
                    cur = new
                    if not cur:
                        break
                res = []
                for s, acc in out:
                    if isinstance(acc, tuple) and acc and acc[0] == "e":
                        res.append((s, acc))
                    else:
                        v = Sym("strof", tuple(I.tm(s, x) for x in acc), STRING)
                        res.append((s, ("e", "std::result::Result", "Ok", (v,)) if dty[1].endswith("Result") else v))
                return res
            return coll
        if m == "from_str_radix":
            top = {"u8": 255, "i8": 127, "u16": 65535, "u32": 2 ** 32 - 1, "i32": 2 ** 31 - 1, "u64": 2 ** 64 - 1, "i64": 2 ** 63 - 1}

            def radix(I, st, a, dty):
                w = dty[2][0][1]
                s_ = I.tm(st, I.deref(st, a[0]))
                r = I.freeze(st, I.deref(st, a[1]))[1]
                k = top.get(w, 2 ** 127 - 1)
                out = []
                for s2, b in I.split_bool(st, Sym("parses", (s_, r, k), ("prim", "bool"))):
                    v = Sym("radix", (s_, r, w), ("prim", w))
                    out.append((s2, ("e", "std::result::Result", "Ok", (v,)) if b else ("e", "std::result::Result", "Err", (Sym("parse_error", (), None),))))
                return out
            return radix
        if m == "from_u32" or m == "from_digit":
            def fu(I, st, a, dty):
                x = I.rv(st, a[0])
                if not is_sym(x) or m != "from_u32":
                    return NotImplemented
                return [(s2, ("e", "std::option::Option", "Some", (x,)) if b else ("e", "std::option::Option", "None", ())) for s2, b in I.split_bool(st, Sym("isscalar", (x,), ("prim", "bool")))]
            return fu
        if m in ("from", "into") and ("char" in n or "u32" in n or "u8" in n):
            def fr(I, st, a, dty):
                x = I.rv(st, a[0])
                ok = is_sym(x) and x.ty is not None and x.ty[0] == "prim" or isinstance(x, tuple) and x[0] == "c"
                return [(st, x)] if ok and (dty is None or dty[0] == "prim") else NotImplemented
            return fr
        if m in ("try_from", "try_into"):
            def tf(I, st, a, dty):
                x = I.rv(st, a[0])
                w = dty[2][0][1]
                if not is_sym(x) or w not in ("u8", "char"):
                    return NotImplemented
                p = Sym("fits", (x, 255), ("prim", "bool")) if w == "u8" else Sym("isscalar", (x,), ("prim", "bool"))
                return [(s2, ("e", "std::result::Result", "Ok", (x,)) if b else ("e", "std::result::Result", "Err", (Sym("range_error", (), None),))) for s2, b in I.split_bool(st, p)]
            return tf
        return None

    def paths(self, text):
        """[(conditions [(term, value)], result)] for an unknown text of n characters, or a known text"""
        st = State()
        arg = Sym("text", (text,), ("prim", "str")) if isinstance(text, int) else ("str", text)
        self.I.panics.clear()
        out = []
        for s, r in self.I.run(self.f, [arg], st):
            out.append((list(s.refine.items()), list(s.neq.items()) if hasattr(s.neq, "items") else list(s.neq), self.I.freeze(s, r)))
        return out, list(self.I.panics)


def holds(ev, refine, neq):
    for t, v in refine:
        if isinstance(v, tuple) and v and v[0] == "c":
            if ev(t) != v[1]:
                return False
    for x in neq:
        t, vs = x if isinstance(x, tuple) and len(x) == 2 else (x, ())
        if is_sym(t):
            k = ev(t)
            for v in (vs if isinstance(vs, (list, tuple, set, frozenset)) else [vs]):
                v = v[1] if isinstance(v, tuple) and v and v[0] == "c" else v
                if k == v:
                    return False
    return True


CLASSES = ["\\", "'", '"', "?", "a", "b", "f", "n", "r", "t", "v", "x", "0", "7", "3", "8", "9", "c", "D", "F", "g", "u", "%", "\n", "e"]


def pin(refine, i):
    """the value the path fixes character i at"""
    for t, v in refine:
        if is_sym(t) and t.head == "ch" and t.args[0] == i and isinstance(v, tuple) and v[0] == "c":
            return chr(v[1])
    return None


def check_decoder(ck, n, to_bytes):
    D = Decoder(ck)
    w = ck.where(D.f)
    paths, panics = D.paths(n)
    total = 0
    seen = {}
    bad = 0
    for refine, neq, r in paths:
        cols = []
        for i in range(n):
            k = pin(refine, i)
            cols.append([k] if k is not None else CLASSES)
        if n == 1:
            cols = [[chr(i) for i in range(1, 128)]] if cols[0] == CLASSES else cols
        # single-character conditions first
        one = {}
        for t, v in refine:
            ids = chars_of(t)
            if len(ids) == 1:
                one.setdefault(next(iter(ids)), []).append((t, v))
        for i, conds in one.items():
            keep = []
            for ch in cols[i]:
                ev = Text({i: ch})
                if holds(ev, conds, []):
                    keep.append(ch)
            cols[i] = keep
        for x in neq:
            t, vs = x
            if is_sym(t) and t.head == "ch":
                cols[t.args[0]] = [ch for ch in cols[t.args[0]] if holds(Text({t.args[0]: ch}), [], [x])]
        rest = [(t, v) for t, v in refine if len(chars_of(t)) > 1]
        for combo in itertools.product(*cols):
            text = "".join(combo)
            ev = Text(text)
            if rest and not holds(ev, rest, []):
                continue
            total += 1
            if text in seen:
                raise AnalysisError(f"two paths for {text!r}")
            seen[text] = 1
            want = reference(text)
            if want == FREE:
                continue
            if r[2] == "Err":
                got = ERR
            else:
                v = ev(r[3][0])
                got = to_bytes(v)
            if got != want:
                bad += 1
                if bad <= 40:
                    ck.ob("decode", f"{text!r}", False, f"{text!r} denotes {describe(got)}, not {describe(want)}", w)
    ck.ob("decode", f"texts-of-{n}", True, "", w, f"{total} combinations of character classes on {len(paths)} paths")
    if n:
        exp = 127 if n == 1 else len(CLASSES) ** n
        lost = exp - total
        ck.ob("total", f"length-{n}", lost <= 0, f"{lost} of the texts of {n} characters have no outcome: decoding panics or does not end" + (f" ({panics[0]})" if panics else ""), w, f"{total} texts")
    return total


def chars_of(t, memo=None):
    out = set()
    if is_sym(t):
        if t.head == "ch":
            out.add(t.args[0])
        for a in t.args:
            out |= chars_of(a)
    elif isinstance(t, tuple):
        for a in t:
            if isinstance(a, (tuple, Sym)):
                out |= chars_of(a)
    return out


def describe(x):
    return x if isinstance(x, str) else "bytes " + " ".join(f"{b:02x}" for b in x)


UNICODE = ["\u00e9", "\u0080", "\u07ff", "\u0800", "\u4e2d", "\uffff", "\U00010000", "\U0001f600", "a\u00e9b", "\u00e9\\n", "\\x41\u00e9", "\u00ff", "\\\u00e9"]


def segment(ck, strings):
    """the bytes of the data segment for a program with these literals"""
    A = Assembly(ck, strings=[("str", x) for x in strings])
    outs = []
    for st, mod in A.outs:
        segs = A.g(mod, "data_section", "data_segments")[1]
        if len(segs) != 1:
            raise AnalysisError(f"{len(segs)} data segments")
        d = A.g(segs[0], "data")
        outs.append([x[1] if isinstance(x, tuple) and x[0] == "c" else None for x in d[1]])
    if len(outs) != 1:
        raise AnalysisError(f"{len(outs)} outcomes")
    return outs[0]


def check(ck):
    LATIN = lambda s: tuple(b for ch in s for b in ([ord(ch)] if ord(ch) < 256 else list(ch.encode())))
    UTF8 = lambda s: tuple(s.encode("utf-8", "surrogatepass"))
    # --- how a character of a literal becomes bytes
    every = "".join(map(chr, range(1, 256)))
    seg = ck.guard("segment", "every-byte", segment, ck, [every])
    to_bytes = UTF8
    wm = "src/back_end/initialise_memory.rs"
    if seg is not None:
        body = seg[12:]
        for name, f in (("latin1", LATIN), ("utf8", UTF8)):
            e = list(f(every)) + [0]
            if body[:len(e)] == e:
                to_bytes = f
                break
        else:
            ck.ob("segment", "every-byte", False, f"the characters 1..255 of a literal are stored as {len(body)} bytes {bytes(body[:24]).hex()}..., neither one byte each nor UTF-8, followed by NUL", wm)
        ck.ob("segment", "every-byte", True, "", wm, f"{len(every)} characters")
    for lits in (["a"], [""], ["ab", "c"], ["", "x", "yz"], ["same", "same"], ["in\0side", "n"], ["\0"], ["\n\t\\", "%d"]):
        seg = ck.guard("segment", repr(lits), segment, ck, lits)
        if seg is None:
            continue
        rest, ok = bytes(seg[12:]), True
        for x in lits:
            ok &= (to_bytes(x) and bytes(to_bytes(x)) or b"") + b"\0" in rest
        ok &= len(rest) >= sum(len(to_bytes(x)) + 1 for x in set(lits))
        ck.ob("segment", repr(lits), ok, f"the literals {lits} are not in the data segment, each followed by NUL: {rest!r}", wm, repr(lits))
    # --- the decoder
    top = 4 if ck.tier == "quick" else 5
    ck.parallel(lambda n: ck.guard("decode", f"length-{n}", check_decoder, ck, n, to_bytes) if isinstance(n, int) else ck.guard("decode", repr(n), known_text, ck, n, to_bytes),
                list(range(top, -1, -1)) + UNICODE + ["\\x41" * 3, "\\x00000041", "\\0000", "\\1012", "\\x4g", "\\x", "ab\\", "\\377", "\\xff", "\\xfF!", "\\x80\\x7f"])
    # --- constants and initialisers
    F = Front(ck)
    st0 = State()

    def value(k):
        F.reset()
        st = State()
        pr, ctx = F.program(st), F.context(st)
        return F.expr(F.E("Constant", char_const(F, k)), st, pr, ctx)

    def one(k):
        want = (k ^ 0x80) - 0x80
        outs = ck.guard("constant", f"{k:02x}", value, k)
        for o in outs or []:
            ok = o[1] == "Ok" and o[3][2] == "Constant" and o[3][3][0][2] == "Int" and o[3][3][0][3][0] == c(want)
            ck.ob("constant", f"{k:02x}", ok, f"the character constant with the byte {k:02x} has the value {show(o[3], 3) if o[1] == 'Ok' else o[1]}, not {want} (char is signed)", "src/middle_end/ast_to_ir.rs", f"{k:02x}")
    ck.parallel(one, list(range(256)))
    # string initialisers of arrays
    f = next((fn for n, fn in ck.lib().fns.items() if n.endswith("convert_string_literal_to_init_list_of_chars_ast")), None)
    if f is not None:
        def lst(text):
            I = ck.interp(lambda n: None, assume_ok=False)
            out = []
            for s_, r in I.run(f, [("str", text)], State()):
                out.append(I.freeze(s_, r))
            if len(out) != 1:
                raise AnalysisError(f"{len(out)} outcomes")
            got = []
            for i in unbox(out[0][3][0])[1]:
                e = i[3][0]
                got.append(unbox(e)[3][0][3][0][1])
            ck.ob("initialiser", repr(text[:20]), got == [ord(x) for x in text] + [0], f"{text[:20]!r} initialises an array with {got[:30]}", ck.where(f), repr(text[:20]))
        for text in ("", "a", "abc", "a\0b", every[:200], every[200:]):
            ck.guard("initialiser", repr(text[:20]), lst, text)
    ck.floor("decode", 20)
    ck.floor("segment", 8)
    ck.floor("constant", 256)


def char_const(F, k):
    adt = next(a for a in F.I.prog.adts if a.endswith("ast::Constant"))
    return ("e", adt, "Char", (c(k),))


def known_text(ck, text, to_bytes):
    D = Decoder(ck)
    paths, panics = D.paths(text)
    want = reference(text)
    paths = [x for x in paths if holds(Text(text), x[0], x[1])]
    for refine, neq, r in paths:
        got = ERR if r[2] == "Err" else to_bytes(Text(text)(r[3][0]))
        ck.ob("decode", repr(text), got == want or want == FREE, f"{text!r} denotes {describe(got)}, not {describe(want)}", ck.where(D.f), repr(text))
    ck.ob("total", repr(text), bool(paths) or want in (ERR, FREE), f"{text!r} has no value" + (f": {panics[0]}" if panics else ""), ck.where(D.f), repr(text))
