"""Byte templates: what a `to_bytes` function writes, as a token stream, against the WebAssembly binary format."""
from absint import Sym, c, is_sym, show, AnalysisError, elem_ty, adt_is, peel
import leb

TB = " as back_end::to_bytes::ToBytes>::to_bytes"


def leb_bytes(v, signed):
    out = []
    while True:
        b = v & 0x7F
        v >>= 7
        if (v == 0 and not (signed and b & 0x40)) or (signed and v == -1 and b & 0x40):
            return out + [b]
        out.append(b | 0x80)


class Bytes:
    def __init__(self, ck):
        self.ck = ck
        self.prog = ck.lib()
        self.enc = leb.encoders(self.prog)
        self.opaque = set()          # type paths whose to_bytes is not entered
        self.I = ck.interp(self.policy)

    def policy(self, name):
        if name in self.enc and self.enc[name][0]:
            caps = self.enc[name][0]

            def f(I, st, args, dty):
                v = I.rv(st, args[0])
                if v.__class__ is tuple and v[0] == "c":
                    return [(st, ("q", tuple(c(b) for b in leb_bytes(v[1], "sleb" in caps))))]
                return [(st, ("q", (("splice", Sym("leb", (caps, v), dty)),)))]
            return f
        if name.startswith("<") and name.endswith(TB):
            ty = name[1:-len(TB)]
            if ty in self.opaque:
                def g(I, st, args, dty):
                    return [(st, ("q", (("splice", Sym("enc", (ty, I.freeze(st, args[0])), dty)),)))]
                return g
        return None

    def to_bytes_fn(self, ty):
        n = "<" + ty + TB
        f = self.prog.fns.get(n)
        if f is None:
            raise AnalysisError(f"no to_bytes of {ty}")
        return f

    def streams(self, ty, val):
        """[(state, items)] of <ty>::to_bytes(val)"""
        f = self.to_bytes_fn(ty)
        out = []
        for st, r in self.I.run(f, [self.I.as_ref(val)]):
            out.append((st, self.items(st, r)))
        return out

    def items(self, st, r):
        r = self.I.freeze(st, r)
        if not (isinstance(r, tuple) and r[0] == "q"):
            raise AnalysisError("the bytes written are not a known sequence: " + show(r))
        return list(r[1])

    # ---- matching
    def match(self, st, items, spec):
        """None when the items are exactly what spec describes, else what differs."""
        try:
            rest = self._match(st, items, spec)
        except Mismatch as m:
            return str(m)
        if rest:
            return "extra bytes " + show_items(rest)
        return None

    def _match(self, st, items, spec):
        for e in spec:
            items = self._one(st, items, e)
        return items

    def eq(self, st, a, b):
        a, b = self.I.freeze(st, a), self.I.freeze(st, b)
        return a == b

    def _one(self, st, items, e):
        k = e[0]
        if k == "seq":
            return self._match(st, items, e[1])
        if k == "byte":
            if not items or items[0] != c(e[1]):
                raise Mismatch(f"expected byte {e[1]:#04x}, found {show_items(items[:1])}")
            return items[1:]
        if k in ("u", "s"):
            want = self.I.freeze(st, e[1]) if not isinstance(e[1], int) else c(e[1])
            return self._leb(st, items, k, want)
        if k in ("f32", "f64"):
            n = 4 if k == "f32" else 8
            want = self.I.freeze(st, e[1])
            got = items[:n]
            for i in range(n):
                if len(got) <= i or not (is_sym(got[i]) and got[i].head == "byte" and got[i].args == (want, k, i)):
                    raise Mismatch(f"expected the {n} little-endian bytes of {show(want)}, found {show_items(items[:8])}")
            return items[n:]
        if k == "raw":
            want = self.I.freeze(st, e[1])
            exp = self.raw_items(st, want)
            if items[:len(exp)] != exp:
                raise Mismatch(f"expected the bytes {show_items(exp)}, found {show_items(items[:max(1, len(exp))])}")
            return items[len(exp):]
        if k == "enc":
            want = self.I.freeze(st, e[2])
            g = items[0] if items else None
            if not (isinstance(g, tuple) and g[0] == "splice" and is_sym(g[1]) and g[1].head == "enc" and g[1].args[0] == e[1]
                    and g[1].args[1] == want):
                raise Mismatch(f"expected the encoding of {show(want)}, found {show_items(items[:1])}")
            return items[1:]
        if k == "sized":
            # byte length followed by that many bytes
            if not items:
                raise Mismatch("missing length")
            cand = self._sizes(items)
            last = None
            for used, val in cand:
                body = items[used:]
                try:
                    rest = self._match(st, body, e[1])
                except Mismatch as m:
                    last = m
                    continue
                n = self.I.seq_len(st, ("q", tuple(body[:len(body) - len(rest)])))
                if self.I.freeze(st, n) == self.I.freeze(st, val):
                    return rest
                last = Mismatch(f"the length written is {show(val)}, the content has {show(n)} bytes")
            raise last or Mismatch("missing length")
        if k == "alt":
            errs = []
            for a in e[1]:
                try:
                    return self._match(st, items, a)
                except Mismatch as m:
                    errs.append(str(m))
            raise Mismatch(" / ".join(errs))
        raise AnalysisError("spec " + str(e))

    def _sizes(self, items):
        g = items[0]
        if isinstance(g, tuple) and g[0] == "splice" and is_sym(g[1]) and g[1].head == "leb" and "uleb" in g[1].args[0]:
            return [(1, g[1].args[1])]
        v = sh = 0
        for i, b in enumerate(items[:5]):
            if not (isinstance(b, tuple) and b[0] == "c"):
                break
            v |= (b[1] & 0x7F) << sh
            sh += 7
            if not b[1] & 0x80:
                return [(i + 1, c(v))]
        return []

    def _leb(self, st, items, k, want):
        g = items[0] if items else None
        if isinstance(g, tuple) and g[0] == "splice" and is_sym(g[1]) and g[1].head == "leb":
            caps, term = g[1].args
            if ("uleb" if k == "u" else "sleb") in caps and self.eq(st, term, want):
                return items[1:]
            raise Mismatch(f"expected {'unsigned' if k == 'u' else 'signed'} LEB128 of {show(want)}, found {show_items(items[:1])}")
        v = sh = 0
        for i, b in enumerate(items[:10]):
            if not (isinstance(b, tuple) and b[0] == "c"):
                break
            v |= (b[1] & 0x7F) << sh
            sh += 7
            if not b[1] & 0x80:
                if k == "s" and b[1] & 0x40:
                    v -= 1 << sh
                if c(v) == want:
                    return items[i + 1:]
                raise Mismatch(f"expected LEB128 of {show(want)}, found the value {v}")
        raise Mismatch(f"expected LEB128 of {show(want)}, found {show_items(items[:1])}")

    def raw_items(self, st, v):
        if isinstance(v, tuple) and v[0] == "str":
            return [c(b) for b in v[1].encode()]
        if isinstance(v, tuple) and v[0] == "q":
            return list(v[1])
        return [("splice", v)]


class Mismatch(Exception):
    pass


def show_items(items):
    out = []
    for x in items[:12]:
        if isinstance(x, tuple) and x[0] == "c":
            out.append(f"{x[1]:#04x}" if isinstance(x[1], int) else str(x[1]))
        elif isinstance(x, tuple) and x[0] == "splice" and is_sym(x[1]):
            s = x[1]
            if s.head == "leb":
                out.append(f"LEB128[{'/'.join(sorted(s.args[0]))}]({show(s.args[1])})")
            elif s.head == "enc":
                out.append(f"encoding({show(s.args[1])})")
            else:
                out.append("…" + show(s))
        else:
            out.append(show(x))
    return "[" + ", ".join(out) + "]" if out else "nothing"


# ------------------------------------------------------------------ the format
IDX = {"TypeIdx", "FuncIdx", "TableIdx", "MemIdx", "GlobalIdx", "ElemIdx", "DataIdx", "LocalIdx", "LabelIdx"}
NUM = {"I32": 0x7F, "I64": 0x7E, "F32": 0x7D, "F64": 0x7C}
REF = {"FuncRef": 0x70, "ExternRef": 0x6F}
BE = "back_end::"
WT = BE + "wasm_types::"
WIDX = BE + "wasm_indices::"
WI = BE + "wasm_instructions::WasmInstruction"


def fields(I, st, v):
    """{field name: value} of a struct or variant value"""
    v = I.deref(st, v)
    if is_sym(v):
        v = I.materialise(v)
    names = [n for n, _ in I.adt_variant(v[1], v[2])["fields"]]
    return dict(zip(names, v[3]))


def known_variant(I, st, v):
    v = I.deref(st, v)
    return v[2] if isinstance(v, tuple) and v[0] == "e" else None


class Shape(Exception):
    """the trace did not look at an enum value: its variant did not decide the bytes"""


def spec_of(B, st, ty, v):
    """What the binary format says for value v of type path ty."""
    I = B.I
    last = ty.split("::")[-1]
    if ty in B.opaque:
        return [("enc", ty, v)]
    if last in IDX:
        return [("u", idx_val(I, st, v))]
    if ty == BE + "wasm_instructions::MemArg":
        f = fields(I, st, v)
        return [("u", f["align"]), ("u", f["offset"])]
    if last == "Limits":
        f = fields(I, st, v)
        m = known_variant(I, st, f["max"])
        if m is None:
            raise Shape("Limits.max")
        if m == "None":
            return [("byte", 0), ("u", f["min"])]
        return [("byte", 1), ("u", f["min"]), ("u", I.deref(st, f["max"])[3][0])]
    if last in ("NumType", "RefType"):
        k = known_variant(I, st, v)
        if k is None:
            raise Shape(last)
        return [("byte", (NUM if last == "NumType" else REF)[k])]
    if last == "ValType":
        k = known_variant(I, st, v)
        if k is None:
            raise Shape(last)
        return spec_of(B, st, WT + k, I.deref(st, v)[3][0])
    if last == "BlockType":
        k = known_variant(I, st, v)
        if k is None:
            raise Shape(last)
        if k == "None":
            return [("byte", 0x40)]
        if k == "ValType":
            return spec_of(B, st, WT + "ValType", I.deref(st, v)[3][0])
        return [("s", I.deref(st, v)[3][0])]
    if last == "TableType":
        f = fields(I, st, v)
        return spec_of(B, st, WT + "RefType", f["element_ref_type"]) + spec_of(B, st, WT + "Limits", f["limits"])
    if last == "MemoryType":
        return spec_of(B, st, WT + "Limits", fields(I, st, v)["limits"])
    if last == "GlobalType":
        f = fields(I, st, v)
        b = I.rv(st, f["is_mutable"])
        if is_sym(b):
            raise Shape("GlobalType.is_mutable")
        return spec_of(B, st, WT + "ValType", f["value_type"]) + [("byte", 1 if b[1] else 0)]
    raise AnalysisError("no format for " + ty)


def idx_val(I, st, v):
    f = fields(I, st, v)
    if len(f) != 1:
        raise AnalysisError("index type with several fields")
    return list(f.values())[0]


def elems(I, st, v):
    v = I.freeze(st, v)
    if not (isinstance(v, tuple) and v[0] == "q") or any(isinstance(x, tuple) and x and x[0] == "splice" for x in v[1]):
        raise Shape("sequence")
    return list(v[1])


def vec_spec(B, st, ty, v):
    es = elems(B.I, st, v)
    out = [("u", len(es))]
    for e in es:
        out += spec_of(B, st, ty, e)
    return out
