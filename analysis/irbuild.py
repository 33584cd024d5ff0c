"""Construction of abstract values of the compiler's own types."""
from absint import Sym, c, is_sym, show, AnalysisError, State, C0, C1

OPTION = "std::option::Option"
NONE = ("e", OPTION, "None", ())


def some(v):
    return ("e", OPTION, "Some", (v,))


def box(v):
    return ("box", v)


def q(*xs):
    return ("q", tuple(xs))


def s(x):
    return ("str", x)


class Build:
    def __init__(self, I):
        self.I = I
        self.idx = {}
        for n in I.prog.adts:
            self.idx.setdefault(n.split("::")[-1], []).append(n)

    def path(self, name):
        if name in self.I.prog.adts:
            return name
        ast = name.startswith("ast::")
        c_ = [x for x in self.idx.get(name.split("::")[-1], []) if not x.startswith(("std::", "core::", "alloc::"))]
        if len(c_) > 1:
            c_ = [x for x in c_ if ("::ast::" in x) == ast]
        if len(c_) != 1:
            raise AnalysisError(f"type {name}: {len(c_)} candidates")
        return c_[0]

    def bind(self, fn, *given):
        """Arguments for fn in its own parameter order. given: (text, value): the value is for the first free parameter whose type or name contains the text."""
        prog = fn.prog
        tys = [(prog.tystr(fn.local_ty(i)), fn.local_name(i) or "") for i in range(1, fn.args + 1)]
        out = [None] * len(tys)
        for pat, v in given:
            for k, (t, n) in enumerate(tys):
                if out[k] is None and (pat in t or pat == n):
                    out[k] = (v,)
                    break
        for k, o in enumerate(out):
            if o is None:
                raise AnalysisError(f"{fn.name}: no value for the parameter {tys[k][1]}: {tys[k][0]}")
        return [o[0] for o in out]

    def ty(self, name, *args):
        return ("adt", self.path(name), tuple(args))

    def variants(self, name):
        return [v["name"] for v in self.I.prog.adts[self.path(name)]["variants"]]

    def has(self, name, variant):
        return variant in self.variants(name)

    def arity(self, name, variant=None):
        p = self.path(name)
        v = self.I.adt_variant(p, variant or name.split("::")[-1])
        return [f for f, _ in v["fields"]]

    def new(self, name, variant=None, *pos, **kw):
        p = self.path(name)
        vn = variant or p.split("::")[-1]
        fts = self.I.field_tys(("adt", p, ()), vn)
        pos = list(pos)
        vals = []
        for n, t in fts:
            if n in kw:
                vals.append(kw.pop(n))
            elif pos:
                vals.append(pos.pop(0))
            else:
                vals.append(self.I.sym(f"{vn}.{n}", t))
        if kw or pos:
            raise AnalysisError(f"{name}::{vn} has no field {list(kw) or pos}")
        return ("e", p, vn, tuple(vals))

    def get(self, v, field):
        """field of a struct/variant value"""
        names = [n for n, _ in self.I.adt_variant(v[1], v[2])["fields"]]
        return v[3][names.index(field)]

    def upd(self, v, **kw):
        names = [n for n, _ in self.I.adt_variant(v[1], v[2])["fields"]]
        vals = list(v[3])
        for k, x in kw.items():
            if k not in names:
                raise AnalysisError(f"{v[1]} has no field {k}")
            vals[names.index(k)] = x
        return ("e", v[1], v[2], tuple(vals))

    def call(self, fn, *args, st=None):
        """value of a deterministic constructor call"""
        outs = self.I.run(fn, list(args), st)
        if len(outs) != 1:
            raise AnalysisError(f"{fn}: {len(outs)} outcomes")
        return self.I.freeze(outs[0][0], outs[0][1])

    # ids
    def id(self, name, n):
        p = self.path(name)
        fts = self.I.field_tys(("adt", p, ()), p.split("::")[-1])
        vals = []
        for f, t in fts:
            if t[0] == "prim":
                vals.append(c(n))
            elif t[0] == "adt" and t[1].endswith("ValueType"):
                vals.append(self.new("ValueType", "RValue"))
            else:
                raise AnalysisError(f"unexpected field of {name}")
        return ("e", p, p.split("::")[-1], tuple(vals))

    def var(self, n, vt="RValue"):
        v = self.id("VarId", n)
        return ("e", v[1], v[2], tuple(self.new("ValueType", vt) if isinstance(x, tuple) and x[0] == "e" else x for x in v[3]))

    def map(self, pairs, kind="map"):
        return ("m", kind, tuple(pairs), None)


    def irty(self, t):
        """python description -> IrType value: 'I32', ('PointerTo', t), ('ArrayOf', t, n), ('Function', ret, params, variadic), ('Struct', n), ('Union', n)"""
        if isinstance(t, str):
            return self.new("IrType", t)
        k = t[0]
        if k == "PointerTo":
            return self.new("IrType", k, box(self.irty(t[1])))
        if k == "ArrayOf":
            size = NONE if len(t) < 3 or t[2] is None else some(self.new("TypeSize", "CompileTime", c(t[2])))
            return self.new("IrType", k, box(self.irty(t[1])), size)
        if k == "Function":
            return self.new("IrType", k, box(self.irty(t[1])), q(*[self.irty(x) for x in t[2]]), c(int(bool(t[3]))))
        if k in ("Struct", "Union"):
            return self.new("IrType", k, self.id(k + "Id", t[1]))
        raise AnalysisError(str(t))
