"""Abstract interpreter over the MIR of /repo's crate.

Forward abstract interpretation with trace partitioning.  The abstract values are
  ('c', v)                    a known scalar
  ('str', s)                  a known string (str and String alike)
  ('e', adt, variant, fields) a struct or enum value of known variant
  ('t', items)                a tuple
  ('q', items)                an array, slice, Vec, String-less sequence; an item ('splice', Sym)
                              stands for an unknown number of unknown elements
  ('m', kind, entries, base)  a HashMap/HashSet; base is a Sym (unknown rest) or None
  ('box', v)                  a Box
  ('r', cell, path)           a reference
  ('it', ...)                 an iterator
  ('cl', fn, captures)        a closure;  ('fn', operand) a function item
  Sym                         an unknown value (interned term); enum Syms are refined per trace
A switch on an unknown value splits the trace; every other operation on unknowns gives a new term.
Nothing is executed and no path condition is given to a solver: the only facts kept per trace are the
variant / constant / interval a term was found to have.
"""
import sys
import mirload

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The source has a shape the analysis cannot follow (the check fails closed)."""


# ------------------------------------------------------------------ terms
class Sym:
    __slots__ = ("head", "args", "ty", "id", "__weakref__")
    _tab = {}
    _n = 0

    def __new__(cls, head, args=(), ty=None):
        key = (head, args, ty)
        s = cls._tab.get(key)
        if s is None:
            s = object.__new__(cls)
            s.head, s.args, s.ty = head, args, ty
            cls._n += 1
            s.id = cls._n
            cls._tab[key] = s
        return s

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        return show(self)


def is_sym(v):
    return v.__class__ is Sym


C0, C1 = ("c", 0), ("c", 1)
TRUE, FALSE = C1, C0
UNIT = ("t", ())
UNINIT = ("uninit",)


def c(v):
    return ("c", v)


def show(v, depth=6):
    if depth <= 0:
        return "…"
    d = depth - 1
    if is_sym(v):
        if v.head == "in":
            return str(v.args[0])
        if v.head == "f":
            return f"{show(v.args[0], d)}.{v.args[-1]}"
        if v.head == "*":
            return f"*{show(v.args[0], d)}"
        if v.head == "lin":
            return "(" + "+".join([f"{k}*{show(t, d)}" if k != 1 else show(t, d) for t, k in v.args[1]] +
                                  ([str(v.args[0])] if v.args[0] else [])) + ")"
        return f"{v.head}({', '.join(show(a, d) for a in v.args)})"
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return "()"
    k = v[0]
    if k == "c":
        return str(v[1])
    if k == "str":
        return repr(v[1])
    if k == "e":
        return v[2] + ("(" + ", ".join(show(x, d) for x in v[3]) + ")" if v[3] else "")
    if k == "t":
        return "(" + ", ".join(show(x, d) for x in v[1]) + ")"
    if k == "q":
        return "[" + ", ".join(show(x, d) for x in v[1]) + "]"
    if k == "box":
        return "Box " + show(v[1], d)
    if k == "splice":
        return "…" + show(v[1], d)
    if k == "r":
        return "&" + show(v[1], d) + (str(v[2]) if v[2] else "")
    return "<" + " ".join(show(x, d) for x in v) + ">"


# ------------------------------------------------------------------ types
INT = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1),
       "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0),
       "bool": (1, 0), "char": (32, 0)}


def int_range(name):
    if name == "char":
        return 0, 0x10FFFF
    b, s = INT[name]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def wrap(name, v):
    b, s = INT[name]
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def get(self, i):
        if i is None:
            return None
        t = self.memo.get(i)
        if t is None:
            t = self.memo[i] = self._mk(self.prog.types[i])
        return t

    def put(self, t):
        self.memo.setdefault(t, t)
        return t

    def _mk(self, d):
        k = d["k"]
        if k == "adt":
            return ("adt", d["adt"], tuple(self.get(a) for a in d["args"]))
        if k in ("ref", "ptr"):
            return (k, self.get(d["to"]), d["mut"])
        if k == "slice":
            return ("slice", self.get(d["to"]))
        if k == "array":
            return ("array", self.get(d["to"]), d.get("n"))
        if k == "tuple":
            return ("tuple", tuple(self.get(a) for a in d["args"]))
        if k in ("closure", "fndef"):
            return (k, d["def"])
        if k == "prim":
            return ("prim", d["s"])
        return (k, d["s"])


def subst(t, m):
    if t is None or not m:
        return t
    k = t[0]
    if k == "param":
        return m.get(t[1], t)
    if k in ("ref", "ptr"):
        return (k, subst(t[1], m), t[2])
    if k == "adt":
        return ("adt", t[1], tuple(subst(x, m) for x in t[2]))
    if k == "tuple":
        return ("tuple", tuple(subst(x, m) for x in t[1]))
    if k == "slice":
        return ("slice", subst(t[1], m))
    if k == "array":
        return ("array", subst(t[1], m), t[2])
    return t


SEQ_ADTS = ("std::vec::Vec", "std::collections::VecDeque")
MAP_ADTS = ("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap",
            "std::collections::BTreeSet")


def adt_is(t, *names):
    return t is not None and t[0] == "adt" and t[1] in names


def peel(t):
    while t is not None and t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def elem_ty(t):
    t = peel(t)
    if t is None:
        return None
    if t[0] == "adt" and t[1] in SEQ_ADTS + MAP_ADTS and t[2]:
        return t[2][0]
    if t[0] in ("slice", "array"):
        return t[1]
    return None


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "refine", "neq", "rng", "trace", "nfresh", "steps")

    def __init__(self):
        self.store = {}
        self.refine = {}
        self.neq = {}
        self.rng = {}
        self.trace = ()
        self.nfresh = 0
        self.steps = 0

    def copy(self):
        s = State.__new__(State)
        s.store = self.store.copy()
        s.refine = self.refine.copy()
        s.neq = self.neq.copy()
        s.rng = self.rng.copy()
        s.trace = self.trace
        s.nfresh = self.nfresh
        s.steps = self.steps
        return s


class Frame:
    __slots__ = ("fn", "id", "subst")

    def __init__(self, fn, fid, sub):
        self.fn, self.id, self.subst = fn, fid, sub


_lt_strip = None


def norm_path(p):
    """(self base type, method) of a printed external path."""
    s = p
    # <X as Trait>::m
    if s.startswith("<"):
        depth = 0
        for i, ch in enumerate(s):
            if ch == "<":
                depth += 1
            elif ch == ">" and s[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner, rest = s[1:i], s[i + 1:]
        m = rest.lstrip(":").split("::<")[0]
        # split at top-level " as "
        d = 0
        cut = None
        for j in range(len(inner)):
            if inner[j] == "<":
                d += 1
            elif inner[j] == ">" and inner[j - 1] != "-":
                d -= 1
            elif d == 0 and inner.startswith(" as ", j):
                cut = j
                break
        if cut is None:
            return base_ty(inner), m
        return base_ty(inner[:cut]), m
    if "::<impl " in s:
        i = s.index("::<impl ")
        d = 0
        for j in range(i + 2, len(s)):
            if s[j] == "<":
                d += 1
            elif s[j] == ">" and s[j - 1] != "-":
                d -= 1
                if d == 0:
                    break
        inner = s[i + 8:j]
        m = s[j + 1:].lstrip(":").split("::<")[0]
        if " for " in inner:
            inner = inner.split(" for ")[-1]
        return base_ty(inner), m
    # a::Type::<..>::m
    out = []
    d = 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    parts = [x for x in "".join(out).split("::") if x]
    if len(parts) == 1:
        return "", parts[0]
    return parts[-2], parts[-1]


def base_ty(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].strip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1] if " " in s else s
        if s.startswith("mut "):
            s = s[4:]
    if s.startswith("[") or s.startswith("*"):
        return "slice" if s.startswith("[") else "ptr"
    d = 0
    out = []
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).split("::")[-1]


class Interp:
    """policy(fnname) -> None (inline) | 'opaque' | 'pure' | callable(interp, st, args, dest_ty) -> [(st, value)]"""

    def __init__(self, prog, policy=None, unroll=2, assume_ok=True, max_steps=400000, max_paths=20000):
        self.prog = prog
        self.T = Types(prog)
        self.policy = policy or (lambda name: None)
        self.unroll = unroll
        self.reverse_maps = False
        self.assume_ok = assume_ok
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.unmodelled = {}
        self.visited_fns = set()
        self.nframes = 0
        self.prom = {}
        self.truncated = 0
        self.panics = []
        self.steps = 0
        self.paths = 0
        self.stack = []
        self.max_depth = 60
        self._norm = {}
        self.deref_dispatch = True
        self.on_call = None
        self.opaque_fns_seen = set()
        self.closures = {}
        for n, f in prog.fns.items():
            if "{closure#" in n:
                self.closures[n] = f
        self.index_tabs()

    # ---- tables
    def index_tabs(self):
        self.trait_impls = {}
        for n in self.prog.fns:
            if n.startswith("<") and " as " in n:
                i = n.index(" as ")
                ty = n[1:i]
                rest = n[i + 4:]
                j = rest.rindex(">::")
                tr, m = rest[:j], rest[j + 3:]
                if "::" in m or "#" in m:
                    continue
                self.trait_impls.setdefault(m, {})[base_ty_full(ty)] = n
        self.derived = set()
        for tr, ty, der in self.prog.impls:
            if der:
                self.derived.add((tr, self.prog.types[ty]["s"]))

    def adt_variant(self, adt, vname):
        a = self.prog.adts.get(adt)
        if a is None:
            raise AnalysisError("unknown type " + adt)
        for v in a["variants"]:
            if v["name"] == vname:
                return v
        raise AnalysisError(f"no variant {vname} in {adt}")

    def field_tys(self, ty, vname=None):
        if ty[0] == "tuple":
            return [(str(i), t) for i, t in enumerate(ty[1])]
        if ty[0] != "adt":
            raise AnalysisError(f"fields of {ty}")
        a = self.prog.adts.get(ty[1])
        if a is None:
            raise AnalysisError("unknown type " + ty[1])
        v = a["variants"][0] if vname is None else self.adt_variant(ty[1], vname)
        m = dict(zip(a["generics"], ty[2]))
        return [(n, subst(self.T.get(t), m)) for n, t in v["fields"]]

    # ---- symbols
    def sym(self, name, ty=None):
        return Sym("in", (name,), ty)

    def fld(self, s, vname, idx, name, ty):
        return Sym("f", (s, vname, idx, name), ty)

    def materialise(self, s, vname=None):
        """The ('e'..)/('t'..) value with unknown fields for an unknown of struct/enum/tuple type."""
        ty = s.ty
        if ty is None:
            raise AnalysisError(f"unknown of unknown type {show(s)}")
        if ty[0] == "tuple":
            return ("t", tuple(self.fld(s, None, i, str(i), t) for i, t in enumerate(ty[1])))
        fts = self.field_tys(ty, vname)
        vn = vname or self.prog.adts[ty[1]]["variants"][0]["name"]
        return ("e", ty[1], vn, tuple(self.fld(s, vn, i, n, t) for i, (n, t) in enumerate(fts)))

    def fresh(self, st, tag, ty):
        st.nfresh += 1
        return Sym("fresh", (tag, st.nfresh), ty)

    # ---- resolution
    def rv(self, st, v):
        while v.__class__ is Sym:
            r = st.refine.get(v)
            if r is None:
                if v.head == "lin":
                    # the terms may have been refined to constants
                    for t, _ in v.args[1]:
                        if t in st.refine and st.refine[t].__class__ is tuple:
                            return self.lin(st, v, C0, 1)
                return v
            v = r
        if v.__class__ is tuple and v and v[0] == "q":
            for it in v[1]:
                if it.__class__ is tuple and it and it[0] == "splice" and self.rv(st, it[1]) is not it[1]:
                    return self.flatten(st, v)
        return v

    def flatten(self, st, v):
        out = []
        for it in v[1]:
            if it.__class__ is tuple and it and it[0] == "splice":
                r = self.rv(st, it[1])
                if r.__class__ is tuple and r[0] == "q":
                    out.extend(self.flatten(st, r)[1])
                    continue
                if r.__class__ is Sym:
                    out.append(("splice", r))
                    continue
            out.append(it)
        return ("q", tuple(out))

    # ---- memory
    def cell_get(self, st, cell):
        if cell.__class__ is tuple and cell[0] == "K":
            return cell[1]
        v = st.store.get(cell)
        if v is None:
            if cell.__class__ is tuple and cell[0] == "*":
                s = cell[1]
                return Sym("*", (s,), peel1(s.ty))
            return UNINIT
        return v

    def load(self, st, cell, path):
        return self.get_path(st, self.cell_get(st, cell), path)

    def get_path(self, st, v, path):
        for p in path:
            v = self.rv(st, v)
            k = p[0]
            if k == "box":
                if v.__class__ is Sym:
                    t = v.ty
                    v = Sym("*", (v,), t[2][0] if t and t[0] == "adt" and t[2] else None)
                elif v[0] == "box":
                    v = v[1]
                continue
            if v.__class__ is tuple and v[0] in ("box", "uninit") and k == "f":
                if v[0] == "box" and p[1] == 0:
                    continue
                continue
            if k == "v":
                if v.__class__ is Sym:
                    nv = self.materialise(v, p[1])
                    v = nv
                continue
            if k == "f":
                i = p[1]
                if v.__class__ is Sym:
                    if v.ty is not None and (v.ty[0] == "tuple" or v.ty[0] == "adt"):
                        if adt_is(v.ty, "std::boxed::Box"):
                            continue
                        v = self.materialise(v)
                    else:
                        v = Sym("f", (v, None, i, str(i)), None)
                        continue
                if v[0] == "e":
                    if i >= len(v[3]):
                        raise AnalysisError(f"field {i} of {show(v)}")
                    v = v[3][i]
                elif v[0] == "t":
                    v = v[1][i]
                elif v[0] == "cl":
                    v = v[2][i]
                elif v[0] == "q" and i == 0:
                    continue
                elif v[0] in ("str", "c"):
                    continue
                else:
                    raise AnalysisError(f"field {i} of {show(v)}")
            elif k == "i":
                n = p[1]
                if v.__class__ is Sym:
                    v = Sym("el", (v, c(n) if isinstance(n, int) else n), elem_ty(v.ty))
                elif v[0] == "q":
                    if isinstance(n, int):
                        if any(x.__class__ is tuple and x and x[0] == "splice" for x in v[1][:n + 1]):
                            v = Sym("el", (Sym("seq", (v,), None), c(n)), self.seq_elem_ty(v))
                        elif n < len(v[1]):
                            v = v[1][n]
                        else:
                            return UNINIT
                    else:
                        v = Sym("el", (Sym("seq", (v,), None), n), self.seq_elem_ty(v))
                else:
                    raise AnalysisError(f"index of {show(v)}")
            elif k == "mv":
                v = self.map_at(st, v, p[1])
            else:
                raise AnalysisError(f"projection {p}")
        return v

    def seq_elem_ty(self, v):
        for x in v[1]:
            if x.__class__ is tuple and x and x[0] == "splice":
                return elem_ty(x[1].ty)
            if x.__class__ is Sym:
                return x.ty
            if x.__class__ is tuple and x[0] == "e":
                return ("adt", x[1], ())
        return None

    def map_at(self, st, v, key):
        for kk, vv in v[2]:
            if kk == key:
                return vv
        raise AnalysisError("map entry vanished")

    def set_path(self, st, v, path, new):
        if not path:
            return new
        v = self.rv(st, v)
        p, rest = path[0], path[1:]
        k = p[0]
        if v.__class__ is tuple and v[0] == "uninit":
            return self.set_path(st, v, rest, new)
        if k == "box":
            if v.__class__ is Sym:
                return ("box", self.set_path(st, self.get_path(st, v, (("box",),)), rest, new))
            if v[0] == "box":
                return ("box", self.set_path(st, v[1], rest, new))
            return self.set_path(st, v, rest, new)
        if k == "v":
            if v.__class__ is Sym:
                v = self.materialise(v, p[1])
            return self.set_path(st, v, rest, new)
        if k == "f":
            if v.__class__ is tuple and v[0] == "box":
                return ("box", self.set_path(st, v[1], rest, new)) if p[1] != 0 else self.set_path(st, v, rest, new)
            if v.__class__ is Sym:
                v = self.materialise(v)
            i = p[1]
            if v[0] == "e":
                fs = v[3]
                return ("e", v[1], v[2], fs[:i] + (self.set_path(st, fs[i], rest, new),) + fs[i + 1:])
            if v[0] == "t":
                fs = v[1]
                return ("t", fs[:i] + (self.set_path(st, fs[i], rest, new),) + fs[i + 1:])
            if v[0] == "cl":
                fs = v[2]
                return ("cl", v[1], fs[:i] + (self.set_path(st, fs[i], rest, new),) + fs[i + 1:]) + v[3:]
            raise AnalysisError(f"set field {i} of {show(v)}")
        if k == "i":
            n = p[1]
            if v.__class__ is tuple and v[0] == "q" and isinstance(n, int) and n < len(v[1]) and not any(
                    x.__class__ is tuple and x and x[0] == "splice" for x in v[1][:n + 1]):
                fs = v[1]
                return ("q", fs[:n] + (self.set_path(st, fs[n], rest, new),) + fs[n + 1:])
            # weak update
            old = self.get_path(st, v, (p,))
            nn = self.set_path(st, old, rest, new)
            return Sym("upd", (v if v.__class__ is Sym else Sym("seq", (v,), None),
                               c(n) if isinstance(n, int) else n, self.freeze(st, nn)),
                       v.ty if v.__class__ is Sym else None)
        if k == "mv":
            ents = tuple((kk, self.set_path(st, vv, rest, new) if kk == p[1] else vv) for kk, vv in v[2])
            return ("m", v[1], ents, v[3])
        raise AnalysisError(f"set {p}")

    def store(self, st, cell, path, v):
        if cell.__class__ is tuple and cell[0] == "K":
            raise AnalysisError("write to a constant")
        if not path:
            st.store[cell] = v
        else:
            st.store[cell] = self.set_path(st, self.cell_get(st, cell), path, v)

    # ---- places
    def place(self, st, fr, pl):
        cell, path = (fr.id, pl[0]), ()
        for e in pl[1:]:
            k = e[0]
            if k == "d":
                v = self.rv(st, self.load(st, cell, path))
                if v.__class__ is Sym:
                    if adt_is(v.ty, "std::boxed::Box"):
                        path += (("box",),)
                    else:
                        cell, path = ("*", v), ()
                elif v[0] == "r":
                    cell, path = v[1], v[2]
                elif v[0] == "box":
                    path += (("box",),)
                else:
                    cell, path = ("K", v), ()
            elif k == "f":
                path += (("f", e[1]),)
            elif k == "v":
                path += (("v", e[2]),)
            elif k == "i":
                iv = self.rv(st, self.cell_get(st, (fr.id, e[1])))
                if iv.__class__ is tuple and iv[0] == "c":
                    path += (("i", iv[1]),)
                else:
                    path += (("i", iv),)
            elif k == "c":
                if e[2]:
                    sv = self.rv(st, self.load(st, cell, path))
                    if sv.__class__ is tuple and sv[0] == "q":
                        path += (("i", len(sv[1]) - e[1]),)
                    else:
                        path += (("i", Sym("fromend", (c(e[1]),))),)
                else:
                    path += (("i", e[1]),)
            elif k in ("opaque", "subtype"):
                pass
            else:
                raise AnalysisError(f"place projection {e}")
        return cell, path

    def place_ty(self, fr, pl):
        t = subst(self.T.get(fr.fn.local_ty(pl[0])), fr.subst)
        v = None
        for e in pl[1:]:
            if t is None:
                return None
            k = e[0]
            if k == "d":
                t = t[1] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else None)
            elif k == "v":
                v = e[2]
                continue
            elif k == "f":
                if t[0] == "closure":
                    return None
                try:
                    t = self.field_tys(t, v)[e[1]][1]
                except (AnalysisError, IndexError):
                    return None
            elif k in ("i", "c"):
                t = elem_ty(t)
            v = None
        return t

    # ---- operands
    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            cell, path = self.place(st, fr, o["p"])
            return self.rv(st, self.load(st, cell, path))
        if k == "fn":
            return ("fn", OpBox(self.subst_op(o, fr)))
        if k == "const":
            if o.get("promoted"):
                return self.promoted(o["promoted"])
            if o.get("static"):
                return Sym("static", (o["static"],), self.T.get(o["ty"]))
            ty = self.T.get(o["ty"])
            if o.get("variant") is not None and ty[0] == "adt":
                return ("e", ty[1], o["variant"], ())
            v = o.get("v")
            if o.get("str"):
                return ("str", v)
            if isinstance(v, bool):
                return c(int(v))
            if isinstance(v, int):
                return c(v)
            if isinstance(v, dict):
                return ("c", float_of(v["bits"], ty))
            if o.get("bytes") is not None:
                return ("q", tuple(c(b) for b in o["bytes"]))
            if o.get("named") and o["named"] in self.prog.fns:
                return self.const_fn(o["named"])
            if ty[0] == "tuple" and not ty[1]:
                return UNIT
            if ty[0] == "fndef":
                return ("fn", OpBox({"k": "fn", "path": ty[1], "res": ty[1], "trait": None, "targs": []}))
            if ty[0] == "closure":
                return ("cl", ty[1], (), tuple(sorted(fr.subst.items())))
            if ty[0] == "adt":
                a = self.prog.adts.get(ty[1])
                if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
                    return ("e", ty[1], a["variants"][0]["name"], ())
                if ty[1].endswith("PhantomData"):
                    return ("e", ty[1], "PhantomData", ())
            return Sym("const", (o.get("named") or "?", str(v)), ty)
        raise AnalysisError(f"operand {o}")

    def const_fn(self, name):
        key = "C:" + name
        if key not in self.prom:
            st = State()
            outs = self.exec_fn(st, self.prog.fns[name], [], {})
            if len(outs) != 1:
                raise AnalysisError(f"constant {name}")
            self.prom[key] = self.inline_refs(outs[0][0], outs[0][1])
        return self.prom[key]

    def promoted(self, name):
        if name not in self.prom:
            f = self.prog.fns.get(name)
            if f is None:
                raise AnalysisError(f"promoted {name}")
            st = State()
            save = self.keep_frames
            self.keep_frames = True
            try:
                outs = self.exec_fn(st, f, [], {})
            finally:
                self.keep_frames = save
            if len(outs) != 1:
                raise AnalysisError(f"promoted {name}")
            self.prom[name] = self.inline_refs(outs[0][0], outs[0][1])
        return self.prom[name]

    keep_frames = False

    def inline_refs(self, st, v):
        if v.__class__ is not tuple or not v:
            return v
        if v[0] == "r":
            inner = self.inline_refs(st, self.rv(st, self.load(st, v[1], v[2])))
            return ("r", ("K", inner), ())
        return tuple(self.inline_refs(st, x) if x.__class__ is tuple else x for x in v)

    def as_ref(self, v):
        return ("r", ("K", v), ())

    def deref(self, st, v):
        """Look through references and boxes."""
        while True:
            v = self.rv(st, v)
            if v.__class__ is Sym:
                if v.ty is not None and v.ty[0] in ("ref", "ptr"):
                    v = self.cell_get(st, ("*", v))
                    continue
                if adt_is(v.ty, "std::boxed::Box"):
                    v = Sym("*", (v,), v.ty[2][0])
                    continue
                return v
            if v[0] == "r":
                v = self.load(st, v[1], v[2])
            elif v[0] == "box":
                v = v[1]
            else:
                return v

    def loc(self, st, v):
        """The (cell, path) a (possibly nested) reference denotes."""
        v = self.rv(st, v)
        cell = path = None
        while True:
            if v.__class__ is Sym:
                if v.ty is not None and v.ty[0] in ("ref", "ptr"):
                    cell, path = ("*", v), ()
                elif adt_is(v.ty, "std::boxed::Box") and cell is not None:
                    path = path + (("box",),)
                else:
                    break
            elif v[0] == "r":
                cell, path = v[1], v[2]
            elif v[0] == "box" and cell is not None:
                path = path + (("box",),)
            else:
                break
            v = self.rv(st, self.load(st, cell, path))
        if cell is None:
            return ("K", v), ()
        return cell, path

    def freeze(self, st, v, seen=0):
        """The value with references and boxes followed and refinements applied."""
        v = self.rv(st, v)
        if seen > 60:
            return v
        if v.__class__ is Sym:
            if v.ty is not None and v.ty[0] in ("ref", "ptr"):
                r = self.cell_get(st, ("*", v))
                return self.freeze(st, r, seen + 1)
            if adt_is(v.ty, "std::boxed::Box"):
                return self.freeze(st, Sym("*", (v,), v.ty[2][0]), seen + 1)
            return v
        k = v[0] if v else None
        if k == "r":
            return self.freeze(st, self.load(st, v[1], v[2]), seen + 1)
        if k == "box":
            return ("box", self.freeze(st, v[1], seen + 1))
        if k == "e":
            return ("e", v[1], v[2], tuple(self.freeze(st, x, seen + 1) for x in v[3]))
        if k in ("t", "q"):
            return (k, tuple(x if (x.__class__ is tuple and x and x[0] == "splice") else self.freeze(st, x, seen + 1)
                             for x in v[1]))
        if k == "m":
            return ("m", v[1], tuple((a, self.freeze(st, b, seen + 1)) for a, b in v[2]), v[3])
        if k == "cl":
            return ("cl", v[1], tuple(self.freeze(st, x, seen + 1) for x in v[2])) + v[3:]
        return v

    # ---- linear arithmetic
    def lin_parts(self, st, v):
        v = self.rv(st, v)
        if v.__class__ is tuple and v[0] == "c" and isinstance(v[1], int):
            return v[1], {}
        if v.__class__ is Sym:
            if v.head == "lin":
                k0 = v.args[0]
                d = {}
                for t, k in v.args[1]:
                    r = self.rv(st, t) if t in st.refine else t
                    if r.__class__ is tuple and r[0] == "c":
                        k0 += k * r[1]
                    elif r.__class__ is Sym and r.head == "lin":
                        k1, d1 = self.lin_parts(st, r)
                        k0 += k * k1
                        for t1, kk in d1.items():
                            d[t1] = d.get(t1, 0) + k * kk
                    else:
                        d[r] = d.get(r, 0) + k
                return k0, {t: k for t, k in d.items() if k}
            return 0, {v: 1}
        return None

    def mk_lin(self, k0, d, ty):
        d = {t: k for t, k in d.items() if k}
        if not d:
            return c(k0)
        if k0 == 0 and len(d) == 1:
            (t, k), = d.items()
            if k == 1:
                return t
        return Sym("lin", (k0, tuple(sorted(d.items(), key=lambda x: x[0].id))), ty)

    def lin(self, st, a, b, sign, ty=None):
        pa, pb = self.lin_parts(st, a), self.lin_parts(st, b)
        if pa is None or pb is None:
            return None
        d = dict(pa[1])
        for t, k in pb[1].items():
            d[t] = d.get(t, 0) + sign * k
        return self.mk_lin(pa[0] + sign * pb[0], d, ty or (a.ty if a.__class__ is Sym else None))

    # ---- intervals
    def interval(self, st, v, tyname=None):
        v = self.rv(st, v)
        if v.__class__ is tuple and v[0] == "c":
            return v[1], v[1]
        if v.__class__ is Sym:
            r = st.rng.get(v)
            if r:
                return r
            if v.head == "lin":
                lo = hi = v.args[0]
                for t, k in v.args[1]:
                    a = self.interval(st, t)
                    if a is None:
                        lo = hi = None
                        break
                    x, y = sorted((k * a[0], k * a[1]))
                    lo, hi = lo + x, hi + y
                if lo is not None:
                    return lo, hi
            if v.head == "len":
                if v.args[0].__class__ is Sym and v.args[0].head in ("leb", "enc"):
                    return 1, 2 ** 63
                return 0, 2 ** 63
            if v.head == "cast" and v.args[0].__class__ is Sym:
                pass
            if v.ty is not None and v.ty[0] == "prim" and v.ty[1] in INT:
                return int_range(v.ty[1])
            if tyname in INT:
                return int_range(tyname)
        return None

    # ---- binary operations
    CMP = {"Eq", "Ne", "Lt", "Le", "Gt", "Ge"}

    def binop(self, st, op, a, b, ty):
        a, b = self.rv(st, a), self.rv(st, b)
        tn = ty[1] if ty and ty[0] == "prim" else None
        if op in self.CMP:
            return self.compare(st, op, a, b, tn)
        ov = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = self.arith(st, base, a, b, tn, ty)
        if ov:
            if r.__class__ is tuple and r[0] == "c" and tn in INT:
                lo, hi = int_range(tn)
                over = not (lo <= r[1] <= hi)
                return ("t", (c(wrap(tn, r[1])), c(int(over))))
            return ("t", (r, Sym("ovf", (base, a, b), ("prim", "bool"))))
        if r.__class__ is tuple and r[0] == "c" and tn in INT and isinstance(r[1], int):
            return c(wrap(tn, r[1]))
        return r

    def arith(self, st, op, a, b, tn, ty):
        ka = a.__class__ is tuple and a[0] == "c"
        kb = b.__class__ is tuple and b[0] == "c"
        isint = tn in INT
        if ka and kb and isint:
            x, y = a[1], b[1]
            if op == "Add":
                return c(x + y)
            if op == "Sub":
                return c(x - y)
            if op == "Mul":
                return c(x * y)
            if op in ("Div", "Rem") and y != 0:
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return c(q if op == "Div" else x - q * y)
            if op == "BitAnd":
                return c(wrap(tn, x & y))
            if op == "BitOr":
                return c(wrap(tn, x | y))
            if op == "BitXor":
                return c(wrap(tn, x ^ y))
            if op == "Shl":
                return c(wrap(tn, x << (y % INT[tn][0])))
            if op == "Shr":
                return c(wrap(tn, x >> (y % INT[tn][0])))
        if isint and tn != "bool":
            if op == "Add":
                r = self.lin(st, a, b, 1, ty)
                if r is not None:
                    return r
            if op == "Sub":
                r = self.lin(st, a, b, -1, ty)
                if r is not None:
                    return r
            if op == "Mul" and (ka or kb):
                kk, x = (a[1], b) if ka else (b[1], a)
                p = self.lin_parts(st, x)
                if p is not None:
                    return self.mk_lin(p[0] * kk, {t: k * kk for t, k in p[1].items()}, ty)
        if tn == "bool":
            if op == "BitAnd":
                if ka:
                    return b if a[1] else FALSE
                if kb:
                    return a if b[1] else FALSE
            if op == "BitOr":
                if ka:
                    return TRUE if a[1] else b
                if kb:
                    return TRUE if b[1] else a
        if op in ("Mul", "BitAnd", "BitOr", "BitXor", "Add") and not is_float(tn):
            a, b = order(a, b)
        elif op in ("Mul", "Add"):
            a, b = a, b
        return Sym("bin:" + op, (self.tm(st, a), self.tm(st, b)), ty)

    def tm(self, st, v):
        """A value usable inside a term."""
        v = self.rv(st, v)
        if v.__class__ is Sym:
            return v
        return self.freeze(st, v)

    def compare(self, st, op, a, b, tn):
        ka = a.__class__ is tuple and a[0] == "c"
        kb = b.__class__ is tuple and b[0] == "c"
        if ka and kb:
            x, y = a[1], b[1]
            return c(int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
        if a == b and not is_float(tn):
            return c(int(op in ("Eq", "Le", "Ge")))
        if op == "Ne":
            return self.notb(self.compare(st, "Eq", a, b, tn))
        if op == "Eq":
            if kb and a.__class__ is Sym and a.head == "discr":
                return self.isv(st, a, b[1])
            if ka and b.__class__ is Sym and b.head == "discr":
                return self.isv(st, b, a[1])
            if a.__class__ is Sym and b.__class__ is Sym and a.head == "discr" and b.head == "discr":
                return Sym("cmp", ("Eq",) + order(a, b), ("prim", "bool"))
            if tn in INT or tn is None:
                d = self.lin(st, a, b, -1)
                if d is not None:
                    if d.__class__ is tuple and d[0] == "c":
                        return c(int(d[1] == 0))
                    iv = self.interval(st, d)
                    ia, ib = self.interval(st, a, tn), self.interval(st, b, tn)
                    if iv and not (iv[0] <= 0 <= iv[1]):
                        return FALSE
                    if ia and ib and (ia[1] < ib[0] or ib[1] < ia[0]):
                        return FALSE
                    if kb and a.__class__ is Sym and b[1] in st.neq.get(a, ()):
                        return FALSE
            a, b = order(self.tm(st, a), self.tm(st, b))
            return Sym("cmp", ("Eq", a, b), ("prim", "bool"))
        if op == "Gt":
            return self.compare(st, "Lt", b, a, tn)
        if is_float(tn):
            return Sym("cmp", (op, a, b), ("prim", "bool"))
        if op == "Ge":
            return self.notb(self.compare(st, "Lt", a, b, tn))
        if op == "Le":
            return self.notb(self.compare(st, "Lt", b, a, tn))
        # Lt
        ia, ib = self.interval(st, a, tn), self.interval(st, b, tn)
        if ia and ib:
            if ia[1] < ib[0]:
                return TRUE
            if ia[0] >= ib[1]:
                return FALSE
        d = self.lin(st, a, b, -1)
        if d is not None and d.__class__ is tuple:
            return c(int(d[1] < 0))
        if d is not None:
            iv = self.interval(st, d)
            if iv and iv[1] < 0:
                return TRUE
            if iv and iv[0] >= 0:
                return FALSE
        return Sym("cmp", ("Lt", self.tm(st, a), self.tm(st, b)), ("prim", "bool"))

    def notb(self, v):
        if v.__class__ is tuple and v[0] == "c":
            return c(1 - v[1])
        if v.__class__ is Sym and v.head == "not":
            return v.args[0]
        return Sym("not", (v,), ("prim", "bool"))

    def variants_of(self, ty):
        a = self.prog.adts.get(ty[1])
        if a is None:
            raise AnalysisError("unknown enum " + str(ty))
        return [(v["name"], int(v["discr"]) if v["discr"] is not None else i) for i, v in enumerate(a["variants"])]

    def isv(self, st, d, val):
        s = d.args[0]
        for n, k in self.variants_of(s.ty):
            if k == val:
                if n in st.neq.get(s, ()):
                    return FALSE
                left = [x for x, _ in self.variants_of(s.ty) if x not in st.neq.get(s, ())]
                if left == [n]:
                    return TRUE
                return Sym("isv", (s, n), ("prim", "bool"))
        return FALSE

    # ---- splitting
    def assume(self, st, b, val):
        """Add the fact that boolean b has value val; returns False when contradictory. Mutates st."""
        b = self.rv(st, b)
        if b.__class__ is tuple:
            return b[1] == val
        if b.head == "not":
            return self.assume(st, b.args[0], 1 - val)
        if b.head == "and":
            if val:
                return all(self.assume(st, x, 1) for x in b.args)
            vals = [self.rv(st, x) for x in b.args]
            unk = [x for x in vals if x.__class__ is Sym]
            if any(x == FALSE for x in vals):
                return True
            if not unk:
                return False
            if len(unk) == 1:
                return self.assume(st, unk[0], 0)
            st.refine[b] = FALSE
            return True
        st.refine[b] = c(val)
        if b.head == "isv":
            s, n = b.args
            s = self.rv(st, s)
            if s.__class__ is tuple:
                return (s[2] == n) == bool(val)
            if val:
                if n in st.neq.get(s, ()):
                    return False
                st.refine[s] = self.materialise(s, n)
            else:
                return self.exclude(st, s, n)
        elif b.head == "cmp":
            op, x, y = b.args
            x, y = self.rv(st, x), self.rv(st, y)
            if op == "Eq":
                if val:
                    if x.__class__ is Sym and y.__class__ is tuple and y[0] in ("c", "str"):
                        if y[1] in st.neq.get(x, ()):
                            return False
                        self.bind_const(st, x, y)
                    elif y.__class__ is Sym and x.__class__ is tuple and x[0] in ("c", "str"):
                        self.bind_const(st, y, x)
                    elif x.__class__ is Sym and y.__class__ is Sym and x.head not in ("lin",) and y.head not in ("lin",):
                        if x.head == "discr" and y.head == "discr":
                            pass
                        elif x.id < y.id and y not in st.refine:
                            st.refine[y] = x
                        elif x not in st.refine:
                            st.refine[x] = y
                else:
                    if x.__class__ is Sym and y.__class__ is tuple and y[0] == "c":
                        st.neq[x] = st.neq.get(x, frozenset()) | {y[1]}
                        self.trim(st, x)
                    elif y.__class__ is Sym and x.__class__ is tuple and x[0] == "c":
                        st.neq[y] = st.neq.get(y, frozenset()) | {x[1]}
                        self.trim(st, y)
            elif op == "Lt":
                ix, iy = self.interval(st, x), self.interval(st, y)
                if val:
                    if x.__class__ is Sym and iy:
                        self.narrow(st, x, None, iy[1] - 1)
                    if y.__class__ is Sym and ix:
                        self.narrow(st, y, ix[0] + 1, None)
                else:  # x >= y
                    if x.__class__ is Sym and iy:
                        self.narrow(st, x, iy[0], None)
                    if y.__class__ is Sym and ix:
                        self.narrow(st, y, None, ix[1])
        return True

    def bind_const(self, st, x, k):
        if x.head == "lin" and len(x.args[1]) == 1:
            (t, m), = x.args[1]
            q = k[1] - x.args[0]
            if q % m == 0:
                st.refine[t] = c(q // m)
        st.refine[x] = k
        if x.head == "len" and k == C0:
            s = x.args[0]
            if s.__class__ is Sym and s not in st.refine:
                st.refine[s] = ("q", ())

    def trim(self, st, x):
        r = self.interval(st, x)
        if r and isinstance(r[0], int):
            lo, hi = r
            ne = st.neq.get(x, ())
            ch = False
            while lo in ne and lo < hi:
                lo += 1
                ch = True
            while hi in ne and lo < hi:
                hi -= 1
                ch = True
            if ch:
                st.rng[x] = (lo, hi)

    def narrow(self, st, x, lo, hi):
        if x.head == "lin" and len(x.args[1]) == 1:
            (t, k), = x.args[1]
            if k == 1:
                self.narrow(st, t, None if lo is None else lo - x.args[0], None if hi is None else hi - x.args[0])
        r = self.interval(st, x)
        a, b = r if r else (-(1 << 130), 1 << 130)
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = min(b, hi)
        st.rng[x] = (a, b)
        if a == b and x not in st.refine:
            st.refine[x] = c(a)

    def exclude(self, st, s, n):
        ne = st.neq.get(s, frozenset()) | {n}
        st.neq[s] = ne
        left = [x for x, _ in self.variants_of(s.ty) if x not in ne]
        if not left:
            return False
        if len(left) == 1:
            st.refine[s] = self.materialise(s, left[0])
        return True

    def split_bool(self, st, b):
        """[(state, bool)]"""
        b = self.rv(st, b)
        if b.__class__ is tuple:
            if b[0] == "c":
                return [(st, bool(b[1]))]
            raise AnalysisError(f"bool {show(b)}")
        out = []
        s1, s0 = st, st.copy()
        if self.assume(s1, b, 1):
            out.append((s1, True))
        if self.assume(s0, b, 0):
            out.append((s0, False))
        return out

    def split_enum(self, st, v):
        """[(state, 'e' value)] for a value of enum type."""
        v = self.deref(st, v)
        if v.__class__ is tuple:
            return [(st, v)]
        out = []
        vs = [n for n, _ in self.variants_of(v.ty) if n not in st.neq.get(v, ())]
        for i, n in enumerate(vs):
            s = st if i == len(vs) - 1 else st.copy()
            m = self.materialise(v, n)
            s.refine[v] = m
            out.append((s, m))
        return out

    def split_seq(self, st, v):
        """[(state, ('q', items without splices))]"""
        v = self.rv(st, v)
        if v.__class__ is tuple and v[0] == "str":
            return [(st, ("q", tuple(c(ord(ch)) for ch in v[1])))]
        if v.__class__ is Sym:
            if v.head == "seq":
                return self.split_seq(st, v.args[0])
            if v.head == "*" or v.ty is None or elem_ty(v.ty) is not None or peel(v.ty) in (("prim", "str"),) or adt_is(v.ty, "std::string::String"):
                pass
            et = elem_ty(v.ty) if elem_ty(v.ty) is not None else (("prim", "char") if v.ty is not None else None)
            out = []
            lens = self.seq_lens(v)
            for i, n in enumerate(lens):
                s = st if i == len(lens) - 1 else st.copy()
                r = self.rv(s, Sym("len", (v,), ("prim", "usize")))
                if r.__class__ is tuple and r[1] != n:
                    continue
                if n in s.neq.get(Sym("len", (v,), ("prim", "usize")), ()):
                    continue
                iv = self.interval(s, Sym("len", (v,), ("prim", "usize")))
                if iv and not (iv[0] <= n <= iv[1]):
                    continue
                q = ("q", tuple(Sym("el", (v, c(k)), et) for k in range(n)))
                s.refine[v] = q
                s.refine[Sym("len", (v,), ("prim", "usize"))] = c(n)
                out.append((s, q))
            return out
        if v[0] == "box":
            return self.split_seq(st, v[1])
        if v[0] != "q":
            raise AnalysisError(f"sequence expected: {show(v)}")
        for it in v[1]:
            if it.__class__ is tuple and it and it[0] == "splice":
                out = []
                for s, _ in self.split_seq(st, it[1]):
                    out.extend(self.split_seq(s, self.flatten(s, v)))
                return out
        return [(st, v)]

    def seq_lens(self, v):
        return list(range(self.unroll + 1))

    # ---- function execution
    def exec_fn(self, st, fn, args, sub):
        """[(state, return value)]; panicking paths are dropped (recorded in self.panics)."""
        if len(self.stack) > self.max_depth:
            raise AnalysisError("call depth exceeded in " + fn.name + " <- " + self.stack[-1].fn.name)
        self.visited_fns.add(fn.name)
        self.nframes += 1
        fr = Frame(fn, self.nframes, sub)
        self.stack.append(fr)
        try:
            return self._run(st, fr, args)
        finally:
            self.stack.pop()

    def pick(self, work, fr):
        """the next (state, block) to go on with"""
        return work.pop()

    def _run(self, st, fr, args):
        fn = fr.fn
        if len(args) != fn.args:
            raise AnalysisError(f"arity of {fn.name}")
        for i, a in enumerate(args):
            st.store[(fr.id, i + 1)] = a
        outs = []
        work = [(st, 0)]
        blocks = fn.blocks
        while work:
            st, bb = self.pick(work, fr)
            if len(work) + len(outs) > self.max_paths:
                raise AnalysisError("too many paths in " + fn.name)
            b = blocks[bb]
            for s in b["s"]:
                self.stmt(st, fr, s)
            n = len(b["s"]) + 1
            self.steps += n
            st.steps += n
            if st.steps > self.max_steps:
                raise AnalysisError("path too long in " + fn.name)
            t = b["t"]
            k = t[0]
            if k == "goto":
                work.append((st, t[1]))
            elif k == "return":
                v = st.store.get((fr.id, 0), UNIT)
                if not self.keep_frames:
                    fid = fr.id
                    store = st.store
                    if len(store) < len(fn.locals):
                        for key in [x for x in store if x[0] == fid]:
                            del store[key]
                    else:
                        pop = store.pop
                        for key in range(len(fn.locals)):
                            pop((fid, key), None)
                outs.append((st, v))
            elif k == "switch":
                for s, tgt in self.switch(st, fr, t):
                    work.append((s, tgt))
            elif k == "drop":
                work.append((st, t[2]))
            elif k == "assert":
                v = self.rv(st, self.operand(st, fr, t[1]))
                exp = int(t[2])
                if v.__class__ is tuple and v[0] == "c" and v[1] != exp:
                    self.panics.append((fn.name, b["l"], t[4], st))
                    continue
                if v.__class__ is Sym:
                    if v.head != "ovf" and not self.assume(st, v, exp):
                        continue
                work.append((st, t[3]))
            elif k == "call":
                for s, v in self.call(st, fr, t, b["l"]):
                    if t[4] is None:
                        self.panics.append((fn.name, b["l"], "call", s))
                        continue
                    cell, path = self.place(s, fr, t[3])
                    self.store(s, cell, path, v)
                    work.append((s, t[4]))
            elif k == "unreachable":
                continue
            else:
                raise AnalysisError(f"terminator {k}")
        return outs

    def switch(self, st, fr, t):
        v = self.rv(st, self.operand(st, fr, t[1]))
        if v.__class__ is tuple and v[0] == "c":
            for val, tgt in t[2]:
                if int(val) == v[1]:
                    return [(st, tgt)]
            return [(st, t[3])]
        if v.__class__ is not Sym:
            raise AnalysisError(f"switch on {show(v)} in {fr.fn.name}")
        out = []
        if v.head == "discr":
            s0 = v.args[0]
            vs = self.variants_of(s0.ty)
            ne = st.neq.get(s0, ())
            names = {k: n for n, k in vs}
            hit = []
            for val, tgt in t[2]:
                n = names.get(int(val))
                if n is None:
                    continue
                hit.append(n)
                if n in ne:
                    continue
                s = st.copy()
                s.refine[s0] = self.materialise(s0, n)
                out.append((s, tgt))
            rest = [n for n, _ in vs if n not in ne and n not in hit]
            if rest and fr.fn.blocks[t[3]]["t"][0] != "unreachable":
                s = st
                if len(rest) == 1:
                    s.refine[s0] = self.materialise(s0, rest[0])
                else:
                    s.neq[s0] = frozenset(ne) | frozenset(hit)
                out.append((s, t[3]))
            return out
        ty = self.T.get(t[4]) if len(t) > 4 else None
        if ty == ("prim", "bool"):
            d = {int(a): b for a, b in t[2]}
            for s, b in self.split_bool(st, v):
                out.append((s, d.get(int(b), t[3])))
            return out
        tn = ty[1] if ty and ty[0] == "prim" else None
        cur = [st]
        for val, tgt in t[2]:
            nxt = []
            for s in cur:
                cond = self.compare(s, "Eq", v, c(int(val)), tn)
                for s2, b in self.split_bool(s, cond):
                    if b:
                        out.append((s2, tgt))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            out.append((s, t[3]))
        return out

    # ---- statements
    def stmt(self, st, fr, s):
        if s[1] == "sd":
            cell, path = self.place(st, fr, s[2])
            return
        if s[1] != "a":
            return
        v = self.rvalue(st, fr, s[3], s[2])
        pl = s[2]
        if len(pl) == 1:
            st.store[(fr.id, pl[0])] = v
        else:
            cell, path = self.place(st, fr, pl)
            self.store(st, cell, path, v)

    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            cell, path = self.place(st, fr, r[1])
            if cell.__class__ is tuple and cell[0] == "K":
                inner = self.get_path(st, cell[1], path)
                if inner.__class__ is tuple and inner and inner[0] == "str":
                    return inner
            return ("r", cell, path)
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(st, fr, o) for o in r[3])
            if kind == "adt":
                path, vidx, vname = r[2][:3]
                if path in ("std::string::String",):
                    return ops[0]
                return ("e", path, vname, ops)
            if kind == "tuple":
                return ("t", ops)
            if kind == "array":
                return ("q", ops)
            if kind == "closure":
                name = r[2][0] if isinstance(r[2], (list, tuple)) else r[2]
                return ("cl", name, ops, tuple(sorted(fr.subst.items())))
            raise AnalysisError(f"aggregate {kind}")
        if k == "discr":
            cell, path = self.place(st, fr, r[1])
            v = self.deref(st, self.load(st, cell, path))
            return self.discr(st, v)
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.T.get(r[4]))
        if k == "un":
            a = self.operand(st, fr, r[2])
            op = r[1]
            ty = self.place_ty(fr, dest)
            if op == "PtrMetadata":
                return self.seq_len(st, self.deref(st, a))
            if op == "Not":
                if ty == ("prim", "bool"):
                    return self.notb(self.rv(st, a))
                if a.__class__ is tuple and a[0] == "c":
                    return c(wrap(ty[1], ~a[1]))
                return Sym("un:Not", (self.tm(st, a),), ty)
            if op == "Neg":
                if a.__class__ is tuple and a[0] == "c":
                    return c(-a[1])
                if ty and ty[1] in INT:
                    return self.lin(st, C0, a, -1, ty)
                return Sym("un:Neg", (self.tm(st, a),), ty)
            return Sym("un:" + op, (self.tm(st, a),), ty)
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 4096:
                return ("q", (v,) * n)
            return Sym("repeat", (self.tm(st, v),), self.place_ty(fr, dest))
        if k == "len":
            cell, path = self.place(st, fr, r[1])
            return self.seq_len(st, self.load(st, cell, path))
        if k in ("copyderef", "reborrow"):
            return self.operand(st, fr, {"k": "copy", "p": r[1]})
        raise AnalysisError(f"rvalue {k}: {r} in {fr.fn.name}")

    def discr(self, st, v):
        v = self.rv(st, v)
        if v.__class__ is Sym:
            if v.ty is None or v.ty[0] != "adt":
                return Sym("discr?", (v,), ("prim", "isize"))
            return Sym("discr", (v,), ("prim", "isize"))
        if v[0] == "e":
            d = self.adt_variant(v[1], v[2])["discr"]
            if d is not None:
                return c(int(d))
            a = self.prog.adts[v[1]]
            for i, x in enumerate(a["variants"]):
                if x["name"] == v[2]:
                    return c(i)
        raise AnalysisError(f"discriminant of {show(v)}")

    def cast(self, st, fr, r):
        kind = r[4]
        src, dst = subst(self.T.get(r[2]), fr.subst), subst(self.T.get(r[3]), fr.subst)
        if kind == "BoxDerefTransmute" or (kind == "Transmute" and r[1]["k"] in ("copy", "move")
                                          and r[1]["p"][1:] and dst[0] == "ptr"):
            # a pointer to the contents of a box
            cell, path = self.place(st, fr, [r[1]["p"][0]] + [e for e in r[1]["p"][1:]])
            while path and path[-1][0] == "f":
                v = self.load(st, cell, path[:-1])
                v = self.rv(st, v)
                if (v.__class__ is tuple and v[0] == "box") or (v.__class__ is Sym and adt_is(v.ty, "std::boxed::Box")):
                    return ("r", cell, path[:-1] + (("box",),))
                path = path[:-1]
            raise AnalysisError(f"box dereference in {fr.fn.name} of {show(v)[:80]}")
        a = self.operand(st, fr, r[1])
        if kind == "IntToInt":
            if a.__class__ is tuple and a[0] == "c":
                return c(wrap(dst[1], a[1]))
            if a.__class__ is tuple and a[0] == "e":
                return self.discr(st, a)
            iv = self.interval(st, a, src[1] if src[0] == "prim" else None)
            if iv and dst[1] in INT:
                lo, hi = int_range(dst[1])
                if lo <= iv[0] and iv[1] <= hi:
                    return a if a.__class__ is Sym and a.head in ("lin",) or a.__class__ is Sym else a
            return Sym("cast", (self.tm(st, a), dst[1]), dst)
        if kind in ("IntToFloat", "FloatToFloat", "FloatToInt"):
            return Sym(kind, (self.tm(st, a), src[1], dst[1]), dst)
        return a   # pointer coercions

    def seq_len(self, st, v):
        v = self.deref(st, v)
        if v.__class__ is tuple:
            if v[0] == "str":
                return c(len(v[1].encode()))
            if v[0] == "q":
                k0, d = 0, {}
                for it in v[1]:
                    if it.__class__ is tuple and it and it[0] == "splice":
                        t = self.rv(st, Sym("len", (it[1],), ("prim", "usize")))
                        if t.__class__ is tuple:
                            k0 += t[1]
                        else:
                            d[t] = d.get(t, 0) + 1
                    else:
                        k0 += 1
                return self.mk_lin(k0, d, ("prim", "usize"))
            if v[0] == "m":
                if v[3] is None:
                    return c(len(v[2]))
                return Sym("len", (Sym("map", (v,), None),), ("prim", "usize"))
        if v.__class__ is Sym:
            return self.rv(st, Sym("len", (v,), ("prim", "usize")))
        raise AnalysisError(f"length of {show(v)}")

    # ---- calls
    def call(self, st, fr, t, line):
        o = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        dty = self.place_ty(fr, t[3])
        if o["k"] != "fn":
            v = self.rv(st, self.operand(st, fr, o))
            return self.invoke(st, v, args, dty)
        return self.call_op(st, o, args, dty, fr)

    def call_op(self, st, o, args, dty, fr=None):
        path = o["path"]
        name = o["res"]
        if name is None:
            f = self.dispatch(st, o, args, dty, fr) if o["trait"] else None
            name = f.name if f is not None else path
        p = self.policy(name)
        if p is None and path != name:
            p = self.policy(path)
        if callable(p):
            self.opaque_fns_seen.add(name)
            r = p(self, st, args, dty)
            if r is not NotImplemented:
                return r
            p = None
        if p in ("opaque", "pure"):
            self.opaque_fns_seen.add(name)
            return self.opaque_call(st, name, args, dty, p == "pure")
        from absbuiltins import builtin
        r = builtin(self, st, o, args, dty, fr)
        if r is not None:
            return r
        f = self.prog.fns.get(name)
        if f is None:
            f = self.dispatch(st, o, args, dty, fr)
        if f is not None:
            return self.exec_fn(st, f, args, self.generic_args(o, f, fr))
        adt, _, var = name.rpartition("::")
        for a, v in ((adt, var), (name, var)):
            d = self.prog.adts.get(a)
            k = next((x for x in d["variants"] if x["name"] == v), None) if d else None
            if k is not None and len(k["fields"]) == len(args):
                return [(st, ("e", a, v, tuple(args)))]        # a constructor used as a function
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return self.opaque_call(st, name, args, dty, False)

    def subst_op(self, o, fr):
        if not fr.subst or not o["targs"]:
            return o
        o = dict(o)
        for k in ("targs", "rargs"):
            o[k] = [self.T.put(subst(self.T.get(t), fr.subst)) for t in o.get(k) or []]
        return o

    def generic_args(self, o, f, fr):
        if not f.generics:
            return {}
        ts = o.get("rargs") if o["res"] == f.name else None
        if not ts:
            ts = o["targs"] if len(o["targs"]) == len(f.generics) else []
        sub = fr.subst if fr is not None else {}
        return {n: subst(self.T.get(t), sub) for n, t in zip(f.generics, ts)}

    def dispatch(self, st, o, args, dty, fr=None):
        """Trait method on a value whose type decides the impl."""
        m = o["path"].split("::")[-1]
        tab = self.trait_impls.get(m)
        if not tab:
            return None
        if o["trait"] and o["targs"]:
            t = peel(subst(self.T.get(o["targs"][0]), fr.subst if fr is not None else {}))
            if t is not None and t[0] in ("adt", "prim") and t[1] in tab:
                return self.prog.fns[tab[t[1]]]
        if not args:
            return None
        v = self.deref(st, args[0])
        key = None
        if v.__class__ is tuple and v[0] == "e":
            key = v[1]
        elif v.__class__ is Sym and v.ty is not None and v.ty[0] == "adt":
            key = v.ty[1]
        if key and key in tab:
            return self.prog.fns[tab[key]]
        return None

    def invoke(self, st, f, args, dty=None):
        """Call a closure or function value."""
        f = self.rv(st, f)
        while f.__class__ is tuple and f[0] in ("r", "box"):
            f0 = f
            f = self.rv(st, self.load(st, f[1], f[2])) if f[0] == "r" else f[1]
        if f.__class__ is tuple and f[0] == "fn":
            return self.call_op(st, f[1].o, args, dty)
        if f.__class__ is tuple and f[0] == "cl":
            fn = self.prog.fns.get(f[1])
            if fn is None:
                raise AnalysisError("closure " + f[1])
            st.nfresh += 1
            cell = ("clo", st.nfresh)
            st.store[cell] = f
            t1 = self.T.get(fn.local_ty(1))
            self_arg = ("r", cell, ()) if t1[0] == "ref" else f
            return self.exec_fn(st, fn, [self_arg] + list(args), dict(f[3]) if len(f) > 3 else {})
        if f.__class__ is tuple and f[0] == "py":
            return f[1](self, st, args)
        return self.opaque_call(st, "indirect", [f] + list(args), dty, False)

    def opaque_call(self, st, name, args, dty, pure):
        terms = []
        for a in args:
            terms.append(self.arg_term(st, a))
        terms = tuple(terms)
        if pure:
            return [(st, Sym("call:" + name, terms, dty))]
        st.nfresh += 1
        n = st.nfresh
        res = UNIT if dty == ("tuple", ()) else Sym("call:" + name, terms + (c(n),), dty)
        st.trace = st.trace + ((name, terms, res),)
        for i, a in enumerate(args):
            a = self.rv(st, a)
            if a.__class__ is tuple and a[0] == "r" and a[1].__class__ is tuple and a[1][0] != "K":
                # may have been written through: only &mut arguments are havocked
                if self.is_mut_arg(name, i):
                    old = self.rv(st, self.load(st, a[1], a[2]))
                    self.store(st, a[1], a[2], Sym("havoc", (name, c(n), c(i)), type_of(self, old)))
        return [(st, res)]

    def is_mut_arg(self, name, i):
        f = self.prog.fns.get(name)
        if f is None:
            return True
        t = self.T.get(f.local_ty(i + 1))
        return t[0] == "ref" and t[2]

    def arg_term(self, st, a):
        a = self.rv(st, a)
        if a.__class__ is tuple and a and a[0] == "r":
            if a[1].__class__ is tuple and a[1][0] == "*" and a[1] in st.store or (
                    a[1].__class__ is tuple and len(a[1]) == 2 and a[1][0] != "K" and self.big(st, a)):
                return Sym("at", (str(a[1][0]) if not is_sym(a[1][1]) else show(a[1][1]), str(a[2])), None)
        v = self.freeze(st, a)
        return v

    def big(self, st, a):
        v = self.rv(st, self.load(st, a[1], a[2]))
        return v.__class__ is tuple and v and v[0] == "e" and len(v[3]) > 8

    # ---- entry
    def run(self, fnname, args, st=None, sub=None):
        f = self.find(fnname) if isinstance(fnname, str) else fnname
        st = st or State()
        return self.exec_fn(st, f, args, sub or {})

    def find(self, suffix):
        r = self.prog.fns.get(suffix)
        if r is not None:
            return r
        c_ = self.prog.find_fns(suffix)
        if len(c_) != 1:
            raise AnalysisError(f"function {suffix}: {len(c_)} candidates")
        return c_[0]

    def cell(self, st, name, v):
        """A named cell holding v; returns a reference to it."""
        st.store[("G", name)] = v
        return ("r", ("G", name), ())


class OpBox:
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, OpBox) and self.o["res"] == x.o["res"]

    def __hash__(self):
        return hash(self.o["res"])

    def __repr__(self):
        return self.o["res"]


def base_ty_full(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].strip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1]
        if s.startswith("mut "):
            s = s[4:]
    return s.split("<")[0]


def peel1(t):
    if t is None:
        return None
    if t[0] in ("ref", "ptr"):
        return t[1]
    return None


def is_float(tn):
    return tn in ("f32", "f64")


def order(a, b):
    def k(x):
        if x.__class__ is Sym:
            return (1, x.id, "")
        return (2, 0, repr(x))
    return (a, b) if k(a) <= k(b) else (b, a)


def float_of(bits, ty):
    import struct
    if ty == ("prim", "f32"):
        return struct.unpack("<f", struct.pack("<I", bits))[0]
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def type_of(I, v):
    if v.__class__ is Sym:
        return v.ty
    if v.__class__ is tuple and v and v[0] == "e":
        return ("adt", v[1], ())
    if v.__class__ is tuple and v and v[0] == "q":
        et = I.seq_elem_ty(v)
        return ("adt", "std::vec::Vec", (et,))
    return None


def variant_value(I, adt, vname, fields=()):
    return ("e", adt, vname, tuple(fields))
