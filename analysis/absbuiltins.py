"""Models of the standard library functions the crate calls."""
from absint import (Sym, is_sym, c, C0, C1, TRUE, FALSE, UNIT, UNINIT, AnalysisError, norm_path, adt_is, elem_ty, peel,
                    peel1, INT, int_range, wrap, show, order, is_float, SEQ_ADTS, MAP_ADTS, type_of)

OPT, RES, CF = "std::option::Option", "std::result::Result", "std::ops::ControlFlow"


def some(v):
    return ("e", OPT, "Some", (v,))


NONE = ("e", OPT, "None", ())


def ok(v):
    return ("e", RES, "Ok", (v,))


def err(v):
    return ("e", RES, "Err", (v,))


IGNORED_PREFIX = ("log::", "std::io::_print", "std::io::_eprint", "std::fmt::", "std::hint::must_use")


def is_splice(x):
    return x.__class__ is tuple and bool(x) and x[0] == "splice"


# ------------------------------------------------------------------ equality
def deep_eq(I, st, a, b):
    """[(state, bool)]"""
    a, b = I.deref(st, a), I.deref(st, b)
    if a == b:
        return [(st, True)]
    if is_sym(a) or is_sym(b):
        if is_sym(b) and not is_sym(a):
            a, b = b, a
        if not is_sym(b):
            if b[0] == "e" and a.ty is not None and a.ty[0] == "adt":
                ad = I.prog.adts.get(a.ty[1])
                if ad and ad["kind"] == "enum":
                    out = []
                    for s, isv in I.split_bool(st, Sym("isv", (a, b[2]), ("prim", "bool"))
                                               if b[2] not in st.neq.get(a, ()) else FALSE):
                        if isv:
                            out.extend(deep_eq(I, s, I.rv(s, a), b))
                        else:
                            out.append((s, False))
                    return out
                if ad:
                    return deep_eq(I, st, I.materialise(a), b)
            if b[0] == "t" and a.ty is not None and a.ty[0] == "tuple":
                return deep_eq(I, st, I.materialise(a), b)
            if b[0] == "q":
                L = I.compare(st, "Eq", I.seq_len(st, a), I.seq_len(st, b), "usize")
                out = []
                for s, t in I.split_bool(st, L):
                    if not t:
                        out.append((s, False))
                        continue
                    a2 = I.rv(s, a)
                    if is_sym(a2):
                        n = len(b[1])
                        et = elem_ty(a2.ty)
                        a2q = ("q", tuple(Sym("el", (a2, c(k)), et) for k in range(n)))
                        s.refine[a2] = a2q
                        a2 = a2q
                    out.extend(deep_eq(I, s, a2, b))
                return out
        if is_sym(a) and is_sym(b) and a.ty is not None and a.ty[0] == "adt" and a.ty[1] in I.prog.adts and \
                I.prog.adts[a.ty[1]]["kind"] == "struct" and I.prog.adts[a.ty[1]]["local"] and \
                (b.ty is None or b.ty == a.ty):
            if b.ty is not None:
                return deep_eq(I, st, I.materialise(a), I.materialise(b))
        t = a.ty[1] if a.ty is not None and a.ty[0] == "prim" else None
        if t is None and is_sym(b) and b.ty is not None and b.ty[0] == "prim":
            t = b.ty[1]
        if t is not None:
            return I.split_bool(st, I.compare(st, "Eq", a, b, t))
        x, y = order(I.tm(st, a), I.tm(st, b))
        return I.split_bool(st, Sym("cmp", ("Eq", x, y), ("prim", "bool")))
    if a[0] != b[0]:
        if {a[0], b[0]} <= {"q", "str"}:
            return [(st, False)]
        raise AnalysisError(f"comparing {show(a)} with {show(b)}")
    if a[0] in ("c", "str"):
        return [(st, a[1] == b[1])]
    if a[0] == "e":
        own = user_impl(I, "eq", "PartialEq", a)
        if own is not None:
            out = []
            for s, v in I.exec_fn(st, own, [I.cell(st, ("eq", 0, st.nfresh), a), I.cell(st, ("eq", 1, st.nfresh), b)], {}):
                out.extend(I.split_bool(s, v))
            return out
        if a[2] != b[2]:
            return [(st, False)]
        return seq_eq(I, st, a[3], b[3])
    if a[0] in ("t", "q"):
        if any(is_splice(x) for x in a[1] + b[1]):
            return I.split_bool(st, Sym("cmp", ("Eq", I.tm(st, a), I.tm(st, b)), ("prim", "bool")))
        if len(a[1]) != len(b[1]):
            return [(st, False)]
        return seq_eq(I, st, a[1], b[1])
    if a[0] == "m":
        if a[3] is None and b[3] is None:
            return map_eq(I, st, a, b)
        return I.split_bool(st, Sym("cmp", ("Eq", Sym("map", (a,), None), Sym("map", (b,), None)), ("prim", "bool")))
    raise AnalysisError(f"comparing {show(a)} with {show(b)}")


def user_impl(I, method, trait, v):
    """the hand-written implementation of a comparison for the type of v, if it has one"""
    n = I.trait_impls.get(method, {}).get(v[1])
    return I.prog.fns[n] if n is not None and not is_derived(I, n, trait) else None


def map_eq(I, st, a, b):
    """Two maps (or sets) all of whose entries are known."""
    if len(a[2]) != len(b[2]):
        return [(st, False)]
    out, cur = [], [(st, tuple(b[2]))]
    for k, v in a[2]:
        nxt = []
        for s, rest in cur:
            same = [e for e in rest if e[0] == k]
            todo = [(s, tuple(same or rest))]
            while todo:
                s1, cand = todo.pop()
                if not cand:
                    out.append((s1, False))
                    continue
                k2, v2 = cand[0]
                for s2, t in ([(s1, True)] if k == k2 else deep_eq(I, s1, k, k2)):
                    if not t:
                        todo.append((s2, cand[1:]))
                        continue
                    for s3, t3 in ([(s2, True)] if v == v2 else deep_eq(I, s2, v, v2)):
                        if t3:
                            nxt.append((s3, tuple(e for e in rest if e is not cand[0])))
                        else:
                            out.append((s3, False))
        cur = nxt
    return out + [(s, True) for s, _ in cur]


def seq_eq(I, st, xs, ys):
    cur = [st]
    out = []
    for x, y in zip(xs, ys):
        nxt = []
        for s in cur:
            for s2, t in deep_eq(I, s, x, y):
                if t:
                    nxt.append(s2)
                else:
                    out.append((s2, False))
        cur = nxt
    return out + [(s, True) for s in cur]


# ------------------------------------------------------------------ maps
def as_map(I, st, loc, kind):
    cell, path = loc
    v = I.deref(st, ("r", cell, path))
    if is_sym(v):
        v = ("m", kind, (), v)
        I.store(st, cell, path, v)
    if v[0] != "m":
        raise AnalysisError(f"map expected: {show(v)}")
    return v


def map_find(I, st, loc, key, kind):
    """[(state, found?, key as stored)]"""
    m = as_map(I, st, loc, kind)
    key = I.freeze(st, key)
    for kk, _ in m[2]:
        if kk == key:
            return [(st, True, kk)]
    out = []
    cur = [st]
    for kk, _ in m[2]:
        nxt = []
        for s in cur:
            for s2, t in deep_eq(I, s, kk, key):
                if t:
                    out.append((s2, True, kk))
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        base = m[3]
        if base is None:
            out.append((s, False, key))
            continue
        base = I.rv(s, base)
        h = Sym("has", (base, key), ("prim", "bool"))
        for s2, t in I.split_bool(s, h):
            if t:
                vt = base.ty[2][1] if base.ty and base.ty[0] == "adt" and len(base.ty[2]) > 1 and kind == "map" else None
                mm = as_map(I, s2, loc, kind)
                I.store(s2, loc[0], loc[1], ("m", kind, mm[2] + ((key, Sym("mv", (base, key), vt)),), mm[3]))
                out.append((s2, True, key))
            else:
                out.append((s2, False, key))
    return out


def map_put(I, st, loc, key, val, kind):
    """[(state, old or None)]"""
    out = []
    for s, found, kk in map_find(I, st, loc, key, kind):
        m = as_map(I, s, loc, kind)
        if found:
            old = I.map_at(s, m, kk)
            ents = tuple((a, val if a == kk else b) for a, b in m[2])
            I.store(s, loc[0], loc[1], ("m", kind, ents, m[3]))
            out.append((s, old))
        else:
            I.store(s, loc[0], loc[1], ("m", kind, m[2] + ((kk, val),), m[3]))
            out.append((s, None))
    return out


def map_del(I, st, loc, key, kind):
    out = []
    for s, found, kk in map_find(I, st, loc, key, kind):
        m = as_map(I, s, loc, kind)
        if found:
            old = I.map_at(s, m, kk)
            ents = tuple((a, b) for a, b in m[2] if a != kk)
            base = m[3]
            if base is not None:
                base = Sym("without", (base, kk), base.ty)
                s.refine[Sym("has", (base, kk), ("prim", "bool"))] = FALSE
            I.store(s, loc[0], loc[1], ("m", kind, ents, base))
            out.append((s, old))
        else:
            out.append((s, None))
    return out


def map_entries(I, st, loc, kind):
    """[(state, entries)] with the unknown rest split up to I.unroll entries."""
    m = as_map(I, st, loc, kind)
    if m[3] is None:
        return [(st, m[2][::-1] if I.reverse_maps else m[2])]
    base = I.rv(st, m[3])
    if base.__class__ is tuple and base[0] == "m":
        ents = m[2] + base[2]
        I.store(st, loc[0], loc[1], ("m", kind, ents, None))
        return [(st, ents)]
    kt = base.ty[2][0] if base.ty and base.ty[0] == "adt" and base.ty[2] else None
    vt = base.ty[2][1] if base.ty and base.ty[0] == "adt" and len(base.ty[2]) > 1 else None
    out = []
    for n in range(I.unroll + 1):
        s = st.copy()
        L = I.rv(s, Sym("len", (base,), ("prim", "usize")))
        if not is_sym(L) and L[1] != n:
            continue
        more = tuple((Sym("mk", (base, c(i)), kt),
                      Sym("mv", (base, Sym("mk", (base, c(i)), kt)), vt) if kind == "map" else UNIT) for i in range(n))
        s.refine[base] = ("m", kind, more, None)
        s.refine[Sym("len", (base,), ("prim", "usize"))] = c(n)
        ents = m[2] + more
        I.store(s, loc[0], loc[1], ("m", kind, ents, None))
        out.append((s, ents))
    return out


# ------------------------------------------------------------------ iterators
def raw_bytes(d):
    """The items of a byte sequence of which parts are unknown, with these left as they are; otherwise None."""
    if is_sym(d):
        return (("splice", d),) if elem_ty(d.ty) == ("prim", "u8") else None
    if d.__class__ is tuple and d[0] == "q":
        sp = [x[1] for x in d[1] if is_splice(x)]
        if sp and all(is_sym(x) and (elem_ty(x.ty) == ("prim", "u8") or adt_is(x.ty, "std::string::String") or peel(x.ty) == ("prim", "str")) for x in sp):
            return d[1]
    return None


def it_items(I, st, d):
    if any(is_splice(x) for x in d[1]):
        return [(s, q[1]) for s, q in I.split_seq(st, ("q", d[1]))]
    return [(st, d[1])]


def raw_it(I, st, v):
    """[(state, items)] of an iterator, unknown parts of bytes left as they are"""
    d = I.deref(st, v)
    if d.__class__ is tuple and d[0] == "it":
        return [(st, d[1])]
    r = raw_bytes(d)
    return [(st, r)] if r is not None else seq_items(I, st, v, "own")


def seq_items(I, st, v, mode):
    """[(state, tuple of items)] for iterating v (a sequence, map or reference to one).
    mode: 'own' | 'ref' | 'mut'"""
    v0 = I.rv(st, v)
    if mode == "own" and v0.__class__ is tuple and v0[0] == "r":
        mode = "ref"
    if mode == "own" and is_sym(v0) and v0.ty is not None and v0.ty[0] in ("ref", "ptr"):
        mode = "ref"
    if mode == "own":
        d = I.deref(st, v0)
        if d.__class__ is tuple and d[0] == "it":
            return it_items(I, st, d)
        if d.__class__ is tuple and d[0] == "m" or is_sym(d) and adt_is(d.ty, *MAP_ADTS):
            kind = map_kind(d)
            cell = ("tmpm", st.nfresh)
            st.nfresh += 1
            st.store[cell] = d
            out = []
            for s, ents in map_entries(I, st, (cell, ()), kind):
                out.append((s, tuple(k if kind == "set" else ("t", (k, vv)) for k, vv in ents)))
            return out
        if d.__class__ is tuple and d[0] == "e" and d[1].endswith("Range"):
            return range_items(I, st, d)
        if d.__class__ is tuple and d[0] == "e" and d[1] == OPT:
            return [(st, d[3])]
        return [(s, q[1]) for s, q in I.split_seq(st, d)]
    cell, path = I.loc(st, v0)
    d = I.deref(st, ("r", cell, path))
    if d.__class__ is tuple and d[0] == "it":
        return it_items(I, st, d)
    if d.__class__ is tuple and d[0] == "m" or is_sym(d) and adt_is(d.ty, *MAP_ADTS):
        kind = map_kind(d)
        out = []
        if cell.__class__ is tuple and cell[0] == "K":
            cell2 = ("tmpm", st.nfresh)
            st.nfresh += 1
            st.store[cell2] = d
            cell, path = cell2, ()
        for s, ents in map_entries(I, st, (cell, path), kind):
            if kind == "set":
                out.append((s, tuple(I.as_ref(k) for k, _ in ents)))
            else:
                out.append((s, tuple(("t", (I.as_ref(k), ("r", cell, path + (("mv", k),)))) for k, _ in ents)))
        return out
    if d.__class__ is tuple and d[0] == "e" and d[1].endswith("Range"):
        return range_items(I, st, d)
    out = []
    for s, q in I.split_seq(st, d):
        if not (cell.__class__ is tuple and cell[0] == "K"):
            I.store(s, cell, path, q)
            out.append((s, tuple(("r", cell, path + (("i", i),)) for i in range(len(q[1])))))
        else:
            out.append((s, tuple(I.as_ref(x) for x in q[1])))
    return out


def map_kind(d):
    if is_sym(d):
        return "set" if "Set" in d.ty[1] else "map"
    return d[1]


def range_items(I, st, d):
    lo, hi = I.rv(st, d[3][0]), I.rv(st, d[3][1])
    incl = d[1].endswith("RangeInclusive")
    out = []
    diff = I.lin(st, hi, lo, -1)
    cur = st
    if diff is not None and not is_sym(diff):
        n = diff[1] + (1 if incl else 0)
        if n > 4096:
            raise AnalysisError("range too long")
        return [(st, tuple(I.lin(st, lo, c(k), 1) for k in range(max(n, 0))))]
    # the length of an unknown sequence?
    if is_sym(hi) and hi.head == "len" and lo == C0:
        for s, q in I.split_seq(st, hi.args[0]):
            out.append((s, tuple(c(k) for k in range(len(q[1])))))
        return out
    for n in range(I.unroll + 1):
        cond = I.compare(cur, "Lt", I.lin(cur, lo, c(n), 1), I.lin(cur, hi, c(1), 1) if incl else hi, "usize")
        nxt = None
        for s, t in I.split_bool(cur, cond):
            if t:
                nxt = s
            else:
                out.append((s, tuple(I.lin(s, lo, c(k), 1) for k in range(n))))
        if nxt is None:
            return out
        cur = nxt
    I.truncated += 1
    return out


def map_over(I, st, f, items):
    """[(state, results list)] applying closure f to argument tuples in order."""
    cur = [(st, ())]
    for it in items:
        nxt = []
        for s, acc in cur:
            for s2, r in I.invoke(s, f, list(it)):
                nxt.append((s2, acc + (r,)))
        cur = nxt
    return cur


def filter_over(I, st, f, items, byref=True):
    cur = [(st, ())]
    for it in items:
        nxt = []
        for s, acc in cur:
            for s2, r in I.invoke(s, f, [I.as_ref(it) if byref else it]):
                for s3, b in I.split_bool(s2, r):
                    nxt.append((s3, acc + (it,) if b else acc))
        cur = nxt
    return cur


def iter_of(I, st, v):
    """[(state, items)] of an iterator value or reference to one."""
    return seq_items(I, st, v, "own")


def seq_append(a, b):
    return ("q", a[1] + b[1])


def as_q(I, st, v):
    """The value as a ('q', ..), an unknown sequence becoming one splice."""
    v = I.deref(st, v)
    if is_sym(v):
        return ("q", (("splice", v),))
    if v[0] == "q":
        return v
    if v[0] == "it":
        return ("q", v[1])
    if v[0] == "str":
        return ("q", tuple(c(b) for b in v[1].encode()))
    raise AnalysisError(f"sequence expected: {show(v)}")


def collect(I, st, items, dty):
    if adt_is(dty, *MAP_ADTS):
        kind = "set" if "Set" in dty[1] else "map"
        cell = ("tmpm", st.nfresh)
        st.nfresh += 1
        st.store[cell] = ("m", kind, (), None)
        cur = [st]
        for it in items:
            nxt = []
            for s in cur:
                if kind == "set":
                    nxt.extend(x for x, _ in map_put(I, s, (cell, ()), it, UNIT, kind))
                else:
                    k = I.get_path(s, I.rv(s, it), (("f", 0),))
                    vv = I.get_path(s, I.rv(s, it), (("f", 1),))
                    nxt.extend(x for x, _ in map_put(I, s, (cell, ()), k, vv, kind))
            cur = nxt
        return [(s, s.store[cell]) for s in cur]
    if adt_is(dty, "std::string::String"):
        vals = [I.deref(st, x) for x in items]
        if all(v.__class__ is tuple and v[0] in ("c", "str") for v in vals):
            return [(st, ("str", "".join(v[1] if v[0] == "str" else chr(v[1]) for v in vals)))]
        return [(st, Sym("strof", tuple(I.tm(st, v) for v in vals), dty))]
    if adt_is(dty, RES, OPT):
        out = []
        cur = [(st, ())]
        for it in items:
            nxt = []
            for s, acc in cur:
                for s2, e in I.split_enum(s, it):
                    if e[2] in ("Ok", "Some"):
                        nxt.append((s2, acc + (e[3][0],)))
                    else:
                        out.append((s2, e))
            cur = nxt
        for s, acc in cur:
            for s2, v in collect(I, s, acc, dty[2][0]):
                out.append((s2, ok(v) if dty[1] == RES else some(v)))
        return out
    return [(st, ("q", tuple(items)))]


def default_of(I, t):
    if t is None:
        return None
    if t[0] == "prim":
        return FALSE if t[1] == "bool" else ("str", "") if t[1] == "str" else c(0)
    if adt_is(t, *SEQ_ADTS):
        return ("q", ())
    if adt_is(t, *MAP_ADTS):
        return ("m", "set" if "Set" in t[1] else "map", (), None)
    if adt_is(t, OPT):
        return NONE
    if adt_is(t, "std::string::String"):
        return ("str", "")
    if t[0] == "tuple":
        xs = tuple(default_of(I, x) for x in t[1])
        return None if None in xs else ("t", xs)
    if t[0] == "ref":
        return default_of(I, t[1])
    return None


def split_less(I, st, a, b, ty):
    return I.split_bool(st, I.compare(st, "Lt", a, b, ty))


NOOP = {"drop", "drop_in_place", "hash", "shrink_to_fit", "reserve", "flush", "assert_receiver_is_total_eq", "assert_fields_are_eq"}
DEREF_ID = {"clone", "to_owned", "to_string", "to_vec", "deref", "deref_mut", "as_ref", "as_mut", "as_str", "borrow", "borrow_mut",
            "as_slice", "as_mut_slice", "into_boxed_slice", "as_bytes", "into_bytes", "as_mut_str", "cloned", "copied",
            "into_vec", "into_string"}


def builtin(I, st, o, args, dty, fr):
    path = o["path"]
    res = o["res"] or path
    np = I._norm.get(res)
    if np is None:
        np = I._norm[res] = norm_path(res)
    base, m = np
    local = res in I.prog.fns
    n = len(args)

    # derived / std trait methods on values of local types
    if m in ("eq", "ne") and n == 2 and (not local or is_derived(I, res, "PartialEq")):
        if base.startswith("Level"):
            return [(st, FALSE)]
        out = deep_eq(I, st, args[0], args[1])
        return [(s, c(int(b == (m == "eq")))) for s, b in out]
    if m == "clone" and (not local or is_derived(I, res, "Clone")):
        return [(st, reboxed(I.deref(st, args[0]), dty))] if not shares(I, st, args[0]) else None
    if local:
        return None
    if m in ("le", "lt", "ge", "gt", "partial_cmp", "cmp", "max", "min") and ("log::Level" in res):
        return [(st, FALSE)]
    if res.startswith(IGNORED_PREFIX) or "::fmt::" in res or base == "Formatter" or base == "Argument" or base == "Arguments":
        if dty is not None and dty == ("tuple", ()):
            return [(st, UNIT)]
        if m == "must_use":
            return [(st, args[0])]
        st.nfresh += 1
        if adt_is(dty, RES):
            return [(st, ok(UNIT))]
        return [(st, Sym("fmt", (m, st.nfresh), dty))]
    if "panicking" in res or m in ("panic", "panic_fmt", "begin_panic", "unreachable_display", "assert_failed", "exit",
                                   "abort", "panic_bounds_check", "unwrap_failed", "expect_failed"):
        if m == "unreachable_default_msg":
            return [(st, UNIT)]
        I.panics.append((fr.fn.name if fr else "?", 0, m, st))
        if m == "exit":
            st.trace = st.trace + (("exit", tuple(I.tm(st, a) for a in args), UNIT),)
        return []
    if m in NOOP and (dty is None or dty == ("tuple", ())):
        return [(st, UNIT)]
    h = METHODS.get((base, m)) or METHODS.get(("*", m))
    if h is not None:
        r = h(I, st, o, args, dty, base, fr)
        if r is not None:
            return r
    if m in DEREF_ID and n == 1:
        a = I.rv(st, args[0])
        if m in ("as_ref", "as_mut") and base == "Option":
            return opt_as_ref(I, st, args, m)
        if m in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_bytes",
                 "as_str"):
            cell, p = I.loc(st, a)
            v = I.deref(st, ("r", cell, p))
            if v.__class__ is tuple and v[0] == "str":
                return [(st, v)]
            if base == "Lazy":
                return [(st, Sym("lazy", (I.tm(st, v),), dty))]
            return [(st, ("r", cell, p))]
        if m in ("cloned", "copied"):
            if base == "Option":
                return [(s, e if e[2] == "None" else some(I.deref(s, e[3][0]))) for s, e in I.split_enum(st, a)]
            return [(s, ("it", tuple(x if is_splice(x) else I.deref(s, x) for x in items))) for s, items in raw_it(I, st, a)]
        v = I.deref(st, a)
        if m == "into_bytes" and v.__class__ is tuple and v[0] == "str":
            return [(st, ("q", tuple(c(b) for b in v[1].encode())))]
        if m == "to_string" and v.__class__ is tuple and v[0] == "c":
            if peel1(I.place_ty(fr, [0])) is None:
                pass
            return [(st, Sym("tostr", (v,), dty))]
        return [(st, reboxed(v, dty))]
    return None


def reboxed(v, dty):
    """deref looks through boxes; a copy of a box is a box"""
    if dty is not None and adt_is(dty, "std::boxed::Box") and v.__class__ is tuple and v[0] != "box":
        return ("box", v)
    return v


def shares(I, st, a):
    return False


def is_derived(I, res, trait):
    key = ("der", res)
    if key in I._norm:
        return I._norm[key]
    r = False
    if res.startswith("<") and " as " in res:
        i = res.index(" as ")
        ty = res[1:i]
        for tr, t in I.derived:
            if tr.endswith(trait) and (t == ty or t.split("<")[0] == ty.split("<")[0]):
                r = True
    I._norm[key] = r
    return r


def opt_as_ref(I, st, args, m):
    cell, p = I.loc(st, args[0])
    out = []
    for s, e in I.split_enum(st, ("r", cell, p)):
        if e[2] == "None":
            out.append((s, NONE))
        else:
            out.append((s, some(("r", cell, p + (("v", "Some"), ("f", 0))))))
    return out


METHODS = {}


def model(*names):
    def deco(f):
        for nm in names:
            b, _, mm = nm.rpartition(".")
            METHODS[(b or "*", mm)] = f
        return f
    return deco


# ---- Result / Option
@model("branch")
def _branch(I, st, o, a, dty, base, fr):
    v = I.deref(st, a[0])
    if is_sym(v) and I.assume_ok and adt_is(v.ty, RES):
        st.refine[v] = I.materialise(v, "Ok")
    out = []
    for s, e in I.split_enum(st, v):
        if e[2] in ("Ok", "Some"):
            out.append((s, ("e", CF, "Continue", (e[3][0],))))
        else:
            out.append((s, ("e", CF, "Break", (e,))))
    return out


@model("from_residual")
def _from_residual(I, st, o, a, dty, base, fr):
    e = I.deref(st, a[0])
    if is_sym(e):
        return None
    return [(st, e)]


@model("Option.unwrap", "Option.expect", "Result.unwrap", "Result.expect", "Option.unwrap_unchecked")
def _unwrap(I, st, o, a, dty, base, fr):
    out = []
    v = I.deref(st, a[0])
    if is_sym(v) and I.assume_ok:
        good = "Some" if adt_is(v.ty, OPT) else "Ok"
        if good not in st.neq.get(v, ()):
            st.refine[v] = I.materialise(v, good)
    for s, e in I.split_enum(st, v):
        if e[2] in ("Ok", "Some"):
            out.append((s, e[3][0]))
        else:
            I.panics.append((fr.fn.name if fr else "?", 0, "unwrap", s))
    return out


@model("Option.unwrap_or", "Result.unwrap_or")
def _unwrap_or(I, st, o, a, dty, base, fr):
    return [(s, e[3][0] if e[2] in ("Ok", "Some") else a[1]) for s, e in I.split_enum(st, a[0])]


@model("Option.unwrap_or_default", "Result.unwrap_or_default")
def _unwrap_or_default(I, st, o, a, dty, base, fr):
    d = default_of(I, dty)
    return [(s, e[3][0] if e[2] in ("Ok", "Some") else d) for s, e in I.split_enum(st, a[0])]


@model("Option.unwrap_or_else", "Result.unwrap_or_else")
def _unwrap_or_else(I, st, o, a, dty, base, fr):
    out = []
    for s, e in I.split_enum(st, a[0]):
        if e[2] in ("Ok", "Some"):
            out.append((s, e[3][0]))
        else:
            out.extend(I.invoke(s, a[1], list(e[3]), dty))
    return out


@model("Option.ok_or_else", "Option.ok_or")
def _ok_or_else(I, st, o, a, dty, base, fr):
    out = []
    for s, e in I.split_enum(st, a[0]):
        if e[2] == "Some":
            out.append((s, ok(e[3][0])))
        elif "ok_or_else" in (o["res"] or o["path"]):
            for s2, v in I.invoke(s, a[1], []):
                out.append((s2, err(v)))
        else:
            out.append((s, err(a[1])))
    return out


@model("Option.map", "Result.map", "Result.map_err", "Option.and_then", "Result.and_then", "Option.or_else", "Result.or_else")
def _opt_map(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    out = []
    for s, e in I.split_enum(st, a[0]):
        good = e[2] in ("Ok", "Some")
        if m in ("map", "and_then") and good or m in ("map_err", "or_else") and not good:
            for s2, r in I.invoke(s, a[1], list(e[3])):
                out.append((s2, ("e", e[1], e[2], (r,)) if m in ("map", "map_err") else r))
        else:
            out.append((s, e))
    return out


@model("Option.map_or", "Result.map_or", "Option.map_or_else", "Option.is_some_and", "Option.is_none_or", "Result.is_ok_and")
def _map_or(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    out = []
    f = a[2] if m.startswith("map_or") else a[1]
    for s, e in I.split_enum(st, a[0]):
        if e[2] in ("Ok", "Some"):
            out.extend(I.invoke(s, f, list(e[3])))
        elif m == "map_or":
            out.append((s, a[1]))
        elif m == "map_or_else":
            out.extend(I.invoke(s, a[1], list(e[3])))
        else:
            out.append((s, c(int(m == "is_none_or"))))
    return out


@model("Option.is_some", "Option.is_none", "Result.is_ok", "Result.is_err")
def _is_some(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    v = I.deref(st, a[0])
    want = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[m]
    if is_sym(v):
        left = [x for x, _ in I.variants_of(v.ty) if x not in st.neq.get(v, ())]
        return [(st, Sym("isv", (v, want), ("prim", "bool")))] if want in left else [(st, FALSE)]
    return [(st, c(int(v[2] == want)))]


@model("Result.ok", "Result.err", "Option.or", "Option.filter", "Option.take", "Option.replace", "Option.insert",
       "Option.flatten", "Option.and", "Option.get_or_insert_with", "Option.get_or_insert", "Option.iter", "Option.zip", "Option.xor")
def _opt_misc(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    if m in ("take", "replace", "insert"):
        cell, p = I.loc(st, a[0])
        old = I.load(st, cell, p)
        I.store(st, cell, p, NONE if m == "take" else some(a[1]))
        if m == "insert":
            return [(st, ("r", cell, p + (("v", "Some"), ("f", 0))))]
        return [(st, old)]
    if m in ("get_or_insert", "get_or_insert_with"):
        cell, p = I.loc(st, a[0])
        out = []
        for s, e in I.split_enum(st, I.load(st, cell, p)):
            ref = ("r", cell, p + (("v", "Some"), ("f", 0)))
            if e[2] == "Some":
                I.store(s, cell, p, e)
                out.append((s, ref))
            elif m == "get_or_insert":
                I.store(s, cell, p, some(a[1]))
                out.append((s, ref))
            else:
                for s2, v in I.invoke(s, a[1], []):
                    I.store(s2, cell, p, some(v))
                    out.append((s2, ref))
        return out
    if m == "iter":
        a = [I.load(st, *I.loc(st, a[0]))]
    out = []
    for s, e in I.split_enum(st, a[0]):
        good = e[2] in ("Ok", "Some")
        if m == "ok":
            out.append((s, some(e[3][0]) if good else NONE))
        elif m == "err":
            out.append((s, NONE if good else some(e[3][0])))
        elif m == "or":
            out.append((s, e if good else a[1]))
        elif m == "and":
            out.append((s, a[1] if good else e))
        elif m == "iter":
            out.append((s, ("it", (I.as_ref(e[3][0]),) if good else ())))
        elif m in ("zip", "xor"):
            for s2, e2 in I.split_enum(s, a[1]):
                good2 = e2[2] == "Some"
                if m == "zip":
                    out.append((s2, some(("t", (e[3][0], e2[3][0]))) if good and good2 else NONE))
                else:
                    out.append((s2, NONE if good == good2 else e if good else e2))
        elif m == "flatten":
            out.append((s, e[3][0] if good else e))
        elif m == "filter":
            if not good:
                out.append((s, e))
            else:
                for s2, r in I.invoke(s, a[1], [I.as_ref(e[3][0])]):
                    for s3, b in I.split_bool(s2, r):
                        out.append((s3, e if b else NONE))
        else:
            return None
    return out


# ---- Box, mem
@model("Box.new", "Rc.new", "Arc.new", "RefCell.new", "Cell.new")
def _box_new(I, st, o, a, dty, base, fr):
    return [(st, ("box", a[0]) if base == "Box" else a[0])]


@model("Box.new_uninit")
def _box_uninit(I, st, o, a, dty, base, fr):
    return [(st, ("box", UNINIT))]


@model("box_assume_init_into_vec_unsafe", "into_vec")
def _box_vec(I, st, o, a, dty, base, fr):
    return [(st, I.deref(st, a[0]))]


@model("mem.swap")
def _swap(I, st, o, a, dty, base, fr):
    (c1, p1), (c2, p2) = I.loc(st, a[0]), I.loc(st, a[1])
    x, y = I.load(st, c1, p1), I.load(st, c2, p2)
    I.store(st, c1, p1, y)
    I.store(st, c2, p2, x)
    return [(st, UNIT)]


@model("mem.replace", "mem.take")
def _replace(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    old = I.load(st, cell, p)
    new = a[1] if len(a) > 1 else default_of(I, dty)
    if new is None:
        return None
    I.store(st, cell, p, new)
    return [(st, old)]


@model("default")
def _default(I, st, o, a, dty, base, fr):
    d = default_of(I, dty)
    return None if d is None else [(st, d)]


@model("into", "from", "try_into", "try_from")
def _into(I, st, o, a, dty, base, fr):
    v = I.rv(st, a[0])
    m = norm_path(o["res"] or o["path"])[1]
    # a user-defined From impl?
    if dty is not None and dty[0] == "adt" and v.__class__ is tuple and v[0] == "e" and v[1] != dty[1]:
        for nme, f in I.prog.fns.items():
            if nme.endswith(">::from") and nme.startswith("<" + dty[1] + " as ") and v[1] in nme:
                return I.exec_fn(st, f, [v], {})
    if m.startswith("try_"):
        t = dty[2][0] if adt_is(dty, RES) else None
        iv = I.interval(st, v)
        if t and t[0] == "prim" and t[1] in INT and iv:
            lo, hi = int_range(t[1])
            if lo <= iv[0] and iv[1] <= hi:
                return [(st, ok(v))]
            if iv[1] < lo or iv[0] > hi:
                return [(st, err(Sym("tryerr", (), None)))]
        return None
    if dty is not None and dty[0] == "prim" or adt_is(dty, "std::string::String"):
        return [(st, I.deref(st, v))]
    if v.__class__ is tuple and v[0] == "str" and dty is not None and dty[0] == "adt":
        return None
    return [(st, v)] if dty is not None and adt_is(dty, *SEQ_ADTS) else None


# ---- sequences
@model("Vec.new", "VecDeque.new", "Vec.with_capacity", "VecDeque.with_capacity")
def _vec_new(I, st, o, a, dty, base, fr):
    return [(st, ("q", ()))]


@model("String.new", "String.with_capacity")
def _string_new(I, st, o, a, dty, base, fr):
    return [(st, ("str", ""))]


@model("Vec.push", "VecDeque.push_back", "VecDeque.push_front")
def _push(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    q = as_q(I, st, ("r", cell, p))
    front = (o["res"] or o["path"]).endswith("push_front")
    I.store(st, cell, p, ("q", (a[1],) + q[1] if front else q[1] + (a[1],)))
    return [(st, UNIT)]


@model("Vec.append")
def _append(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    c2, p2 = I.loc(st, a[1])
    q = as_q(I, st, ("r", cell, p))
    r = as_q(I, st, ("r", c2, p2))
    I.store(st, cell, p, ("q", q[1] + r[1]))
    I.store(st, c2, p2, ("q", ()))
    return [(st, UNIT)]


@model("Vec.extend_from_slice", "Vec.extend", "VecDeque.extend", "String.push_str", "String.extend")
def _extend(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    if base == "String":
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        if x.__class__ is tuple and y.__class__ is tuple and y[0] == "str":
            I.store(st, cell, p, ("str", x[1] + y[1]))
        else:
            I.store(st, cell, p, Sym("strcat", (I.tm(st, x), I.tm(st, y)), ("adt", "std::string::String", ())))
        return [(st, UNIT)]
    q = as_q(I, st, ("r", cell, p))
    src = I.deref(st, a[1])
    if is_sym(src) or src[0] == "q":
        r = as_q(I, st, src)
        if src.__class__ is tuple and I.rv(st, a[1]).__class__ is tuple and I.rv(st, a[1])[0] == "r":
            r = ("q", tuple(x if is_splice(x) else I.deref(st, x) if x.__class__ is tuple and x and x[0] == "r" else x for x in r[1]))
        I.store(st, cell, p, ("q", q[1] + r[1]))
        return [(st, UNIT)]
    out = []
    et = elem_ty(type_of(I, q))
    for s, items in raw_it(I, st, a[1]):
        if any(x.__class__ is tuple and x and x[0] == "r" for x in items) and not (et and et[0] == "ref"):
            items = tuple(x if is_splice(x) else I.deref(s, x) for x in items)
        I.store(s, cell, p, ("q", q[1] + tuple(items)))
        out.append((s, UNIT))
    return out


@model("concat")
def _concat(I, st, o, a, dty, base, fr):
    if not adt_is(dty, *SEQ_ADTS):
        return None
    out = []
    for s, parts in seq_items(I, st, a[0], "own"):
        q = ()
        for x in parts:
            q += tuple(x if is_splice(x) else I.deref(s, x) if x.__class__ is tuple and x and x[0] == "r" else x for x in as_q(I, s, x)[1])
        out.append((s, ("q", q)))
    return out


@model("String.push")
def _str_push(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    x, y = I.deref(st, a[0]), I.rv(st, a[1])
    if x.__class__ is tuple and x[0] == "str" and y.__class__ is tuple and y[0] == "c":
        I.store(st, cell, p, ("str", x[1] + chr(y[1])))
    else:
        I.store(st, cell, p, Sym("strpush", (I.tm(st, x), I.tm(st, y)), ("adt", "std::string::String", ())))
    return [(st, UNIT)]


@model("Vec.insert", "String.insert", "String.insert_str", "VecDeque.insert")
def _insert(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    if base == "String":
        v, k, x = (I.rv(st, I.deref(st, y)) for y in a[:3])
        if isinstance(x, tuple) and x[0] == "c" and isinstance(x[1], int):
            x = ("str", chr(x[1]))
        if isinstance(v, tuple) and v[0] == "str" and isinstance(k, tuple) and k[0] == "c" and isinstance(x, tuple) and x[0] == "str" and v[1].isascii() and k[1] <= len(v[1]):
            I.store(st, cell, p, ("str", v[1][:k[1]] + x[1] + v[1][k[1]:]))
            return [(st, UNIT)]
        I.store(st, cell, p, Sym("strins", tuple(I.tm(st, I.deref(st, x)) for x in a), ("adt", "std::string::String", ())))
        return [(st, UNIT)]
    q = as_q(I, st, ("r", cell, p))
    i = I.rv(st, a[1])
    out = []
    if i.__class__ is tuple:
        k = i[1]
        if any(is_splice(x) for x in q[1][:k]) or k > len(q[1]):
            for s, qq in I.split_seq(st, I.deref(st, ("r", cell, p))):
                if k > len(qq[1]):
                    continue
                I.store(s, cell, p, ("q", qq[1][:k] + (a[2],) + qq[1][k:]))
                out.append((s, UNIT))
            return out
        I.store(st, cell, p, ("q", q[1][:k] + (a[2],) + q[1][k:]))
        return [(st, UNIT)]
    if i == I.seq_len(st, q):
        I.store(st, cell, p, ("q", q[1] + (a[2],)))
        return [(st, UNIT)]
    return [(s, r) for s, k in concretise_index(I, st, i, q) for s, r in _insert(I, s, o, [a[0], c(k), a[2]], dty, base, fr)]


def concretise_index(I, st, i, q):
    """Split on the value of an unknown index into a sequence."""
    out = []
    for s, qq in I.split_seq(st, q):
        i2 = I.rv(s, i)
        if i2.__class__ is tuple:
            out.append((s, i2[1]))
            continue
        cur = [s]
        for k in range(len(qq[1]) + 1):
            nxt = []
            for s1 in cur:
                for s2, b in I.split_bool(s1, I.compare(s1, "Eq", i2, c(k), "usize")):
                    if b:
                        out.append((s2, k))
                    else:
                        nxt.append(s2)
            cur = nxt
    return out


@model("Vec.remove", "Vec.swap_remove", "VecDeque.remove", "Vec.drain", "Vec.splice", "Vec.truncate", "Vec.split_off")
def _remove(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    cell, p = I.loc(st, a[0])
    v = I.deref(st, ("r", cell, p))
    if m in ("drain", "splice"):
        rng = I.deref(st, a[1])
        if not (rng.__class__ is tuple and rng[0] == "e" and "Range" in rng[1]):
            return None
        out = []
        for s, q in I.split_seq(st, v):
            b = range_bounds(I, s, rng, len(q[1]))
            if b is None:
                return None
            if rng[1].endswith("RangeFull"):
                pass
            elif any(is_splice(x) for x in q[1]):
                return None
            elif b[0] > b[1] or b[1] > len(q[1]):
                I.panics.append((fr.fn.name if fr else "?", 0, "slice", s))
                continue
            for s2, new in seq_items(I, s, a[2], "own") if m == "splice" else [(s, ())]:
                I.store(s2, cell, p, ("q", q[1][:b[0]] + tuple(new) + q[1][b[1]:]))
                out.append((s2, ("it", q[1][b[0]:b[1]])))
        return out
    out = []
    for s0, q in I.split_seq(st, v):
        for s, k in concretise_index(I, s0, a[1], q):
            if m == "truncate":
                I.store(s, cell, p, ("q", q[1][:k]))
                out.append((s, UNIT))
                continue
            if m == "split_off":
                I.store(s, cell, p, ("q", q[1][:k]))
                out.append((s, ("q", q[1][k:])))
                continue
            if k >= len(q[1]):
                I.panics.append((fr.fn.name if fr else "?", 0, "index", s))
                continue
            if m == "swap_remove":
                I.store(s, cell, p, ("q", q[1][:k] + ((q[1][-1],) if k < len(q[1]) - 1 else ()) + q[1][k + 1:-1]))
            else:
                I.store(s, cell, p, ("q", q[1][:k] + q[1][k + 1:]))
            out.append((s, q[1][k] if base != "VecDeque" else some(q[1][k])))
    return out


@model("Vec.pop", "VecDeque.pop_front", "VecDeque.pop_back", "String.pop")
def _pop(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    v = I.deref(st, ("r", cell, p))
    front = (o["res"] or o["path"]).endswith("pop_front")
    if v.__class__ is tuple and v[0] == "str":
        if not v[1]:
            return [(st, NONE)]
        I.store(st, cell, p, ("str", v[1][:-1]))
        return [(st, some(c(ord(v[1][-1]))))]
    if v.__class__ is tuple and v[0] == "q" and v[1] and not is_splice(v[1][0 if front else -1]):
        I.store(st, cell, p, ("q", v[1][1:] if front else v[1][:-1]))
        return [(st, some(v[1][0 if front else -1]))]
    out = []
    for s, q in I.split_seq(st, v):
        if not q[1]:
            I.store(s, cell, p, q)
            out.append((s, NONE))
        else:
            I.store(s, cell, p, ("q", q[1][1:] if front else q[1][:-1]))
            out.append((s, some(q[1][0 if front else -1])))
    return out


@model("Vec.clear", "String.clear", "VecDeque.clear")
def _clear(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    I.store(st, cell, p, ("str", "") if base == "String" else ("q", ()))
    return [(st, UNIT)]


@model("Vec.len", "slice.len", "String.len", "str.len", "VecDeque.len", "HashMap.len", "HashSet.len", "BTreeMap.len")
def _len(I, st, o, a, dty, base, fr):
    return [(st, I.seq_len(st, a[0]))]


@model("Vec.is_empty", "slice.is_empty", "String.is_empty", "str.is_empty", "VecDeque.is_empty", "HashMap.is_empty", "HashSet.is_empty")
def _is_empty(I, st, o, a, dty, base, fr):
    L = I.seq_len(st, a[0])
    b = I.compare(st, "Eq", L, c(0), "usize")
    return [(st, b)]


@model("index", "index_mut")
def _index(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    v = I.deref(st, ("r", cell, p))
    if v.__class__ is tuple and v[0] == "m" or is_sym(v) and adt_is(v.ty, *MAP_ADTS):
        return [(s, e[3][0]) for s, e in _map_get(I, st, o, a, dty, base, fr) if e[2] == "Some"]
    i = I.rv(st, a[1])
    if i.__class__ is tuple and i[0] == "e" and "Range" in i[1]:
        return slice_range(I, st, v, i, dty)
    if i.__class__ is tuple and v.__class__ is tuple and v[0] == "q" and not any(is_splice(x) for x in v[1][:i[1] + 1]):
        if i[1] < len(v[1]):
            return [(st, ("r", cell, p + (("i", i[1]),)))]
        if not any(is_splice(x) for x in v[1]):
            I.panics.append((fr.fn.name if fr else "?", 0, "index", st))
            return []
    out = []
    for s, q in I.split_seq(st, v):
        if not (cell.__class__ is tuple and cell[0] == "K"):
            I.store(s, cell, p, q)
        for s2, k in concretise_index(I, s, i, q):
            if k < len(q[1]):
                out.append((s2, ("r", cell, p + (("i", k),)) if not (cell.__class__ is tuple and cell[0] == "K") else I.as_ref(q[1][k])))
            else:
                I.panics.append((fr.fn.name if fr else "?", 0, "index", s2))
    return out


def range_bounds(I, s, r, n):
    """(from, to) of a range over n elements; None when not known"""
    f = [I.rv(s, x) for x in r[3]]
    if any(is_sym(x) for x in f):
        return None
    kind = r[1].split("::")[-1]
    f = [x[1] for x in f]
    return {"RangeFrom": lambda: (f[0], n), "RangeTo": lambda: (0, f[0]), "RangeFull": lambda: (0, n),
            "RangeInclusive": lambda: (f[0], f[1] + 1), "RangeToInclusive": lambda: (0, f[0] + 1)}.get(kind, lambda: (f[0], f[1]))()


def slice_range(I, st, v, r, dty):
    out = []
    for s, q in I.split_seq(st, v):
        b = range_bounds(I, s, r, len(q[1]))
        if b is None:
            return None
        if (b[0] > b[1] or b[1] > len(q[1])) and not any(is_splice(x) for x in q[1]):
            I.panics.append(("?", 0, "slice", s))
            continue
        x = q[1][b[0]:b[1]]
        if v.__class__ is tuple and v[0] == "str":
            out.append((s, ("str", "".join(chr(y[1]) for y in x))))
        else:
            out.append((s, I.as_ref(("q", tuple(x)))))
    return out


@model("slice.get", "Vec.get", "slice.get_mut", "VecDeque.get", "slice.first", "slice.last", "slice.first_mut", "slice.last_mut",
       "VecDeque.front", "VecDeque.back")
def _get(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    cell, p = I.loc(st, a[0])
    v = I.deref(st, ("r", cell, p))
    if m in ("get", "get_mut"):
        i = I.rv(st, a[1])
    else:
        i = None
    isK = cell.__class__ is tuple and cell[0] == "K"
    if v.__class__ is tuple and v[0] == "q" and i is not None and i.__class__ is tuple and i[0] == "c" and \
            i[1] < len(v[1]) and not any(is_splice(x) for x in v[1][:i[1] + 1]) and not isK:
        return [(st, some(("r", cell, p + (("i", i[1]),))))]
    if v.__class__ is tuple and v[0] == "q" and i is None and m.startswith("last") and v[1] and not isK and not any(is_splice(x) for x in v[1]):
        return [(st, some(("r", cell, p + (("i", len(v[1]) - 1),))))]
    out = []
    for s, q in I.split_seq(st, v):
        if not isK:
            I.store(s, cell, p, q)
        if i is None:
            ks = [(s, (len(q[1]) - 1 if q[1] else 0) if m.startswith(("last", "back")) else 0)]
        else:
            ks = concretise_index(I, s, i, q)
        for s2, k in ks:
            if k < len(q[1]):
                out.append((s2, some(("r", cell, p + (("i", k),)) if not isK else I.as_ref(q[1][k]))))
            else:
                out.append((s2, NONE))
    return out


@model("slice.contains", "Vec.contains", "VecDeque.contains")
def _contains(I, st, o, a, dty, base, fr):
    v = I.deref(st, a[0])
    if is_sym(v):
        return [(st, Sym("contains", (v, I.tm(st, I.deref(st, a[1]))), ("prim", "bool")))]
    out = []
    for s0, q in I.split_seq(st, v):
        cur = [s0]
        for x in q[1]:
            nxt = []
            for s in cur:
                for s2, b in deep_eq(I, s, x, a[1]):
                    (out.append((s2, TRUE)) if b else nxt.append(s2))
            cur = nxt
        out.extend((s, FALSE) for s in cur)
    return out


@model("Vec.reverse", "slice.reverse", "Vec.dedup", "slice.sort", "slice.sort_by", "slice.sort_by_key", "slice.sort_unstable", "slice.swap",
       "slice.sort_unstable_by", "slice.sort_unstable_by_key")
def _reverse(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    cell, p = I.loc(st, a[0])
    out = []
    for s, q in I.split_seq(st, I.deref(st, ("r", cell, p))):
        if m == "reverse":
            I.store(s, cell, p, ("q", q[1][::-1]))
            out.append((s, UNIT))
        elif m == "swap":
            for s1, i in concretise_index(I, s, a[1], q):
                for s2, j in concretise_index(I, s1, a[2], q):
                    if i < len(q[1]) and j < len(q[1]):
                        l = list(q[1])
                        l[i], l[j] = l[j], l[i]
                        I.store(s2, cell, p, ("q", tuple(l)))
                        out.append((s2, UNIT))
        elif all(x.__class__ is tuple and x[0] == "c" for x in q[1]) and m in ("sort", "sort_unstable"):
            I.store(s, cell, p, ("q", tuple(sorted(q[1], key=lambda x: x[1]))))
            out.append((s, UNIT))
        elif len(q[1]) <= 1:
            out.append((s, UNIT))
        elif m in ("sort_by_key", "sort_unstable_by_key") and (r := sorted_by_key(I, s, q[1], a[1])):
            I.store(r[0], cell, p, ("q", r[1]))
            out.append((r[0], UNIT))
        else:
            I.store(s, cell, p, Sym(m, (I.tm(s, q),), type_of(I, q)))
            out.append((s, UNIT))
    return out


def sorted_by_key(I, s, items, key):
    """the items in the order of their keys, when the keys are plain numbers; None otherwise"""
    if any(is_splice(x) for x in items):
        return None
    s, keyed = s.copy(), []
    for x in items:
        r = I.invoke(s, key, [I.as_ref(x)])
        if len(r) != 1:
            return None
        s, k = r[0]
        k = I.rv(s, I.deref(s, k))
        if not (k.__class__ is tuple and k[0] == "c"):
            return None
        keyed.append((k[1], x))
    return s, tuple(x for _, x in sorted(keyed, key=lambda z: z[0]))


@model("Vec.retain", "HashMap.retain", "HashSet.retain", "VecDeque.retain")
def _retain(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    out = []
    if base.startswith("Hash"):
        kind = "map" if base == "HashMap" else "set"
        for s0, ents in map_entries(I, st, (cell, p), kind):
            cur = [(s0, ())]
            for k, v in ents:
                nxt = []
                for s, acc in cur:
                    argv = [I.as_ref(k)] + ([("r", cell, p + (("mv", k),))] if kind == "map" else [])
                    for s2, r in I.invoke(s, a[1], argv):
                        for s3, b in I.split_bool(s2, r):
                            nxt.append((s3, acc + (k,) if b else acc))
                cur = nxt
            for s, ks in cur:
                m = as_map(I, s, (cell, p), kind)
                I.store(s, cell, p, ("m", kind, tuple((k, v) for k, v in m[2] if k in ks), None))
                out.append((s, UNIT))
        return out
    for s0, q in I.split_seq(st, I.deref(st, ("r", cell, p))):
        for s, items in filter_over(I, s0, a[1], q[1]):
            I.store(s, cell, p, ("q", items))
            out.append((s, UNIT))
    return out


@model("iter.once", "iter.empty", "iter.repeat", "iter.repeat_n", "iter.repeat_with")
def _iter_sources(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    if m == "once":
        return [(st, ("it", (a[0],)))]
    if m == "empty":
        return [(st, ("it", ()))]
    if m == "repeat":
        return [(st, ("it", (("splice", Sym("forever", (I.tm(st, a[0]),), dty)),)))]
    if m == "repeat_n":
        return repeated(I, st, a[0], I.rv(st, a[1]), dty)
    return None


def repeated(I, st, x, n, dty):
    if n.__class__ is tuple and n[1] <= 65536:
        return [(st, ("it", (x,) * n[1]))]
    return [(st, ("it", (("splice", Sym("repeat", (I.tm(st, x), n), dty)),)))]


@model("bool.then_some")
def _then_some(I, st, o, a, dty, base, fr):
    return [(s, some(a[1]) if b else NONE) for s, b in I.split_bool(st, a[0])]


@model("Option.as_deref", "Option.as_deref_mut")
def _as_deref(I, st, o, a, dty, base, fr):
    out = []
    for s, e in opt_as_ref(I, st, a, "as_ref"):
        if e[2] == "Some":
            cell, p = I.loc(s, e[3][0])
            e = some(("r", cell, p))
        out.append((s, e))
    return out


@model("Result.unwrap_err", "Result.expect_err")
def _unwrap_err(I, st, o, a, dty, base, fr):
    out = []
    for s, e in I.split_enum(st, a[0]):
        if e[2] == "Err":
            out.append((s, e[3][0]))
        else:
            I.panics.append((fr.fn.name if fr else "?", 0, "unwrap", s))
    return out


@model("slice.split_first", "slice.split_last", "Vec.split_first", "Vec.split_last")
def _split_first(I, st, o, a, dty, base, fr):
    first = norm_path(o["res"] or o["path"])[1] == "split_first"
    cell, p = I.loc(st, a[0])
    isK = cell.__class__ is tuple and cell[0] == "K"
    out = []
    for s, q in I.split_seq(st, I.deref(st, ("r", cell, p))):
        if any(is_splice(x) for x in q[1]):
            return None
        if not isK:
            I.store(s, cell, p, q)
        if not q[1]:
            out.append((s, NONE))
            continue
        k = 0 if first else len(q[1]) - 1
        rest = I.as_ref(("q", q[1][1:] if first else q[1][:-1]))
        out.append((s, some(("t", (I.as_ref(q[1][k]) if isK else ("r", cell, p + (("i", k),)), rest)))))
    return out


@model("slice.chunks", "slice.windows", "slice.chunks_exact")
def _chunks(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    n = I.rv(st, a[1])
    if is_sym(n):
        return None
    n = n[1]
    out = []
    for s, q in I.split_seq(st, I.deref(st, a[0])):
        if any(is_splice(x) for x in q[1]):
            return None
        if m == "windows":
            parts = [q[1][i:i + n] for i in range(len(q[1]) - n + 1)]
        else:
            parts = [q[1][i:i + n] for i in range(0, len(q[1]), n)]
            if m == "chunks_exact":
                parts = [x for x in parts if len(x) == n]
        out.append((s, ("it", tuple(I.as_ref(("q", x)) for x in parts))))
    return out


@model("from_elem")
def _from_elem(I, st, o, a, dty, base, fr):
    n = I.rv(st, a[1])
    if n.__class__ is tuple and n[1] <= 65536:
        return [(st, ("q", (a[0],) * n[1]))]
    return [(st, ("q", (("splice", Sym("repeat", (I.tm(st, a[0]), n), dty)),)))]


# ---- iterators
@model("into_iter", "iter", "iter_mut", "chars", "bytes", "drain", "values", "keys", "values_mut", "into_values", "into_keys",
       "char_indices", "lines", "split_whitespace")
def _into_iter(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    v = I.rv(st, a[0])
    d = I.deref(st, v)
    if d.__class__ is tuple and d[0] == "it" or d.__class__ is tuple and d[0] == "e" and "Range" in d[1]:
        return [(st, v if m == "into_iter" else d)]
    if is_sym(d) and elem_ty(d.ty) is None and not adt_is(d.ty, "std::string::String") and d.ty != ("prim", "str"):
        if m == "into_iter":
            return [(st, v)]
        return None
    mode = "own" if m in ("into_iter", "drain", "into_values", "into_keys") else "ref"
    if m == "drain":
        if len(a) != 1 or d[0] != "m":
            return None
        cell, p = I.loc(st, a[0])
        x = I.rv(st, I.load(st, cell, p))
        while x.__class__ is tuple and x[0] == "r":
            cell, p = x[1], x[2]
            x = I.rv(st, I.load(st, cell, p))
        if x[3] is not None:
            return None
        out = []
        I.store(st, cell, p, x[:2] + ((),) + x[3:])
        return [(st, ("it", tuple(k if x[1] == "set" else ("t", (k, w)) for k, w in x[2])))]
    out = []
    if m in ("chars", "bytes", "char_indices"):
        if is_sym(d):
            return [(st, Sym("iter:" + m, (d,), dty))]
        items = [c(ord(x)) for x in d[1]] if m != "bytes" else [c(x) for x in d[1].encode()]
        if m == "char_indices":
            items = [("t", (c(len(d[1][:i].encode())), x)) for i, x in enumerate(items)]
        return [(st, ("it", tuple(items)))]
    if m in ("lines", "split_whitespace"):
        return None
    if m in ("into_iter", "iter") and raw_bytes(d) is not None:
        return [(st, ("it", raw_bytes(d)))]
    for s, items in seq_items(I, st, v, mode):
        if m in ("values", "values_mut", "into_values"):
            items = tuple(I.get_path(s, x, (("f", 1),)) for x in items)
        elif m in ("keys", "into_keys"):
            items = tuple(I.get_path(s, x, (("f", 0),)) for x in items)
        out.append((s, ("it", tuple(items))))
    return out


@model("next", "next_back", "peek", "next_if", "nth", "peek_mut")
def _next(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    cell, p = I.loc(st, a[0])
    d = I.rv(st, I.load(st, cell, p))
    while d.__class__ is tuple and d[0] == "r":
        cell, p = d[1], d[2]
        d = I.rv(st, I.load(st, cell, p))
    if d.__class__ is tuple and d[0] == "e" and "Range" in d[1]:
        lo, hi = d[3][0], d[3][1]
        lo, hi = I.rv(st, lo), I.rv(st, hi)
        if is_sym(hi) and hi.head == "len":
            out = []
            for s, q in I.split_seq(st, hi.args[0]):
                out.extend(_next(I, s, o, a, dty, base, fr))
            return out
        ty = lo.ty[1] if is_sym(lo) and lo.ty else "usize"
        out = []
        for s, b in split_less(I, st, lo, hi if not d[1].endswith("Inclusive") else I.lin(st, hi, c(1), 1), "i128" if not is_sym(lo) else ty):
            if b:
                nl = I.lin(s, lo, c(1), 1)
                cnt = ("unroll", cell, p)
                k = s.store.get(cnt, 0)
                if (is_sym(lo) or is_sym(hi)) and k >= I.unroll:
                    I.truncated += 1
                    continue
                s.store[cnt] = k + 1
                I.store(s, cell, p, ("e", d[1], d[2], (nl, hi) + tuple(d[3][2:])))
                out.append((s, some(lo)))
            else:
                s.store.pop(("unroll", cell, p), None)
                out.append((s, NONE))
        return out
    if is_sym(d):
        et = dty[2][0] if adt_is(dty, OPT) else None
        if m in ("peek",) and et is not None:
            et = peel1(et)
        out = []
        for k in range(I.unroll + 1):
            s = st.copy()
            items = tuple(Sym("itel", (d, c(i)), et) for i in range(k))
            I.store(s, cell, p, ("it", items))
            out.extend(_next(I, s, o, a, dty, base, fr))
        return out
    if d[0] != "it":
        # an Option's iterator etc.
        raise AnalysisError(f"next on {show(d)} in {fr.fn.name if fr else '?'}")
    items = d[1]
    if any(is_splice(x) for x in items):
        out = []
        for s, its in it_items(I, st, d):
            I.store(s, cell, p, ("it", its))
            out.extend(_next(I, s, o, a, dty, base, fr))
        return out
    if m in ("peek", "peek_mut"):
        return [(st, some(I.as_ref(items[0])) if items else NONE)]
    if m == "next_if":
        if not items:
            return [(st, NONE)]
        out = []
        for s, r in I.invoke(st, a[1], [I.as_ref(items[0])]):
            for s2, b in I.split_bool(s, r):
                if b:
                    I.store(s2, cell, p, ("it", items[1:]))
                    out.append((s2, some(items[0])))
                else:
                    out.append((s2, NONE))
        return out
    if m == "nth":
        k = I.rv(st, a[1])
        if is_sym(k):
            return None
        I.store(st, cell, p, ("it", items[k[1] + 1:]))
        return [(st, some(items[k[1]]) if k[1] < len(items) else NONE)]
    if not items:
        return [(st, NONE)]
    if m == "next_back":
        I.store(st, cell, p, ("it", items[:-1]))
        return [(st, some(items[-1]))]
    I.store(st, cell, p, ("it", items[1:]))
    return [(st, some(items[0]))]


@model("map", "filter", "filter_map", "flat_map", "enumerate", "rev", "zip", "chain", "peekable", "skip", "take", "for_each", "fold",
       "any", "all", "find", "position", "count", "collect", "sum", "max", "min", "last", "by_ref", "take_while", "skip_while",
       "from_iter", "step_by", "find_map", "max_by_key", "min_by_key", "max_by", "rposition", "partition", "inspect", "try_fold",
       "try_for_each", "product", "fuse", "unzip", "flatten", "reduce", "map_while")
def _iter_adapt(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    if m in ("max", "min") and len(a) == 2:
        ty = dty[1] if dty and dty[0] == "prim" else None
        out = []
        x, y = I.rv(st, a[0]), I.rv(st, a[1])
        for s, lt in split_less(I, st, x, y, ty):
            out.append((s, (y if lt else x) if m == "max" else (x if lt else y)))
        return out
    v = I.rv(st, a[0])
    d = I.deref(st, v)
    if is_sym(d) and elem_ty(d.ty) is None:
        if m in ("peekable", "by_ref", "fuse"):
            return [(st, d)]
        if m in ("enumerate", "rev", "map", "filter", "collect", "from_iter"):
            if m in ("collect", "from_iter"):
                return [(st, Sym("iter:" + m, (I.tm(st, d),), dty))]
            return None
        return None
    if m == "by_ref":
        return [(st, v)]
    out = []
    ops = raw_it(I, st, v) if m in ("chain", "fuse") or m in ("collect", "from_iter") and adt_is(dty, *SEQ_ADTS) else iter_of(I, st, v)
    for s, items in ops:
        if m == "map":
            out.extend((s2, ("it", r)) for s2, r in map_over(I, s, a[1], [(x,) for x in items]))
        elif m == "inspect":
            out.extend((s2, ("it", items)) for s2, r in map_over(I, s, a[1], [(I.as_ref(x),) for x in items]))
        elif m == "for_each":
            out.extend((s2, UNIT) for s2, r in map_over(I, s, a[1], [(x,) for x in items]))
        elif m == "filter":
            out.extend((s2, ("it", r)) for s2, r in filter_over(I, s, a[1], items))
        elif m in ("filter_map", "find_map"):
            cur = [(s, ())]
            for x in items:
                nxt = []
                for s1, acc in cur:
                    for s2, r in I.invoke(s1, a[1], [x]):
                        for s3, e in I.split_enum(s2, r):
                            if e[2] == "Some" and m == "find_map":
                                out.append((s3, e))
                            else:
                                nxt.append((s3, acc + ((e[3][0],) if e[2] == "Some" else ())))
                cur = nxt
            out.extend((s1, NONE if m == "find_map" else ("it", acc)) for s1, acc in cur)
        elif m in ("flat_map", "flatten"):
            res = map_over(I, s, a[1], [(x,) for x in items]) if m == "flat_map" else [(s, items)]
            for s2, r in res:
                cur = [(s2, ())]
                for x in r:
                    nxt = []
                    for s3, acc in cur:
                        for s4, its in raw_it(I, s3, x):
                            nxt.append((s4, acc + tuple(its)))
                    cur = nxt
                out.extend((s3, ("it", acc)) for s3, acc in cur)
        elif m == "enumerate":
            out.append((s, ("it", tuple(("t", (c(i), x)) for i, x in enumerate(items)))))
        elif m == "rev":
            out.append((s, ("it", items[::-1])))
        elif m == "zip":
            for s2, its in seq_items(I, s, a[1], "own"):
                out.append((s2, ("it", tuple(("t", (x, y)) for x, y in zip(items, its)))))
        elif m == "chain":
            for s2, its in raw_it(I, s, a[1]):
                out.append((s2, ("it", tuple(items) + tuple(its))))
        elif m in ("peekable", "fuse"):
            out.append((s, ("it", items)))
        elif m == "take" and len(items) == 1 and is_splice(items[0]) and items[0][1].head == "forever":
            out.extend(repeated(I, s, items[0][1].args[0], I.rv(s, a[1]), dty))
        elif m in ("skip", "take", "step_by"):
            k = I.rv(s, a[1])
            if is_sym(k):
                return None
            out.append((s, ("it", items[k[1]:] if m == "skip" else items[:k[1]] if m == "take" else items[::k[1]])))
        elif m == "reduce":
            if not items:
                out.append((s, NONE))
                continue
            cur = [(s, items[0])]
            for x in items[1:]:
                cur = [z for s1, acc in cur for z in I.invoke(s1, a[1], [acc, x])]
            out.extend((s1, some(acc)) for s1, acc in cur)
        elif m == "map_while":
            cur = [(s, ())]
            for x in items:
                nxt = []
                for s1, acc in cur:
                    for s2, r in I.invoke(s1, a[1], [x]):
                        for s3, e in I.split_enum(s2, r):
                            if e[2] == "Some":
                                nxt.append((s3, acc + (e[3][0],)))
                            else:
                                out.append((s3, ("it", acc)))
                cur = nxt
            out.extend((s1, ("it", acc)) for s1, acc in cur)
        elif m == "fold":
            cur = [(s, a[1])]
            for x in items:
                cur = [z for s1, acc in cur for z in I.invoke(s1, a[2], [acc, x])]
            out.extend(cur)
        elif m in ("any", "all", "find", "position", "take_while", "skip_while"):
            cur = [s]
            stop = m in ("any", "find", "position")
            for i, x in enumerate(items):
                nxt = []
                for s1 in cur:
                    for s2, r in I.invoke(s1, a[1], [I.as_ref(x) if m in ("find", "take_while", "skip_while") else x]):
                        for s3, b in I.split_bool(s2, r):
                            if m == "any" and b:
                                out.append((s3, TRUE))
                            elif m == "all" and not b:
                                out.append((s3, FALSE))
                            elif m == "find" and b:
                                out.append((s3, some(x)))
                            elif m == "position" and b:
                                out.append((s3, some(c(i))))
                            elif m == "take_while" and not b:
                                out.append((s3, ("it", items[:i])))
                            elif m == "skip_while" and not b:
                                out.append((s3, ("it", items[i:])))
                            else:
                                nxt.append(s3)
                cur = nxt
            end = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "take_while": ("it", items), "skip_while": ("it", ())}[m]
            out.extend((s1, end) for s1 in cur)
        elif m == "count":
            out.append((s, c(len(items))))
        elif m == "last":
            out.append((s, some(items[-1]) if items else NONE))
        elif m in ("collect", "from_iter"):
            out.extend(collect(I, s, items, dty))
        elif m in ("sum", "product"):
            acc = c(0) if m == "sum" else c(1)
            for x in items:
                acc = I.arith(s, "Add" if m == "sum" else "Mul", acc, I.deref(s, x), dty[1] if dty else None, dty)
            out.append((s, acc))
        elif m in ("max", "min"):
            if not items:
                out.append((s, NONE))
            else:
                cur = [(s, items[0])]
                for x in items[1:]:
                    nxt = []
                    for s1, best in cur:
                        for s2, lt in split_less(I, s1, I.deref(s1, best), I.deref(s1, x), None):
                            nxt.append((s2, (x if lt else best) if m == "max" else (best if lt else x)))
                    cur = nxt
                out.extend((s1, some(b)) for s1, b in cur)
        else:
            return None
    return out


# ---- maps
@model("HashMap.new", "HashMap.with_capacity", "BTreeMap.new", "HashSet.new", "BTreeSet.new", "HashSet.with_capacity")
def _map_new(I, st, o, a, dty, base, fr):
    return [(st, ("m", "set" if "Set" in base else "map", (), None))]


def _k(base):
    return "set" if "Set" in base else "map"


@model("HashMap.get", "HashMap.get_mut", "BTreeMap.get", "BTreeMap.get_mut", "HashSet.get")
def _map_get(I, st, o, a, dty, base, fr):
    loc = I.loc(st, a[0])
    if loc[0].__class__ is tuple and loc[0][0] == "K":
        cell = ("tmpm", st.nfresh)
        st.nfresh += 1
        st.store[cell] = loc[0][1]
        loc = (cell, loc[1])
    out = []
    for s, found, kk in map_find(I, st, loc, a[1], _k(base)):
        if not found:
            out.append((s, NONE))
        elif _k(base) == "set":
            out.append((s, some(I.as_ref(kk))))
        else:
            out.append((s, some(("r", loc[0], loc[1] + (("mv", kk),)))))
    return out


@model("HashMap.contains_key", "HashSet.contains", "BTreeMap.contains_key", "BTreeSet.contains")
def _map_has(I, st, o, a, dty, base, fr):
    loc = I.loc(st, a[0])
    if loc[0].__class__ is tuple and loc[0][0] == "K":
        cell = ("tmpm", st.nfresh)
        st.nfresh += 1
        st.store[cell] = loc[0][1]
        loc = (cell, loc[1])
    return [(s, c(int(f))) for s, f, _ in map_find(I, st, loc, a[1], _k(base))]


@model("HashMap.insert", "BTreeMap.insert", "HashSet.insert", "BTreeSet.insert")
def _map_insert(I, st, o, a, dty, base, fr):
    loc = I.loc(st, a[0])
    if _k(base) == "set":
        return [(s, c(int(old is None))) for s, old in map_put(I, st, loc, a[1], UNIT, "set")]
    return [(s, NONE if old is None else some(old)) for s, old in map_put(I, st, loc, a[1], a[2], "map")]


@model("HashMap.remove", "BTreeMap.remove", "HashSet.remove", "BTreeSet.remove")
def _map_remove(I, st, o, a, dty, base, fr):
    loc = I.loc(st, a[0])
    k = _k(base)
    if k == "set":
        return [(s, c(int(old is not None))) for s, old in map_del(I, st, loc, a[1], k)]
    return [(s, NONE if old is None else some(old)) for s, old in map_del(I, st, loc, a[1], k)]


@model("HashMap.extend", "HashSet.extend", "BTreeSet.extend", "BTreeMap.extend")
def _map_extend(I, st, o, a, dty, base, fr):
    loc = I.loc(st, a[0])
    k = _k(base)
    out = []
    for s0, items in seq_items(I, st, a[1], "own"):
        cur = [s0]
        for it in items:
            nxt = []
            for s in cur:
                if k == "set":
                    nxt.extend(x for x, _ in map_put(I, s, loc, it, UNIT, k))
                else:
                    it2 = I.rv(s, it)
                    nxt.extend(x for x, _ in map_put(I, s, loc, I.get_path(s, it2, (("f", 0),)), I.get_path(s, it2, (("f", 1),)), k))
            cur = nxt
        out.extend((s, UNIT) for s in cur)
    return out


@model("HashMap.clear", "HashSet.clear")
def _map_clear(I, st, o, a, dty, base, fr):
    cell, p = I.loc(st, a[0])
    I.store(st, cell, p, ("m", _k(base), (), None))
    return [(st, UNIT)]


@model("HashMap.entry", "BTreeMap.entry")
def _entry(I, st, o, a, dty, base, fr):
    return [(st, ("ent", I.loc(st, a[0]), a[1]))]


@model("Entry.or_insert", "Entry.or_insert_with", "Entry.or_default", "Entry.and_modify")
def _or_insert(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    _, loc, key = a[0]
    out = []
    for s, found, kk in map_find(I, st, loc, key, "map"):
        ref = ("r", loc[0], loc[1] + (("mv", kk),))
        if m == "and_modify":
            if found:
                out.extend((s2, a[0]) for s2, _ in I.invoke(s, a[1], [ref]))
            else:
                out.append((s, a[0]))
            continue
        if found:
            out.append((s, ref))
            continue
        if m == "or_insert":
            vals = [(s, a[1])]
        elif m == "or_default":
            vals = [(s, default_of(I, peel1(dty)))]
        else:
            vals = I.invoke(s, a[1], [])
        for s2, v in vals:
            for s3, _ in map_put(I, s2, loc, kk, v, "map"):
                out.append((s3, ref))
    return out


@model("HashSet.union", "HashSet.difference", "HashSet.intersection")
def _set_ops(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    l1, l2 = I.loc(st, a[0]), I.loc(st, a[1])
    out = []
    for s0, e1 in map_entries(I, st, l1, "set"):
        if m == "union":
            for s1, e2 in map_entries(I, s0, l2, "set"):
                cur = [(s1, [k for k, _ in e1])]
                for k, _ in e2:
                    nxt = []
                    for s, acc in cur:
                        for s2, f, _ in map_find(I, s, l1, k, "set"):
                            nxt.append((s2, acc if f else acc + [k]))
                    cur = nxt
                out.extend((s, ("it", tuple(I.as_ref(x) for x in acc))) for s, acc in cur)
            continue
        cur = [(s0, [])]
        for k, _ in e1:
            nxt = []
            for s, acc in cur:
                for s2, f, _ in map_find(I, s, l2, k, "set"):
                    keep = f == (m == "intersection")
                    nxt.append((s2, acc + [k] if keep else acc))
            cur = nxt
        out.extend((s, ("it", tuple(I.as_ref(x) for x in acc))) for s, acc in cur)
    return out


# ---- closures called through the Fn traits
@model("call", "call_mut", "call_once")
def _fncall(I, st, o, a, dty, base, fr):
    t = I.rv(st, a[1])
    args = list(t[1]) if t.__class__ is tuple and t[0] == "t" else [t]
    return I.invoke(st, a[0], args, dty)


# ---- scalars
@model("add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr", "add_assign", "sub_assign", "mul_assign",
       "bitor_assign", "bitand_assign")
def _ops(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr",
          "bitxor": "BitXor", "shl": "Shl", "shr": "Shr"}[m.replace("_assign", "")]
    if base == "String":
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        if x.__class__ is tuple and y.__class__ is tuple:
            return [(st, ("str", x[1] + y[1]))]
        return [(st, Sym("strcat", (I.tm(st, x), I.tm(st, y)), dty))]
    if base not in INT and base not in ("f32", "f64"):
        return None
    if m.endswith("_assign"):
        cell, p = I.loc(st, a[0])
        I.store(st, cell, p, I.binop(st, op, I.load(st, cell, p), I.deref(st, a[1]), ("prim", base)))
        return [(st, UNIT)]
    return [(st, I.binop(st, op, I.deref(st, a[0]), I.deref(st, a[1]), ("prim", base)))]


ORD = "std::cmp::Ordering"


def ordering(name):
    return ("e", ORD, name, ())


@model("then", "then_with", "reverse", "is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne")
def _ordering(I, st, o, a, dty, base, fr):
    res = o["res"] or o["path"]
    if "Ordering" not in res:
        return None
    m = norm_path(res)[1]
    x = I.rv(st, I.deref(st, a[0]))
    if is_sym(x):
        return None
    k = x[2]
    if m == "then":
        return [(st, a[1] if k == "Equal" else x)]
    if m == "then_with":
        return I.invoke(st, a[1], []) if k == "Equal" else [(st, x)]
    if m == "reverse":
        return [(st, ordering({"Less": "Greater", "Greater": "Less"}.get(k, k)))]
    return [(st, c(int(k in {"is_lt": ("Less",), "is_le": ("Less", "Equal"), "is_gt": ("Greater",), "is_ge": ("Greater", "Equal"),
                            "is_eq": ("Equal",), "is_ne": ("Less", "Greater")}[m])))]


def order_of(I, st, x, y):
    """how two fully known values of a plain type (numbers, text, tuples of them) compare; None when not known"""
    x, y = I.rv(st, I.deref(st, x)), I.rv(st, I.deref(st, y))
    if x.__class__ is not tuple or y.__class__ is not tuple or x[0] != y[0]:
        return None
    if x[0] in ("c", "str"):
        return "Less" if x[1] < y[1] else "Greater" if x[1] > y[1] else "Equal"
    if x[0] == "t":
        for p, r in zip(x[1], y[1]):
            k = order_of(I, st, p, r)
            if k != "Equal":
                return k
        return "Equal"
    return None


@model("cmp", "partial_cmp")
def _cmp3(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    wrap = some if m == "partial_cmp" else (lambda v: v)
    if x.__class__ is tuple and y.__class__ is tuple and x[0] == y[0] and x[0] in ("c", "str"):
        return [(st, wrap(ordering("Less" if x[1] < y[1] else "Greater" if x[1] > y[1] else "Equal")))]
    k = order_of(I, st, x, y)
    if k is not None:
        return [(st, wrap(ordering(k)))]
    if (x.__class__ is tuple and x[0] != "c") or (y.__class__ is tuple and y[0] != "c"):
        return None
    t = x.ty if is_sym(x) else y.ty
    if t is None or t[0] != "prim" or t[1] not in INT:
        return None
    out = []
    for s, lt in I.split_bool(st, I.compare(st, "Lt", x, y, t[1])):
        if lt:
            out.append((s, wrap(ordering("Less"))))
            continue
        for s2, eq in I.split_bool(s, I.compare(s, "Eq", x, y, t[1])):
            out.append((s2, wrap(ordering("Equal" if eq else "Greater"))))
    return out


@model("lt", "le", "gt", "ge")
def _cmp(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    x, y = I.deref(st, a[0]), I.deref(st, a[1])
    if x.__class__ is tuple and x[0] == "t":
        k = order_of(I, st, x, y)
        if k is not None:
            return [(st, c(int({"Less": m in ("lt", "le"), "Greater": m in ("gt", "ge"), "Equal": m in ("le", "ge")}[k])))]
    if x.__class__ is tuple and x[0] == "e":
        n = I.trait_impls.get("partial_cmp", {}).get(x[1])
        if n is not None:
            out = []
            for s, r in I.exec_fn(st, I.prog.fns[n], [I.cell(st, ("ord", 0, st.nfresh), x), I.cell(st, ("ord", 1, st.nfresh), y)], {}):
                r = I.rv(s, r)
                if is_sym(r) or (r[2] == "Some" and is_sym(I.rv(s, r[3][0]))):
                    return None
                k = I.rv(s, r[3][0])[2] if r[2] == "Some" else None
                out.append((s, c(int({"Less": m in ("lt", "le"), "Greater": m in ("gt", "ge"), "Equal": m in ("le", "ge"), None: False}[k]))))
            return out
    if (x.__class__ is tuple and x[0] not in ("c",)) or (y.__class__ is tuple and y[0] not in ("c",)):
        return None
    t = x.ty if is_sym(x) else y.ty if is_sym(y) else None
    return [(st, I.compare(st, m.capitalize(), x, y, t[1] if t and t[0] == "prim" else base if base in INT else None))]


@model("wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_sub", "saturating_add", "checked_add", "checked_sub", "checked_mul",
       "abs", "pow", "to_le_bytes", "trailing_zeros", "leading_zeros", "is_positive", "is_negative", "wrapping_neg", "rotate_left",
       "unsigned_abs", "abs_diff", "checked_div", "checked_rem", "wrapping_div", "wrapping_shl", "wrapping_shr", "div_euclid",
       "rem_euclid", "to_be_bytes", "to_ne_bytes", "to_bits", "from_bits", "is_power_of_two", "checked_pow", "checked_neg", "next_power_of_two")
def _intm(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    xs = [I.deref(st, x) for x in a]
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}.get(m.split("_")[-1])
    if m.startswith("wrapping_") and op:
        return [(st, I.binop(st, op, xs[0], xs[1], ("prim", base)))]
    if all(x.__class__ is tuple for x in xs) and base in INT:
        lo, hi = int_range(base)
        if m.startswith(("checked_", "saturating_")) and op and not (op in ("Div", "Rem") and xs[1][1] == 0):
            r = I.arith(st, op, xs[0], xs[1], "i128", None)[1]
            if m.startswith("checked"):
                return [(st, some(c(r)) if lo <= r <= hi else NONE)]
            return [(st, c(max(lo, min(hi, r))))]
        if m == "pow":
            return [(st, c(xs[0][1] ** xs[1][1]))]
        if m == "abs":
            return [(st, c(abs(xs[0][1])))]
        if m == "to_le_bytes":
            nb = INT[base][0] // 8
            v = xs[0][1] & ((1 << (8 * nb)) - 1)
            return [(st, ("q", tuple(c((v >> (8 * k)) & 255) for k in range(nb))))]
        if m == "is_negative":
            return [(st, c(int(xs[0][1] < 0)))]
        if m == "is_positive":
            return [(st, c(int(xs[0][1] > 0)))]
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        nb = {"f64": 8, "f32": 4}.get(base) or INT[base][0] // 8
        x = I.tm(st, xs[0])
        seq = [Sym("byte", (x, base, k), ("prim", "u8")) for k in range(nb)]
        if m == "to_be_bytes":
            seq = seq[::-1]
        return [(st, ("q", tuple(seq)))]
    if m.startswith("checked_") and op and dty and dty[0] == "adt":
        out = []
        for s2, none in I.split_bool(st, Sym(f"int:{base}.{m}.none", tuple(I.tm(st, x) for x in xs), ("prim", "bool"))):
            out.append((s2, NONE if none else some(I.binop(s2, op, xs[0], xs[1], ("prim", base)))))
        return out
    return [(st, Sym(f"int:{base}.{m}", tuple(I.tm(st, x) for x in xs), dty))]


@model("is_digit", "is_ascii_digit", "is_ascii_hexdigit", "is_ascii_alphabetic", "is_whitespace", "is_ascii_alphanumeric",
       "is_alphanumeric", "is_alphabetic", "is_ascii_whitespace", "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_punctuation",
       "is_ascii", "to_digit", "is_numeric", "is_control", "is_ascii_control", "is_ascii_graphic", "eq_ignore_ascii_case")
def _charm(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    x = I.deref(st, a[0])
    if is_sym(x):
        return [(st, Sym("char:" + m, tuple(I.tm(st, I.deref(st, y)) for y in a), dty))]
    ch = chr(x[1])
    asc = x[1] < 128
    if m in ("is_digit", "to_digit"):
        r = I.deref(st, a[1])
        if is_sym(r):
            return None
        d = int(ch, 36) if asc and ch.isalnum() else 99
        if m == "to_digit":
            return [(st, some(c(d)) if d < r[1] else NONE)]
        return [(st, c(int(d < r[1])))]
    f = {"is_ascii_digit": asc and ch.isdigit(), "is_ascii_hexdigit": asc and ch in "0123456789abcdefABCDEF",
         "is_ascii_alphabetic": asc and ch.isalpha(), "is_whitespace": ch.isspace() and not (28 <= x[1] <= 31),
         "is_ascii_alphanumeric": asc and ch.isalnum(), "is_alphanumeric": ch.isalnum(), "is_alphabetic": ch.isalpha(),
         "is_ascii_whitespace": ch in " \t\n\r\x0c", "is_ascii_lowercase": asc and ch.islower(),
         "is_ascii_uppercase": asc and ch.isupper(), "is_ascii": asc,
         "is_ascii_punctuation": asc and ch.isprintable() and not ch.isalnum() and ch != " ",
         "is_numeric": ch.isnumeric(), "is_control": x[1] < 32 or 127 <= x[1] < 160,
         "is_ascii_control": x[1] < 32 or x[1] == 127, "is_ascii_graphic": 33 <= x[1] <= 126}.get(m)
    if f is None:
        return None
    return [(st, c(int(f)))]


@model("char.from_u32")
def _from_u32(I, st, o, a, dty, base, fr):
    x = I.rv(st, a[0])
    if is_sym(x):
        return None
    v = x[1]
    return [(st, some(x) if v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF else NONE)]


@model("starts_with", "ends_with", "contains", "trim", "strip_prefix", "strip_suffix", "to_lowercase", "replace")
def _strm(I, st, o, a, dty, base, fr):
    m = norm_path(o["res"] or o["path"])[1]
    if base != "str":
        return None
    xs = [I.deref(st, x) for x in a]
    if any(is_sym(x) or x[0] not in ("str", "c") for x in xs):
        return None
    t = [x[1] if x[0] == "str" else chr(x[1]) for x in xs]
    if m == "starts_with":
        return [(st, c(int(t[0].startswith(t[1]))))]
    if m == "ends_with":
        return [(st, c(int(t[0].endswith(t[1]))))]
    if m == "contains":
        return [(st, c(int(t[1] in t[0])))]
    if m == "trim":
        return [(st, ("str", t[0].strip()))]
    return None


@model("is_null")
def _is_null(I, st, o, a, dty, base, fr):
    v = I.rv(st, a[0])
    if v.__class__ is tuple and v[0] == "null":
        return [(st, TRUE)]
    if v.__class__ is tuple and v[0] == "r":
        return [(st, FALSE)]
    return [(st, Sym("isnull", (I.tm(st, v),), ("prim", "bool")))]


@model("null_mut", "null")
def _null(I, st, o, a, dty, base, fr):
    return [(st, ("null",))]
