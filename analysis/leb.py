"""Bit-provenance domain: decides which functions (integer) -> Vec<u8> are LEB128 encoders.

An unknown integer is a vector of bits; each bit is 0, 1 or an input bit.  Shifts, masks, unions of disjoint
bits, casts and comparisons with constants are exact in this domain; a comparison splits the trace and fixes
the bits it decides.  On every exit the emitted bytes are decoded bit by bit and compared with the input."""
from absint import Interp, Sym, AnalysisError, INT, c, State, is_sym, wrap, TRUE, FALSE, show, C0


def bit(k):
    return Sym("bit", (k,), ("prim", "bool"))


class BV(Interp):
    def pick(self, work, fr):
        """Paths that meet at the start of a loop with the same values of everything that is still used go on as one, which knows
        what all of them know."""
        heads, live = loops_and_live(fr.fn)
        for i in reversed(range(len(work))):
            if work[i][1] not in heads:
                return work.pop(i)
        st, bb = work.pop()
        mine = lambda s: {k: v for k, v in s.store.items() if k[0] != fr.id or k[1] in live[bb]}
        a = mine(st)
        same = [k for k in range(len(work)) if work[k][1] == bb and mine(work[k][0]) == a]
        for k in reversed(same):
            o = work.pop(k)[0]
            for f in ("refine", "neq", "rng"):
                x, y = getattr(st, f), getattr(o, f)
                setattr(st, f, {k_: v for k_, v in x.items() if k_ in y and y[k_] == v})
            st.nfresh, st.steps = max(st.nfresh, o.nfresh), max(st.steps, o.steps)
        return st, bb

    def bits(self, st, v, tn, known=True):
        v = self.rv(st, v)
        n = INT[tn][0]
        if v.__class__ is tuple and v[0] == "c":
            return tuple((v[1] >> i) & 1 for i in range(n))
        if v.__class__ is Sym and v.head == "bv":
            if not known:
                return v.args[0]
            out = []
            for b in v.args[0]:
                if b.__class__ is Sym:
                    r = st.refine.get(b)
                    while r.__class__ is Sym:
                        b, r = r, st.refine.get(r)
                    if r is not None:
                        b = r[1]
                out.append(b)
            if len(out) != n:
                raise AnalysisError("width mismatch")
            return tuple(out)
        return None

    def mk(self, bits, tn):
        if all(b in (0, 1) and b.__class__ is int for b in bits):
            v = sum(b << i for i, b in enumerate(bits))
            return c(wrap(tn, v))
        return Sym("bv", (tuple(bits),), ("prim", tn))

    def is_bv(self, v):
        return v.__class__ is Sym and v.head == "bv"

    def arith(self, st, op, a, b, tn, ty):
        if (self.is_bv(a) or self.is_bv(b)) and tn in INT:
            n, sg = INT[tn]
            if op in ("Shl", "Shr"):
                b = self.rv(st, b)
                if not (b.__class__ is tuple and b[0] == "c"):
                    raise AnalysisError("shift by an unknown amount")
                k = b[1] % n
                x = self.bits(st, a, tn, False)
                if op == "Shl":
                    return self.mk((0,) * k + x[:n - k], tn)
                return self.mk(x[k:] + ((x[-1] if sg else 0),) * k, tn)
            x, y = self.bits(st, a, tn, False), self.bits(st, b, tn, False)
            if x is None or y is None:
                raise AnalysisError("operation on an unknown integer")
            if op in ("Div", "Rem") and not sg:
                b = self.mk(y, tn)
                if b.__class__ is tuple and b[1] > 0 and b[1] & (b[1] - 1) == 0:
                    k = b[1].bit_length() - 1
                    return self.mk(x[k:] + (0,) * k, tn) if op == "Div" else self.mk(x[:k] + (0,) * (n - k), tn)
            f = None
            if op == "BitAnd":
                f = lambda p, q: 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p is q else None
            elif op == "BitOr" or (op == "Add" and all(p == 0 or q == 0 for p, q in zip(x, y))):
                f = lambda p, q: 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p is q else None
            elif op == "BitXor":
                f = lambda p, q: q if p == 0 else p if q == 0 else 0 if p is q else None
            if f:
                r = [f(p, q) for p, q in zip(x, y)]
                if None not in r:
                    return self.mk(r, tn)
            raise AnalysisError(f"{op} on integers of unknown bits")
        return Interp.arith(self, st, op, a, b, tn, ty)

    def cast(self, st, fr, r):
        if r[4] == "IntToInt":
            from absint import subst
            src, dst = subst(self.T.get(r[2]), fr.subst), subst(self.T.get(r[3]), fr.subst)
            a = self.rv(st, self.operand(st, fr, r[1]))
            if self.is_bv(a) and dst[1] in INT and src[1] in INT:
                x = self.bits(st, a, src[1], False)
                n = INT[dst[1]][0]
                if n <= len(x):
                    return self.mk(x[:n], dst[1])
                return self.mk(x + ((x[-1] if INT[src[1]][1] else 0),) * (n - len(x)), dst[1])
        return Interp.cast(self, st, fr, r)

    def rvalue(self, st, fr, r, dest):
        if r[0] == "un" and r[1] in ("Not", "Neg"):
            a = self.rv(st, self.operand(st, fr, r[2]))
            if self.is_bv(a):
                raise AnalysisError("negation of unknown bits")
        return Interp.rvalue(self, st, fr, r, dest)

    def compare(self, st, op, a, b, tn):
        if (self.is_bv(a) or self.is_bv(b)) and tn in INT:
            if not self.is_bv(a):
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            x, y = self.bits(st, a, tn), self.bits(st, b, tn)
            if any(q.__class__ is not int for q in y):
                raise AnalysisError("comparison of two unknown integers")
            n, sg = INT[tn]
            a2 = self.mk(x, tn)
            k = wrap(tn, sum(q << i for i, q in enumerate(y)))
            if a2.__class__ is tuple:
                v = a2[1]
                return c(int({"Eq": v == k, "Ne": v != k, "Lt": v < k, "Le": v <= k, "Gt": v > k, "Ge": v >= k}[op]))
            if op == "Ne":
                return self.notb(self.compare(st, "Eq", a2, c(k), tn))
            if op == "Gt":
                return self.notb(self.compare(st, "Lt", a2, c(k + 1), tn)) if k < (1 << (n - sg)) - 1 else FALSE
            if op == "Ge":
                return self.notb(self.compare(st, "Lt", a2, c(k), tn))
            if op == "Le":
                return self.compare(st, "Lt", a2, c(k + 1), tn)
            if op == "Eq":
                need = []
                for p, q in zip(x, y):
                    if p.__class__ is int:
                        if p != q:
                            return FALSE
                    elif (p, q) not in need:
                        if (p, 1 - q) in need:
                            return FALSE
                        need.append((p, q))
                f = ((((need[0][0], 1 - need[0][1]),),) if len(need) == 1 else ((),))
                return Sym("bvc", ((tuple(need),), f), ("prim", "bool"))
            # Lt
            if k == 0 and sg:
                return Sym("bvc", ((((x[-1], 1),),), (((x[-1], 0),),)), ("prim", "bool")) if x[-1].__class__ is not int else c(x[-1])
            if k > 0 and k & (k - 1) == 0:
                m = k.bit_length() - 1
                hi = x[m:]
                t1 = self.conj([(p, 0) for p in hi])
                t = (t1,) if t1 is not None else ()
                # otherwise one of these bits is set: the highest of them is
                f = self.highest(hi[:-1] if sg else hi, 1)
                if sg:
                    neg = self.conj([(x[-1], 1)])
                    t += (neg,) if neg is not None else ()
                    f = tuple(z for z in (self.conj([(x[-1], 0)] + list(y)) for y in f) if z is not None)
                return Sym("bvc", (t, f), ("prim", "bool"))
            if k < 0 and sg and (-k) & (-k - 1) == 0:
                m = (-k).bit_length() - 1
                # x < -2^m  <=>  sign and not all bits >= m set
                t = tuple(z for z in (self.conj([(x[-1], 1)] + list(y)) for y in self.highest(x[m:-1], 0)) if z is not None)
                f = [self.conj([(x[-1], 0)]), self.conj([(p, 1) for p in x[m:]])]
                return Sym("bvc", (t, tuple(z for z in f if z is not None)), ("prim", "bool"))
            raise AnalysisError(f"comparison with {k}")
        return Interp.compare(self, st, op, a, b, tn)

    def highest(self, bits, v):
        """the ways in which some of the bits has the value v: by the highest that has"""
        out = []
        for k in reversed(range(len(bits))):
            z = self.conj([(bits[k], v)] + [(p, 1 - v) for p in bits[k + 1:]])
            if z is not None:
                out.append(z)
        return tuple(out)

    def conj(self, need):
        out = {}
        for p, q in need:
            if p.__class__ is int:
                if p != q:
                    return None
            elif out.setdefault(p, q) != q:
                return None
        return tuple(out.items())

    def split_bool(self, st, b):
        b = self.rv(st, b)
        neg = False
        while b.__class__ is Sym and b.head == "not":
            b, neg = b.args[0], not neg
        b = self.rv(st, b)
        if b.__class__ is Sym and b.head == "bvc":
            out = []
            for truth, alts in ((True, b.args[0]), (False, b.args[1])):
                for need in alts:
                    s = st.copy()
                    okk = True
                    for p, q in need:
                        r = s.refine.get(p)
                        if r is not None and r[1] != q:
                            okk = False
                        s.refine[p] = c(q)
                    if okk:
                        s.refine[b] = c(int(truth))
                        out.append((s, truth != neg))
            return out
        if b.__class__ is Sym:
            return Interp.split_bool(self, st, Sym("not", (b,), ("prim", "bool")) if neg else b)
        return [(st, bool(b[1]) != neg)]


def loops_and_live(fn, memo={}):
    """(blocks at which loops start, {block: locals that may be used later}); a local whose address is taken is always used"""
    if fn in memo:
        return memo[fn]
    n = len(fn.blocks)
    succ = []
    for b in fn.blocks:
        t = b["t"]
        if t[0] == "switch":
            s = [x for _, x in t[2]] + [t[3]]
        else:
            s = [t[{"goto": 1, "drop": 2, "assert": 3, "call": 4}[t[0]]]] if t[0] in ("goto", "drop", "assert", "call") else []
        succ.append([x for x in s if x is not None])
    state, heads, work = {}, set(), [(0, iter(succ[0]))]
    state[0] = 1
    while work:
        b, it = work[-1]
        for y in it:
            if state.get(y) == 1:
                heads.add(y)
            elif y not in state:
                state[y] = 1
                work.append((y, iter(succ[y])))
                break
        else:
            state[b] = 2
            work.pop()
    use, define, addr = [], [], set()

    def places(x):
        """locals in an operand, rvalue or terminator"""
        if isinstance(x, list):
            if len(x) >= 1 and isinstance(x[0], int) and not isinstance(x[0], bool) and all(isinstance(y, list) for y in x[1:]):
                yield x[0]
            for y in x:
                yield from places(y)
        elif isinstance(x, tuple):
            yield from places(list(x))
        elif isinstance(x, dict):
            for y in x.values():
                yield from places(y)
    for b in fn.blocks:
        u, d = set(), set()
        for s in b["s"]:
            if s[1] == "a":
                if s[3][0] in ("ref", "addr", "addrof", "rawptr"):
                    addr.update(places(s[3][1:]))
                u |= set(places(s[3])) - d
                if len(s[2]) == 1:
                    d.add(s[2][0])
                else:
                    u |= set(places(s[2])) - d
            else:
                u |= set(places(s[2:])) - d
        t = b["t"]
        if t[0] == "call":
            u |= set(places(t[1:3])) - d
            if t[3] and len(t[3]) == 1:
                pass
            else:
                u |= set(places(t[3])) - d
        else:
            u |= set(places(t[1:])) - d
        use.append(u)
        define.append(d)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for k in reversed(range(n)):
            out = set().union(*[live[s] for s in succ[k]]) if succ[k] else {0}
            new = use[k] | (out - define[k])
            if new != live[k]:
                live[k] = new
                changed = True
    memo[fn] = heads, [x | addr | {0} for x in live]
    return memo[fn]


def byte_bits(I, st, v):
    r = I.bits(st, v, "u8")
    if r is None:
        raise AnalysisError("unknown byte " + show(v))
    return r


def classify(prog, fn, widths):
    """(capabilities, report): 'uleb' when every result decodes as unsigned LEB128 to the input, likewise 'sleb'.  The parameter ranges over all values of the given widths."""
    from absint import Types
    T = Types(prog)
    pty = T.get(fn.local_ty(1))
    tn = pty[1]
    N, sg = INT[tn]
    why = {}
    paths = 0
    caps = []
    for kind in ("uleb", "sleb"):
        bad = None
        for w in widths:
            for neg in ((0, 1) if kind == "sleb" else (0,)):
                if kind == "sleb" and not sg and neg:
                    continue
                if w > N:
                    continue
                I = BV(prog, max_paths=4000)
                # unsigned: w free bits;  signed: w-1 free bits and copies of the sign
                m = w if kind == "uleb" else w - 1
                if kind == "uleb" and sg and w == N:
                    m = w - 1
                ext = neg
                inp = I.mk(tuple(bit(i) for i in range(m)) + (ext,) * (N - m), tn)
                try:
                    outs = I.run(fn, [inp])
                except AnalysisError as e:
                    return frozenset(), f"not analysable: {e}"
                if not outs:
                    bad = "no path returns"
                paths += len(outs)
                for s, r in outs:
                    bad = bad or check_exit(I, s, r, inp, tn, kind, w, ext)
                if I.panics:
                    for p in I.panics:
                        bad = bad or f"may panic at {p[0]}"
                if bad:
                    break
            if bad:
                break
        if bad is None:
            caps.append(kind)
        else:
            why[kind] = bad
    return frozenset(caps), f"{paths} exits" if not why else f"{paths} exits; {why}"


def check_exit(I, st, r, inp, tn, kind, w, ext):
    r = I.deref(st, r)
    if r[0] != "q":
        return "result is not a known byte sequence"
    bs = [byte_bits(I, st, x) for x in r[1]]
    x = I.bits(st, inp, tn)
    if not bs:
        return "no byte is written"
    for i, b in enumerate(bs):
        if b[7] != (1 if i < len(bs) - 1 else 0):
            return f"continuation bit of byte {i + 1} of {len(bs)} is wrong"
    if len(bs) > -(-w // 7):
        return f"{len(bs)} bytes for a {w}-bit value"
    dec = [p for b in bs for p in b[:7]]
    fill = 0 if kind == "uleb" else dec[-1]
    for k in range(max(len(dec), len(x))):
        want = x[k] if k < len(x) else (0 if kind == "uleb" else x[-1])
        got = dec[k] if k < len(dec) else fill
        if want != got and want is not got:
            return f"bit {k} of the decoded value is {got}, not {want}, for some {w}-bit value"
    return None


def encoders(prog):
    """{function name: (capabilities, report)} for every function (integer) -> Vec<u8> with a loop or shift."""
    from absint import Types
    T = Types(prog)
    out = {}
    for n, f in prog.fns.items():
        if f.kind == "promoted" or f.args != 1 or "{closure" in n or n.startswith("<"):
            continue
        p, r = T.get(f.local_ty(1)), T.get(f.local_ty(0))
        if p[0] == "prim" and p[1] in INT and p[1] not in ("bool", "char") and r[0] == "adt" and r[1].endswith("vec::Vec") \
                and r[2] and r[2][0] == ("prim", "u8"):
            N, sg = INT[p[1]]
            out[n] = classify(prog, f, [w for w in (32, 64, 128) if w <= N] or [N])
    return out


if __name__ == "__main__":
    import mirload
    lib, _ = mirload.load()
    for k, v in encoders(lib).items():
        print(k, v)
