"""Abstract interpretation of the JavaScript runtime.

Source text is parsed (acorn) and interpreted over symbolic memory: numbers are linear terms over atoms (addresses, and bytes of memory, each
byte with the set of values it may have), strings are sequences of characters whose codes are such terms.  A condition that the sets do not
decide splits the path: the interpreter is run again for every sequence of decisions."""
import json, os, subprocess, struct, math, re

ACORN = "/opt/veriftools/node/node_modules/acorn"
BYTE = frozenset(range(256))


class JsError(Exception):
    """the analysis cannot go on"""


class Thrown(Exception):
    """the program throws"""
    def __init__(self, v):
        self.v = v


class Exit(Exception):
    def __init__(self, code):
        self.code = code


def parse(path):
    js = ("const a=require(process.argv[1]),fs=require('fs');"
          "const t=a.parse(fs.readFileSync(process.argv[2],'utf8'),{ecmaVersion:'latest',sourceType:'module',allowHashBang:true,locations:true});"
          "console.log(JSON.stringify(t,(k,v)=>typeof v==='bigint'?undefined:(v instanceof RegExp?undefined:v)))")
    r = subprocess.run(["node", "-e", js, ACORN, path], capture_output=True, text=True)
    if r.returncode:
        raise JsError(f"{path} does not parse: {r.stderr.strip().splitlines()[4:5]}")
    return json.loads(r.stdout)


# ---- values ----------------------------------------------------------------
class Undef:
    def __repr__(self): return "undefined"


U = Undef()


class Null:
    def __repr__(self): return "null"


NULL = Null()


class Num:
    """const + sum of coefficient * atom; an atom is ('byte', name), ('addr', name), ('tab', byteatom, ((v, r)...)) or anything opaque"""
    __slots__ = ("k", "t", "big")

    def __init__(self, k=0, t=(), big=False):
        self.k = k
        self.t = tuple(sorted(((a, c) for a, c in t if c != 0), key=repr))
        self.big = big

    def const(self):
        return not self.t

    def key(self):
        return (self.k, self.t)

    def as_(self, big):
        return Num(self.k, self.t, big)

    def __repr__(self):
        parts = [f"{c}*{show_atom(a)}" if c != 1 else show_atom(a) for a, c in self.t]
        if self.k or not parts: parts.append(str(self.k))
        return " + ".join(parts) + ("n" if self.big else "")


def show_atom(a):
    if a[0] in ("byte", "addr"): return a[1] if isinstance(a[1], str) else f"{a[1][0]}[{a[1][1]}]"
    return f"{a[0]}({', '.join(map(str, a[1:]))})"[:80]


class Flt:
    __slots__ = ("v",)

    def __init__(self, v): self.v = v
    def __repr__(self): return repr(self.v)


class Str:
    """items: one-character Python strings, Num (the code of a character), or ('op', ...) for a string of unknown length"""
    __slots__ = ("x",)

    def __init__(self, x=()):
        self.x = tuple(x)

    def key(self):
        return tuple(i if isinstance(i, str) else i.key() if isinstance(i, Num) else i for i in self.x)

    def const(self):
        return all(isinstance(i, str) for i in self.x)

    def text(self):
        return "".join(self.x)

    def chars(self):
        return all(isinstance(i, (str, Num)) for i in self.x)

    def __repr__(self):
        return "'" + "".join(i if isinstance(i, str) else f"<{i}>" for i in self.x) + "'"


def S(s): return Str(tuple(s))
def N(k, big=False): return Num(k, (), big)


class Obj:
    def __init__(self, props=None, kind="object"):
        self.p = dict(props or {})
        self.kind = kind

    def __repr__(self): return f"{self.kind}{self.p}"


class Arr:
    def __init__(self, items): self.items = list(items)
    def __repr__(self): return repr(self.items)


class Fun:
    def __init__(self, node, env, name=None):
        self.node, self.env, self.name = node, env, name

    def __repr__(self): return f"function {self.name or ''}"


class Built:
    def __init__(self, f, name=""):
        self.f, self.name = f, name

    def __repr__(self): return f"builtin {self.name}"


class Bytes:
    """an ArrayBuffer of the program's own: a list of byte values"""
    def __init__(self, n): self.b = [N(0)] * n


class View:
    def __init__(self, buf, size, kind): self.buf, self.size, self.kind = buf, size, kind


class Regex:
    def __init__(self, pattern, flags): self.r = re.compile(pattern, re.I if "i" in flags else 0)


class Memory:
    """the WebAssembly memory: known cells by address term, writes in order"""
    def __init__(self):
        self.cells = {}
        self.writes = []

    def read(self, a):
        a = a.as_(False)
        for w, v in reversed(self.writes):
            if w.t == a.t:
                if w.k == a.k: return v
        if a.key() in self.cells: return self.cells[a.key()]
        return Num(0, [(("byte", ("unknown memory", repr(a))), 1)])

    def final(self):
        out = {}
        for w, v in self.writes:
            out[w.key()] = v
        return out


class Env:
    def __init__(self, parent=None):
        self.v, self.parent = {}, parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.parent
        return None


class Break(Exception):
    def __init__(self, l=None): self.l = l


class Continue(Exception):
    def __init__(self, l=None): self.l = l


class Ret(Exception):
    def __init__(self, v): self.v = v


class Split(Exception):
    pass


# ---- the interpreter -------------------------------------------------------
class Js:
    def __init__(self, decisions=(), max_steps=400000):
        self.dec = list(decisions)
        self.pos = 0
        self.dom = {}          # byte atom -> values it may have
        self.rng = {}          # atom -> (lo, hi)
        self.conds = []        # opaque conditions and how they were decided
        self.events = []
        self.steps = 0
        self.max_steps = max_steps
        self.modules = {}
        self.hooks = {}
        self.asts = {}
        self.visited = set()

    # -- paths
    def decide(self, what):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = True
            self.dec.append(True)
        self.pos += 1
        return d

    def domain(self, a):
        return self.dom.get(a, BYTE)

    def atom_range(self, a):
        if a in self.rng: return self.rng[a]
        if a[0] == "byte":
            d = self.domain(a)
            return (min(d), max(d))
        if a[0] == "tab":
            d = self.domain(a[1])
            vs = [r for v, r in a[2] if v in d]
            return (min(vs), max(vs))
        return (None, None)

    def range(self, n):
        lo = hi = n.k
        for a, c in n.t:
            l, h = self.atom_range(a)
            if l is None or h is None: return (None, None)
            if c < 0: l, h = h, l
            lo += c * l
            hi += c * h
        return lo, hi

    def byte_of(self, *ns):
        """the single byte atom that all of these terms depend on, if they depend on nothing else"""
        at = set()
        for n in ns:
            for a, c in n.t:
                if a[0] == "byte": at.add(a)
                elif a[0] == "tab": at.add(a[1])
                else: return None
        return at.pop() if len(at) == 1 else None

    def at(self, n, a, v):
        """the value of a term over byte atom a when a is v"""
        r = n.k
        for x, c in n.t:
            r += c * (v if x[0] == "byte" else dict(x[2])[v])
        return r

    def table(self, a, f, big):
        d = self.domain(a)
        m = {v: f(v) for v in d}
        ks = set(m.values())
        if len(ks) == 1: return N(ks.pop(), big)
        off = {m[v] - v for v in d}
        if len(off) == 1: return Num(off.pop(), [(a, 1)], big)
        return Num(0, [(("tab", a, tuple(sorted(m.items()))), 1)], big)

    def condition(self, f, *ns, what=None):
        """decide f over terms that depend on one byte, or opaquely"""
        if all(n.const() for n in ns): return f(*[n.k for n in ns])
        a = self.byte_of(*ns)
        if a is not None:
            yes = frozenset(v for v in self.domain(a) if f(*[self.at(n, a, v) for n in ns]))
            no = self.domain(a) - yes
            if not no: return True
            if not yes: return False
            d = self.decide(what)
            self.dom[a] = yes if d else no
            return d
        return self.opaque_cond(what or ("cond",) + tuple(n.key() for n in ns))

    def opaque_cond(self, what):
        for w, d in self.conds:
            if w == what: return d
        d = self.decide(what)
        self.conds.append((what, d))
        return d

    # -- arithmetic
    def norm(self, n):
        """bytes of an address that stand together are the address"""
        names = {a[1][0] for a, c in n.t if a[0] == "byte" and isinstance(a[1], tuple) and a[1][0] in self.rng_of_addr}
        t = dict(n.t)
        for nm in names:
            bs = [("byte", (nm, i)) for i in range(4)]
            c0 = t.get(bs[0])
            if c0 and all(t.get(b) == c0 << (8 * i) for i, b in enumerate(bs)):
                for b in bs: del t[b]
                t[("addr", nm)] = t.get(("addr", nm), 0) + c0
        return Num(n.k, t.items(), n.big)

    rng_of_addr = {}

    def add(self, a, b, sign=1):
        t = dict(a.t)
        for x, c in b.t: t[x] = t.get(x, 0) + sign * c
        return self.norm(Num(a.k + sign * b.k, t.items(), a.big))

    def scale(self, a, k):
        return self.norm(Num(a.k * k, [(x, c * k) for x, c in a.t], a.big))

    def opaque(self, op, *args, big=False, rng=None):
        a = (op,) + tuple(x.key() if isinstance(x, (Num, Str)) else x for x in args)
        if rng: self.rng[a] = rng
        return Num(0, [(a, 1)], big)

    def slice(self, n, lo, w):
        """bits lo..lo+w-1 of a term"""
        if n.const(): return N((n.k >> lo) & ((1 << w) - 1), n.big)
        r = self.range(n)
        if lo == 0 and r[0] is not None and 0 <= r[0] and r[1] < 1 << w: return n
        if n.k == 0 and len(n.t) == 1 and n.t[0][1] == 1 and n.t[0][0][0] == "bits":
            _, k, l, w0 = n.t[0][0]
            if lo >= w0: return N(0, n.big)
            return self.slice(Num(k[0], k[1], n.big), l + lo, min(w, w0 - lo))
        parts = []
        # an address is its bytes
        terms = []
        for a, c in n.t:
            if a[0] == "addr" and n.k == 0 and len(n.t) == 1 and c == 1:
                terms += [(("byte", (a[1], i)), 1 << (8 * i)) for i in range(4)]
            else: terms.append((a, c))
        ok = True
        for a, c in terms:
            l, h = self.atom_range(a)
            if l is None or l < 0 or c <= 0 or c & (c - 1): ok = False; break
            s = c.bit_length() - 1
            e = s + max(h, 1).bit_length()
            parts.append((s, e, a))
        if ok and n.k % (1 << (lo + w)) == 0:
            parts.sort(key=repr)
            parts.sort(key=lambda x: x[0])
            if all(parts[i][1] <= parts[i + 1][0] for i in range(len(parts) - 1)):
                out = Num(0, (), n.big)
                for s, e, a in parts:
                    if e <= lo or s >= lo + w: continue
                    if s >= lo and e <= lo + w:
                        out = self.add(out, Num(0, [(a, 1 << (s - lo))], n.big))
                    else: break
                else:
                    return out
        b = self.byte_of(n)
        if b is not None:
            return self.table(b, lambda v: (self.at(n, b, v) >> lo) & ((1 << w) - 1), n.big)
        return self.opaque("bits", n, lo, w, big=n.big, rng=(0, (1 << w) - 1))

    def binop(self, op, a, b):
        if op in ("===", "=="): return self.equal(a, b, op == "==")
        if op in ("!==", "!="): return not self.equal(a, b, op == "!=")
        if op == "+" and (isinstance(a, Str) or isinstance(b, Str)):
            return Str(self.to_str(a).x + self.to_str(b).x)
        if isinstance(a, (Flt,)) or isinstance(b, (Flt,)):
            return self.float_op(op, a, b)
        if op in ("<", ">", "<=", ">=") and isinstance(a, Str) and isinstance(b, Str):
            if len(a.x) == 1 and len(b.x) == 1 and a.chars() and b.chars():
                a, b = self.code(a.x[0]), self.code(b.x[0])
            elif a.const() and b.const():
                return {"<": a.text() < b.text(), ">": a.text() > b.text(), "<=": a.text() <= b.text(), ">=": a.text() >= b.text()}[op]
            else: return self.opaque_cond((op, a.key(), b.key()))
        if op == "instanceof" or op == "in":
            if op == "in" and isinstance(b, Obj): return self.to_str(a).text() in b.p
            raise JsError("unsupported " + op)
        a, b = self.num(a), self.num(b)
        if isinstance(a, Flt) or isinstance(b, Flt): return self.float_op(op, a, b)
        if op in ("<", ">", "<=", ">="):
            d = self.add(a.as_(False), b.as_(False), -1)
            lo, hi = self.range(d)
            f = {"<": lambda x: x < 0, ">": lambda x: x > 0, "<=": lambda x: x <= 0, ">=": lambda x: x >= 0}[op]
            if lo is not None and f(lo) == f(hi): return f(lo)
            return self.condition(f, d, what=(op, d.key()))
        if a.big != b.big: raise Thrown(S("TypeError: cannot mix BigInt and other types"))
        big = a.big
        if op == "+": return self.add(a, b)
        if op == "-": return self.add(a, b, -1)
        if a.const() and b.const(): return self.const_op(op, a.k, b.k, big)
        if op == "*":
            if b.const(): return self.scale(a, b.k)
            if a.const(): return self.scale(b, a.k)
            return self.opaque("*", a, b, big=big)
        x = self.byte_of(a, b)
        if op == "<<" and b.const():
            r = self.scale(a, 1 << b.k)
            if not big:
                lo, hi = self.range(r)
                if lo is None or lo < -2**31 or hi >= 2**31:
                    return self.opaque("int32", r, rng=(-2**31, 2**31 - 1))
            return r
        if op in (">>", ">>>") and b.const():
            if op == ">>>" and b.k == 0:
                src = a
                if len(a.t) == 1 and a.t[0][0][0] == "int32" and a.k == 0 and a.t[0][1] == 1:
                    src = Num(*a.t[0][0][1])
                lo, hi = self.range(src)
                if lo is not None and lo >= 0 and hi < 2**32: return src.as_(False)
            lo, hi = self.range(a)
            if lo is not None and lo >= 0 and (big or hi < 2**31):
                return self.slice(a, b.k, max(hi.bit_length() - b.k, 1))
            if big:
                return self.opaque(">>", a, b.k, big=True)
            return self.opaque(op, a, b.k)
        if op == "&":
            if a.const(): a, b = b, a
            if b.const() and b.k >= 0 and (b.k & (b.k + 1)) == 0:
                w = b.k.bit_length()
                # (x >> s) & mask is a slice of x
                if len(a.t) == 1 and a.k == 0 and a.t[0][1] == 1 and a.t[0][0][0] in (">>", "bits") and a.t[0][0][0] == ">>":
                    return self.slice(Num(*a.t[0][0][1], big), a.t[0][0][2], w)
                return self.slice(a, 0, w)
        if op in ("|", "^") :
            la, lb = self.bits(a), self.bits(b)
            if la is not None and lb is not None and not (la & lb): return self.add(a, b)
        if x is not None:
            return self.table(x, lambda v: self.const_op(op, self.at(a, x, v), self.at(b, x, v), big).k, big)
        return self.opaque(op, a, b, big=big)

    def bits(self, n):
        """mask of the bits a term may have set"""
        m = n.k
        if n.k < 0: return None
        for a, c in n.t:
            l, h = self.atom_range(a)
            if l is None or l < 0 or c <= 0 or c & (c - 1): return None
            k = ((1 << h.bit_length()) - 1) * c
            if k & m: return None
            m |= k
        return m

    def const_op(self, op, a, b, big):
        if op == "*": return N(a * b, big)
        if op == "/":
            if big:
                if b == 0: raise Thrown(S("RangeError: Division by zero"))
                q = abs(a) // abs(b)
                return N(q if (a < 0) == (b < 0) else -q, True)
            if b and a % b == 0: return N(a // b)
            return Flt(a / b if b else (math.nan if a == 0 else math.copysign(math.inf, a)))
        if op == "%":
            if b == 0:
                if big: raise Thrown(S("RangeError: Division by zero"))
                return Flt(math.nan)
            r = abs(a) % abs(b)
            return N(-r if a < 0 else r, big)
        if op == "**":
            if b < 0: return Flt(float(a) ** b)
            return N(a ** b, big)
        i32 = lambda v: ((v + 2**31) % 2**32) - 2**31
        if op == "<<": return N(a << b, True) if big else N(i32(a << (b & 31)))
        if op == ">>": return N(a >> b, True) if big else N(i32(a) >> (b & 31))
        if op == ">>>": return N((a % 2**32) >> (b & 31))
        f = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}.get(op)
        if not f: raise JsError("unsupported operator " + op)
        return N(f(a, b), True) if big else N(i32(f(i32(a), i32(b))))

    def float_op(self, op, a, b):
        x, y = [v.v if isinstance(v, Flt) else float(self.num(v).k) if self.num(v).const() else None for v in (a, b)]
        if x is None or y is None: raise JsError("arithmetic on an unknown and a fraction")
        if op in ("<", ">", "<=", ">="): return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
             "/": lambda: x / y if y else (math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)),
             "%": lambda: math.fmod(x, y)}.get(op)
        if r is None: raise JsError("unsupported operator on fractions: " + op)
        return Flt(r())

    def code(self, i):
        return N(ord(i)) if isinstance(i, str) else i

    def equal(self, a, b, loose=False):
        if isinstance(a, bool) or isinstance(b, bool):
            if type(a) is type(b): return a == b
            return self.equal(self.num(a), self.num(b), loose) if loose else False
        if isinstance(a, (Undef, Null)) or isinstance(b, (Undef, Null)):
            if loose: return isinstance(a, (Undef, Null)) and isinstance(b, (Undef, Null))
            return type(a) is type(b)
        if isinstance(a, Flt) or isinstance(b, Flt):
            x, y = [v.v if isinstance(v, Flt) else v.k if isinstance(v, Num) and v.const() else None for v in (a, b)]
            return x == y
        if isinstance(a, Num) and isinstance(b, Num):
            if a.big != b.big and not loose: return False
            d = self.add(a.as_(False), b.as_(False), -1)
            if d.const(): return d.k == 0
            lo, hi = self.range(d)
            if lo is not None and (lo > 0 or hi < 0): return False
            return self.condition(lambda v: v == 0, d, what=("==", d.key()))
        if isinstance(a, Str) and isinstance(b, Str):
            if a.key() == b.key(): return True
            if a.chars() and b.chars():
                if len(a.x) != len(b.x): return False
                return all(self.equal(self.code(x), self.code(y)) for x, y in zip(a.x, b.x))
            return self.opaque_cond(("==", a.key(), b.key()))
        if isinstance(a, Str) and isinstance(b, Num) and loose: return self.equal(self.num(a), b, True)
        if isinstance(b, Str) and isinstance(a, Num) and loose: return self.equal(a, self.num(b), True)
        if type(a) is not type(b): return False
        return a is b

    def truthy(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, (Undef, Null)): return False
        if isinstance(v, Num): return not self.equal(v, N(0, v.big))
        if isinstance(v, Flt): return v.v != 0 and v.v == v.v
        if isinstance(v, Str):
            if v.chars(): return len(v.x) > 0
            return self.opaque_cond(("nonempty", v.key()))
        return True

    def num(self, v):
        if isinstance(v, (Num, Flt)): return v
        if isinstance(v, bool): return N(int(v))
        if isinstance(v, Null): return N(0)
        if isinstance(v, Undef): return Flt(math.nan)
        if isinstance(v, Str):
            if v.const():
                s = v.text().strip()
                if s == "": return N(0)
                try: return N(int(s, 0) if s[:1] == "0" and s[1:2].isalpha() else int(s))
                except ValueError: pass
                try: return Flt(float(s)) if not s.lower().startswith(("nan", "inf")) else Flt(math.nan)
                except ValueError: return Flt(math.nan)
            if len(v.x) == 1 and isinstance(v.x[0], Num):
                raise JsError("numeric value of an unknown character")
            return self.opaque("Number", v)
        raise JsError(f"no numeric value for {v}")

    def to_str(self, v):
        if isinstance(v, Str): return v
        if isinstance(v, Num):
            if v.const(): return S(str(v.k))
            return Str([("decimal", v.key())])
        if isinstance(v, Flt):
            x = v.v
            if x != x: return S("NaN")
            if math.isinf(x): return S("-Infinity" if x < 0 else "Infinity")
            if x == int(x) and abs(x) < 1e21: return S(str(int(x)))
            r = repr(x)
            return S(r.replace("e-0", "e-").replace("e+0", "e+"))
        if isinstance(v, bool): return S("true" if v else "false")
        if isinstance(v, (Undef, Null)): return S(repr(v))
        if isinstance(v, Obj) and v.kind == "error": return S("Error")
        raise JsError(f"string of {v}")

    # -- modules
    def load(self, path):
        path = os.path.normpath(path)
        if path in self.modules: return self.modules[path]
        ast = self.asts.get(path)
        if ast is None:
            ast = self.asts[path] = parse(path)
        env = Env(self.globals())
        exports = {}
        self.modules[path] = exports
        env.v["__path"] = path
        body = ast["body"]
        for n in body:
            if n["type"] == "ImportDeclaration":
                src = n["source"]["value"]
                if src.startswith("."):
                    m = self.load(os.path.join(os.path.dirname(path), src))
                else:
                    m = self.builtin_module(src)
                for s in n["specifiers"]:
                    nm = s["local"]["name"]
                    if s["type"] == "ImportSpecifier":
                        w = s["imported"].get("name") or s["imported"].get("value")
                        if w not in m: raise JsError(f"{os.path.basename(path)} imports {w}, which {src} does not export")
                        env.v[nm] = m[w]
                    elif s["type"] == "ImportNamespaceSpecifier":
                        env.v[nm] = Obj(m)
                    else:
                        if src.startswith("."):
                            if "default" not in m: raise JsError(f"{src} has no default export")
                            env.v[nm] = m["default"]
                        else: env.v[nm] = Obj(m)
        self.hoist(body, env)
        for n in body:
            t = n["type"]
            if t == "ImportDeclaration": continue
            if t == "ExportNamedDeclaration":
                if n.get("declaration"):
                    d = n["declaration"]
                    if d["type"] != "FunctionDeclaration": self.stmt(d, env)
                    for nm in self.declared(d): exports[nm] = env.v[nm]
                elif n.get("source"):
                    m = self.load(os.path.join(os.path.dirname(path), n["source"]["value"]))
                    for s in n["specifiers"]: exports[s["exported"]["name"]] = m[s["local"]["name"]]
                else:
                    for s in n["specifiers"]: exports[s["exported"]["name"]] = env.v[s["local"]["name"]]
            elif t == "ExportAllDeclaration":
                exports.update(self.load(os.path.join(os.path.dirname(path), n["source"]["value"])))
            elif t == "ExportDefaultDeclaration":
                d = n["declaration"]
                if d["type"] == "FunctionDeclaration":
                    exports["default"] = Fun(d, env, (d.get("id") or {}).get("name"))
                else: exports["default"] = self.ev(d, env)
            else:
                self.stmt(n, env)
        return exports

    def declared(self, d):
        if d["type"] in ("FunctionDeclaration", "ClassDeclaration"): return [d["id"]["name"]]
        out = []
        def pat(p):
            if p["type"] == "Identifier": out.append(p["name"])
            elif p["type"] == "ObjectPattern":
                for q in p["properties"]: pat(q.get("value") or q["argument"])
            elif p["type"] == "ArrayPattern":
                for q in p["elements"]:
                    if q: pat(q)
            elif p["type"] == "AssignmentPattern": pat(p["left"])
        for x in d["declarations"]: pat(x["id"])
        return out

    def hoist(self, body, env):
        for n in body:
            if n["type"] in ("ExportNamedDeclaration", "ExportDefaultDeclaration") and n.get("declaration"): n = n["declaration"]
            if n["type"] == "FunctionDeclaration" and n.get("id"):
                env.v[n["id"]["name"]] = Fun(n, env, n["id"]["name"])

    def builtin_module(self, name):
        name = name.replace("node:", "")
        def rec(what):
            def f(this, *a):
                self.events.append((what,) + a)
                return U
            return Built(f, what)
        if name == "fs":
            return {"readFileSync": Built(lambda this, *a: Obj({"__file": a[0]}, "file"), "readFileSync"), "appendFileSync": rec("append"),
                    "writeFileSync": rec("write-file"), "existsSync": Built(lambda this, *a: True), "mkdirSync": rec("mkdir"), "writeSync": rec("write-fd")}
        if name == "path":
            pj = lambda this, *a: Str(sum([list(self.to_str(x).x) + ["/"] for x in a], [])[:-1])
            return {"basename": Built(lambda this, *a: self.wrap("basename", a[0])), "dirname": Built(lambda this, *a: self.wrap("dirname", a[0])),
                    "join": Built(pj, "join"), "resolve": Built(pj, "resolve")}
        if name == "url":
            return {"fileURLToPath": Built(lambda this, *a: a[0])}
        if name == "process":
            return {"default": self.process, **self.process.p}
        raise JsError("module " + name + " is not modelled")

    def wrap(self, op, v):
        return Str([(op, v.key() if isinstance(v, (Str, Num)) else repr(v))])

    def globals(self):
        if hasattr(self, "_g"): return self._g
        e = Env()
        g = e.v
        B = lambda f, n="": Built(f, n)
        g["undefined"] = U
        g["NaN"] = Flt(math.nan)
        g["Infinity"] = Flt(math.inf)
        def out(kind):
            def f(this, *a):
                self.events.append((kind,) + a)
                return True
            return f
        def exit_(this, *a):
            raise Exit(a[0] if a else U)
        self.process = Obj({"argv": Arr(self.hooks.get("argv", [])), "stdout": Obj({"write": B(out("stdout"), "stdout.write")}),
                            "stderr": Obj({"write": B(out("stderr"))}), "exit": B(exit_, "exit"), "env": Obj(), "platform": S("linux")})
        g["process"] = self.process
        g["console"] = Obj({k: B(out("console")) for k in ("log", "error", "warn", "info", "debug")})
        g["Number"] = Obj({"isInteger": B(lambda t, v: not isinstance(v, Flt) or v.v == int(v.v)), "isNaN": B(self.is_nan), "isFinite": B(self.is_finite),
                           "parseInt": B(self.parse_int, "parseInt"), "MAX_SAFE_INTEGER": N(2**53 - 1)}, "Number")
        g["BigInt"] = Obj({"asIntN": B(self.as_int_n), "asUintN": B(self.as_uint_n)}, "BigInt")
        g["String"] = Obj({"fromCharCode": B(self.from_code), "fromCodePoint": B(self.from_code)}, "String")
        g["Boolean"] = Obj({}, "Boolean")
        g["Math"] = Obj({"abs": B(self.m_abs), "min": B(lambda t, *a: self.minmax(a, "<")), "max": B(lambda t, *a: self.minmax(a, ">")),
                         "floor": B(lambda t, v: N(math.floor(v.v)) if isinstance(v, Flt) else v), "trunc": B(lambda t, v: N(math.trunc(v.v)) if isinstance(v, Flt) else v),
                         "pow": B(lambda t, a, b: self.binop("**", a, b))})
        g["Object"] = Obj({"is": B(self.obj_is), "keys": B(lambda t, o: Arr([S(k) for k in o.p])), "entries": B(lambda t, o: Arr([Arr([S(k), v]) for k, v in o.p.items()])),
                           "freeze": B(lambda t, o: o), "assign": B(self.assign), "fromEntries": B(lambda t, a: Obj({self.to_str(x.items[0]).text(): x.items[1] for x in a.items}))})
        g["Array"] = Obj({"from": B(self.array_from), "isArray": B(lambda t, v: isinstance(v, Arr))}, "Array")
        g["parseInt"] = B(self.parse_int, "parseInt")
        g["isNaN"] = B(self.is_nan)
        g["isFinite"] = B(self.is_finite)
        g["Date"] = Obj({"now": B(lambda t: self.opaque("now"))}, "Date")
        for k in ("Uint8Array", "Int8Array", "Float64Array", "Float32Array", "ArrayBuffer", "TextEncoder", "TextDecoder", "DataView", "Error", "TypeError", "RangeError",
                  "Map", "Set", "BigInt64Array", "BigUint64Array", "Int32Array", "Uint32Array"):
            g[k] = Obj({}, "class:" + k)
        g["Buffer"] = Obj({"from": B(self.buffer_from)}, "class:Buffer")
        wa = Obj({"instantiate": B(self.instantiate), "Memory": Obj({}, "class:Memory"), "Module": Obj({}, "class:Module"), "Instance": Obj({}, "class:Instance")})
        g["WebAssembly"] = wa
        g["globalThis"] = Obj(g)
        g["Promise"] = Obj({"resolve": B(lambda t, v=U: v)})
        self._g = e
        return e

    # -- builtins
    def assign(self, t, o, *xs):
        for x in xs: o.p.update(x.p)
        return o

    def array_from(self, t, v, f=None):
        if isinstance(v, Obj) and "length" in v.p: items = [U] * v.p["length"].k
        else: items = self.iterate(v)
        if f is not None: items = [self.call(f, [x, N(i)]) for i, x in enumerate(items)]
        return Arr(items)

    def is_nan(self, t, v):
        if isinstance(v, Flt): return v.v != v.v
        v = self.num(v)
        if isinstance(v, Flt): return v.v != v.v
        if any(a[0] == "parseInt" for a, c in v.t): return self.opaque_cond(("NaN", v.key()))
        return False

    def is_finite(self, t, v):
        if isinstance(v, Flt): return not (math.isnan(v.v) or math.isinf(v.v))
        return not self.is_nan(t, v)

    def m_abs(self, t, v):
        if isinstance(v, Flt): return Flt(abs(v.v))
        return v if self.binop(">=", v, N(0)) else self.scale(v, -1)

    def minmax(self, a, op):
        r = a[0]
        for x in a[1:]:
            if self.binop(op, x, r): r = x
        return r

    def obj_is(self, t, a, b):
        if isinstance(a, Flt) or isinstance(b, Flt):
            x, y = [v.v if isinstance(v, Flt) else float(v.k) if isinstance(v, Num) and v.const() else None for v in (a, b)]
            if x is None or y is None: return False
            return (x != x and y != y) or (x == y and math.copysign(1, x) == math.copysign(1, y))
        return self.equal(a, b)

    def as_int_n(self, t, bits, v):
        w = bits.k
        if not v.big: raise Thrown(S("TypeError"))
        r = self.slice(v, 0, w)
        if r.const(): return N(((r.k + (1 << (w - 1))) % (1 << w)) - (1 << (w - 1)), True)
        if self.top(r, w) is not None: neg = self.top_set(r, w)
        else: neg = self.binop(">=", r, N(1 << (w - 1), True))
        return self.add(r, N(1 << w, True), -1) if neg else r

    def top(self, r, w):
        for a, c in r.t:
            if a[0] == "byte" and c == 1 << (w - 8): return a
        return None

    def top_set(self, r, w):
        a = self.top(r, w)
        return self.condition(lambda v: v >= 128, Num(0, [(a, 1)]), what=("top", a))

    def as_uint_n(self, t, bits, v):
        return self.slice(v, 0, bits.k)

    def from_code(self, t, *a):
        out = []
        for v in a:
            v = self.num(v)
            lo, hi = self.range(v)
            if lo is None: raise JsError("character of an unknown code")
            if hi > 65535: v = self.slice(v, 0, 16)
            out.append(chr(v.k) if v.const() else v.as_(False))
        return Str(out)

    def parse_int(self, t, s, base=U):
        s = self.to_str(s)
        if s.const() and isinstance(base, (Undef,)) or s.const() and isinstance(base, Num) and base.const():
            b = 10 if isinstance(base, Undef) else base.k
            x = s.text().lstrip(" \t\n\r\v\f")
            m = re.match(r"[+-]?", x).group(0)
            r = x[len(m):]
            if b == 0: b = 16 if r[:2].lower() == "0x" else 10
            if b == 16 and r[:2].lower() == "0x": r = r[2:]
            v = None
            for ch in r:
                d = int(ch, 36) if ch.isalnum() and ch.isascii() else 99
                if d >= b: break
                v = (v or 0) * b + d
            if v is None: return Flt(math.nan)
            v = -v if m == "-" else v
            f = float(v)
            return N(int(f))
        if len(s.x) == 1 and isinstance(s.x[0], Num) and self.byte_of(s.x[0]) is not None and (isinstance(base, Undef) or base.const()):
            a = self.byte_of(s.x[0])
            b = 10 if isinstance(base, Undef) else base.k
            dig = lambda v: (int(chr(v), 36) if chr(v).isalnum() and v < 128 and int(chr(v), 36) < b else None)
            ok = frozenset(v for v in self.domain(a) if dig(self.at(s.x[0], a, v)) is not None)
            if self.condition(lambda v: v in ok, Num(0, [(a, 1)]), what="digit"):
                return self.table(a, lambda v: dig(self.at(s.x[0], a, v)), False)
            return Flt(math.nan)
        return self.opaque("parseInt", s, base.key() if isinstance(base, Num) else None)

    def buffer_from(self, t, v, enc=U):
        if isinstance(v, Str):
            e = enc.text() if isinstance(enc, Str) else "utf8"
            return Obj({"str": v, "enc": S(e), "length": N(len(v.x))}, "buffer")
        if isinstance(v, Arr): return Obj({"str": Str([chr(x.k) if x.const() else x for x in v.items]), "enc": S("latin1")}, "buffer")
        raise JsError("Buffer.from of " + repr(v))

    def instantiate(self, t, buf, imports=U):
        self.events.append(("instantiate", buf, imports))
        def main(this, *a):
            self.events.append(("main",) + a + (dict(self.memory.final()) if self.memory else {},))
            return self.opaque("exit code")
        exports = self.hooks.get("exports", {"main": Built(main, "main")})
        inst = Obj({"exports": Obj(exports)})
        return Obj({"instance": inst, "module": Obj(), "exports": Obj(exports)})

    memory = None

    def construct(self, c, args):
        if isinstance(c, Fun): raise JsError("new of a function")
        k = c.kind
        if k == "class:Memory":
            self.memory = self.hooks.get("memory") or Memory()
            self.events.append(("memory", args[0] if args else U))
            return Obj({"buffer": Obj({"__mem": self.memory}, "membuffer"), "grow": Built(lambda t, n: N(1))}, "memory")
        if k in ("class:Uint8Array", "class:Float64Array", "class:Int8Array", "class:DataView", "class:BigInt64Array", "class:BigUint64Array", "class:Int32Array", "class:Uint32Array", "class:Float32Array"):
            size = {"class:Uint8Array": 1, "class:Int8Array": 1, "class:DataView": 1, "class:Int32Array": 4, "class:Uint32Array": 4, "class:Float32Array": 4}.get(k, 8)
            a = args[0]
            if isinstance(a, Obj) and a.kind == "membuffer":
                if size != 1 or k == "class:Int8Array": raise JsError("a view of the memory that is not of unsigned bytes")
                off = args[1] if len(args) > 1 else N(0)
                return View(("mem", a.p["__mem"], off, args[2] if len(args) > 2 else None), 1, k)
            if isinstance(a, Bytes): return View(a, size, k)
            if isinstance(a, Num): return View(Bytes(a.k * size), size, k)
            if isinstance(a, View): return View(a.buf, size, k)
            if isinstance(a, Arr):
                b = Bytes(len(a.items))
                if size != 1: raise JsError("typed array of wide items")
                b.b = [self.slice(self.num(x), 0, 8) for x in a.items]
                return View(b, 1, k)
            raise JsError(f"{k} of {a}")
        if k == "class:ArrayBuffer": return Bytes(args[0].k)
        if k == "class:TextEncoder": return Obj({"encode": Built(self.encode)}, "encoder")
        if k == "class:TextDecoder":
            return Obj({"enc": args[0] if args else S("utf-8")}, "decoder")
        if k in ("class:Error", "class:TypeError", "class:RangeError"): return Obj({"message": args[0] if args else U}, "error")
        if k == "class:Map":
            return Obj({"__m": {}}, "map")
        if k == "class:Set": return Obj({"__s": list(self.iterate(args[0])) if args else []}, "set")
        if k in ("class:Module",): return Obj({}, "module")
        if k == "class:Instance":
            return self.instantiate(None, args[0], args[1]).p["instance"]
        raise JsError("new " + k)

    def encode(self, t, s=U):
        out = []
        for i in self.to_str(s).x:
            if isinstance(i, str): out += [N(x) for x in i.encode("utf8", "surrogatepass")]
            elif isinstance(i, Num):
                lo, hi = self.range(i)
                if hi is None or hi > 127: raise JsError("UTF-8 encoding of an unknown character")
                out.append(i)
            else: out.append(Num(0, [(("utf8", i), 1)]))
        b = Bytes(len(out))
        b.b = out
        return View(b, 1, "class:Uint8Array")

    # -- property access
    def view_get(self, v, i):
        if isinstance(v.buf, tuple):
            return v.buf[1].read(self.add(i.as_(False), v.buf[2].as_(False)))
        if not i.const(): raise JsError("index of a buffer is not known")
        if v.size == 1:
            if not 0 <= i.k < len(v.buf.b): return U
            b = v.buf.b[i.k]
            return b
        if v.kind == "class:Float64Array": return self.double(v.buf.b[8 * i.k:8 * i.k + 8])
        bs = v.buf.b[v.size * i.k: v.size * (i.k + 1)]
        return self.int_of(bs, "Uint" not in v.kind, "Big" in v.kind)

    def int_of(self, bs, signed, big):
        r = Num(0, (), big)
        for j, b in enumerate(bs): r = self.add(r, self.scale(b.as_(big), 1 << (8 * j)))
        if signed and self.condition(lambda v: v >= 128, bs[-1].as_(False), what="sign"): r = self.add(r, N(1 << (8 * len(bs)), big), -1)
        return r

    def double(self, bs):
        if all(b.const() for b in bs): return Flt(struct.unpack("<d", bytes(b.k for b in bs))[0])
        return self.opaque("double", *bs)

    def view_set(self, v, i, val):
        val = self.num(val)
        if isinstance(val, Flt): raise JsError("a fraction is stored in memory")
        val = self.slice(val.as_(False), 0, 8) if v.size == 1 else val
        if isinstance(v.buf, tuple):
            v.buf[1].writes.append((self.add(i.as_(False), v.buf[2].as_(False)), val))
        elif v.size == 1:
            v.buf.b[i.k] = val
        else: raise JsError("store to a wide typed array")

    def get(self, o, name):
        """o.name"""
        if isinstance(o, (Undef, Null)): raise Thrown(S(f"TypeError: cannot read properties of {o} (reading '{name}')"))
        if isinstance(o, Str): return self.str_method(o, name)
        if isinstance(o, Arr): return self.arr_method(o, name)
        if isinstance(o, View):
            if name == "length" or name == "byteLength":
                if isinstance(o.buf, tuple): return self.opaque("memory length", rng=(65536, 2**32))
                return N(len(o.buf.b) // (o.size if name == "length" else 1))
            if name == "buffer": return o.buf if isinstance(o.buf, Bytes) else Obj({"__mem": o.buf[1]}, "membuffer")
            if name in ("subarray", "slice"):
                def sub(t, a=N(0), b=None):
                    if isinstance(o.buf, tuple):
                        if b is None: raise JsError("open slice of the memory")
                        n = self.add(b.as_(False), a.as_(False), -1)
                        if not n.const(): return View(("mem", o.buf[1], self.add(o.buf[2], a.as_(False)), n), 1, o.kind)
                        if name == "slice":
                            x = Bytes(n.k)
                            x.b = [o.buf[1].read(self.add(self.add(a.as_(False), N(j)), o.buf[2])) for j in range(n.k)]
                            return View(x, 1, o.kind)
                        return View(("mem", o.buf[1], self.add(o.buf[2], a.as_(False)), n), 1, o.kind)
                    x = Bytes(0)
                    x.b = o.buf.b[a.k:(None if b is None else b.k)]
                    return View(x, 1, o.kind)
                return Built(sub, name)
            if name == "set":
                def set_(t, src, off=N(0)):
                    for j, x in enumerate(self.iterate(src)): self.view_set(o, self.add(off.as_(False), N(j)), x)
                    return U
                return Built(set_)
            if name == "indexOf":
                def index(t, v, start=N(0)):
                    for j in range(300):
                        if self.equal(self.view_get(o, self.add(start.as_(False), N(j))), self.num(v)): return self.add(start.as_(False), N(j))
                    raise JsError("search in memory does not end")
                return Built(index)
            if name == "reverse":
                def rev(t):
                    o.buf.b.reverse()
                    return o
                return Built(rev)
            if name in ("map", "forEach", "reduce", "entries", "some", "every", "find"):
                return self.arr_method(Arr(self.iterate(o)), name)
            m = re.match(r"(get|set)(Big)?(Int|Uint|Float)(\d+)$", name)
            if m and o.kind == "class:DataView":
                g, big, sg, w = m.group(1), bool(m.group(2)), m.group(3), int(m.group(4)) // 8
                def acc(t, a, *r):
                    le = r[0] if g == "get" and r else r[1] if g == "set" and len(r) > 1 else False
                    order = range(w) if le is True or w == 1 else range(w - 1, -1, -1)
                    if g == "get":
                        bs = [self.view_get(o, self.add(a.as_(False), N(j))) for j in order]
                        if sg == "Float":
                            if w != 8: raise JsError("32-bit floats")
                            return self.double(bs)
                        return self.int_of(bs, sg == "Int", big)
                    for p, j in enumerate(order):
                        self.view_set(o, self.add(a.as_(False), N(j)), self.slice(self.num(r[0]), 8 * p, 8))
                    return U
                return Built(acc, name)
            return U
        if isinstance(o, Num) or isinstance(o, Flt):
            if name == "toFixed":
                def fixed(t, d=N(0)):
                    if isinstance(o, Flt):
                        if abs(o.v) >= 1e21 or o.v != o.v: return self.to_str(o)
                        s = f"{o.v:.{d.k}f}"
                        return S("0" + s[2:] if o.v == 0 and s.startswith("-") else s)
                    if o.const(): return S(f"{o.k:.{d.k}f}")
                    return Str([("toFixed", o.key(), d.k)])
                return Built(fixed)
            if name == "toString":
                def tos(t, base=N(10)):
                    if base.k == 10: return self.to_str(o)
                    if o.const():
                        x, out = abs(o.k), ""
                        while True:
                            out = "0123456789abcdefghijklmnopqrstuvwxyz"[x % base.k] + out
                            x //= base.k
                            if not x: break
                        return S(("-" if o.k < 0 else "") + out)
                    return Str([("radix", o.key(), base.k)])
                return Built(tos)
            return U
        if isinstance(o, Obj):
            if o.kind == "map":
                mp = o.p["__m"]
                key = lambda k: k.key() if isinstance(k, (Num, Str)) else k
                if name == "get": return Built(lambda t, k: mp.get(key(k), U))
                if name == "has": return Built(lambda t, k: key(k) in mp)
                if name == "set":
                    def mset(t, k, v):
                        mp[key(k)] = v
                        return o
                    return Built(mset)
            if o.kind == "set":
                if name == "has": return Built(lambda t, k: any(self.equal(k, x) for x in o.p["__s"]))
            if o.kind == "decoder" and name == "decode":
                def dec(t, v):
                    items = self.iterate(v)
                    enc = o.p["enc"].text().lower()
                    if enc in ("latin1", "iso-8859-1", "ascii", "windows-1252"): raise JsError("this decoder is windows-1252")
                    bs = []
                    for x in items:
                        lo, hi = self.range(x)
                        if x.const(): bs.append(x)
                        elif hi < 128: bs.append(x)
                        else: raise JsError("UTF-8 decoding of unknown bytes")
                    if all(x.const() for x in bs): return S(bytes(x.k for x in bs).decode("utf8", "replace"))
                    return Str([chr(x.k) if x.const() else x for x in bs])
                return Built(dec)
            if o.kind == "buffer" and name == "toString":
                return Built(lambda t, *a: o.p["str"])
            if name in o.p: return o.p[name]
            if name == "hasOwnProperty": return Built(lambda t, k: self.to_str(k).text() in o.p)
            return U
        if isinstance(o, (Fun, Built)):
            if name in ("call", "bind", "apply"):
                if name == "call": return Built(lambda t, this=U, *a: self.call(o, list(a)))
                if name == "apply": return Built(lambda t, this=U, a=None: self.call(o, list(a.items) if a else []))
                return Built(lambda t, this=U, *a: Built(lambda t2, *b: self.call(o, list(a) + list(b))))
            if name == "name": return S(o.name or "")
            return U
        raise JsError(f"property {name} of {o}")

    def index_of(self, s, sub, last=False):
        if s.const() and sub.const(): return N(s.text().rfind(sub.text()) if last else s.text().find(sub.text()))
        if s.chars() and sub.chars():
            if len(sub.x) > len(s.x): return N(-1)
            if len(sub.x) == 0 and not last: return N(0)
        return self.opaque("lastIndexOf" if last else "indexOf", s, sub, rng=(-1, max(len(s.x) - len(sub.x), 0)))

    def str_method(self, o, name):
        if name == "length":
            if o.chars(): return N(len(o.x))
            return self.opaque("length", o, rng=(0, 2**30))
        if name == "toString" or name == "valueOf": return Built(lambda t: o)
        if name in ("charCodeAt", "codePointAt"):
            def cc(t, i=N(0)):
                if not o.chars() or not i.const(): raise JsError("character of an unknown string")
                return self.code(o.x[i.k]) if 0 <= i.k < len(o.x) else Flt(math.nan)
            return Built(cc)
        if name in ("charAt", "at"):
            def ca(t, i=N(0)):
                return Str([o.x[i.k]]) if 0 <= i.k < len(o.x) else S("")
            return Built(ca)
        if name in ("indexOf", "lastIndexOf"):
            def ix(t, sub, start=N(0)):
                if start.k:
                    r = self.index_of(Str(o.x[start.k:]), sub)
                    return N(-1) if r.const() and r.k == -1 else self.add(r, N(start.k)) if r.const() else self.opaque("indexOf", o, sub, start.k)
                return self.index_of(o, sub, name == "lastIndexOf")
            return Built(ix)
        if name == "includes":
            def inc(t, sub):
                if len(sub.x) == 1 and isinstance(sub.x[0], Num) and o.const():
                    a = self.byte_of(sub.x[0])
                    if a is not None: return self.condition(lambda v: chr(v) in o.text(), sub.x[0], what="includes")
                return not self.equal(self.index_of(o, sub), N(-1))
            return Built(inc)
        if name in ("slice", "substring", "substr"):
            def sl(t, a=N(0), b=None):
                if not o.chars(): raise JsError("part of an unknown string")
                if not a.const() or (b is not None and not b.const()): raise JsError("part of a string at an unknown place")
                if name == "substr": return Str(o.x[a.k:][:None if b is None else b.k])
                if name == "substring":
                    p, q = max(a.k, 0), len(o.x) if b is None else max(b.k, 0)
                    return Str(o.x[min(p, q):max(p, q)])
                return Str(o.x[a.k:None if b is None else b.k])
            return Built(sl)
        if name in ("toLowerCase", "toUpperCase"):
            def lc(t):
                f = (lambda v: ord(chr(v).lower()) if len(chr(v).lower()) == 1 else v) if name == "toLowerCase" else (lambda v: ord(chr(v).upper()) if len(chr(v).upper()) == 1 else v)
                out = []
                for i in o.x:
                    if isinstance(i, str): out.append(chr(f(ord(i))))
                    elif self.byte_of(i) is not None:
                        a = self.byte_of(i)
                        out.append(self.table(a, lambda v: f(self.at(i, a, v)), False))
                    else: raise JsError("case of an unknown string")
                return Str(out)
            return Built(lc)
        if name in ("startsWith", "endsWith"):
            def sw(t, p, start=N(0)):
                x = o.x[start.k:]
                part = x[:len(p.x)] if name == "startsWith" else x[len(x) - len(p.x):] if len(x) >= len(p.x) else ()
                return len(part) == len(p.x) and self.equal(Str(part), p)
            return Built(sw)
        if name in ("padStart", "padEnd"):
            def pad(t, n, f=S(" ")):
                k = max(n.k - len(o.x), 0)
                fill = Str((f.x * (k + 1))[:k])
                return Str(fill.x + o.x) if name == "padStart" else Str(o.x + fill.x)
            return Built(pad)
        if name == "repeat": return Built(lambda t, n: Str(o.x * n.k))
        if name == "concat": return Built(lambda t, *a: Str(sum([list(self.to_str(x).x) for x in a], list(o.x))))
        if name in ("trim", "trimStart", "trimEnd"):
            def trim(t):
                x = list(o.x)
                sp = lambda i: self.regex_char(re.compile(r"\s"), i)
                if name != "trimEnd":
                    while x and sp(x[0]): x.pop(0)
                if name != "trimStart":
                    while x and sp(x[-1]): x.pop()
                return Str(x)
            return Built(trim)
        if name == "split":
            def split(t, sep):
                if sep.const() and sep.text() == "": return Arr([Str([i]) for i in o.x])
                if o.const(): return Arr([S(x) for x in o.text().split(sep.text())])
                raise JsError("split of an unknown string")
            return Built(split)
        if name in ("match", "replace", "search", "replaceAll", "matchAll"):
            def m(t, r, *a):
                if not o.const(): raise JsError("regular expression over an unknown string")
                if name == "match" and isinstance(r, Regex):
                    g = r.r.search(o.text())
                    if not g: return NULL
                    x = Arr([S(g.group(0))] + [U if v is None else S(v) for v in g.groups()])
                    return x
                if name in ("replace", "replaceAll") and isinstance(r, Str) and isinstance(a[0], Str):
                    return S(o.text().replace(r.text(), a[0].text(), 1 if name == "replace" else -1))
                raise JsError("string method " + name)
            return Built(m)
        return U

    def regex_char(self, r, i):
        c = self.code(i)
        full = re.compile(r.pattern, r.flags)
        ws = lambda v: full.search(chr(v)) is not None
        if c.const(): return ws(c.k)
        if self.byte_of(c) is None: raise JsError("class of an unknown character")
        return self.condition(ws, c, what="class")

    def arr_method(self, o, name):
        if name == "length": return N(len(o.items))
        B = Built
        cb = lambda f, x, i: self.call(f, [x, N(i), o])
        if name == "push":
            def push(t, *a):
                o.items += a
                return N(len(o.items))
            return B(push)
        if name == "pop": return B(lambda t: o.items.pop() if o.items else U)
        if name == "shift": return B(lambda t: o.items.pop(0) if o.items else U)
        if name == "slice": return B(lambda t, a=N(0), b=None: Arr(o.items[a.k:None if b is None else b.k]))
        if name == "map": return B(lambda t, f: Arr([cb(f, x, i) for i, x in enumerate(o.items)]))
        if name == "forEach":
            def fe(t, f):
                for i, x in enumerate(list(o.items)): cb(f, x, i)
                return U
            return B(fe)
        if name == "filter": return B(lambda t, f: Arr([x for i, x in enumerate(o.items) if self.truthy(cb(f, x, i))]))
        if name == "some": return B(lambda t, f: any(self.truthy(cb(f, x, i)) for i, x in enumerate(o.items)))
        if name == "every": return B(lambda t, f: all(self.truthy(cb(f, x, i)) for i, x in enumerate(o.items)))
        if name == "find": return B(lambda t, f: next((x for i, x in enumerate(o.items) if self.truthy(cb(f, x, i))), U))
        if name == "includes": return B(lambda t, v: any(self.equal(v, x) for x in o.items))
        if name == "indexOf": return B(lambda t, v: N(next((i for i, x in enumerate(o.items) if self.equal(v, x)), -1)))
        if name == "reduce":
            def red(t, f, *init):
                it = list(enumerate(o.items))
                if init: acc = init[0]
                else:
                    acc = it.pop(0)[1]
                for i, x in it: acc = self.call(f, [acc, x, N(i), o])
                return acc
            return B(red)
        if name == "join":
            def join(t, sep=S(",")):
                out = []
                for i, x in enumerate(o.items):
                    if i: out += sep.x
                    out += self.to_str(x).x
                return Str(out)
            return B(join)
        if name == "reverse":
            def rev(t):
                o.items.reverse()
                return o
            return B(rev)
        if name == "concat": return B(lambda t, *a: Arr(sum([list(x.items) if isinstance(x, Arr) else [x] for x in a], list(o.items))))
        if name == "entries": return B(lambda t: Arr([Arr([N(i), x]) for i, x in enumerate(o.items)]))
        if name == "keys": return B(lambda t: Arr([N(i) for i in range(len(o.items))]))
        if name == "fill":
            def fill(t, v):
                o.items = [v] * len(o.items)
                return o
            return B(fill)
        return U

    def iterate(self, v):
        if isinstance(v, Arr): return list(v.items)
        if isinstance(v, Str):
            if not v.chars(): raise JsError("characters of an unknown string")
            return [Str([i]) for i in v.x]
        if isinstance(v, View):
            if isinstance(v.buf, tuple):
                n = v.buf[3]
                if n is None or not n.const(): raise JsError("iteration over the memory")
                return [self.view_get(v, N(i)) for i in range(n.k)]
            if v.size != 1: raise JsError("iteration over a wide typed array")
            return list(v.buf.b)
        raise JsError(f"iteration over {v}")

    # -- calls
    def call(self, f, args, this=U):
        if isinstance(f, Built):
            return f.f(this, *args)
        if isinstance(f, Obj):
            if f.kind == "Number":
                v = args[0] if args else N(0)
                v = self.num(v)
                if isinstance(v, Flt): return v
                lo, hi = self.range(v)
                if v.big and (lo is None or lo < -2**53 or hi > 2**53):
                    return self.opaque("Number", v)
                return v.as_(False)
            if f.kind == "BigInt":
                v = self.num(args[0])
                if isinstance(v, Flt):
                    if v.v != v.v or math.isinf(v.v) or v.v != int(v.v): raise Thrown(S("RangeError: not an integer"))
                    return N(int(v.v), True)
                if any(a[0] == "parseInt" for a, c in v.t): self.events.append(("may throw", v))
                return v.as_(True)
            if f.kind == "String": return self.to_str(args[0])
            if f.kind == "Boolean": return self.truthy(args[0])
            if f.kind == "class:Error": return self.construct(f, args)
            raise Thrown(S("TypeError: not a function"))
        if not isinstance(f, Fun): raise Thrown(S(f"TypeError: {f} is not a function"))
        self.visited.add(f)
        env = Env(f.env)
        ps = f.node["params"]
        for i, p in enumerate(ps):
            if p["type"] == "RestElement":
                self.bind(p["argument"], Arr(args[i:]), env)
            else:
                self.bind(p, args[i] if i < len(args) else U, env)
        b = f.node["body"]
        if b["type"] != "BlockStatement": return self.ev(b, env)
        try:
            self.block(b["body"], env)
        except Ret as r:
            return r.v
        return U

    def bind(self, p, v, env):
        t = p["type"]
        if t == "Identifier": env.v[p["name"]] = v
        elif t == "AssignmentPattern":
            self.bind(p["left"], self.ev(p["right"], env) if isinstance(v, Undef) else v, env)
        elif t == "ObjectPattern":
            seen = set()
            for q in p["properties"]:
                if q["type"] == "RestElement":
                    self.bind(q["argument"], Obj({k: x for k, x in v.p.items() if k not in seen}), env)
                    continue
                k = q["key"]["name"] if not q.get("computed") and "name" in q["key"] else self.to_str(self.ev(q["key"], env)).text()
                seen.add(k)
                self.bind(q["value"], self.get(v, k), env)
        elif t == "ArrayPattern":
            items = self.iterate(v)
            for i, q in enumerate(p["elements"]):
                if q is None: continue
                if q["type"] == "RestElement": self.bind(q["argument"], Arr(items[i:]), env)
                else: self.bind(q, items[i] if i < len(items) else U, env)
        else: raise JsError("pattern " + t)

    # -- statements
    def tick(self, n):
        self.steps += 1
        if self.steps > self.max_steps: raise JsError(f"no end in sight at line {n['loc']['start']['line']}")

    def block(self, body, env):
        self.hoist(body, env)
        for s in body: self.stmt(s, env)

    def stmt(self, n, env, label=None):
        self.tick(n)
        t = n["type"]
        if t == "ExpressionStatement": self.ev(n["expression"], env)
        elif t == "VariableDeclaration":
            for d in n["declarations"]:
                self.bind(d["id"], self.ev(d["init"], env) if d.get("init") else U, env)
        elif t == "ReturnStatement": raise Ret(self.ev(n["argument"], env) if n.get("argument") else U)
        elif t == "IfStatement":
            if self.truthy(self.ev(n["test"], env)): self.stmt(n["consequent"], env)
            elif n.get("alternate"): self.stmt(n["alternate"], env)
        elif t == "BlockStatement": self.block(n["body"], Env(env))
        elif t in ("WhileStatement", "DoWhileStatement", "ForStatement"):
            e = Env(env)
            if t == "ForStatement" and n.get("init"):
                if n["init"]["type"] == "VariableDeclaration": self.stmt(n["init"], e)
                else: self.ev(n["init"], e)
            first = t == "DoWhileStatement"
            k = 0
            while True:
                k += 1
                if k > 400: raise JsError(f"loop at line {n['loc']['start']['line']} does not end")
                if not first and n.get("test") and not self.truthy(self.ev(n["test"], e)): break
                first = False
                if t == "ForStatement":
                    it = Env(env)
                    it.v.update(e.v)
                else: it = e
                try: self.stmt(n["body"], it)
                except Break as x:
                    if x.l not in (None, label): raise
                    break
                except Continue as x:
                    if x.l not in (None, label): raise
                if t == "ForStatement":
                    e = Env(env)
                    e.v.update(it.v)
                    if n.get("update"): self.ev(n["update"], e)
        elif t in ("ForOfStatement", "ForInStatement"):
            o = self.ev(n["right"], env)
            items = self.iterate(o) if t == "ForOfStatement" else [S(k) for k in o.p] if isinstance(o, Obj) else [S(str(i)) for i in range(len(o.items))]
            for x in items:
                e = Env(env)
                if n["left"]["type"] == "VariableDeclaration": self.bind(n["left"]["declarations"][0]["id"], x, e)
                else: self.assign_to(n["left"], x, e)
                try: self.stmt(n["body"], e)
                except Break as y:
                    if y.l not in (None, label): raise
                    break
                except Continue as y:
                    if y.l not in (None, label): raise
        elif t == "SwitchStatement":
            v = self.ev(n["discriminant"], env)
            e = Env(env)
            start = None
            for i, c in enumerate(n["cases"]):
                if c.get("test") and self.equal(v, self.ev(c["test"], e)):
                    start = i
                    break
            if start is None: start = next((i for i, c in enumerate(n["cases"]) if not c.get("test")), None)
            if start is not None:
                try:
                    for c in n["cases"][start:]:
                        for s in c["consequent"]: self.stmt(s, e)
                except Break as x:
                    if x.l not in (None, label): raise
        elif t == "BreakStatement": raise Break((n.get("label") or {}).get("name"))
        elif t == "ContinueStatement": raise Continue((n.get("label") or {}).get("name"))
        elif t == "LabeledStatement":
            try: self.stmt(n["body"], env, n["label"]["name"])
            except Break as x:
                if x.l != n["label"]["name"]: raise
        elif t == "FunctionDeclaration": pass
        elif t == "EmptyStatement": pass
        elif t == "ThrowStatement": raise Thrown(self.ev(n["argument"], env))
        elif t == "TryStatement":
            try:
                try: self.stmt(n["block"], env)
                except Thrown as x:
                    if not n.get("handler"): raise
                    e = Env(env)
                    if n["handler"].get("param"): self.bind(n["handler"]["param"], x.v, e)
                    self.stmt(n["handler"]["body"], e)
            finally:
                if n.get("finalizer"): self.stmt(n["finalizer"], env)
        else: raise JsError("statement " + t)

    # -- expressions
    def member(self, n, env):
        o = self.ev(n["object"], env)
        if not n.get("computed"): return o, n["property"]["name"]
        return o, self.ev(n["property"], env)

    def get_member(self, o, p):
        if isinstance(p, str): return self.get(o, p)
        if isinstance(p, Num) and isinstance(o, View): return self.view_get(o, p)
        if isinstance(p, Num) and isinstance(o, Arr):
            if not p.const(): raise JsError("index of an array is not known")
            return o.items[p.k] if 0 <= p.k < len(o.items) else U
        if isinstance(p, Num) and isinstance(o, Str):
            if not p.const() or not o.chars(): raise JsError("character at an unknown place")
            return Str([o.x[p.k]]) if 0 <= p.k < len(o.x) else U
        if isinstance(o, Obj):
            k = self.to_str(p)
            if not k.const():
                if len(k.x) == 1 and isinstance(k.x[0], Num):
                    for name in o.p:
                        if len(name) == 1 and self.equal(k, S(name)): return o.p[name]
                    return U
                raise JsError("unknown property")
            return self.get(o, k.text())
        raise JsError(f"member of {o}")

    def set_member(self, o, p, v):
        if isinstance(o, View) and isinstance(p, Num): return self.view_set(o, p, v)
        if isinstance(o, Arr) and isinstance(p, Num):
            while len(o.items) <= p.k: o.items.append(U)
            o.items[p.k] = v
            return
        if isinstance(o, Obj):
            o.p[p if isinstance(p, str) else self.to_str(p).text()] = v
            return
        raise JsError(f"assignment to a member of {o}")

    def assign_to(self, l, v, env):
        if l["type"] == "Identifier":
            e = env.find(l["name"])
            if e is None: raise Thrown(S("ReferenceError: " + l["name"]))
            e.v[l["name"]] = v
        elif l["type"] == "MemberExpression":
            o, p = self.member(l, env)
            self.set_member(o, p, v)
        else:
            tmp = Env(env)
            self.bind(l, v, tmp)
            for k, x in tmp.v.items(): self.assign_to({"type": "Identifier", "name": k}, x, env)

    def args(self, xs, env):
        out = []
        for a in xs:
            if a["type"] == "SpreadElement": out += self.iterate(self.ev(a["argument"], env))
            else: out.append(self.ev(a, env))
        return out

    def ev(self, n, env):
        self.tick(n)
        t = n["type"]
        if t == "Literal":
            if "bigint" in n: return N(int(n["bigint"], 0), True)
            if "regex" in n: return Regex(n["regex"]["pattern"], n["regex"]["flags"])
            v = n.get("value")
            if isinstance(v, bool): return v
            if v is None: return NULL
            if isinstance(v, str): return S(v)
            if isinstance(v, int): return N(v)
            return N(int(v)) if v == int(v) and abs(v) < 2**63 else Flt(v)
        if t == "Identifier":
            e = env.find(n["name"])
            if e is None: raise Thrown(S("ReferenceError: " + n["name"]))
            return e.v[n["name"]]
        if t == "TemplateLiteral":
            out = []
            for i, q in enumerate(n["quasis"]):
                out += list(q["value"]["cooked"])
                if i < len(n["expressions"]): out += self.to_str(self.ev(n["expressions"][i], env)).x
            return Str(out)
        if t in ("ArrowFunctionExpression", "FunctionExpression"): return Fun(n, env, (n.get("id") or {}).get("name"))
        if t == "BinaryExpression": return self.binop(n["operator"], self.ev(n["left"], env), self.ev(n["right"], env))
        if t == "LogicalExpression":
            l = self.ev(n["left"], env)
            if n["operator"] == "&&": return self.ev(n["right"], env) if self.truthy(l) else l
            if n["operator"] == "||": return l if self.truthy(l) else self.ev(n["right"], env)
            return self.ev(n["right"], env) if isinstance(l, (Undef, Null)) else l
        if t == "ConditionalExpression": return self.ev(n["consequent"] if self.truthy(self.ev(n["test"], env)) else n["alternate"], env)
        if t == "UnaryExpression":
            op = n["operator"]
            if op == "typeof":
                if n["argument"]["type"] == "Identifier" and env.find(n["argument"]["name"]) is None: return S("undefined")
                v = self.ev(n["argument"], env)
                return S("bigint" if isinstance(v, Num) and v.big else "number" if isinstance(v, (Num, Flt)) else "string" if isinstance(v, Str) else
                         "boolean" if isinstance(v, bool) else "undefined" if isinstance(v, Undef) else "function" if isinstance(v, (Fun, Built)) else "object")
            v = self.ev(n["argument"], env)
            if op == "!": return not self.truthy(v)
            if op == "-":
                v = self.num(v)
                return Flt(-v.v) if isinstance(v, Flt) else Flt(-0.0) if v.const() and v.k == 0 and not v.big else self.scale(v, -1)
            if op == "+": return self.num(v)
            if op == "~": return self.add(self.scale(self.num(v), -1), N(1, self.num(v).big), -1)
            if op == "void": return U
            raise JsError("operator " + op)
        if t == "UpdateExpression":
            v = self.num(self.ev(n["argument"], env))
            r = self.binop("+" if n["operator"] == "++" else "-", v, N(1, isinstance(v, Num) and v.big))
            self.assign_to(n["argument"], r, env)
            return r if n["prefix"] else v
        if t == "AssignmentExpression":
            op = n["operator"]
            if op == "=":
                v = self.ev(n["right"], env)
            elif op in ("&&=", "||=", "??="):
                l = self.ev(n["left"], env)
                keep = {"&&=": lambda: not self.truthy(l), "||=": lambda: self.truthy(l), "??=": lambda: not isinstance(l, (Undef, Null))}[op]()
                if keep: return l
                v = self.ev(n["right"], env)
            else:
                v = self.binop(op[:-1], self.ev(n["left"], env), self.ev(n["right"], env))
            self.assign_to(n["left"], v, env)
            return v
        if t == "CallExpression":
            cal = n["callee"]
            if cal["type"] == "MemberExpression":
                o, p = self.member(cal, env)
                if isinstance(o, (Undef, Null)) and cal.get("optional"): return U
                if isinstance(o, Regex) and p == "test":
                    a = self.to_str(self.args(n["arguments"], env)[0])
                    if a.const(): return o.r.search(a.text()) is not None
                    if len(a.x) == 1: return self.regex_char(o.r, a.x[0])
                    raise JsError("regular expression over an unknown string")
                f = self.get_member(o, p)
                return self.call(f, self.args(n["arguments"], env), o)
            f = self.ev(cal, env)
            return self.call(f, self.args(n["arguments"], env))
        if t == "NewExpression": return self.construct(self.ev(n["callee"], env), self.args(n["arguments"], env))
        if t == "MemberExpression":
            o, p = self.member(n, env)
            if isinstance(o, (Undef, Null)) and n.get("optional"): return U
            return self.get_member(o, p)
        if t == "ChainExpression": return self.ev(n["expression"], env)
        if t == "AwaitExpression": return self.ev(n["argument"], env)
        if t == "ArrayExpression": return Arr(self.args([a for a in n["elements"]], env))
        if t == "ObjectExpression":
            o = Obj()
            for q in n["properties"]:
                if q["type"] == "SpreadElement":
                    o.p.update(self.ev(q["argument"], env).p)
                    continue
                k = q["key"]["name"] if not q.get("computed") and "name" in q["key"] else self.to_str(self.ev(q["key"], env)).text()
                o.p[k] = self.ev(q["value"], env)
            return o
        if t == "SequenceExpression":
            for x in n["expressions"]: v = self.ev(x, env)
            return v
        if t == "MetaProperty": return Obj({"url": S("file://" + env.find("__path").v["__path"])})
        if t == "ParenthesizedExpression": return self.ev(n["expression"], env)
        raise JsError("expression " + t)


def paths(make, limit=400):
    """run `make(decisions)` for every sequence of decisions; it returns a Js and a result"""
    todo = [[]]
    out = []
    while todo:
        d = todo.pop()
        js, res = make(list(d))
        out.append((js, res))
        if len(out) > limit: raise JsError("too many paths")
        for i in range(len(d), len(js.dec)):
            todo.append(js.dec[:i] + [False])
    return out
