"""C21: the host runtime, the compiler and the headers agree on the library."""
import itertools
import json
import math
import os
import struct
import subprocess
from absint import *
from irbuild import Build
from mirload import REPO
import jsabs
from jsabs import Js, Memory, Num, Str, Obj, Arr, Flt, JsError, Thrown, Exit, paths, N, S

TECHNIQUE = ("abstract interpretation of the host runtime's JavaScript over a symbolic memory (own interpreter on the acorn syntax tree), against frame layouts computed from the headers' "
             "declarations (clang syntax tree) and the import list computed from the compiler's MIR; abstract evaluation of the header functions' syntax trees over all characters")
RULE = ("The runtime's entry module is interpreted: what it instantiates the module with must provide, under the module names the compiler emits, the memory and every function of the compiler's import list "
        "(from MIR), put the program's arguments into memory as argc/argv describe, with the stack pointer after them, call main with them and exit with its result. Every imported library function must be declared in a "
        "header; from the declared signature follow the places of its result and arguments in the frame, and each runtime function is interpreted on a memory whose bytes at those places are symbols, with strings of symbolic "
        "characters: on every path its result, what it prints and what it writes must be the terms the C library's definition of the function gives, and nothing else may be written. The functions and limits defined in the headers are "
        "evaluated for every argument of type char.")
ASSUMPTIONS = ["callers place arguments as the declared signature and C17 say", "a frame, the strings passed and the objects pointed to do not overlap", "addresses are below 2^31",
               "stdout.write writes the string in the encoding it is given"]
NOTE = "printf: all conversions the runtime has, alone and in all ordered pairs; strings to a bound; %f and strtol/strtoul values on listed values"

SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "_Bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8,
         "unsigned long long": 8, "float": 4, "double": 8, "void": 0}
HEADERS = os.path.join(REPO, "headers")
RUNTIME = os.path.join(REPO, "runtime")
_asts = {}


# ---- headers -------------------------------------------------------------
def clang(header, text=None):
    src = text if text is not None else f'#include <{header}>\n'
    r = subprocess.run(["clang", "-x", "c", "-fsyntax-only", "-fno-builtin", "-nostdinc", "-w", "-I", HEADERS, "-Xclang", "-ast-dump=json", "-"], input=src, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError(f"{header}: " + r.stderr.strip().splitlines()[0])
    return json.loads(r.stdout)


def size_of(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    if t.endswith("*") or t.endswith("]"):
        return 4
    if t not in SIZES:
        raise AnalysisError("the size of " + t)
    return SIZES[t]


def declarations():
    """{function: (header, result type, [parameter types], variadic)} and the function definitions and types of each header"""
    out, bodies, types = {}, {}, {}
    for h in sorted(os.listdir(HEADERS)):
        if not h.endswith(".h"):
            continue
        tu = clang(h)
        for d in tu["inner"]:
            if d["kind"] == "FunctionDecl" and "isImplicit" not in d:
                q_ = d["type"].get("desugaredQualType", d["type"]["qualType"])
                ret = d["type"]["qualType"].split("(")[0].strip()
                ps = [p["type"].get("desugaredQualType", p["type"]["qualType"]) for p in d.get("inner", []) if p["kind"] == "ParmVarDecl"]
                sig = (resolve(ret, types), ps, "..." in q_)
                out.setdefault(d["name"], []).append((h,) + sig)
                body = [x for x in d.get("inner", []) if x["kind"] == "CompoundStmt"]
                if body:
                    bodies.setdefault(h, {})[d["name"]] = ([p.get("name") for p in d["inner"] if p["kind"] == "ParmVarDecl"], ps, sig[0], body[0])
            elif d["kind"] == "TypedefDecl" and "isImplicit" not in d:
                types[d["name"]] = d["type"].get("desugaredQualType", d["type"]["qualType"])
                types[(h, d["name"])] = types[d["name"]]
    return out, bodies, types


def resolve(t, types):
    return types.get(t, t)


# ---- the runtime ----------------------------------------------------------
def A(name, k=0):
    return Num(k, [(("addr", name), 1)])


def B(name, i):
    return Num(0, [(("byte", (name, i)), 1)])


def ATOM(name, i):
    return ("byte", (name, i))


class Machine:
    """one path's memory: cells known before the call"""

    def __init__(self, dec=()):
        self.js = Js(dec)
        self.js.asts = _asts
        self.js.rng_of_addr = set()
        self.mem = Memory()

    def cell(self, at, v):
        self.mem.cells[at.key()] = v

    def ptr(self, at, name):
        """the pointer `name` is stored at `at`"""
        for i in range(4):
            self.cell(Num(at.k + i, at.t), B(name, i))
        self.js.dom[ATOM(name, 3)] = frozenset(range(128))
        self.js.rng_of_addr.add(name)
        self.js.rng[("addr", name)] = (1, 2**31 - 1)

    def bytes(self, at, n, name=None, value=None):
        for i in range(n):
            self.cell(Num(at.k + i, at.t), B(name, i) if value is None else N(value[i]))

    def string(self, name, items):
        """items: characters, or domains of an unknown character"""
        out = []
        for i, x in enumerate(items):
            if isinstance(x, str):
                self.cell(A(name, i), N(ord(x)))
                out.append(x)
            else:
                self.js.dom[ATOM("*" + name, i)] = frozenset(x)
                self.cell(A(name, i), B("*" + name, i))
                out.append(B("*" + name, i))
        self.cell(A(name, len(items)), N(0))
        return out

    def call(self, fn):
        mem = Obj({"buffer": Obj({"__mem": self.mem}, "membuffer"), "grow": jsabs.Built(lambda t, n: N(1))}, "memory")
        f = self.js.call(fn(self.js), [mem])
        return self.js.call(f, [])

    def out(self):
        """what was written to standard output, in latin-1 bytes; None if the encoding is another"""
        items = []
        for e in self.js.events:
            if e[0] == "stdout":
                v, enc = e[1], e[2] if len(e) > 2 else None
                if isinstance(v, Obj) and v.kind == "buffer":
                    v, enc = v.p["str"], v.p["enc"]
                name = enc.text() if isinstance(enc, Str) else "utf8"
                for x in self.js.to_str(v).x:
                    wide = self.js.range(x)[1] > 127 if isinstance(x, Num) else ord(x) > 127 if isinstance(x, str) else False
                    items.append(("encoded", name, x.key() if isinstance(x, Num) else x) if wide and name not in ("latin1", "binary") else x)
            elif e[0] in ("console", "stderr"):
                items.append(("also", e[0]))
        return Str(items)


def le(js, n, size):
    """the bytes of a number"""
    return [js.slice(n, 8 * i, 8) for i in range(size)]


def stored(ck_expect, mem, js):
    """what differs between the memory's writes and the expected ones"""
    fin = mem.final()
    for k, v in ck_expect.items():
        if k not in fin:
            return f"nothing is stored at {show_key(k)}, expected {v}"
        if fin[k].key() != v.key():
            lo, hi = js.range(fin[k])
            if lo == hi and v.const() and lo == v.k:
                continue
            return f"{fin[k]} is stored at {show_key(k)}, expected {v}"
    for k in fin:
        if k not in ck_expect:
            return f"{fin[k]} is stored at {show_key(k)}, where nothing belongs"
    return None


def show_key(k):
    return repr(Num(k[0], k[1]))


class Lib:
    def __init__(self, ck, decls):
        self.ck, self.decls = ck, decls
        m = Machine()
        m.js.hooks["argv"] = [S("node"), S("run.mjs")]
        self.entry = os.path.join(RUNTIME, "run.mjs")

    def frame(self, m, name):
        """places of the result and the parameters"""
        h, ret, ps, va = self.decls[name][0]
        m.ptr(Num(0), "fp")
        at = 4 + size_of(ret)
        out = []
        for p in ps:
            out.append(A("fp", at))
            at += size_of(p)
        return A("fp", 4), size_of(ret), out, A("fp", at)


def imports_of(args, extra=()):
    """(Js after running the entry module with these arguments, how it ended)"""
    m = Machine()
    js = m.js
    keep = js.instantiate

    def instantiate(*a):
        m.early = len(m.mem.writes)
        return keep(*a)
    js.instantiate = instantiate
    js.hooks["argv"] = [S("/bin/node"), S("/run.mjs")] + args
    js.hooks["memory"] = m.mem
    end = None
    for at, name in ((8, "sp"), (0, "fp"), (4, "tp")):
        m.ptr(Num(at), name)
    try:
        js.load(os.path.join(RUNTIME, "run.mjs"))
    except Exit as e:
        end = e.code
    return m, end


def find(obj, *path):
    for p in path:
        if not isinstance(obj, Obj) or p not in obj.p:
            return None
        obj = obj.p[p]
    return obj


def entry(ck, names):
    w = "runtime/run.mjs"
    strings = [["p.wasm"], ["a.wasm", ""], ["x", "abc", "d"], ["/dir/é.wasm", "-1", " s p ", "ü€"], ["f"] + ["a" * 20] * 12]
    for args in strings:
        key = f"{len(args)} arguments {args[-1][:6]!r}"

        def one():
            m, end = imports_of([S(a) for a in args])
            js = m.js
            bad = None
            inst = [e for e in js.events if e[0] == "instantiate"]
            main = [e for e in js.events if e[0] == "main"]
            memd = [e for e in js.events if e[0] == "memory"]
            if len(inst) != 1 or len(main) != 1:
                bad = f"{len(inst)} instantiations and {len(main)} calls of main"
            elif not (isinstance(inst[0][1], Obj) and isinstance(inst[0][1].p.get("__file"), Str) and inst[0][1].p["__file"].key() == S(args[0]).key()):
                bad = "the module is not what the file named by the first argument contains"
            elif js.events.index(main[0]) < js.events.index(inst[0]):
                bad = "main is called before the module is instantiated"
            else:
                imp = inst[0][2]
                if find(imp, "runtime", "memory") is None or find(imp, "runtime", "memory").kind != "memory":
                    bad = "no memory is passed to the module as runtime.memory"
                for n in names:
                    if find(imp, "stdlib", n) is None and bad is None:
                        bad = f"the function {n} is not passed to the module"
                if bad is None and (len(memd) != 1 or not isinstance(find(memd[0][1], "initial"), Num) or not find(memd[0][1], "initial").const() or find(memd[0][1], "initial").k < 1):
                    bad = "the memory has no first page"
                if bad is None and m.early:
                    bad = "the memory is written before the module initialises it"
                if bad is None:
                    bad = argv(js, args, main[0])
                if bad is None and (not isinstance(end, Num) or end.key() != js.opaque("exit code").key()):
                    bad = f"the process exits with {end}, not with the result of main"
            ck.ob("entry", key, bad is None, f"{key}: {bad}", w, key)
        ck.guard("entry", key, one)

    def none():
        m, end = imports_of([])
        ck.ob("entry", "no arguments", not any(e[0] in ("instantiate", "main") for e in m.js.events) and any(e[0] in ("console", "stderr", "stdout") for e in m.js.events),
              "without a file to run, nothing is said", w, "a message")
    ck.guard("entry", "no arguments", none)


def argv(js, args, main):
    """main's arguments describe the strings, NUL-terminated, and the stack starts after them"""
    _, argc, av, mem = main
    if not (isinstance(argc, Num) and argc.const() and argc.k == len(args)):
        return f"argc is {argc} for {len(args)} arguments"
    if not (isinstance(av, Num) and av.t == A("sp").t and av.k >= 0):
        return f"argv is {av}, not above the initial stack pointer"
    spans = [(av.k, av.k + 4 * len(args), "argv")]
    val = {}
    for k, v in mem.items():
        val[k] = v
    for i, a in enumerate(args):
        p = Num(0)
        for j in range(4):
            b = val.get(Num(av.k + 4 * i + j, av.t).key())
            if b is None:
                return f"argv[{i}] is not stored"
            p = js.add(p, js.scale(b, 1 << (8 * j)))
        p = whole(js, p)
        if p is None or p.t != av.t:
            return f"argv[{i}] is not an address above the initial stack pointer"
        bs = a.encode() + b"\0"
        for j, b in enumerate(bs):
            got = val.get(Num(p.k + j, p.t).key())
            if got is None or not got.const() or got.k != b:
                return f"byte {j} of argument {i} is {got}, not {b}"
        spans.append((p.k, p.k + len(bs), f"argument {i}"))
    for x, y in itertools.combinations(spans, 2):
        if x[0] < y[1] and y[0] < x[1]:
            return f"{x[2]} and {y[2]} overlap"
    sp = Num(0)
    for j in range(4):
        b = val.get(Num(8 + j).key())
        if b is None:
            return "the stack pointer is not moved above the arguments"
        sp = js.add(sp, js.scale(b, 1 << (8 * j)))
    sp = whole(js, sp)
    if sp is None or sp.t != av.t or sp.k < max(s_[1] for s_ in spans):
        return f"the stack starts at {sp}, the arguments end at sp + {max(s_[1] for s_ in spans)}"
    inside = lambda k: k[1] == () and 8 <= k[0] < 12 or any(k[1] == A("sp").key()[1] and s_[0] <= k[0] < sp.k for s_ in spans)
    for k in val:
        if not inside(k):
            return f"{show_key(k)} is written"
    return None


def whole(js, n):
    """the number whose bytes (of one unknown number) these are"""
    if n.const():
        return n
    atoms = [a for a, c in n.t if a[0] == "bits"]
    if len(atoms) == len(n.t) == 4 and n.k == 0:
        src = {a[1] for a in atoms}
        t = dict(n.t)
        if len(src) == 1 and all(t.get(("bits", a[1], a[2], a[3])) == 1 << a[2] and a[3] == 8 for a in atoms):
            k = src.pop()
            return Num(k[0], k[1])
    return n


# ---- library functions --------------------------------------------------------
def run_paths(ck, cls, key, make, where):
    """make(dec) -> (Machine, check function); every path must satisfy its check"""
    def one():
        n, bad = 0, None
        todo = [[]]
        while todo:
            d = todo.pop()
            m, call, judge = make(list(d))
            try:
                call()
                r = judge(m)
            except Thrown as t:
                r = f"throws {t.v}"
            n += 1
            bad = r
            if bad is not None:
                break
            if n > 600:
                raise AnalysisError("too many paths")
            for i in range(len(d), len(m.js.dec)):
                todo.append(m.js.dec[:i] + [False])
        ck.ob(cls, key, bad is None, f"{key}: {bad}", where, f"{key}: {n} paths")
    JOBS.append((cls, key, one))


JOBS = []


def wrap(f):
    def g():
        try:
            return f()
        except JsError as e:
            raise AnalysisError(f"the JavaScript cannot be analysed: {e}")
        except RecursionError:
            raise AnalysisError("recursion too deep")
    return g


ANY = frozenset(range(1, 256))
ASCII = frozenset(range(1, 128))
HIGH = frozenset(range(128, 256))


def fn_of(name):
    """the function value the entry module passes for an import"""
    def get(js):
        path = os.path.join(RUNTIME, "run.mjs")
        if js.hooks.get("__probe") is None:
            js.hooks["__probe"] = True
        return provider(js, name)
    return get


def provider(js, name):
    """follow the import object of the entry module: stdlib.NAME is maker(memory...)"""
    got = {}

    class Found(Exception):
        pass
    keep = js.instantiate

    def inst(t, buf, imports=None):
        got["f"] = find(imports, "stdlib", name)
        raise Found()
    js.instantiate = inst
    js.hooks["argv"] = [S("node"), S("run.mjs"), S("p.wasm")]
    ev = list(js.events)
    try:
        js.load(os.path.join(RUNTIME, "run.mjs"))
    except Found:
        pass
    finally:
        js.instantiate = keep
    js.events[:] = ev
    if got.get("f") is None:
        raise AnalysisError(f"{name} is not passed to the module")
    return got["f"]


def invoke(m, name, times=1):
    def go():
        m.js.hooks["memory"] = m.mem
        f = provider(m.js, name)
        for _ in range(times):
            m.js.call(f, [])
    return go


def word(m, at, name, size):
    m.bytes(at, size, name)


def result(m, at, size, n):
    return {Num(at.k + i, at.t).key(): b for i, b in enumerate(le(m.js, n, size))}


def number(js, name, size, signed):
    """the value of the symbolic bytes on this path"""
    n = Num(0)
    for i in range(size):
        n = js.add(n, js.scale(B(name, i), 1 << (8 * i)))
    if signed:
        d = js.domain(ATOM(name, size - 1))
        if min(d) >= 128:
            n = js.add(n, N(1 << (8 * size)), -1)
        elif max(d) >= 128:
            return None
    return n


def strlen_(L):
    ck = L.ck
    w = "runtime/stdlib/string.mjs"
    for n in list(range(6)) + [40, 300, -3]:
        def make(dec, n=abs(n), times=1 + (n < 0)):
            m = Machine(dec)
            r, size, (p,), _ = L.frame(m, "strlen")
            m.ptr(p, "s")
            m.string("s", [ANY] * n if n < 6 else ["a"] * n)
            return m, invoke(m, "strlen", times), lambda m: stored(result(m, r, size, N(n)), m.mem, m.js)
        run_paths(ck, "strlen", f"{abs(n)} characters" + (", twice" if n < 0 else ""), make, w)


def strstr_(L):
    ck = L.ck
    w = "runtime/stdlib/string.mjs"

    def one(key, s1, s2):
        def make(dec):
            m = Machine(dec)
            r, size, (p, p2), _ = L.frame(m, "strstr")
            m.ptr(p, "s")
            m.ptr(p2, "t")
            m.string("s", list(s1))
            m.string("t", list(s2))
            k = s1.find(s2)
            want = N(0) if k < 0 else A("s", k)
            return m, invoke(m, "strstr"), lambda m: stored(result(m, r, size, want), m.mem, m.js)
        run_paths(ck, "strstr", key, make, w)
    for a in range(5):
        for s1 in itertools.product("ab", repeat=a):
            for b in range(4):
                for s2 in itertools.product("ab", repeat=b):
                    if b <= a + 1:
                        one(f"{''.join(s1)!r} {''.join(s2)!r}", "".join(s1), "".join(s2))
    for s1, s2 in (("aabaabaaab", "aabaaa"), ("aabaabaaab", "aaab"), ("abc\xff\x80", "\xff"), ("x" * 30 + "y", "xy"), ("\x80\x81", "\x81\x80")):
        one(f"{s1!r} {s2!r}", s1, s2)


SPECS = {"d": 4, "i": 4, "u": 4, "hd": 4, "hi": 4, "hu": 4, "ld": 8, "li": 8, "lu": 8, "c": 4, "s": 4}


def spec_value(m, sp, name, strings):
    """what the conversion prints on this path: items of a string, or None where the path has not decided it"""
    js = m.js
    if sp == "c":
        return [B(name, 0)]
    if sp == "s":
        return strings[name]
    size = 2 if sp[0] == "h" else SPECS[sp]
    n = number(js, name, size, sp[-1] != "u")
    return None if n is None else [("decimal", n.key())]


def printf_(L):
    ck = L.ck
    w = "runtime/stdlib/stdio.mjs"
    lit = frozenset(ASCII - {37})

    def one(key, parts, cls="printf", times=1):
        """parts: (kind, spec or characters)"""
        def make(dec):
            m = Machine(dec)
            r, size, (p,), va = L.frame(m, "printf")
            m.ptr(p, "f")
            fmt, at, strings, todo = [], va.k, {}, []
            for n, x in enumerate(parts):
                if x[0] == "lit":
                    todo.append(("lit", len(fmt), len(x[1])))
                    fmt += x[1]
                elif x[0] == "%%":
                    todo.append(("chars", "%"))
                    fmt += ["%", "%"]
                else:
                    sp, nm = x[1], f"v{n}"
                    fmt += ["%"] + list(sp)
                    if sp == "s":
                        m.ptr(A("fp", at), nm)
                        strings[nm] = m.string(nm, x[2] if len(x) > 2 else [ASCII, "x", ASCII])
                        at += 4
                    elif sp == "f":
                        m.bytes(A("fp", at), 8, value=struct.pack("<d", x[2]))
                        at += 8
                    elif sp not in SPECS:
                        v = x[2]
                        if isinstance(v, float):
                            m.bytes(A("fp", at), 8, value=struct.pack("<d", v))
                        else:
                            m.bytes(A("fp", at), x[4], value=(v % (1 << 8 * x[4])).to_bytes(x[4], "little"))
                        at += 8
                        todo.append(("chars", x[3]))
                        continue
                    else:
                        m.bytes(A("fp", at), SPECS[sp], nm)
                        if sp == "c":
                            m.js.dom[ATOM(nm, 0)] = x[2] if len(x) > 2 else frozenset(range(128))
                        at += SPECS[sp]
                    todo.append(("spec", sp, nm, x[2] if len(x) > 2 else None))
            items = m.string("f", fmt)

            def judge(m):
                want = []
                for t in todo:
                    if t[0] == "lit":
                        want += items[t[1]:t[1] + t[2]]
                    elif t[0] == "chars":
                        want += list(t[1])
                    elif t[1] == "f":
                        want += list(c_double(t[3]))
                    else:
                        v = spec_value(m, t[1], t[2], strings)
                        if v is None:
                            return f"%{t[1]} prints {m.out()}, whatever the sign of the argument"
                        want += v
                got, exp = Str(norm(m.js, m.out().x)), Str(norm(m.js, want * times))
                if cls == "encoding" and not key.startswith("bytes"):       # the characters, in whatever encoding
                    got = Str([Num(*y[2]) if isinstance(y, tuple) and y[0] == "encoded" and isinstance(y[2], tuple) else y[2] if isinstance(y, tuple) and y[0] == "encoded" else y for y in got.x])
                if got.key() != exp.key():
                    return f"prints {got}, expected {exp}"
                if cls == "result":
                    n = m.js.to_str(Str(want)).x
                    return stored(result(m, r, size, N(len(n))), m.mem, m.js)
                at_r = {Num(r.k + i, r.t).key() for i in range(size)}
                for k in m.mem.final():
                    if k not in at_r:
                        return f"{show_key(k)} is written"
                if set(m.mem.final()) != at_r:
                    return "no result is stored"
                return None
            return m, invoke(m, "printf", times), judge
        run_paths(ck, cls, key, make, w)
    for n in range(5):
        one(f"{n} characters", [("lit", [lit] * n)])
    specs = list(SPECS)
    for a in specs:
        one(f"%{a}", [("spec", a)])
        one(f"text %{a} text", [("lit", ["a", lit]), ("spec", a), ("lit", [lit, "d"])])
    for a, b in itertools.product(specs + ["%%"], repeat=2):
        one(f"%{a}%{b}".replace("%%%", "%%"), [("%%",) if x == "%%" else ("spec", x) for x in (a, b)])
    one("%d %s %c %lu %hu %d", [y for x in ("d", "s", "c", "lu", "hu", "d") for y in (("spec", x), ("lit", [" "]))])
    for n in range(4):
        one(f"%s of {n} characters", [("spec", "s", [ASCII] * n), ("spec", "d")])
    one("%d and %s, twice", [("spec", "d"), ("lit", [" ", lit]), ("spec", "s")], times=2)
    one("nothing, twice", [("lit", [lit])], times=2)
    for v in DOUBLES:
        one(f"%f of {v!r}", [("spec", "f", v)], "float")
    for sp in ("d", "s", "c", "lu"):
        one(f"%f before %{sp}", [("spec", "f", 1.5), ("spec", sp)], "float")
        one(f"%{sp} before %f", [("spec", sp), ("spec", "f", -2.25)], "float")
    for x in ("", "bytes of "):
        one(x + "%c of a character above 127", [("spec", "c", HIGH)], "encoding")
        one(x + "%s of characters above 127", [("spec", "s", [HIGH, ASCII, HIGH])], "encoding")
        one(x + "characters above 127", [("lit", [lit, HIGH])], "encoding")
    for sp, v, text, size in (("x", 255, "ff", 4), ("X", 171, "AB", 4), ("o", 8, "10", 4), ("lx", 1 << 40, "10000000000", 8), ("lld", -5, "-5", 8), ("zu", 7, "7", 4), ("hhd", -3, "-3", 4), ("lf", 2.5, "2.500000", 8),
                              ("5d", 42, "   42", 4), ("-5d", 42, "42   ", 4), ("05d", 42, "00042", 4), ("+d", 42, "+42", 4), (".2f", 1.005, "1.00", 8), ("e", 1234.5, "1.234500e+03", 8), ("g", 0.5, "0.5", 8),
                              (".3s", None, None, 4), ("F", 0.5, "0.500000", 8)):
        if v is not None:
            one(f"%{sp}", [("spec", sp, v, text, size)], "conversion")
    for n in (0, 1, 2, 3):
        one(f"result for {n} characters", [("lit", [lit] * n)], "result")
    one("result for %s%%%c", [("spec", "s", [ASCII] * 4), ("%%",), ("spec", "c")], "result")


DOUBLES = [0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 0.1, 1 / 3, 3.14159265358979, 123456789.987654321, 1e-7, 5e-324, 1e20, 1e21, 1.5e300, 2.0**53 + 2, 0.9999999, -0.0000001,
           float("inf"), float("-inf"), float("nan"), 1.7976931348623157e308, 100.0, 999999.9999995]


def c_double(v):
    if v != v:
        return "nan"
    if math.isinf(v):
        return "-inf" if v < 0 else "inf"
    return f"{v:.6f}"


def norm(js, items):
    """characters known on this path are those characters; a decimal of a known number is its digits"""
    out = []
    for x in items:
        if isinstance(x, Num):
            lo, hi = js.range(x)
            out.append(chr(lo) if lo == hi else x)
        else:
            out.append(x)
    return out


STRTO = [("0", 10), ("7", 10), ("42", 10), ("-42", 10), ("+5", 10), ("  17", 10), ("\t\n 8x", 10), ("12abc", 10), ("00012", 10), ("2147483648", 10), ("-2147483649", 10), ("9007199254740993", 10),
         ("9223372036854775807", 10), ("-9223372036854775808", 10), ("9223372036854775808", 10), ("", 10), ("abc", 10), ("-", 10), ("ff", 16), ("0xff", 16), ("-0x1F", 16), ("777", 8), ("78", 8), ("101", 2),
         ("12", 2), ("zz", 36), ("0x1a", 0), ("017", 0), ("12", 0), ("1.5", 10), ("1e3", 10), ("18446744073709551615", 10)]


def c_strto(text, base, signed):
    """(value, characters consumed) of strtol / strtoul with 64-bit long"""
    i = 0
    while i < len(text) and text[i] in " \t\n\v\f\r":
        i += 1
    neg = False
    if i < len(text) and text[i] in "+-":
        neg = text[i] == "-"
        i += 1
    dig = lambda ch: int(ch, 36) if ch.isascii() and ch.isalnum() else 99
    b = base
    if b in (0, 16) and text[i:i + 2].lower() == "0x" and i + 2 < len(text) and dig(text[i + 2]) < 16:
        i += 2
        b = 16
    elif b == 0:
        b = 8 if text[i:i + 1] == "0" else 10
    st, v = i, 0
    while i < len(text) and dig(text[i]) < b:
        v = v * b + dig(text[i])
        i += 1
    if i == st:
        return 0, 0
    if signed:
        v = -v if neg else v
        v = max(-2**63, min(2**63 - 1, v))
    else:
        v = 2**64 - 1 if v >= 2**64 else (-v if neg else v) % 2**64
    return v, i


def strto(L, name):
    ck = L.ck
    w = "runtime/stdlib/stdlib.mjs"
    for text, base in STRTO:
        for end in (True, False):
            v, used = c_strto(text, base, name == "strtol")

            def make(dec, end=end, v=v, used=used, what=None):
                m = Machine(dec)
                r, size, (p, e, b), _ = L.frame(m, name)
                m.ptr(p, "s")
                if end:
                    m.ptr(e, "e")
                else:
                    m.bytes(e, 4, value=b"\0" * 4)
                m.bytes(b, 4, value=struct.pack("<i", base))
                m.string("s", list(text))

                def judge(m):
                    want = result(m, r, size, N(v)) if size == 8 else {}
                    ends = {Num(k, A("e").t).key(): x for k, x in enumerate(le(m.js, A("s", used), 4))} if end else {}
                    both = {**want, **ends}
                    if what == "value":
                        fin = {k: x for k, x in m.mem.final().items() if k not in ends}
                        return diff(fin, want)
                    fin = {k: x for k, x in m.mem.final().items() if k not in want}
                    return diff(fin, ends)
                return m, invoke(m, name), judge
            if not end:
                run_paths(ck, name, f"value of {text!r} in base {base}", lambda dec: make(dec, what="value"), w)
            else:
                run_paths(ck, name, f"end of {text!r} in base {base}", lambda dec: make(dec, what="end"), w)


def diff(got, want):
    for k, v in want.items():
        if k not in got:
            return f"nothing is stored at {show_key(k)}, expected {v}"
        if got[k].key() != v.key():
            return f"{got[k]} is stored at {show_key(k)}, expected {v}"
    for k in got:
        if k not in want:
            return f"{got[k]} is stored at {show_key(k)}, where nothing belongs"
    return None


LIB = {"printf": ("stdio.h", printf_), "strlen": ("string.h", strlen_), "strstr": ("string.h", strstr_), "strtol": ("stdlib.h", lambda L: strto(L, "strtol")), "strtoul": ("stdlib.h", lambda L: strto(L, "strtoul"))}
SIG = {"printf": ("int", 1), "strlen": ("size_t", 1), "strstr": ("char *", 2), "strtol": ("long", 3), "strtoul": ("unsigned long", 3)}


def log_stack_ptr(ck):
    def make(dec):
        m = Machine(dec)
        m.ptr(Num(8), "sp")
        m.ptr(Num(0), "fp")
        m.ptr(Num(4), "tp")

        def judge(m):
            ap = [e for e in m.js.events if e[0] == "append"]
            if m.mem.writes:
                return "the memory is changed"
            if len(ap) != 1:
                return f"{len(ap)} lines are logged"
            if m.js.to_str(ap[0][2]).key() != (("decimal", A("sp").key()), "\n"):
                return f"{ap[0][2]} is logged, expected the stack pointer"
            return None
        return m, invoke(m, "log_stack_ptr"), judge
    run_paths(ck, "profile", "log_stack_ptr", make, "runtime/profiler.mjs")


# ---- functions and limits defined in the headers -----------------------------
CTYPE = {"isalnum": str.isalnum, "isalpha": str.isalpha, "iscntrl": lambda c_: ord(c_) < 32 or ord(c_) == 127, "isdigit": str.isdigit, "isxdigit": lambda c_: c_ in "0123456789abcdefABCDEF",
         "isgraph": lambda c_: 33 <= ord(c_) <= 126, "ispunct": lambda c_: 33 <= ord(c_) <= 126 and not c_.isalnum(), "isprint": lambda c_: 32 <= ord(c_) <= 126, "islower": str.islower, "isupper": str.isupper,
         "isspace": lambda c_: c_ in " \t\n\v\f\r", "isblank": lambda c_: c_ in " \t"}


class Cexpr:
    """evaluation of the header functions' syntax trees"""

    def __init__(self, bodies):
        self.f = bodies
        self.depth = 0

    def call(self, name, args):
        if name not in self.f:
            raise AnalysisError(f"{name} is not defined in the header")
        ps, ts, ret, body = self.f[name]
        self.depth += 1
        if self.depth > 40:
            raise AnalysisError("recursion")
        r = self.stmt(body, dict(zip(ps, [self.wrap(a, t) for a, t in zip(args, ts)])))
        self.depth -= 1
        if r is None:
            raise AnalysisError(f"{name} returns nothing")
        return self.wrap(r[1], ret)

    def wrap(self, v, t):
        n = size_of(t) * 8
        v %= 1 << n
        return v if t.startswith("unsigned") or t == "_Bool" or v < 1 << (n - 1) else v - (1 << n)

    def stmt(self, n, env):
        k = n["kind"]
        inner = n.get("inner", [])
        if k == "CompoundStmt":
            for x in inner:
                r = self.stmt(x, env)
                if r is not None:
                    return r
            return None
        if k == "ReturnStmt":
            return ("ret", self.ev(inner[0], env))
        if k == "IfStmt":
            if self.ev(inner[0], env):
                return self.stmt(inner[1], env)
            return self.stmt(inner[2], env) if len(inner) > 2 else None
        if k == "NullStmt":
            return None
        if k == "DeclStmt":
            for d in inner:
                if d["kind"] != "VarDecl":
                    raise AnalysisError("declaration of " + d["kind"])
                if d.get("inner"):
                    env[d["name"]] = self.ev(d["inner"][-1], env)
            return None
        if k == "SwitchStmt":
            v = self.ev(inner[0], env)
            on, items = False, []

            def flat(x):
                if x["kind"] == "CaseStmt":
                    items.append(("case", self.ev(x["inner"][0], env)))
                    flat(x["inner"][-1])
                elif x["kind"] == "DefaultStmt":
                    items.append(("default",))
                    flat(x["inner"][-1])
                else:
                    items.append(("stmt", x))
            for x in inner[1].get("inner", []):
                flat(x)
            start = next((j for j, x in enumerate(items) if x == ("case", v)), None)
            if start is None:
                start = next((j for j, x in enumerate(items) if x[0] == "default"), None)
            if start is not None:
                for x in items[start:]:
                    if x[0] == "stmt":
                        if x[1]["kind"] == "BreakStmt":
                            return None
                        r = self.stmt(x[1], env)
                        if r is not None:
                            return r
            return None
        self.ev(n, env)
        return None

    def ev(self, n, env):
        k = n["kind"]
        inner = n.get("inner", [])
        t = n.get("type", {}).get("qualType", "int")
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ev(inner[0], env)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck_ = n.get("castKind")
            if ck_ in ("FunctionToPointerDecay",):
                return self.ev(inner[0], env)
            v = self.ev(inner[0], env)
            if ck_ in ("LValueToRValue", "NoOp"):
                return v
            if ck_ == "IntegralToBoolean":
                return int(v != 0)
            if ck_ == "IntegralCast":
                return self.wrap(v, t)
            raise AnalysisError("cast " + str(ck_))
        if k == "IntegerLiteral":
            return int(n["value"])
        if k == "CharacterLiteral":
            return n["value"]
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            return ("fun", d["name"]) if d["kind"] == "FunctionDecl" else env[d["name"]]
        if k == "CallExpr":
            f = self.ev(inner[0], env)
            return self.call(f[1], [self.ev(x, env) for x in inner[1:]])
        if k == "ConditionalOperator":
            return self.ev(inner[1] if self.ev(inner[0], env) else inner[2], env)
        if k == "UnaryOperator":
            v = self.ev(inner[0], env)
            o = n["opcode"]
            if o in ("!", "-", "+", "~"):
                return {"!": lambda: int(not v), "-": lambda: self.wrap(-v, t), "+": lambda: v, "~": lambda: self.wrap(~v, t)}[o]()
            raise AnalysisError("operator " + o)
        if k == "BinaryOperator":
            o = n["opcode"]
            if o == "=":
                if inner[0]["kind"] != "DeclRefExpr":
                    raise AnalysisError("assignment")
                v = self.ev(inner[1], env)
                env[inner[0]["referencedDecl"]["name"]] = v
                return v
            a = self.ev(inner[0], env)
            if o == "&&":
                return int(bool(a) and bool(self.ev(inner[1], env)))
            if o == "||":
                return int(bool(a) or bool(self.ev(inner[1], env)))
            b = self.ev(inner[1], env)
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b),
                 "!=": lambda: int(a != b), "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b, ",": lambda: b}.get(o)
            if f is None:
                raise AnalysisError("operator " + o)
            return self.wrap(f(), t)
        raise AnalysisError("expression " + k)


def headers(ck, decls, bodies, types):
    w = "headers/ctype.h"
    E = Cexpr(bodies.get("ctype.h", {}))
    for name, f in CTYPE.items():
        if name == "isblank" and name not in E.f:
            continue

        def one(name=name, f=f):
            bad = None
            for x in range(-1, 128):
                E.depth = 0
                got = E.call(name, [x])
                want = x >= 0 and x < 128 and f(chr(x))
                if bool(got) != bool(want) and bad is None:
                    bad = f"{name}({x}) is {got}"
            ck.ob("ctype", name, bad is None, f"{bad}, expected {'another truth value' if bad else ''}", w, f"{name}: 129 arguments")
        ck.guard("ctype", name, one)
    for name, f in {"tolower": str.lower, "toupper": str.upper}.items():
        def one(name=name, f=f):
            bad = None
            for x in range(-1, 128):
                E.depth = 0
                got = E.call(name, [x])
                want = x if x < 0 else ord(f(chr(x)))
                if got != want and bad is None:
                    bad = f"{name}({x}) is {got}, expected {want}"
            ck.ob("ctype", name, bad is None, f"{bad}", w, f"{name}: 129 arguments")
        ck.guard("ctype", name, one)
    lim = {"CHAR_BIT": 8, "SCHAR_MIN": -128, "SCHAR_MAX": 127, "UCHAR_MAX": 255, "CHAR_MIN": -128, "CHAR_MAX": 127, "SHRT_MIN": -2**15, "SHRT_MAX": 2**15 - 1, "USHRT_MAX": 2**16 - 1, "INT_MIN": -2**31,
           "INT_MAX": 2**31 - 1, "UINT_MAX": 2**32 - 1, "LONG_MIN": -2**63, "LONG_MAX": 2**63 - 1, "ULONG_MAX": 2**64 - 1, "LLONG_MIN": -2**63, "LLONG_MAX": 2**63 - 1, "ULLONG_MAX": 2**64 - 1}

    def limits():
        # the macro's own tokens, as this compiler's preprocessor substitutes them
        text = "#include <limits.h>\n" + "".join(f"@{k} {k}\n" for k in lim)
        r = subprocess.run(["clang", "-E", "-P", "-nostdinc", "-undef", "-I", HEADERS, "-x", "c", "-"], input=text, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError(r.stderr.strip().splitlines()[0])
        got = {}
        lines = [x for x in r.stdout.splitlines() if x.startswith("@")]
        for name, line in zip(lim, lines):
            import re
            toks = re.findall(r"[A-Za-z_]\w*|0[xX][0-9a-fA-F]+|\d+|[-+*()~]|<<|>>", line[1:])
            half = toks[len(toks) // 2:] if len(toks) % 2 == 0 and toks[:len(toks) // 2] == toks[len(toks) // 2:] else toks[1:]
            try:
                got[name] = eval(" ".join(half), {"__builtins__": {}})      # only numbers and operators by now
            except Exception:
                got[name] = None
        for name, v in lim.items():
            ck.ob("limits", name, got.get(name) == v, f"{name} is {got.get(name)}, expected {v}", "headers/limits.h", f"{name} = {v}")
    ck.guard("limits", "limits.h", limits)

    def ints():
        import re
        for (h, n), t in sorted((k, v) for k, v in types.items() if isinstance(k, tuple) and k[0] == "stdint.h"):
            m_ = re.fullmatch(r"(u?)int(?:_(fast|least))?(\d+|max|ptr)?_?t", n)
            if not m_:
                continue
            u, kind, w_ = m_.groups()
            bits = size_of(t) * 8
            ok = t.startswith("unsigned") == bool(u) and (bits == int(w_) if w_.isdigit() and not kind else bits >= int(w_) if w_.isdigit() else bits >= (64 if w_ == "max" else 32))
            ck.ob("stdint", n, ok, f"{n} is {t}", "headers/stdint.h", f"{n}: {t}")
    ck.guard("stdint", "stdint.h", ints)

    def sizes():
        for n in ("size_t", "ptrdiff_t"):
            seen = {(k[0], v) for k, v in types.items() if isinstance(k, tuple) and k[1] == n}
            ck.ob("stdint", n, bool(seen) and all(size_of(t) == 4 for _, t in seen) and len({t for _, t in seen}) == 1, f"{n} is {sorted(seen)}, pointers have 4 bytes", "headers/stddef.h", n)
    ck.guard("stdint", "sizes", sizes)


def check(ck):
    I = ck.interp(lambda n: None)
    Bd = Build(I)
    imports = I.freeze(State(), Bd.call("program_config::program_constants::get_imported_function_names"))
    names = [x[1] for x in imports[1]]
    ck.lib()
    decls, bodies, types = declarations()
    entry(ck, names)
    log_stack_ptr(ck)
    L = Lib(ck, decls)
    where = ck.where("program_config::program_constants::get_imported_function_names")
    jobs = []
    for n in names:
        if n == "log_stack_ptr":
            continue
        if n not in LIB:
            ck.ob("declared", n, False, f"{n} is imported, but this check has no definition of it to compare with", where)
            continue
        ds = decls.get(n, [])
        sigs = {x[1:2] + (tuple(size_of(p) for p in x[2]), x[3]) for x in ds}
        want_ret, want_n = SIG[n]
        ok = ds and len(sigs) == 1 and any(d[0] == LIB[n][0] for d in ds) and ds[0][1].replace("const ", "") == resolve(want_ret, types) and len(ds[0][2]) == want_n and ds[0][3] == (n == "printf")
        ck.ob("declared", n, bool(ok), f"{n} is imported by every program and declared as {ds or 'nothing'}", where, f"{n}: {ds and ds[0]}")
        if ds:
            jobs.append(n)
    for n in jobs:
        ck.guard("library", n, LIB[n][1], L)
    ck.parallel(lambda j: ck.guard(j[0], j[1], wrap(j[2])), JOBS)
    ck.guard("headers", "headers", headers, ck, decls, bodies, types)
    for k, n in (("entry", 6), ("declared", 5), ("strlen", 8), ("strstr", 300), ("printf", 160), ("float", 30), ("conversion", 16), ("encoding", 6), ("result", 5), ("strtol", 60), ("strtoul", 60), ("ctype", 13), ("limits", 18), ("stdint", 20)):
        ck.floor(k, n)
