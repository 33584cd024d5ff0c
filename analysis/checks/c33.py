"""C33: what the C preprocessor is given."""
import re, posixpath
from optim import *
from absbuiltins import some, NONE, ok, err
from absint import Interp
from c20 import subterms

TECHNIQUE = "abstract interpretation of the include expansion (MIR) over enumerated trees of program and headers"
RULE = ("`preprocess` is interpreted abstractly for every enumerated tree of a program and the headers it includes (file system, regular expression and child process are models). "
        "The text written to the C preprocessor must hold every line of the program and of each included header unchanged, the lines of a file in their order, an included header before every line that follows its #include, "
        "headers in the order of their inclusion, and no #include; a header that does not exist must be reported by its name; what the preprocessor prints is what is returned.")
ASSUMPTIONS = ["the includes of the headers have no cycle", "cpp does what C says with directives other than #include", "Rust's regular expressions and Python's agree on the pattern used"]
NOTE = "a header is inserted at the top of the text rather than at its #include; that lines before an #include influence the header, or exclude it, is not part of the property"


def plain(I, st, v):
    v = I.freeze(st, I.deref(st, v))
    return v[1] if isinstance(v, tuple) and v and v[0] == "str" else None


class World:
    """a file system, and the models of the library functions that reach outside"""

    def __init__(self, files):
        self.files = files
        self.ever = False

    def policy(self, n):
        m = n
        while "::<" in m and m != (k := re.sub(r"::<[^<>]*>", "", m)):
            m = k
        m = m.split("::")[-1]
        if n.startswith("log::") or "__private_api" in n:
            return None
        f = getattr(self, "m_" + m, None)
        std = n.lstrip("<").startswith(("std::", "regex::", "lazy_static::", "core::", "alloc::", "once_cell::")) or " as std::" in n
        if f is None or not std:
            if std and ("process::" in n or "std::fs::" in n or "std::net" in n):
                return self.outside(n, m)
            return None

        def g(I, st, args, dty):
            return f(n, I, st, args, dty)
        return g

    def outside(self, n, m):
        def g(I, st, args, dty):
            t = tuple(I.freeze(st, I.deref(st, a)) for a in args)
            if m == "success" or m == "exit_ok":
                return [(st, c(1))] if m == "success" else [(st, ok(UNIT))]
            if m == "code":
                return [(st, some(c(0)))]
            if m == "arg" or m == "args":
                v = I.freeze(st, I.deref(st, args[1]))
                vs = [plain(I, st, x) for x in v[1]] if isinstance(v, tuple) and v and v[0] in ("q", "arr") else [plain(I, st, args[1])]
                st.trace = st.trace + tuple(("@", "arg", x) for x in vs)
                return [(st, args[0])]
            st.nfresh += 1
            if isinstance(dty, tuple) and dty[0] == "adt" and dty[1].split("::")[-1] == "Result":
                return [(st, ok(Sym("ok:" + m, t, dty[2][0])))]
            return [(st, Sym("out:" + m, t, dty))]
        return g

    # files
    def path(self, I, st, v):
        p = plain(I, st, v)
        if p is None:
            raise AnalysisError("a path that is not known")
        return p

    def lookup(self, I, st, v):
        p = self.path(I, st, v)
        st.trace = st.trace + (("@", "open", p),)
        return self.files.get(posixpath.normpath(p))

    def failure(self, dty, kind="NotFound"):
        return err(Sym("io-error", (("str", kind),), dty[2][1] if isinstance(dty, tuple) and dty[0] == "adt" else None))

    def m_open(self, n, I, st, args, dty):
        t = self.lookup(I, st, args[-1])
        return [(st, self.failure(dty) if t is None else ok(("str", t)))]

    def m_read_to_string(self, n, I, st, args, dty):
        if len(args) == 1:
            return self.m_open(n, I, st, args, dty)
        return NotImplemented

    def m_exists(self, n, I, st, args, dty):
        p = self.path(I, st, args[0])
        return [(st, c(int(posixpath.normpath(p) in self.files)))]

    m_is_file = m_exists

    def m_lines(self, n, I, st, args, dty):
        if "io::" not in n:
            return NotImplemented
        t = plain(I, st, args[0])
        L = t.split("\n")
        if L[-1] == "":
            L.pop()
        return [(st, ("it", tuple(ok(("str", x[:-1] if x.endswith("\r") else x)) for x in L)))]

    def m_kind(self, n, I, st, args, dty):
        if "io::" not in n:
            return NotImplemented
        return [(st, ("e", dty[1] if isinstance(dty, tuple) else "std::io::ErrorKind", "NotFound", ()))]

    # paths are their text
    def m_from(self, n, I, st, args, dty):
        p = plain(I, st, args[0])
        return [(st, ("str", p))] if p is not None and ("Path" in n or "Path" in str(dty)) else NotImplemented

    def m_new(self, n, I, st, args, dty):
        if "Path" in n or "BufReader" in n or "OsStr" in n:
            if not args:
                return [(st, ("str", ""))]
            p = plain(I, st, args[0])
            return [(st, ("str", p))] if p is not None else NotImplemented
        if "fmt::Arguments" in n and len(args) == 2:
            r = self.arguments(I, st, args)
            return NotImplemented if r is None else [(st, Sym("fmtargs", (("str", r),), None))]
        if "Regex" in n:
            p = plain(I, st, args[0])
            if p is None:
                raise AnalysisError("a regular expression that is not known")
            return [(st, ok(Sym("regex", (("str", p),), None)))]
        return self.outside(n, "new")(I, st, args, dty) if "process::" in n else NotImplemented

    def m_as_path(self, n, I, st, args, dty):
        return [(st, ("str", self.path(I, st, args[0])))]

    def m_to_path_buf(self, n, I, st, args, dty):
        return [(st, ("str", self.path(I, st, args[0])))]

    def m_join(self, n, I, st, args, dty):
        if "Path" not in n:
            return self.m_concat(n, I, st, args, dty)
        return [(st, ("str", posixpath.join(self.path(I, st, args[0]), self.path(I, st, args[1]))))]

    def m_push(self, n, I, st, args, dty):
        if "Path" not in n:
            return NotImplemented
        cell, p = I.loc(st, args[0])
        a, b = self.path(I, st, args[0]), self.path(I, st, args[1])
        I.store(st, cell, p, ("str", posixpath.join(a, b)))
        return [(st, UNIT)]

    def m_parent(self, n, I, st, args, dty):
        p = self.path(I, st, args[0])
        return [(st, NONE if p in ("", "/") else some(("str", posixpath.dirname(p))))]

    def m_file_name(self, n, I, st, args, dty):
        p = self.path(I, st, args[0])
        return [(st, some(("str", posixpath.basename(p))))]

    def m_file_stem(self, n, I, st, args, dty):
        p = posixpath.basename(self.path(I, st, args[0]))
        i = p.rfind(".")
        return [(st, some(("str", p[:i] if i > 0 else p)))]

    def m_with_file_name(self, n, I, st, args, dty):
        p = self.path(I, st, args[0])
        return [(st, ("str", posixpath.join(posixpath.dirname(p), self.path(I, st, args[1]))))]

    def m_with_extension(self, n, I, st, args, dty):
        p = self.path(I, st, args[0])
        return [(st, ("str", posixpath.splitext(p)[0] + "." + self.path(I, st, args[1])))]

    def m_to_str(self, n, I, st, args, dty):
        return [(st, some(("str", self.path(I, st, args[0]))))]

    def m_to_string_lossy(self, n, I, st, args, dty):
        return [(st, ("str", self.path(I, st, args[0])))]

    def m_display(self, n, I, st, args, dty):
        return [(st, ("str", self.path(I, st, args[0])))]

    # regular expressions
    def m_get(self, n, I, st, args, dty):
        if "lazy" in n or "Lock" in n or "once_cell" in n:
            out = []
            for s2, v in I.invoke(st, args[1], []):
                s2.nfresh += 1
                out.append((s2, I.cell(s2, f"lazy{s2.nfresh}", v)))
            return out
        if "Captures" in n:
            v = I.freeze(st, I.deref(st, args[0]))
            k = I.freeze(st, I.deref(st, args[1]))[1]
            g = v.args
            return [(st, some(("str", g[k][1])) if k < len(g) and isinstance(g[k], tuple) else NONE)]
        return NotImplemented

    def regex(self, I, st, v):
        v = I.freeze(st, I.deref(st, v))
        return re.compile(v.args[0][1].replace("(?<", "(?P<") if "(?<=" not in v.args[0][1] else v.args[0][1])

    def m_captures(self, n, I, st, args, dty):
        r = self.regex(I, st, args[0]).search(plain(I, st, args[1]))
        if r is None:
            return [(st, NONE)]
        return [(st, some(Sym("captures", tuple(("str", x) if x is not None else UNIT_ for x in (r.group(0),) + r.groups()), None)))]

    def m_is_match(self, n, I, st, args, dty):
        return [(st, c(int(self.regex(I, st, args[0]).search(plain(I, st, args[1])) is not None)))]

    # strings
    def strs(f):
        def g(self, n, I, st, args, dty):
            if "Path" in n or "str" not in n and "String" not in n:
                return NotImplemented
            a = [plain(I, st, x) if not isinstance(x, tuple) or x[0] != "c" else chr(x[1]) for x in args]
            return NotImplemented if any(x is None for x in a) else [(st, f(*a))]
        return g

    m_strip_suffix = strs(lambda s, x: some(("str", s[:len(s) - len(x)])) if s.endswith(x) else NONE)
    m_strip_prefix = strs(lambda s, x: some(("str", s[len(x):])) if s.startswith(x) else NONE)
    m_starts_with = strs(lambda s, x: c(int(s.startswith(x))))
    m_ends_with = strs(lambda s, x: c(int(s.endswith(x))))
    m_trim = strs(lambda s: ("str", s.strip()))
    m_trim_start = strs(lambda s: ("str", s.lstrip()))
    m_trim_end = strs(lambda s: ("str", s.rstrip()))
    m_split = strs(lambda s, x: ("it", tuple(("str", y) for y in s.split(x))))
    m_rsplit = strs(lambda s, x: ("it", tuple(("str", y) for y in s.split(x)[::-1])))
    m_split_once = strs(lambda s, x: some(("t", (("str", s.partition(x)[0]), ("str", s.partition(x)[2])))) if x in s else NONE)
    m_rsplit_once = strs(lambda s, x: some(("t", (("str", s.rpartition(x)[0]), ("str", s.rpartition(x)[2])))) if x in s else NONE)
    m_find = strs(lambda s, x: some(c(s.index(x))) if x in s else NONE)
    m_rfind = strs(lambda s, x: some(c(s.rindex(x))) if x in s else NONE)
    m_contains = strs(lambda s, x: c(int(x in s)))
    m_replace = strs(lambda s, x, y: ("str", s.replace(x, y)))
    m_add = strs(lambda s, x: ("str", s + x))

    def m_add_assign(self, n, I, st, args, dty):
        a, b = plain(I, st, args[0]), plain(I, st, args[1])
        if a is None or b is None:
            return NotImplemented
        cell, p = I.loc(st, args[0])
        I.store(st, cell, p, ("str", a + b))
        return [(st, UNIT)]

    def m_concat(self, n, I, st, args, dty):
        v = I.freeze(st, I.deref(st, args[0]))
        if not (isinstance(v, tuple) and v and v[0] in ("q", "arr")):
            return NotImplemented
        x = [plain(I, st, e) for e in v[1]]
        sep = plain(I, st, args[1]) if len(args) > 1 else ""
        return NotImplemented if None in x or sep is None else [(st, ("str", sep.join(x)))]

    def m_index(self, n, I, st, args, dty):
        v = I.freeze(st, I.deref(st, args[0]))
        if not (is_sym(v) and v.head == "captures"):
            return NotImplemented
        return [(st, v.args[I.freeze(st, I.deref(st, args[1]))[1]])]

    def m_as_str(self, n, I, st, args, dty):
        p = plain(I, st, args[0])
        return [(st, ("str", p))] if "Match" in n else NotImplemented

    # the child process
    def m_as_mut(self, n, I, st, args, dty):
        v = I.freeze(st, I.deref(st, args[0]))
        return [(st, some(Sym("handle", (v,), None)))] if is_sym(v) and "Option" in n else NotImplemented

    m_take = m_as_ref = m_as_mut

    def m_write_all(self, n, I, st, args, dty):
        st.trace = st.trace + (("@", "write", plain(I, st, args[-1])),)
        return [(st, ok(UNIT))]

    # formatting
    def m_new_display(self, n, I, st, args, dty):
        p = plain(I, st, args[0])
        return [(st, Sym("fmtarg", (("str", p),), None))] if p is not None else NotImplemented

    m_new_debug = None

    def m_format(self, n, I, st, args, dty):
        v = I.freeze(st, I.deref(st, args[0]))
        if is_sym(v) and v.head == "fmtargs":
            return [(st, ("str", v.args[0][1]))]
        return NotImplemented

    def arguments(self, I, st, args):
        """the text of formatting arguments, from the compiled form of the template"""
        t = I.freeze(st, I.deref(st, args[0]))
        v = I.freeze(st, I.deref(st, args[1]))
        if not (isinstance(t, tuple) and t[0] == "q" and isinstance(v, tuple) and v[0] == "q" and all(x[0] == "c" for x in t[1])):
            return None
        parts = [x.args[0][1] if is_sym(x) and x.head == "fmtarg" else None for x in v[1]]
        b, i, k, out = [x[1] for x in t[1]], 0, 0, []
        while b[i]:
            n = b[i]
            i += 1
            if n < 0x80:
                out.append(bytes(b[i:i + n]))
                i += n
            elif n == 0x80:
                n = b[i] + 256 * b[i + 1]
                out.append(bytes(b[i + 2:i + 2 + n]))
                i += 2 + n
            elif n in (0xC0, 0xC8):
                if n == 0xC8:
                    k = b[i] + 256 * b[i + 1]
                    i += 2
                if k >= len(parts) or parts[k] is None:
                    return None
                out.append(parts[k].encode())
                k += 1
            else:
                return None
        return b"".join(out).decode()

    def m_from_utf8(self, n, I, st, args, dty):
        v = I.freeze(st, I.deref(st, args[-1]))
        return [(st, ok(Sym("utf8", (v,), dty[2][0] if isinstance(dty, tuple) else None)))] if is_sym(v) else NotImplemented


UNIT_ = Sym("nogroup", (), None)
UNIT = ("t", ())


def include_of(l):
    m = re.match(r'\s*#\s*include\s*(?:<([^>]*)>|"([^"]*)")', l)
    return (m.group(1) or m.group(2)) if m else None


def resolve(prog, name):
    """the file a header's name stands for"""
    stem = posixpath.basename(prog).rpartition(".")[0]
    return posixpath.normpath(posixpath.join(posixpath.dirname(prog), name)) if name == stem + ".h" else "headers/" + name


def judge(ck, I, key, prog, files, where):
    W = World({posixpath.normpath(k): v for k, v in files.items()})
    I.policy = W.policy
    st = State()
    res = list(I.run(ck.entry, [("str", prog)], st))

    # the files that are reached, and a missing one
    missing, seen, todo = set(), [], [posixpath.normpath(prog)]
    names = {}
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        if p not in W.files:
            missing.add(names.get(p, p))
            continue
        seen.append(p)
        for l in W.files[p].splitlines():
            i = include_of(l)
            if i is not None:
                q = resolve(prog, i)
                names[q] = i
                todo.append(q)
    ck.ob("outcome", key, len(res) == 1, f"{key}: {len(res)} outcomes", where)
    for s2, r in res:
        ev = [x[1:] for x in s2.trace if x[0] == "@"]
        r = I.freeze(s2, r)
        wr = [x[1] for x in ev if x[0] == "write"]
        if missing:
            good = isinstance(r, tuple) and r[2] == "Err"
            ck.ob("missing", key, good and not wr, f"{key}: {sorted(missing)} does not exist, but the preprocessor is run", where, f"{key}: {sorted(missing)} is reported")
            if good:
                ck.ob("missing", key + "/name", any(m in str(r) for m in missing), f"{key}: the error does not name {sorted(missing)}: {r}", where)
            continue
        if not (isinstance(r, tuple) and r[2] == "Ok"):
            ck.ob("text", key, False, f"{key}: every header exists, but the program is rejected: {r}", where)
            continue
        ck.ob("result", key, any(str(t.head) == "ok:wait_with_output" or str(t.head).startswith("out:") for t in subterms(r)) if not all(w is None for w in wr) else False,
              f"{key}: what is returned is not the preprocessor's output but {r}, given {len(wr)} texts", where, f"{key}: the preprocessor's output is returned")
        odd = [x[1] for x in ev if x[0] == "arg" and x[1] is not None and x[1].startswith(CHANGING)]
        ck.ob("command", key, not odd, f"{key}: the preprocessor is given {odd}, which changes what the program means", where, f"{key}: nothing in the command changes the program")
        if len(wr) != 1 or wr[0] is None:
            ck.ob("text", key, False, f"{key}: the preprocessor is given {len(wr)} texts", where)
            continue
        bad = compare(prog, W.files, wr[0])
        ck.ob("text", key, bad is None, f"{key}: {bad}", where, f"{key}: {len(wr[0].splitlines())} lines")


# options of cpp that add to, remove from or reinterpret the program
CHANGING = ("-D", "-U", "-include", "-imacros", "-traditional", "-fpreprocessed", "-fdirectives-only", "-d", "-M", "-C", "-o", "-ansi", "-std=", "-trigraphs", "-x")


def compare(prog, files, text):
    """None, or what is wrong with the expanded text. Lines are unique in each file."""
    got = text.split("\n")
    left = [l for l in got if include_of(l) is not None]
    if left:
        return f"the text still holds {left[0]!r}"
    lines = {}
    for i, l in enumerate(got):
        if l.strip():
            lines.setdefault(l, []).append(i)
    # occurrences of each file, as the include directives ask for them
    own = {p: [l for l in t.replace("\r\n", "\n").split("\n") if l.strip() and include_of(l) is None] for p, t in files.items()}

    def first(p, seen=()):
        """positions of the first copy of p's lines"""
        out = []
        last = -1
        for l in own[p]:
            at = [i for i in lines.get(l, []) if i > last]
            if not at:
                return None, l
            last = at[0]
            out.append(last)
        return out, None
    reached, todo = [], [posixpath.normpath(prog)]
    while todo:
        p = todo.pop()
        if p in reached:
            continue
        reached.append(p)
        pos, miss = first(p)
        if pos is None:
            return f"the line {miss!r} of {p} is missing, or before one it follows"
        for k, l in enumerate(files[p].replace("\r\n", "\n").split("\n")):
            i = include_of(l)
            if i is None:
                continue
            q = resolve(prog, i)
            todo.append(q)
            qpos, miss = first(q)
            if qpos is None:
                return f"the line {miss!r} of {q} is missing, or before one it follows"
            after = [x for x in files[p].replace("\r\n", "\n").split("\n")[k + 1:] if x.strip() and include_of(x) is None]
            if after and qpos:
                at = lines[after[0]][0]
                if at < qpos[-1]:
                    return f"{after[0]!r} of {p} comes before {l!r}, which it follows"
            # the next header is not before this one
            later = [include_of(x) for x in files[p].replace("\r\n", "\n").split("\n")[k + 1:]]
            later = [resolve(prog, x) for x in later if x]
            for z in later:
                zpos, _ = first(z)
                if z != q and not reaches(prog, files, q, z) and zpos and qpos and lines[own[z][-1]][-1] < qpos[0]:
                    return f"{z}, included after {q}, comes before it"
    known = {l for p in reached for l in own[p]}
    extra = [l for l in lines if l not in known]
    if extra:
        return f"the line {extra[0]!r} is of no file"
    for l in own[posixpath.normpath(prog)]:
        if len(lines[l]) != 1:
            return f"the line {l!r} of the program is there {len(lines[l])} times"
    return None


def reaches(prog, files, p, q):
    seen, todo = set(), [p]
    while todo:
        x = todo.pop()
        if x == q:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += [resolve(prog, i) for i in map(include_of, files[x].splitlines()) if i]
    return False


def body(n, k=2):
    return [f"int {n}{i};" for i in range(k)]


def trees():
    H = {f"headers/{n}.h": "\n".join([f"#ifndef {n}_H", f"#define {n}_H"] + body(n) + [f"#endif // {n}"]) + "\n" for n in "abc"}

    def t(*l, **more):
        return {"d/p.c": "\n".join(l) + "\n", **H, **more}

    def h(n, *l):
        return {f"headers/{n}.h": "\n".join([f"#ifndef {n}_H", f"#define {n}_H"] + list(l) + [f"#endif // {n}"]) + "\n"}
    m = ["int main(void) {", "    return 0;", "}"]
    yield "no include", "d/p.c", t(*m)
    yield "empty program", "d/p.c", {**H, "d/p.c": ""}
    yield "no newline at the end", "d/p.c", {**H, "d/p.c": "int x;\nint y;"}
    yield "CRLF", "d/p.c", {**H, "d/p.c": "#include <a.h>\r\nint x;\r\nint y;\r\n"}
    for n, f in (("angle", "#include <a.h>"), ("quotes", '#include "a.h"'), ("tab", "#include\t<a.h>"), ("comment", "#include <a.h> // used"), ("quoted comment", '#include <a.h> // the "a" header'),
                 ("angle comment", "#include <a.h> /* a -> b */"), ("no space", "#include<a.h>"), ("no space, quotes", '#include"a.h"'), ("spaces", "#include   <a.h>"), ("space before", "  #include <a.h>"),
                 ("space after #", "# include <a.h>"), ("tab before", "\t#include <a.h>"), ("space after", "#include <a.h>  ")):
        yield "form: " + n, "d/p.c", t(f, *m)
        yield "form: " + n + ", not first", "d/p.c", t("#define N 3", f, *m)
    for n, f in (("string", 'char *s = "#include <a.h>";'), ("line comment", "// #include <zzz.h>"), ("other directive", "#includes <zzz.h>"), ("define", "#define include <zzz.h>"), ("error", "#if 0")):
        yield "not an include: " + n, "d/p.c", t("int q;", f, *m)
    import itertools
    for k in (2, 3):
        for o in itertools.permutations("abc", k):
            yield "headers " + ",".join(o), "d/p.c", t(*[f"#include <{x}.h>" for x in o], *m)
    yield "headers between lines", "d/p.c", t("#include <a.h>", "int u;", "#include <b.h>", "int v;", '#include "c.h"', *m)
    yield "header twice", "d/p.c", t("#include <a.h>", "int u;", "#include <a.h>", *m)
    yield "header at the end", "d/p.c", t(*m, "#include <a.h>")
    # nested
    edges = {"x": [], "y": [], "z": []}
    for ex in ((), ("y",), ("z",), ("y", "z"), ("z", "y")):
        for ey in ((), ("z",)):
            for top in (("x",), ("x", "y"), ("y", "x"), ("z", "x"), ("x", "z"), ("x", "y", "z"), ("z", "y", "x")):
                fs = {**h("x", *[f"#include <{e}.h>" for e in ex], *body("x")), **h("y", *[f'#include "{e}.h"' for e in ey], *body("y")), **h("z", *body("z"))}
                yield f"nested {','.join(top)}; x:{','.join(ex)}; y:{','.join(ey)}", "d/p.c", t(*[f"#include <{e}.h>" for e in top], *m, **fs)
    yield "nested after lines", "d/p.c", t("#include <x.h>", *m, **h("x", "int x0;", "#include <y.h>", "int x1;"), **h("y", "int y0;", "#include <z.h>", "int y1;"), **h("z", "int z0;"))
    # the program's own header
    for d in ("d/", "", "d/e/", "./", "/abs/"):
        for q in ('"{}.h"', "<{}.h>"):
            for stem in ("p", "my.prog", "a-b"):
                inc = "#include " + q.format(stem)
                yield f"own header {d}{stem} {q}", f"{d}{stem}.c", {**H, f"{d}{stem}.c": "\n".join([inc] + m) + "\n", f"{d}{stem}.h": "#include <a.h>\nint own0;\nint own1;\n"}
    yield "own header and a supported one", "d/p.c", t('#include "p.h"', "#include <b.h>", *m, **{"d/p.h": "int own0;\n#include <a.h>\nint own1;\n"})
    yield "supported header and the own one", "d/p.c", t("#include <b.h>", '#include "p.h"', *m, **{"d/p.h": "int own0;\n#include <a.h>\nint own1;\n"})
    yield "own header of the name of a supported one", "d/a.c", {**H, "d/a.c": '#include "a.h"\n' + "\n".join(m) + "\n", "d/a.h": "int mine;\n"}
    # missing
    yield "missing program", "d/q.c", t(*m)
    yield "missing header", "d/p.c", t("#include <zzz.h>", *m)
    yield "missing second header", "d/p.c", t("#include <a.h>", "#include <zzz.h>", *m)
    yield "missing first header", "d/p.c", t("#include <zzz.h>", "#include <a.h>", *m)
    yield "missing nested header", "d/p.c", t("#include <x.h>", *m, **h("x", "#include <zzz.h>"))
    yield "missing own header", "d/p.c", t('#include "p.h"', *m)
    yield "header in the program's folder that is not its own", "d/p.c", t('#include "zzz.h"', *m, **{"d/zzz.h": "int zz;\n"})


def check(ck):
    P = ck.lib()
    where = ck.where("preprocessor::preprocess")
    I = ck.interp(lambda n: None)
    I.max_steps = 20_000_000
    ck.entry = P.fns["preprocessor::preprocess"]
    for key, prog, files in trees():
        ck.guard("text", key, judge, ck, I, key, prog, files, where)
    ck.floor("text", 120)
    ck.floor("missing", 6)
    ck.floor("command", 100)
