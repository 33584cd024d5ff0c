"""The grammar LALRPOP generated the parser from, and the syntax trees its actions build (by abstract interpretation of their MIR)."""
import os, re
from absint import *
import mirload

CATEGORIES = ("StatementList", "Statement", "Expression", "Declarator", "SpecifierQualifierToken", "StructMemberDeclaration", "ParameterDeclaration", "DeclaratorInitialiser", "Initialiser", "Enumerator")
STRING = ("adt", "std::string::String", ())


def split(s):
    """the symbols of a production, as printed"""
    out, i = [], 0
    while i < len(s):
        if s[i] == " ":
            i += 1
            continue
        j, depth = i, 0
        while j < len(s) and (depth or s[j] != ","):
            c = s[j]
            if c == '"':
                j += 1
                while s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
            elif c in "<(":
                depth += 1
            elif c in ">)":
                depth -= 1
            j += 1
        out.append(s[i:j].strip())
        i = j + 1
    return out


class Production:
    __slots__ = ("lhs", "rhs", "action", "uses", "text")

    def __init__(self, lhs, rhs, action, text):
        self.lhs, self.rhs, self.action, self.text = lhs, rhs, action, text


class Grammar:
    def __init__(self, start="Program"):
        src = open(mirload.generated_parser()).read()
        m = re.search(r"^mod __parse__%s \{$" % start, src, re.M)
        if m is None:
            raise AnalysisError(f"no parser for {start}")
        e = src.find("\n}\n", m.end())
        body = src[m.end():e]
        terms = re.search(r"const __TERMINAL: &\[&str\] = &\[(.*?)\n\s*\];", body, re.S).group(1)
        names = re.findall(r'r###"(.*?)"###', terms)
        idx = {}
        t2i = body[body.index("fn __token_to_integer"):]
        t2i = t2i[:t2i.index("\n    }\n")]
        for pat, i in re.findall(r"^\s*([^\n]*?) if true => Some\((\d+)\),", t2i, re.M):
            vs = re.findall(r"lexer::Token::(\w+)", pat)
            idx.setdefault(int(i), []).extend(vs)
        self.tokens = {n: idx.get(i, []) for i, n in enumerate(names)}     # terminal -> the tokens it stands for
        self.prods = {}
        seen = set()
        for r in re.finditer(r"^ *// (.*) => ActionFn\((\d+)\);$", body, re.M):
            if r.group(1) in seen:
                continue
            seen.add(r.group(1))
            t = r.group(1)
            # the separator is the first " = " outside quotes and brackets
            i, depth = 0, 0
            while not (depth == 0 and t.startswith(" = ", i)):
                if t[i] == '"':
                    i += 1
                    while t[i] != '"':
                        i += 2 if t[i] == "\\" else 1
                elif t[i] in "<(":
                    depth += 1
                elif t[i] in ">)":
                    depth -= 1
                i += 1
            lhs, rhs = t[:i], split(t[i + 3:])
            if lhs.startswith("__"):
                continue
            self.prods.setdefault(lhs, []).append(Production(lhs, rhs, int(r.group(2)), t))
        nts = set(self.prods)
        for ps in self.prods.values():
            for p in ps:
                for x in p.rhs:
                    if x not in nts and x not in self.tokens:
                        raise AnalysisError(f"unknown symbol {x} in {p.text}")


class Trees:
    """flattened productions: helpers inlined up to a bound on the symbols, with the tree built, by interpretation of the actions"""

    def __init__(self, ck, G, bound):
        self.ck, self.G, self.bound = ck, G, bound
        self.prog = ck.lib()
        self.I = ck.interp(self.policy, assume_ok=True)
        self.fn = {}
        for n, f in self.prog.fns.items():
            m = re.fullmatch(r"(?:.*::)?c_parser::__action(\d+)", n)
            if m:
                self.fn[int(m.group(1))] = f
        self.memo = {}
        self.cat = {}
        for nt, ps in G.prods.items():
            ts = {self.prog.tystr(self.fn[p.action].local_ty(0)) for p in ps if p.action in self.fn}
            if len(ts) != 1:
                raise AnalysisError(f"the type of {nt}")
            t = ts.pop()
            last = t.split("::")[-1]
            self.cat[nt] = last if last in CATEGORIES and "<" not in t and "(" not in t and re.fullmatch(r"\w+", nt) else None
        self.helpers()

    # --- values
    def policy(self, n):
        m = n.split("::")[-1]
        if m == "from_str_radix":
            return lambda I, st, a, dty: [(st, ("e", "std::result::Result", "Ok", (Sym("radix", (self.plain(I.freeze(st, I.deref(st, a[1]))), I.freeze(st, I.deref(st, a[0]))), None),)))]
        if n.endswith("str::parse") or m == "parse":
            return lambda I, st, a, dty: [(st, ("e", "std::result::Result", "Ok", (Sym("parse", (I.freeze(st, I.deref(st, a[0])),), None),)))]
        if m == "interpret_string":
            return lambda I, st, a, dty: [(st, ("e", "std::result::Result", "Ok", (Sym("interpreted", (I.freeze(st, I.deref(st, a[0])),), STRING),)))]
        if n.endswith("SpecifierQualifier::create"):
            return lambda I, st, a, dty: [(st, ("e", "std::result::Result", "Ok", (Sym("specifiers", (I.freeze(st, I.deref(st, a[0])),), None),)))]
        if m in ("clone", "to_owned"):
            def cl(I, st, a, dty):
                v = I.deref(st, a[0])
                while isinstance(v, tuple) and v and v[0] == "r":
                    v = I.deref(st, v)
                return [(st, v)] if is_sym(v) else NotImplemented
            return cl
        if m in ("chars", "nth", "next"):
            def it(I, st, a, dty):
                v = I.deref(st, a[0])
                v = I.freeze(st, v)
                if is_sym(v) and v.head == "interpreted" and m == "chars":
                    return [(st, Sym("chars", (v,), None))]
                if is_sym(v) and v.head == "chars" and m in ("nth", "next"):
                    k = self.plain(I.freeze(st, I.deref(st, a[1]))) if m == "nth" else 0
                    return [(st, ("e", "std::option::Option", "Some", (Sym("nth", (k, v.args[0]), None),)))]
                return NotImplemented
            return it
        if m == "index":
            def ix(I, st, a, dty):
                v = I.freeze(st, I.deref(st, a[0]))
                r = I.freeze(st, I.deref(st, a[1]))
                if is_sym(v) and isinstance(r, tuple) and r[0] == "e" and r[1].endswith("RangeFrom"):
                    return [(st, Sym("from", (self.plain(r[3][0]), v), None))]
                return NotImplemented
            return ix
        return None

    @staticmethod
    def plain(v):
        return v[1] if isinstance(v, tuple) and v and v[0] == "c" else v

    def call(self, action, vals, empty):
        f = self.fn[action]
        I = self.I
        st = State()
        if empty:
            args = [I.ref(st, I.cell(st, f"loc{i}", Sym("loc", (), None))) if hasattr(I, "ref") else ("r", I.cell(st, f"loc{i}", Sym("loc", (), None)), ()) for i in range(f.args)]
        else:
            args = [("t", (Sym("loc", (), None), v, Sym("loc", (), None))) for v in vals]
        out = []
        for st2, v in I.run(f, args, st):
            v = I.freeze(st2, v)
            if v not in out:
                out.append(v)
        if len(out) != 1:
            raise AnalysisError(f"action {action} has {len(out)} outcomes")
        return out[0]

    def value(self, d):
        """the value of a derivation (production, children), its slots numbered by the position of the symbol"""
        if d in self.memo:
            return self.memo[d]
        p, kids = d
        pos, vals = 0, []
        for k in kids:
            if isinstance(k, str):
                vals.append(self.leaf(k, pos))
                pos += 1
            else:
                vals.append(shift(self.value(k), pos))
                pos += self.length(k)
        v = self.call(p.action, vals, not kids)
        self.memo[d] = v
        return v

    def leaf(self, x, pos):
        if x in self.cat:
            return Sym("$", (pos,), None)
        toks = self.G.tokens[x]
        if len(toks) == 1 and self.arity(toks[0]) == 0:
            return ("e", self.token_adt(), toks[0], ())
        return Sym("$", (pos,), STRING)

    def token_adt(self):
        return next(a for a in self.prog.adts if a.endswith("lexer::Token"))

    def arity(self, v):
        a = self.prog.adts[self.token_adt()]
        return len(next(x for x in a["variants"] if x["name"] == v)["fields"])

    def length(self, k):
        return 1 if isinstance(k, str) else sum(self.length(x) for x in k[1])

    def yield_(self, k):
        return (k,) if isinstance(k, str) else tuple(y for x in k[1] for y in self.yield_(x))

    # --- derivations
    def combine(self, p, tab):
        outs = [((), 0)]
        for x in p.rhs:
            if x in self.cat and self.cat[x] is None:
                alts = [(d, self.length(d)) for d in tab[x]]
            else:
                alts = [(x, 1)]
            outs = [(ks + (d,), n + m) for ks, n in outs for d, m in alts if n + m <= self.bound]
        return [(p, ks) for ks, n in outs]

    def helpers(self):
        tab = {nt: {} for nt, c in self.cat.items() if c is None}
        for rnd in range(60):
            ch = False
            for nt in tab:
                new = {}
                for p in self.G.prods[nt]:
                    for d in self.combine(p, tab):
                        new[d] = 1
                if len(new) != len(tab[nt]):
                    ch = True
                tab[nt] = new
            if not ch:
                break
        else:
            raise AnalysisError("a cycle in the grammar")
        self.tab = tab

    def flat(self, nt):
        """the flattened productions of a nonterminal of a category: [(production, symbols, tree)]"""
        out = []
        for p in self.G.prods[nt]:
            for d in self.combine(p, self.tab):
                out.append((p, self.yield_(d), self.value(d)))
        return out


def shift(v, n):
    if not n:
        return v
    if is_sym(v):
        if v.head == "$":
            return Sym("$", (v.args[0] + n,), v.ty)
        return Sym(v.head, tuple(shift(a, n) if isinstance(a, (tuple, Sym)) else a for a in v.args), v.ty)
    if isinstance(v, tuple):
        return tuple(shift(x, n) if isinstance(x, (tuple, Sym)) else x for x in v)
    return v


def canon(v):
    """a tree in the notation of the reference"""
    if is_sym(v):
        if v.head == "*" and len(v.args) == 1:
            return canon(v.args[0])
        if v.head in ("$", "radix", "parse", "interpreted", "specifiers", "nth", "from"):
            return (v.head,) + tuple(canon(a) if isinstance(a, (tuple, Sym)) else a for a in v.args)
        raise AnalysisError(f"a tree contains {show(v, 3)}")
    k = v[0]
    if k == "box":
        return canon(v[1])
    if k == "e":
        if v[1].endswith("Option"):
            return None if v[2] == "None" else ("Some", canon(v[3][0]))
        return (v[2] or v[1].split("::")[-1],) + tuple(canon(x) for x in v[3])
    if k == "q":
        return ("vec",) + tuple(canon(x) for x in v[1])
    if k == "c":
        return v[1]
    if k == "str":
        return v[1]
    raise AnalysisError(f"a tree contains {show(v, 3)}")
