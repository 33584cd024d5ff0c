"""C27: names resolve to the innermost declaration in scope."""
import itertools
from front import *
from absint import *

TECHNIQUE = "abstract interpretation of statement translation (MIR) on syntax trees with opaque subtrees; the declaration every name resolves to at each subtree compared with the scopes of C"
RULE = ("statement translation is interpreted on every nesting (to a bound) of the statement forms, with declarations of a name before, inside and after them and opaque subtrees as probes: at every probe the context must resolve the name "
        "to the declaration that C's scopes make visible there. The scope operations of the context themselves are interpreted on every sequence of opening a scope, closing it and declaring, for each kind of name.")
ASSUMPTIONS = ["translation of a nested statement uses the context only through its scopes (nesting deeper than two statements repeats the same operations)"]
NOTE = "Type names that hide each other are told apart by the lexer and are not part of this check."

CTX = "middle_end::context::Context::"


class Model:
    """C's scopes: each declaration has a number"""

    def __init__(self):
        self.stack = [{}]
        self.n = 0
        self.probes = {}

    def declare(self, name="x"):
        self.n += 1
        self.stack[-1][name] = self.n
        return self.n

    def get(self, name="x"):
        for s_ in reversed(self.stack):
            if name in s_:
                return s_[name]
        return None


class Build:
    """syntax trees together with what their probes must see"""

    def __init__(self, F, kind="var"):
        self.F, self.M, self.kind = F, Model(), kind
        self.np = 0

    def probe(self, stmt=True):
        self.np += 1
        n = f"$p{self.np}"
        self.M.probes[n] = self.M.get()
        if stmt:
            return self.F.S("Goto", self.F.ident(n))
        v = self.F.var("I32", "local", "LValue")
        return self.F.kid(n, self.F.src(v))

    def decl(self, how="plain"):
        F, B, M = self.F, self.F.B, self.M
        D = lambda v, *a: B.new("ast::Declarator", v, *a)
        if self.kind == "enum":
            M.declare()
            ts = B.new("front_end::ast::TypeSpecifier", "Enum", B.new("ast::EnumType", "Definition", NONE, q(B.new("ast::Enumerator", "WithValue", F.ident("x"), F.int(100 + M.n)))))
            return F.S("EmptyDeclaration", self.spec(ts))
        if self.kind in ("Struct", "Union"):
            M.declare()
            ms = q(B.new("StructMemberDeclaration", None, F.specifier("I32"), q(*[D("Identifier", F.ident(f"m{M.n}_{i}")) for i in range(M.n)])))
            ts = B.new("front_end::ast::TypeSpecifier", self.kind, B.new(f"ast::{self.kind}Type", "Definition", some(F.ident("x")), ms))
            return F.S("EmptyDeclaration", self.spec(ts))
        x = D("Identifier", F.ident("x"))
        no = lambda d: B.new("ast::DeclaratorInitialiser", "NoInit", d)
        init = lambda d, e: B.new("ast::DeclaratorInitialiser", "Init", d, B.new("ast::Initialiser", "Expr", e))
        if how == "plain":
            M.declare()
            ds = [no(x)]
        elif how == "pointer":
            M.declare()
            ds = [no(D("PointerDeclarator", box(x)))]
        elif how == "array":
            M.declare()
            ds = [no(D("ArrayDeclarator", box(x), some(box(F.int(3)))))]
        elif how == "init":
            M.declare()
            ds = [init(x, self.probe(False))]
        elif how == "later":            # int y = <probe>, x = <probe>, z = <probe>
            y, z = D("Identifier", F.ident("y")), D("Identifier", F.ident("z"))
            a = self.probe(False)
            M.declare()
            ds = [init(y, a), init(x, self.probe(False)), init(z, self.probe(False))]
        elif how == "bound":            # int x[<probe>]: not yet in scope in its own bound
            a = self.probe(False)
            M.declare()
            ds = [no(D("ArrayDeclarator", box(x), some(box(a))))]
        elif how == "list":             # int x[2] = { <probe>, <probe> }
            M.declare()
            e = lambda v: B.new("ast::Initialiser", "Expr", v)
            ds = [B.new("ast::DeclaratorInitialiser", "Init", D("ArrayDeclarator", box(x), some(box(F.int(2)))), B.new("ast::Initialiser", "List", q(e(self.probe(False)), e(self.probe(False)))))]
        return F.S("Declaration", F.specifier("I32"), q(*ds))

    def spec(self, ts):
        return self.F.B.new("SpecifierQualifier", None, type_specifier=ts, storage_class_specifier=NONE, const_=c(0), inline=c(0))

    def scope(self, f):
        self.M.stack.append({})
        r = f()
        self.M.stack.pop()
        return r

    def block(self, items):
        return self.scope(lambda: self.F.S("Block", q(*[i() for i in items])))

    def form(self, name, body, declares=True):
        """the statement form around a body (a function that builds it)"""
        F = self.F
        one = self.probe
        if name == "block":
            return body()
        if name == "while":
            e = one(False)
            return F.S("While", e, box(body()))
        if name == "do":
            b = body()
            return F.S("DoWhile", box(b), one(False))
        if name in ("for", "for-decl"):
            def inner():
                i = F.B.new("ast::ExpressionOrDeclaration", "Declaration", box(self.decl("init"))) if name == "for-decl" else F.B.new("ast::ExpressionOrDeclaration", "Expression", one(False))
                cnd = one(False)
                step = one(False)
                return F.S("For", some(i), some(cnd), some(step), box(body()))
            return self.scope(inner)
        if name == "if":
            e = one(False)
            return F.S("If", e, box(body()))
        if name == "else":
            e = one(False)
            a = self.block([one, self.decl, one])
            return F.S("IfElse", e, box(a), box(body()))
        if name == "switch":
            e = one(False)
            return F.S("Switch", e, box(body()))
        if name == "label":
            return F.S("Labelled", F.B.new("ast::LabelledStatement", "Named", F.ident("lab"), box(body())))
        raise AnalysisError(name)


FORMS = ["block", "while", "do", "for", "for-decl", "if", "else", "switch", "label"]


class Probe:
    def __init__(self, F, kind):
        self.F, self.kind, self.seen = F, kind, {}

    def __call__(self, I, st, name, args):
        s2 = st.copy()
        got = self.resolve(I, s2, args[2])
        self.seen.setdefault(name, []).append(got)

    def resolve(self, I, st, ctx):
        f = {"var": "resolve_identifier_to_var_or_const", "enum": "resolve_identifier_to_var_or_const", "Struct": "resolve_struct_tag_to_struct_id", "Union": "resolve_union_tag_to_union_id"}[self.kind]
        keep, self.F.on_kid = self.F.on_kid, None
        outs = I.run(CTX + f, [ctx, s("x")], st)
        self.F.on_kid = keep
        if len(outs) != 1:
            raise AnalysisError(f"resolving a name has {len(outs)} outcomes")
        r = I.freeze(outs[0][0], outs[0][1])
        if r[2] == "Err":
            return None
        return r[3][0]


def convert(F, stmt, pr, ctx, st):
    """translation of a statement or of a probe"""
    r = F._stmt(F.I, st, [stmt, pr, ctx], None)
    return F.I.run(F.cstmt, [stmt, pr, ctx], st) if r is NotImplemented else r


def run(ck, F, cls, key, make, kind="var"):
    """make(build) -> the statements; every probe must see what the model says"""
    F.reset()
    st = State()
    b = Build(F, kind)
    p = Probe(F, kind)
    stmts = make(b)
    pr, ctx = F.program(st), F.context(st)
    F.on_kid = p
    wf = ck.where(F.cstmt.name)
    outer = [(st, None)]
    for i, s_ in enumerate(stmts):
        nxt = []
        for s0, _ in outer:
            for s2, r in convert(F, s_, pr, ctx, s0):
                if r[2] == "Err":
                    ck.ob(cls, key, False, f"{key}: rejected with {F.I.freeze(s2, r)[3][0][2]}", wf)
                    return
                nxt.append((s2, None))
        outer = nxt
    if not outer:
        ck.ob(cls, key, False, f"{key}: the compiler panics{': ' + str(F.I.panics[0]) if F.I.panics else ''}", wf)
        return
    back, forth = {}, {}
    for n, want in b.M.probes.items():
        for got in p.seen.get(n, []):
            if want is None:
                ok = got is None
                msg = "a declaration that is not in scope"
            else:
                ok = got is not None and back.setdefault(got, want) == want and forth.setdefault(want, got) == got
                msg = f"{'no declaration' if got is None else 'declaration ' + str(back.get(got))} instead of declaration {want}"
            if not ok:
                ck.ob(cls, key, False, f"{key}: at subtree {n[2:]} x refers to {msg}", wf)
                return
        if n not in p.seen:
            raise AnalysisError(f"subtree {n} is not translated")
    ck.ob(cls, key, True, "", wf, f"{key}: {len(b.M.probes)} uses of {b.M.n} declarations")


def statements(ck, F):
    items = []
    for kind in ("var", "enum", "Struct", "Union"):
        for a in FORMS:
            if kind != "var" and a == "for-decl":
                continue
            items.append((kind, a, None, "plain"))
            for b in FORMS:
                if kind == "var" or b in ("block", "for", "while"):
                    items.append((kind, a, b, "plain")) if not (kind != "var" and b == "for-decl") else None
    for kind in ("var", "enum", "Struct", "Union"):
        for a in FORMS:
            if kind == "var" or a != "for-decl":
                for how in ("empty", "nothing", "quiet"):
                    items.append((kind, a, None, how))
    for how in ("pointer", "array", "init", "later", "bound", "list"):
        for a in ("block", "for-decl", "while"):
            items.append(("var", a, None, how))

    def one(kind, a, b, how):
        for outerdecl in (False, True):
            def make(B):
                out = []
                if how in ("empty", "nothing", "quiet"):
                    # bodies for which there is no code: {}, {;}, { only declarations }
                    bare = {"empty": lambda: B.block([]), "nothing": lambda: B.block([lambda: F.S("Empty")]),
                            "quiet": lambda: B.block([lambda: B.block([]), B.decl, lambda: B.block([])])}[how]
                    if outerdecl:
                        out.append(B.decl())
                    out.append(B.block([B.decl, B.probe, lambda: B.form(a, bare), B.probe, bare, B.probe]))
                    out.append(B.probe())
                    out.append(B.block([bare]))
                    out.append(B.probe())
                    return out
                d = lambda: B.decl(how) if kind == "var" else B.decl()
                inside = lambda: B.block([B.probe, d, B.probe]) if b is None else B.block([B.probe, lambda: B.form(b, lambda: B.block([B.probe, d, B.probe])), B.probe, d, B.probe])
                if outerdecl:
                    out.append(B.decl())
                out.append(B.probe())
                body = lambda: B.block([lambda: B.form(a, inside), B.probe] + ([B.decl, B.probe] if b is None else []))
                out.append(body())
                out.append(B.probe())
                return out
            key = f"{kind}/{a}{'/' + b if b else ''}/{how}/{'hiding' if outerdecl else 'new'}"
            ck.guard("nesting", key, run, ck, F, "nesting", key, make, kind)
    ck.parallel(lambda x: one(*x), items)


def functions(ck, F):
    B_ = F.B
    D = lambda v, *a: B_.new("ast::Declarator", v, *a)

    def fun(b, name, params, items):
        """int name(int params...) { items }"""
        ps = q(*[B_.new("ParameterDeclaration", None, F.specifier("I32"), some(D("Identifier", F.ident(n)))) for n in params])
        d = D("FunctionDeclarator", box(D("Identifier", F.ident(name))), some(B_.new("ast::ParameterTypeList", "Normal", ps)))

        def inner():
            for n in params:
                if n == "x":
                    b.M.declare()
            return F.S("FunctionDeclaration", F.specifier("I32"), d, box(b.block(items)))
        return b.scope(inner)
    cases = {
        "parameter": lambda b: [fun(b, "f", ["a", "x"], [b.probe]), b.probe(), fun(b, "g", ["a"], [b.probe])],
        "parameter hides global": lambda b: [b.decl(), fun(b, "f", ["x"], [b.probe]), fun(b, "g", [], [b.probe]), b.probe()],
        "local hides parameter": lambda b: [fun(b, "f", ["x"], [b.probe, lambda: b.block([b.decl, b.probe]), b.probe])],
        "local hides global": lambda b: [b.decl(), fun(b, "f", [], [b.probe, b.decl, b.probe]), fun(b, "g", [], [b.probe])],
        "global after function": lambda b: [fun(b, "f", [], [b.probe]), b.decl(), fun(b, "g", [], [b.probe])],
        "local of another function": lambda b: [fun(b, "f", [], [b.decl, b.probe]), fun(b, "g", [], [b.probe, b.decl, b.probe]), fun(b, "h", [], [b.probe])],
        "loop in function": lambda b: [b.decl(), fun(b, "f", ["x"], [lambda: b.form("for-decl", lambda: b.block([b.probe, b.decl, b.probe])), b.probe]), b.probe()],
    }
    for key, mk in cases.items():
        ck.guard("function", key, run, ck, F, "function", key, mk)

    # several declarations of one object at file scope
    def redeclared(key, hows, storage):
        F.reset()
        st = State()
        b = Build(F)
        p = Probe(F, "var")
        stmts = []
        for how, ex in zip(hows, storage):
            d = b.decl(how)
            if ex:
                sq = B_.upd(d[3][0], storage_class_specifier=some(B_.new("StorageClassSpecifier", "Extern")))
                d = ("e", d[1], d[2], (sq,) + d[3][1:])
            stmts.append(d)
            stmts.append(b.probe())
        pr, ctx = F.program(st), F.context(st)
        F.on_kid = p
        for s_ in stmts:
            outs = convert(F, s_, pr, ctx, st)
            if len(outs) != 1 or outs[0][1][2] == "Err":
                return
            st = outs[0][0]
        probes = [v[0] for n, v in sorted(p.seen.items(), key=lambda y: int(y[0][2:])) if len(v)]
        ck.ob("object", key, len(set(probes)) == 1, f"{key}: the declarations at file scope denote {len(set(probes))} different objects", ck.where(F.cstmt.name))
    for key, hows, ex in (("extern int x; int x;", ["plain", "plain"], [1, 0]), ("int x; int x;", ["plain", "plain"], [0, 0]), ("extern int x; int x = e;", ["plain", "init"], [1, 0]), ("int x = e; extern int x;", ["init", "plain"], [0, 1])):
        ck.guard("object", key, redeclared, key, hows, ex)


def operations(ck, F):
    """the scope operations on every sequence"""
    I = F.I
    B = F.B
    top = 6 if ck.tier == "quick" else 8

    def seqs(n):
        """sequences of push, pop, declare that declare a name at most once per scope"""
        def go(pre, stack):
            yield pre
            if len(pre) == n:
                return
            yield from go(pre + "(", stack + [False])
            if len(stack) > 1:
                yield from go(pre + ")", stack[:-1])
            if not stack[-1]:
                yield from go(pre + "d", stack[:-1] + [True])
        return [x for x in go("", [False]) if len(x) == n]

    def one(kind):
        F.reset()
        st = State()
        ctx = F.context(st)
        w = ck.where(CTX + "push_scope")
        memo = {}
        res = {"var": "resolve_identifier_to_var_or_const", "enum": "resolve_identifier_to_var_or_const", "Struct": "resolve_struct_tag_to_struct_id", "Union": "resolve_union_tag_to_union_id",
               "typedef": "resolve_typedef", "enum tag": "resolve_identifier_to_enum_tag", "mixed": "resolve_identifier_to_var_or_const"}[kind]
        ids = {}

        def decl(st, n, name):
            if kind == "var" or kind == "mixed" and n % 2:
                v = B.var(1000 + n, "LValue")
                return I.run(CTX + "add_variable_to_scope", [ctx, s(name), v, B.irty("I32")], st), v
            if kind in ("enum", "mixed"):
                return I.run(CTX + "add_enum_constant", [ctx, s(name), c(1000 + n)], st), c(1000 + n)
            if kind in ("Struct", "Union"):
                v = B.id(f"{kind}Id", 1000 + n)
                return I.run(CTX + f"add_{kind.lower()}_tag", [ctx, s(name), v], st), v
            if kind == "typedef":
                return I.run(CTX + "add_typedef", [ctx, s(name), B.irty("I64")], st), B.irty("I64")
            return I.run(CTX + "add_enum_tag", [ctx, s(name)], st), None
        count = 0
        bad = 0

        def go(st, pre, stack, n):
            nonlocal count, bad
            # resolve in the current state
            want = next((x for x in reversed(stack) if x is not None), None)
            for name in ("x", "y"):
                s2 = st.copy()
                outs = I.run(CTX + res, [ctx, s(name)], s2)
                if len(outs) != 1:
                    raise AnalysisError("resolving has several outcomes")
                r = I.freeze(outs[0][0], outs[0][1])
                exp = want if name == "x" else None
                if exp is None:
                    ok = r[2] == "Err"
                else:
                    ok = r[2] == "Ok" and (exp[0] is None or find(r[3][0], exp[0]))
                count += 1
                if not ok and bad < 10:
                    bad += 1
                    ck.ob("scope", f"{kind}/{pre}/{name}", False, f"after {pre or 'nothing'} (parentheses open and close a scope, d declares x) {name} resolves to {show(r, 4)} for a {kind}, not {'an error' if exp is None else show(exp[0], 3)}", w)
            if len(pre) == top:
                return
            for op in "()d":
                if op == ")" and len(stack) == 1 or op == "d" and stack[-1] is not None:
                    continue
                s2 = st.copy()
                if op == "(":
                    outs = I.run(CTX + "push_scope", [ctx], s2)
                    ns = stack + [None]
                elif op == ")":
                    outs = I.run(CTX + "pop_scope", [ctx], s2)
                    ns = stack[:-1]
                else:
                    outs, v = decl(s2, n, "x")
                    if any(o[1].__class__ is tuple and o[1][0] == "e" and o[1][2] == "Err" for o in outs):
                        bad += 1
                        ck.ob("scope", f"{kind}/{pre}d/declare", False, f"after {pre} a declaration of a {kind} is rejected", w)
                        continue
                    ns = stack[:-1] + [(v,)]
                for s3, _ in outs:
                    go(s3, pre + op, ns, n + (op == "d"))
        go(st, "", [None], 1)
        ck.ob("scope", kind, True, "", w, f"{kind}: {count} resolutions")
    ck.parallel(lambda k: ck.guard("scope", k, one, k), ["var", "enum", "mixed", "Struct", "Union", "typedef", "enum tag"])


def find(v, x):
    """x occurs in v"""
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(find(a, x) for a in v if isinstance(a, tuple))
    return False


def check(ck):
    F = Front(ck)
    operations(ck, F)
    statements(ck, F)
    functions(ck, F)
    for k, n in {"scope": 7, "nesting": 200, "object": 4, "function": 7}.items():
        ck.floor(k, n)
