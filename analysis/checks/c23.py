"""C23: expressions, declarations and statements are grouped as C's grammar prescribes."""
import itertools, os, re
from gen import *
from absint import *
from grammar import *
from c22 import PUNCT, KEYWORDS
import mirload

TECHNIQUE = "equivalence of the parser's grammar (extracted from the generated parser, with the trees its actions build by abstract interpretation) with a reference C grammar, as tree automata"
RULE = ("The productions of the parser and the syntax trees their actions build (MIR of the action functions, interpreted with symbolic operands) are taken from the parser LALRPOP generates from the current grammar. "
        "List and option helpers are inlined up to a number of symbols; the sets of productions reachable through chains of single nonterminals are then the states of a tree automaton. It is compared with the automaton of a "
        "reference grammar of C: from the start symbols, both must offer the same productions building the same trees, and the operands of each must again be equivalent. Since LALRPOP accepts unambiguous (LR(1)) grammars only, "
        "equivalent automata group every input alike. SpecifierQualifier::create is interpreted on the sequences of type keywords, and the combinations of the other specifiers.")
ASSUMPTIONS = ["LALRPOP's parser implements the grammar it prints in the generated source; the grammar is free of conflicts, or the build fails",
               "helpers (lists, options) are compared up to 12 symbols of a production"]
NOTE = ("The reference follows the subset of C the compiler documents; where the grammar accepts more than C (any conditional expression left of an assignment, empty enumerator lists, statements outside of functions) the "
        "reference does too, since only later stages reject it. Long long, abstract array and function types in casts, bit-fields, designators and string literal concatenation are not part of it.")

# ---------------------------------------------------------------- reference
SPELL = dict(PUNCT)
SPELL.update(KEYWORDS)
SPELL.update({"DEC": "DecimalConstant", "BIN": "BinaryConstant", "OCT": "OctalConstant", "HEX": "HexConstant", "FLT": "FloatingConstant", "STR": "StringLiteral", "CHR": "CharConstant", "ID": "Identifier",
              "TYPE": "TypedefName"})


def D(i):
    return ("$", i)


def lists(sym, lo, hi, sep=None, trail=False):
    """[(symbols, offsets of the elements)]"""
    out = []
    for n in range(lo, hi + 1):
        syms, offs = [], []
        for i in range(n):
            if i and sep:
                syms.append(sep)
            offs.append(len(syms))
            syms.append(sym)
        out.append((tuple(syms), tuple(offs)))
        if trail and n:
            out.append((tuple(syms) + (sep,), tuple(offs)))
    return out


class Ref:
    def __init__(self, bound):
        self.bound = bound
        self.prods, self.cat, self.units = {}, {}, {}
        self.build()

    def nt(self, name, cat):
        self.cat[name] = cat
        self.prods.setdefault(name, [])
        self.units.setdefault(name, [])
        self.cur = name

    def unit(self, *names):
        self.units[self.cur] += names

    def add(self, *parts):
        """parts: symbols (text), or lists of alternatives [(symbols, value)] ; the last is a function from the values to the tree, called with positions"""
        *ps, tree = parts
        alts = [((), ())]
        for p in ps:
            new = []
            for syms, vals in alts:
                if isinstance(p, str):
                    for t in p.split():
                        if t in self.names:
                            vals += (D(len(syms)),)
                        elif t in ("DEC", "BIN", "OCT", "HEX", "FLT", "STR", "CHR", "ID", "TYPE"):
                            vals += (("Identifier", D(len(syms))) if t in ("ID", "TYPE") else D(len(syms)),)
                        syms += (t,)
                    new.append((syms, vals))
                else:
                    for s2, v in p:
                        if len(syms) + len(s2) <= self.bound:
                            new.append((syms + tuple(s2), vals + (v(len(syms)),)))
            alts = new
        for syms, vals in alts:
            if len(syms) <= self.bound:
                self.prods[self.cur].append((syms, tree(*vals)))

    names = ("Program", "Statement", "Open", "Closed", "Block", "Expression", "Assign", "Cond", "LOr", "LAnd", "Or", "Xor", "And", "Equ", "Rel", "Shift", "Add", "Mul", "Cast", "Unary", "Postfix", "Primary", "Declarator", "Direct",
             "Spec", "Member", "Param", "InitD", "Init", "Enumerator", "Declaration")

    def vec(self, sym, lo, sep=None, trail=False):
        return [(s, (lambda o: lambda base: ("vec",) + tuple(D(base + i) for i in o))(o)) for s, o in lists(sym, lo, self.bound, sep, trail)]

    def specs(self):
        return [(s, (lambda o: lambda base: ("specifiers", ("vec",) + tuple(D(base + i) for i in o)))(o)) for s, o in lists("Spec", 1, self.bound)]

    def opt(self, alts):
        return [((), lambda b: None)] + [(s, (lambda v: lambda b: ("Some", v(b)))(v)) for s, v in alts]

    def one(self, sym):
        return [((sym,), (lambda b: ("Identifier", D(b))) if sym == "ID" else D)]

    def build(self):
        vec, opt, one, specs = self.vec, self.opt, self.one, self.specs()
        self.nt("Program", "StatementList")
        self.add(vec("Statement", 1), lambda v: ("StatementList", v))
        # statements
        self.nt("Statement", "Statement")
        self.unit("Open", "Closed")
        self.nt("Block", "Statement")
        self.add("{", vec("Statement", 0), "}", lambda v: ("Block", v))
        for k in ("Open", "Closed"):
            self.nt(k, "Statement")
            self.add("while ( Expression ) " + k, lambda e, s: ("While", e, s))
            decl = [(a + b, (lambda va, vb, n: lambda p: ("Some", ("Declaration", ("Declaration", va(p), vb(p + n)))))(va, vb, len(a))) for a, va in specs for b, vb in vec("InitD", 1, ",")]
            first = [((), lambda b: None), (("Expression",), lambda b: ("Some", ("Expression", D(b))))] + decl
            self.add("for (", first, ";", opt(one("Expression")), ";", opt(one("Expression")), ") " + k, lambda a, b, c, s: ("For", a, b, c, s))
            self.add("switch ( Expression ) " + k, lambda e, s: ("Switch", e, s))
            self.add("case Cond : " + k, lambda e, s: ("Labelled", ("Case", e, s)))
            self.add("default : " + k, lambda s: ("Labelled", ("Default", s)))
            self.add("ID : " + k, lambda i, s: ("Labelled", ("Named", i, s)))
        self.nt("Open", "Statement")
        self.add("if ( Expression ) Statement", lambda e, s: ("If", e, s))
        self.add("if ( Expression ) Closed else Open", lambda e, a, b: ("IfElse", e, a, b))
        self.nt("Closed", "Statement")
        self.unit("Block", "Declaration")
        self.add("if ( Expression ) Closed else Closed", lambda e, a, b: ("IfElse", e, a, b))
        self.add("goto ID ;", lambda i: ("Goto", i))
        self.add("continue ;", lambda: ("Continue",))
        self.add("break ;", lambda: ("Break",))
        self.add("return", opt(one("Expression")), ";", lambda e: ("Return", e))
        self.add("do Statement while ( Expression ) ;", lambda s, e: ("DoWhile", s, e))
        self.add("Expression ;", lambda e: ("Expr", e))
        self.add(";", lambda: ("Empty",))
        # declarations
        self.nt("Declaration", "Statement")
        self.add(specs, vec("InitD", 1, ","), ";", lambda s, d: ("Declaration", s, d))
        self.add(specs, "Declarator Block", lambda s, d, b: ("FunctionDeclaration", s, d, b))
        self.add(specs, ";", lambda s: ("EmptyDeclaration", s))
        self.nt("Spec", "SpecifierQualifierToken")
        for k in ("char", "short", "int", "long", "signed", "unsigned", "float", "double"):
            self.add(k, (lambda k: lambda: ("TypeSpecifier", ("ArithmeticType", (k.capitalize(),))))(k))
        self.add("void", lambda: ("TypeSpecifier", ("Void",)))
        for k in ("auto", "extern", "register", "static", "typedef"):
            self.add(k, (lambda k: lambda: ("StorageClassSpecifier", (k.capitalize(),)))(k))
        self.add("const", lambda: ("TypeQualifier", ("Const",)))
        self.add("inline", lambda: ("FunctionSpecifier", ("Inline",)))
        self.add("TYPE", lambda i: ("TypeSpecifier", ("CustomType", i)))
        for k, el in (("struct", vec("Member", 1)), ("union", vec("Member", 1)), ("enum", vec("Enumerator", 0, ",", True))):
            V = k.capitalize()
            self.add(k, "ID", (lambda V: lambda i: ("TypeSpecifier", (V, ("Declaration", i))))(V))
            self.add(k, opt(one("ID")), "{", el, "}", (lambda V: lambda i, m: ("TypeSpecifier", (V, ("Definition", i, m))))(V))
        self.nt("Member", "StructMemberDeclaration")
        self.add(specs, vec("Declarator", 1, ","), ";", lambda s, d: ("StructMemberDeclaration", s, d))
        self.nt("Enumerator", "Enumerator")
        self.add("ID", lambda i: ("Simple", i))
        self.add("ID = Cond", lambda i, e: ("WithValue", i, e))
        self.nt("Declarator", "Declarator")
        self.unit("Direct")
        self.add("*", lambda: ("AbstractPointerDeclarator",))
        self.add("* Declarator", lambda d: ("PointerDeclarator", d))
        self.nt("Direct", "Declarator")
        self.add("ID", lambda i: ("Identifier", i))
        self.add("( Declarator )", lambda d: d)
        self.add("Direct [", opt(one("Assign")), "]", lambda d, e: ("ArrayDeclarator", d, e))
        params = [(s, (lambda v: lambda b: ("Normal", v(b)))(v)) for s, v in vec("Param", 1, ",")]
        params += [(s + (",", "..."), (lambda v: lambda b: ("Variadic", v(b)))(v)) for s, v in vec("Param", 1, ",")]
        self.add("Direct (", opt(params), ")", lambda d, p: ("FunctionDeclarator", d, p))
        self.nt("Param", "ParameterDeclaration")
        self.add(specs, opt(one("Declarator")), lambda s, d: ("ParameterDeclaration", s, d))
        self.nt("InitD", "DeclaratorInitialiser")
        self.add("Declarator", lambda d: ("NoInit", d))
        self.add("Declarator = Init", lambda d, i: ("Init", d, i))
        self.nt("Init", "Initialiser")
        self.add("Assign", lambda e: ("Expr", e))
        self.add("{", vec("Init", 0, ",", True), "}", lambda v: ("List", v))
        # expressions
        self.nt("Expression", "Expression")
        self.unit("Assign")
        self.add("Expression , Assign", lambda a, b: ("ExpressionList", a, b))
        self.nt("Assign", "Expression")
        self.unit("Cond")
        self.add("Cond = Assign", lambda a, b: ("Assignment", a, b))
        for op, v in OPS.items():
            if op not in ("&&", "||", "<", ">", "<=", ">=", "==", "!="):
                self.add(f"Cond {op}= Assign", (lambda v: lambda a, b: ("Assignment", a, ("BinaryOp", (v,), a, b)))(v))
        self.nt("Cond", "Expression")
        self.unit("LOr")
        self.add("LOr ? Expression : Cond", lambda c, t, f: ("Ternary", c, t, f))
        levels = [("LOr", "LAnd", "||"), ("LAnd", "Or", "&&"), ("Or", "Xor", "|"), ("Xor", "And", "^"), ("And", "Equ", "&"), ("Equ", "Rel", "== !="), ("Rel", "Shift", "< > <= >="), ("Shift", "Add", "<< >>"), ("Add", "Mul", "+ -"),
                  ("Mul", "Cast", "* / %")]
        for n, sub, ops in levels:
            self.nt(n, "Expression")
            self.unit(sub)
            for op in ops.split():
                self.add(f"{n} {op} {sub}", (lambda v: lambda a, b: ("BinaryOp", (v,), a, b))(OPS[op]))
        typ = [(a + b, (lambda va, vb, n: lambda p: ("TypeName", va(p), vb(p + n)))(va, vb, len(a))) for a, va in specs for b, vb in opt(one("Declarator"))]
        self.nt("Cast", "Expression")
        self.unit("Unary")
        self.add("(", typ, ") Cast", lambda t, e: ("Cast", t, e))
        self.nt("Unary", "Expression")
        self.unit("Postfix")
        self.add("++ Unary", lambda e: ("PrefixIncrement", e))
        self.add("-- Unary", lambda e: ("PrefixDecrement", e))
        for op, v in (("&", "AddressOf"), ("*", "Dereference"), ("+", "Plus"), ("-", "Minus"), ("~", "BitwiseNot"), ("!", "LogicalNot")):
            self.add(op + " Cast", (lambda v: lambda e: ("UnaryOp", (v,), e))(v))
        self.add("sizeof Unary", lambda e: ("SizeOfExpr", e))
        self.add("sizeof (", typ, ")", lambda t: ("SizeOfType", t))
        self.nt("Postfix", "Expression")
        self.unit("Primary")
        self.add("Postfix [ Expression ]", lambda a, b: ("Index", a, b))
        self.add("Postfix (", vec("Assign", 0, ","), ")", lambda f, a: ("FunctionCall", f, a))
        self.add("Postfix . ID", lambda e, i: ("DirectMemberSelection", e, i))
        self.add("Postfix -> ID", lambda e, i: ("IndirectMemberSelection", e, i))
        self.add("Postfix ++", lambda e: ("PostfixIncrement", e))
        self.add("Postfix --", lambda e: ("PostfixDecrement", e))
        self.nt("Primary", "Expression")
        self.add("ID", lambda i: ("Identifier", i))
        self.add("( Expression )", lambda e: e)
        # what the text of a constant denotes: hexadecimal and binary constants carry their prefix (C22)
        self.add("DEC", lambda t: ("Constant", ("Int", ("radix", 10, t))))
        self.add("OCT", lambda t: ("Constant", ("Int", ("radix", 8, t))))
        self.add("HEX", lambda t: ("Constant", ("Int", ("radix", 16, ("from", 2, t)))))
        self.add("BIN", lambda t: ("Constant", ("Int", ("radix", 2, ("from", 2, t)))))
        self.add("FLT", lambda t: ("Constant", ("Float", ("parse", t))))
        self.add("CHR", lambda t: ("Constant", ("Char", ("nth", 0, ("interpreted", t)))))
        self.add("STR", lambda t: ("StringLiteral", ("interpreted", t)))


OPS = {"*": "Mult", "/": "Div", "%": "Mod", "+": "Add", "-": "Sub", "<<": "LeftShift", ">>": "RightShift", "<": "LessThan", ">": "GreaterThan", "<=": "LessThanEq", ">=": "GreaterThanEq", "==": "Equal", "!=": "NotEqual",
       "&": "BitwiseAnd", "|": "BitwiseOr", "^": "BitwiseXor", "&&": "LogicalAnd", "||": "LogicalOr"}


# ---------------------------------------------------------------- tree automata
class Automaton:
    """state: a set of nonterminals; production: (symbols with operands as categories) -> {tree: {operand nonterminals}}"""

    def __init__(self, flat, units, cat, token):
        self.flat, self.units, self.cat, self.token = flat, units, cat, token
        self.memo = {}

    def closure(self, nts):
        seen, work = set(), list(nts)
        while work:
            n = work.pop()
            if n not in seen:
                seen.add(n)
                work += self.units.get(n, ())
        return seen

    def state(self, nts):
        nts = frozenset(nts)
        if nts not in self.memo:
            out = {}
            for n in sorted(self.closure(nts)):
                for syms, tree, where in self.flat[n]:
                    key = tuple(("operand", self.cat[s]) if s in self.cat else ("token", self.token(s)) for s in syms)
                    slots = tuple(s for s in syms if s in self.cat)
                    out.setdefault(key, {}).setdefault(tree, {}).setdefault(slots, where)
            self.memo[nts] = out
        return self.memo[nts]


def pretty(key):
    back = {v: k for k, v in SPELL.items()}
    return " ".join(back.get(n, n) if k == "token" else n for k, n in key)


def operands(ways):
    """the operands of the ways to build a tree, each a set; None if they depend on one another"""
    ways = list(ways)
    cols = [frozenset(w[i] for w in ways) for i in range(len(ways[0]))]
    return cols


def compare(ck, A, B, a0, b0, line):
    work, seen = [(frozenset([a0]), frozenset([b0]), ())], set()
    while work:
        a, b, path = work.pop(0)
        if (a, b) in seen:
            continue
        seen.add((a, b))
        sa, sb = A.state(a), B.state(b)
        ctx = ", in ".join(reversed(path)) or "the program"
        at = min(a)
        for key in sb:
            ck.ob("production", f"{'+'.join(sorted(b))}:{pretty(key)[:60]}", key in sa, f"`{pretty(key)}` is not accepted as {ctx}, where C has it" if key not in sa else "", line(at), pretty(key))
        for key, trees in sa.items():
            if key not in sb:
                w = next(iter(next(iter(trees.values())).values()))
                ck.ob("production", f"{'+'.join(sorted(b))}:extra:{pretty(key)[:60]}", False, f"`{pretty(key)}` is accepted as {ctx}; in C it does not belong there (production {w})", line(at))
                continue
            want = sb[key]
            for tree, ways in trees.items():
                w = next(iter(ways.values()))
                ok = tree in want
                ck.ob("tree", f"{pretty(key)[:60]}", ok, "" if ok else f"`{pretty(key)}` builds {show_tree(tree)}, not {show_tree(next(iter(want)))} (production {w})", line(w.split(" = ")[0]), str(tree)[:100])
                if not ok:
                    continue
                for x, W in ((ways, A), (want[tree], B)):
                    full = {k for k in itertools.product(*operands(x))} if len(next(iter(x))) < 9 else set(x)
                    # the ways must be a product, up to nonterminals that offer the same
                    if set(x) != full:
                        missing = full - set(x)
                        if not all(any(all(W.closure([m]) <= W.closure([k]) for m, k in zip(mm, kk)) for kk in x) for mm in missing):
                            raise AnalysisError(f"the operands of `{pretty(key)}` depend on one another")
                for i, (ca, cb) in enumerate(zip(operands(ways), operands(want[tree]))):
                    work.append((ca, cb, path[-2:] + (f"operand {i + 1} of `{pretty(key)}`",)))
            for tree in want:
                if tree not in trees and all(t in want for t in trees):
                    ck.ob("tree", f"{pretty(key)[:60]}:missing", False, f"`{pretty(key)}` does not build {show_tree(tree)} in {ctx}", line(at))
    return len(seen)


def show_tree(t):
    if isinstance(t, tuple):
        if t and t[0] == "$":
            return f"#{t[1] + 1}"
        if len(t) == 1:
            return str(t[0])
        return f"{t[0]}({', '.join(show_tree(x) for x in t[1:])})"
    return str(t)


def count(t, i):
    return int(t == ("$", i)) + sum(count(x, i) for x in t if isinstance(x, tuple)) if isinstance(t, tuple) else 0


# ---------------------------------------------------------------- type keywords
MEANING = {}
for _n, _t in (("char", "I8"), ("signed char", "I8"), ("unsigned char", "U8"), ("short", "I16"), ("signed short", "I16"), ("short int", "I16"), ("signed short int", "I16"), ("unsigned short", "U16"), ("unsigned short int", "U16"),
               ("int", "I32"), ("signed", "I32"), ("signed int", "I32"), ("unsigned", "U32"), ("unsigned int", "U32"), ("long", "I64"), ("signed long", "I64"), ("long int", "I64"), ("signed long int", "I64"),
               ("unsigned long", "U64"), ("unsigned long int", "U64"), ("float", "F32"), ("double", "F64")):
    MEANING[tuple(sorted(_n.split()))] = _t
FREE = {tuple(sorted(x.split())) for x in ("long long", "long long int", "signed long long", "signed long long int", "unsigned long long", "unsigned long long int", "long double")}
KW = ("char", "short", "int", "long", "signed", "unsigned", "float", "double")


def keywords(ck):
    p = ck.lib()
    A = {n.split("::")[-1]: n for n in p.adts if "::ast::" in n}
    f = next(fn for n, fn in p.fns.items() if n.endswith("ast::SpecifierQualifier::create"))
    e = lambda adt, v, *a: ("e", A[adt], v, tuple(a))
    typ = lambda x: e("SpecifierQualifierToken", "TypeSpecifier", x)
    ar = lambda k: typ(e("TypeSpecifierToken", "ArithmeticType", e("ArithmeticTypeSpecifierToken", k.capitalize())))
    custom = typ(e("TypeSpecifierToken", "CustomType", e("Identifier", "Identifier", Sym("name", (), STRING))))
    struct = typ(e("TypeSpecifierToken", "Struct", Sym("struct", (), ("adt", A["StructType"], ()))))
    union = typ(e("TypeSpecifierToken", "Union", Sym("union", (), ("adt", A["UnionType"], ()))))
    enum = typ(e("TypeSpecifierToken", "Enum", Sym("enum", (), ("adt", A["EnumType"], ()))))
    void = typ(e("TypeSpecifierToken", "Void"))
    const = e("SpecifierQualifierToken", "TypeQualifier", e("TypeQualifier", "Const"))
    inline = e("SpecifierQualifierToken", "FunctionSpecifier", e("FunctionSpecifier", "Inline"))
    stor = {k: e("SpecifierQualifierToken", "StorageClassSpecifier", e("StorageClassSpecifier", k)) for k in ("Auto", "Extern", "Register", "Static", "Typedef")}

    def run(toks):
        I = ck.interp(lambda n: None, assume_ok=False)
        I.max_steps = 200000
        out = []
        for st, v in I.run(f, [("q", tuple(toks))], State()):
            v = I.freeze(st, v)
            out.append((v[2], v[3][0]))
        if len(out) != 1:
            raise AnalysisError(f"{len(out)} outcomes")
        return out[0]

    def fields(v):
        d = [x[0] for x in p.adts[v[1]]["variants"][0]["fields"]] if v[0] == "e" else []
        return dict(zip(d, v[3]))

    def judge(key, toks, want, sc=None, cst=0, inl=0):
        r, v = ck.guard("keywords", key, run, toks) or (None, None)
        if r is None:
            return
        if want is None:
            ck.ob("keywords", key, r == "Err", f"`{key}` is accepted as a type" if r != "Err" else "", ck.where(f), key)
            return
        if r == "Err":
            ck.ob("keywords", key, False, f"the type `{key}` is rejected", ck.where(f), key)
            return
        d = fields(v)
        got = d.get("type_specifier")
        exp = want if isinstance(want, tuple) else e("TypeSpecifier", "ArithmeticType", e("ArithmeticType", want))
        ck.ob("keywords", key, got == exp, f"`{key}` denotes {show(got, 3)}, not {show(exp, 3)}", ck.where(f), key)
        g = d.get("storage_class_specifier"), d.get("const_"), d.get("inline")
        w = (("e", "std::option::Option", "None", ()) if sc is None else ("e", "std::option::Option", "Some", (e("StorageClassSpecifier", sc),)), ("c", cst), ("c", inl))
        ck.ob("specifiers", key, g == w, f"`{key}` has the storage class, const and inline {[show(x, 2) for x in g]}, not {[show(x, 2) for x in w]}", ck.where(f), key)

    depth = 4 if ck.tier == "quick" else 5
    items = [()]
    for n in range(1, depth + 1):
        for seq in itertools.product(KW, repeat=n):
            s = tuple(sorted(seq))
            if s in FREE:
                continue
            # beyond three keywords: every order of the meaningful ones, one order of the rest
            if n <= 2 or s in MEANING or (n <= 4 and seq == s and len(set(s)) == n):
                items.append(seq)
    for seq in items:
        s = tuple(sorted(seq))
        # a keyword that is repeated: C rejects it; which the compiler need not
        if len(set(s)) < len(s):
            continue
        judge(" ".join(seq) or "(no type)", [ar(k) for k in seq], MEANING.get(s))
    others = [("void", void, e("TypeSpecifier", "Void")), ("T", custom, e("TypeSpecifier", "CustomType", e("Identifier", "Identifier", Sym("name", (), STRING)))),
              ("struct S", struct, e("TypeSpecifier", "Struct", Sym("struct", (), ("adt", A["StructType"], ())))), ("union U", union, e("TypeSpecifier", "Union", Sym("union", (), ("adt", A["UnionType"], ())))),
              ("enum E", enum, e("TypeSpecifier", "Enum", Sym("enum", (), ("adt", A["EnumType"], ()))))]
    for n, t, v in others:
        judge(n, [t], v)
        for m, u in [(k, ar(k)) for k in ("int", "unsigned", "char", "double")] + [(m, u) for m, u, _ in others]:
            judge(f"{n} {m}", [t, u], None)
            judge(f"{m} {n}", [u, t], None)
    for n, t, v in [("int", ar("int"), "I32"), ("T", custom, others[1][2])]:
        for sc in [None] + list(stor):
            for c in (0, 1):
                for i in (0, 1):
                    extra = [(k, x) for k, x in ((sc and sc.lower(), stor.get(sc)), (c and "const", const), (i and "inline", inline)) if k]
                    for perm in itertools.permutations(extra + [(n, t)]):
                        judge(" ".join(k for k, _ in perm), [x for _, x in perm], v, sc, c, i)
        for a in stor:
            for b in stor:
                if a != b:
                    judge(f"{a.lower()} {b.lower()} {n}", [stor[a], stor[b], t], None)
    for seq in (("unsigned", "const", "char"), ("long", "static", "unsigned"), ("static", "long", "const", "unsigned")):
        toks = [const if k == "const" else stor["Static"] if k == "static" else ar(k) for k in seq]
        judge(" ".join(seq), toks, MEANING[tuple(sorted(k for k in seq if k in KW))], "Static" if "static" in seq else None, int("const" in seq), 0)


def check(ck):
    bound = 12 if ck.tier == "quick" else 16
    G = Grammar()
    T = Trees(ck, G, bound)
    lal = "src/front_end/c_parser.lalrpop"
    src = open(os.path.join(mirload.REPO, lal)).read().splitlines() if os.path.exists(os.path.join(mirload.REPO, lal)) else []

    def line(nt):
        for i, l in enumerate(src):
            if re.match(r"(pub\s+)?%s\b\s*(<.*>)?\s*[:=]" % re.escape(nt), l):
                return f"{lal}:{i + 1}: {nt}"
        return lal

    # the parser's terminals are the lexer's tokens
    variants = {v["name"] for v in ck.lib().adts[T.token_adt()]["variants"]}
    for n, toks in G.tokens.items():
        ck.ob("terminal", n, len(toks) == 1, f"the terminal {n} stands for the tokens {toks}", lal, n)
    flat, units = {}, {}
    for nt, c in T.cat.items():
        if c is None:
            continue
        out = []
        for p, syms, v in ck.guard("tree", nt, T.flat, nt) or []:
            tree = ck.guard("tree", p.text[:80], canon, v)
            if tree is None:
                continue
            if len(syms) == 1 and syms[0] in T.cat and tree == ("$", 0) and T.cat[syms[0]] == c:
                units.setdefault(nt, []).append(syms[0])
                continue
            out.append((syms, tree, p.text))
            for i, s in enumerate(syms):
                if s in T.cat:
                    k = count(tree, i)
                    key = pretty(tuple(("operand", T.cat[x]) if x in T.cat else ("token", G.tokens[x][0]) for x in syms))[:60]
                    ck.ob("once", f"{key}:{i + 1}", k == 1, f"operand {i + 1} of `{key}` occurs {k} times in the tree {show_tree(tree)}: it is evaluated {k} times", line(nt), p.text)
        flat[nt] = out
        ck.ob("nonterminal", nt, bool(out or units.get(nt)), f"{nt} has no productions", line(nt), nt)
    A = Automaton(flat, units, {n: c for n, c in T.cat.items() if c}, lambda s: G.tokens[s][0])
    R = Ref(bound)
    B = Automaton({n: [(s, t, n) for s, t in ps] for n, ps in R.prods.items()}, R.units, R.cat, lambda s: SPELL[s])
    for n in R.prods:
        for s, t in R.prods[n]:
            for x in s:
                if x not in R.cat and SPELL[x] not in variants:
                    raise AnalysisError(f"no token {x}")
    n = ck.guard("grammar", "program", compare, ck, A, B, "Program", "Program", line)
    ck.notes["pairs of states compared"] = n
    ck.notes["productions"] = sum(map(len, G.prods.values()))
    keywords(ck)
    ck.floor("production", 150)
    ck.floor("tree", 150)
    ck.floor("terminal", 80)
    ck.floor("keywords", 300)
    ck.floor("specifiers", 100)
