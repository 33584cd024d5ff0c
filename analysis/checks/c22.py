"""C22: source text is split into the tokens the C grammar defines."""
from gen import *
from absint import *

TECHNIQUE = "extraction of the lexer's automaton by abstract interpretation of its step function (MIR), and product construction with the automaton of C's lexical grammar"
RULE = ("The step function is interpreted from each reachable state with an unknown character and an unknown token text; the path conditions split the characters into classes, which gives the "
        "transitions and how each one extends the token's text. What a state yields as a token is found by interpreting the lexer's `next` where the state refuses the next character, and at the end of input. "
        "The product with an automaton of C's tokens is explored exhaustively: where C allows the token to go on the lexer must go on, where it is complete it must yield the right token "
        "with the exact text, and nothing else may yield a token. `next` is also interpreted on scripts of step outcomes (white space, refused characters, end of input, and the typedef bookkeeping), "
        "with the step function opaque.")
ASSUMPTIONS = ["a numeric constant directly followed by a letter, digit or dot is rejected by the grammar (no production has a constant followed by an identifier or constant; a member of a constant is a type error)",
               "from_str_radix and parse reject incomplete constants such as 0x and 1e"]
NOTE = "Suffixes and prefixes of constants (10L, 1.0f, L\"x\"), hexadecimal floating constants and keywords after C90 other than inline are not part of the language the compiler accepts."

PUNCT = {"!": "Bang", "%": "Percent", "^": "Caret", "&": "Ampersand", "*": "Asterisk", "-": "Minus", "+": "Plus", "=": "Eq", "~": "Tilde", "|": "Bar", ".": "Dot", "<": "LessThan", ">": "GreaterThan",
         "/": "Slash", "?": "Question", "+=": "PlusEq", "-=": "MinusEq", "*=": "AsteriskEq", "/=": "SlashEq", "%=": "PercentEq", "<<=": "LeftShiftEq", ">>=": "RightShiftEq", "&=": "AmpersandEq",
         "^=": "CaretEq", "|=": "BarEq", "->": "Arrow", "++": "DoublePlus", "--": "DoubleMinus", "<<": "LeftShift", ">>": "RightShift", "<=": "LessThanEq", ">=": "GreaterThanEq", "==": "DoubleEq",
         "!=": "BangEq", "&&": "DoubleAmpersand", "||": "DoubleBar", "(": "LeftParen", ")": "RightParen", "[": "LeftSquare", "]": "RightSquare", "{": "LeftCurly", "}": "RightCurly", ",": "Comma",
         ";": "Semicolon", ":": "Colon", "...": "Ellipsis"}
KEYWORDS = {k: k.capitalize() for k in ("auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct "
                                        "switch typedef union unsigned void volatile while").split()}
TYPEDEFS = ("word", "T", "double_t", "_t1")          # the type names known when the lexer runs
OTHERS = "\u00e9\u00b2\u4e2d\u00a0\U0001f600\u0660"
ALPHABET = [chr(i) for i in range(128)] + list(OTHERS)
DIGIT, OCT, HEX, BIN = "0123456789", "01234567", "0123456789abcdefABCDEF", "01"
LETTER = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
WORD = LETTER + DIGIT
P = "\0p"                                               # the text read so far, when it is not a known string

# --- C's tokens: step(kind, ch) -> (next kind, what the character adds to the text) | None (the token ends before ch)
BAD = "bad"                                           # C's token goes on, into something that is no C token


def pp(ch):
    return (BAD, None) if ch in WORD + "." else None


def spec(kind, ch):
    k = kind[0]
    if k == "start":
        if ch in LETTER:
            return ("ident",), ch
        if ch == "0":
            return ("zero",), ch
        if ch in DIGIT:
            return ("dec",), ch
        if ch == '"':
            return ("str",), ""
        if ch == "'":
            return ("chr0",), ""
        if ch in PUNCT:
            return ("punct", ch), ""
        return (BAD, None)
    if k == "punct":
        t = kind[1] + ch
        if kind[1] == "." and ch in DIGIT:
            return ("float",), "." + ch
        if t in PUNCT or t == "..":
            return ("punct", t), ""
        return None
    if k == "ident":
        return (("ident",), ch) if ch in WORD else None
    if k == "zero":
        if ch in "xX":
            return ("hex0",), "x"
        if ch in "bB":
            return ("bin0",), "b"
    if k in ("zero", "oct", "dec"):
        if ch == ".":
            return ("float",), ch
        if ch in "eE":
            return ("exp0",), "e"
        if k != "dec" and ch in OCT:
            return ("oct",), ch
        if k == "dec" and ch in DIGIT:
            return ("dec",), ch
        return pp(ch)
    if k == "float":
        if ch in "eE":
            return ("exp0",), "e"
        if ch in DIGIT:
            return ("float",), ch
        return pp(ch)
    if k == "exp0":
        if ch in "+-":
            return ("exp1",), ch
    if k in ("exp0", "exp1", "exp"):
        return (("exp",), ch) if ch in DIGIT else pp(ch) or (None if k == "exp" else (BAD, None))
    if k in ("hex0", "hex"):
        return (("hex",), ch) if ch in HEX else pp(ch) or (None if k == "hex" else (BAD, None))
    if k in ("bin0", "bin"):
        return (("bin",), ch) if ch in BIN else pp(ch) or (None if k == "bin" else (BAD, None))
    if k == "str":
        return (BAD, None) if ch == "\n" else (("str\\",), ch) if ch == "\\" else (("strend",), "") if ch == '"' else (("str",), ch)
    if k == "str\\":
        return (BAD, None) if ch == "\n" else (("str",), ch)
    if k == "chr0":
        return (BAD, None) if ch in "'\n" else (("chr\\",), ch) if ch == "\\" else (("chr",), ch)
    if k == "chr\\":
        if ch in "'\"?\\abfnrtv":
            return ("chr",), ch
        if ch == "x":
            return ("chrx0",), ch
        if ch in OCT:
            return ("chro1",), ch
        return (BAD, None)
    if k in ("chr", "chrx", "chro1", "chro2") and ch == "'":
        return ("chrend",), ""
    if k in ("chrx0", "chrx") and ch in HEX:
        return ("chrx",), ch
    if k in ("chro1", "chro2") and ch in OCT:
        return (("chro2",) if k == "chro1" else ("chr",)), ch
    if k.startswith("chr") and k != "chrend":
        return (BAD, None)
    return None


ACCEPT = {"zero": "OctalConstant", "oct": "OctalConstant", "dec": "DecimalConstant", "float": "FloatingConstant", "exp": "FloatingConstant", "hex": "HexConstant", "bin": "BinaryConstant",
          "strend": "StringLiteral", "chrend": "CharConstant"}
MALFORMED = {"exp0": "FloatingConstant", "exp1": "FloatingConstant", "hex0": "HexConstant", "bin0": "BinaryConstant"}   # rejected when the constant is converted


def accept(kind, text):
    """the token (variant, text or None) the text read so far is, or None"""
    k = kind[0]
    if k == "punct":
        return (PUNCT[kind[1]], None) if kind[1] in PUNCT else None
    if k == "ident":
        if text in KEYWORDS:
            return KEYWORDS[text], None
        if text in TYPEDEFS:
            return "TypedefName", text
        return "Identifier", text
    return (ACCEPT[k], text) if k in ACCEPT else None


# --- what the analysis of the code needs of strings and characters
def predicate(name, ch, args):
    m = name.split("::")[-1]
    a = ch.isascii()
    if m == "is_digit":
        r = args[0][1] if args and isinstance(args[0], tuple) and args[0][0] == "c" else None
        return None if r is None else a and ch.isalnum() and ch in "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" and int(ch, 36) < r
    table = {"is_ascii_digit": a and ch.isdigit(), "is_ascii_alphabetic": a and ch.isalpha(), "is_ascii_alphanumeric": a and ch.isalnum(), "is_ascii_hexdigit": a and ch in HEX, "is_ascii": a,
             "is_ascii_lowercase": a and ch.islower(), "is_ascii_uppercase": a and ch.isupper(), "is_ascii_whitespace": ch in " \t\n\x0c\r", "is_whitespace": ch.isspace(), "is_alphabetic": ch.isalpha(),
             "is_alphanumeric": ch.isalnum() or ch.isnumeric(), "is_numeric": ch.isnumeric(), "is_ascii_punctuation": a and ch.isprintable() and not ch.isalnum() and ch != " ",
             "is_ascii_octdigit": ch in OCT, "is_control": ord(ch) < 32 or ord(ch) == 127, "is_ascii_control": ord(ch) < 32 or ord(ch) == 127, "is_ascii_graphic": a and ch.isprintable() and ch != " "}
    return table.get(m)


class Eval:
    """the value of a term when the character is ch"""

    def __init__(self, ch, text):
        self.ch, self.text = ch, text

    def __call__(self, t):
        if isinstance(t, tuple) and t and t[0] == "str":
            return t[1]
        if isinstance(t, tuple) and t and t[0] == "c":
            return t[1]
        if isinstance(t, tuple) and t and t[0] == "box":
            return self(t[1])
        if is_sym(t):
            h = str(t.head)
            if h == "c":
                return ord(self.ch)
            if h == "p":
                return P
            if h == "strpush" or h == "strcat" or h == "strappend":
                out = ""
                for a in t.args:
                    v = self(a)
                    out += chr(v) if isinstance(v, int) else v
                return out
            if h == "tostr" or h.endswith("to_string") or h == "char_to_string" or h.startswith("call:") and h.split("::")[-1] in ("to_string", "to_owned", "from", "into"):
                v = self(t.args[0])
                return chr(v) if isinstance(v, int) else v
            if h == "cmp":
                op, a, b = t.args
                a, b = self(a), self(b)
                if isinstance(a, str) != isinstance(b, str):
                    a, b = (chr(a) if isinstance(a, int) else a), (chr(b) if isinstance(b, int) else b)
                if isinstance(a, str) and (P in a or P in b):
                    if op not in ("Eq", "Ne"):
                        raise AnalysisError("the text is ordered")
                    x, k = (a, b) if P in a else (b, a)
                    same = x.startswith(P) and k.endswith(x[len(P):]) and len(k) > len(x) - len(P)
                    return None if same else int(op == "Ne")
                return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
            if h in ("deref",):
                return self(t.args[0])
            if h.startswith("call:"):
                v = predicate(h, self.ch, t.args[1:])
                if v is not None and t.args and is_sym(t.args[0]) and self(t.args[0]) == ord(self.ch):
                    return int(v)
                m = h.split("::")[-1]
                if m in ("to_ascii_lowercase", "to_ascii_uppercase") and t.args:
                    v = self(t.args[0])
                    if isinstance(v, int):
                        return ord(chr(v).lower() if "lower" in m else chr(v).upper()) if chr(v).isascii() else v
            if h in ("and", "or", "not", "bitand", "bitor") and all(True for _ in t.args):
                vs = [self(a) for a in t.args]
                if h == "not":
                    return 1 - vs[0]
                return int(all(vs)) if "and" in h else int(any(vs))
        raise AnalysisError(f"the lexer decides on {show(t, 4)}")


def fmt_policy(n):
    """format! as concatenation"""
    m = n.split("::")[-1]
    if "fmt::rt::Argument" in n and m in ("new_display", "new_debug"):
        return lambda I, st, args, dty: [(st, Sym("display" if m == "new_display" else "debug", (I.freeze(st, I.deref(st, args[0])),), None))]
    if "fmt::Arguments" in n and m in ("new", "from_str", "from_str_nonconst", "new_const", "new_v1"):
        return lambda I, st, args, dty: [(st, Sym("arguments", tuple(I.freeze(st, I.deref(st, a)) for a in args), None))]
    if n.endswith("fmt::format"):
        def form(I, st, args, dty):
            a = I.freeze(st, I.deref(st, args[0]))
            if not (is_sym(a) and a.head == "arguments"):
                return NotImplemented
            tpl = a.args[0]
            if isinstance(tpl, tuple) and tpl[0] == "str":
                return [(st, tpl)]
            bs = [x[1] if isinstance(x, tuple) else x for x in (tpl[1] if isinstance(tpl, tuple) else tpl)]
            vals = list(a.args[1][1])
            parts, i, nx = [], 0, 0
            while i < len(bs) and bs[i] != 0:
                b = bs[i]
                if b < 128:
                    parts.append(("str", bytes(bs[i + 1:i + 1 + b]).decode()))
                    i += 1 + b
                elif b == 192:
                    v = vals[nx]
                    if not (is_sym(v) and v.head == "display"):
                        raise AnalysisError("a formatted value")
                    parts.append(v.args[0])
                    nx += 1
                    i += 1
                else:
                    raise AnalysisError("a format with options")
            return [(st, Sym("strcat", tuple(parts), ("adt", "std::string::String", ())))]
        return form
    return None


def strings(v, f):
    """v with its strings rewritten"""
    if isinstance(v, tuple):
        if v and v[0] == "str":
            return f(v)
        if v and v[0] in ("c",):
            return v
        return tuple(strings(x, f) if isinstance(x, (tuple, Sym)) else x for x in v)
    if is_sym(v):
        return f(v)
    return v


STRING = ("adt", "std::string::String", ())


class Lexer:
    def __init__(self, ck):
        self.ck = ck
        self.outcomes = None
        self.pos = None

        def policy(n):
            if self.outcomes is not None:
                p = self.scripted(n)
                if p is not None:
                    return p
            if "char::methods" in n and n.split("::")[-1].startswith(("is_", "to_ascii")):
                return "pure"
            return fmt_policy(n)
        self.I = ck.interp(policy)
        self.B = Build(self.I)
        self.step = self.I.find("Fsm::step")
        self.next = [f for n, f in self.I.prog.fns.items() if n.startswith("<front_end::lexer::Lexer") and n.endswith("Iterator>::next")][0]
        self.new = self.I.find("Fsm::new")
        (st, r), = self.I.run(self.new, [])
        self.start = self.I.freeze(st, r)

    # --- the step function as a table
    def transitions(self, fsm):
        I = self.I
        st = State()
        names = q(*[s(x) for x in TYPEDEFS])
        n0 = len(I.panics)
        outs = [(s2, I.freeze(s2, r)) for s2, r in I.run(self.step, [fsm, Sym("c", (), ("prim", "char")), I.cell(st, "names", names)], st)]
        pan = I.panics[n0:]
        del I.panics[n0:]
        return outs, pan

    @staticmethod
    def holds(st, ch, text):
        ev = Eval(ch, text)
        for atom, v in st.refine.items():
            if isinstance(atom, Sym) and str(atom.head) == "c":
                if v[1] not in (ord(ch), ch):
                    return False
                continue
            if not (isinstance(v, tuple) and v[0] == "c"):
                if isinstance(v, tuple) and v[0] == "str" and is_sym(atom):
                    x = ev(atom)
                    if not (x == v[1] or x.startswith(P) and v[1].endswith(x[len(P):])):
                        return False
                continue
            x = ev(atom)
            if x is not None and x != v[1]:
                return False
        return True

    # --- `next`, with the characters and the step function scripted
    def scripted(self, n):
        m = n.split("::")[-1]
        chars, outs = self.outcomes

        def pos(st):
            return sum(1 for x in st.trace if x[0] == "advance")
        if "Peekable" in n and m == "peek":
            def peek(I, st, args, dty):
                k = pos(st)
                if k >= len(chars):
                    return [(st, NONE)]
                return [(st, some(I.cell(st, f"ch{k}", ("t", (c(k), c(ord(chars[k])))))))]
            return peek
        if "Peekable" in n and m in ("next",):
            def nxt(I, st, args, dty):
                k = pos(st)
                st.trace = st.trace + (("advance", k),)
                return [(st, some(("t", (c(k), c(ord(chars[k]))))) if k < len(chars) else NONE)]
            return nxt
        if "Peekable" in n:
            raise AnalysisError(f"the lexer uses {m}")
        if n == self.step.name:
            def step(I, st, args, dty):
                k = sum(1 for x in st.trace if x[0] == "step")
                st.trace = st.trace + (("step", I.freeze(st, I.deref(st, args[0])), I.freeze(st, I.deref(st, args[1])), I.freeze(st, I.deref(st, args[2]))),)
                if k >= len(outs):
                    raise AnalysisError("the lexer goes on after the token has ended")
                return [(st, outs[k])]
            return step
        if n.split("::")[-1] == "is_whitespace" and "char" in n:
            return lambda I, st, args, dty: [(st, c(int(chr(I.deref(st, args[0])[1]).isspace())))]
        if n.endswith("parse_typedef_name") and self.typedef is not None:
            def ptn(I, st, args, dty):
                st.trace = st.trace + (("typedef", I.freeze(st, I.deref(st, args[0]))),)
                return [(st, self.typedef)]
            return ptn
        return None

    def lex(self, chars, outs, typedef=None, **state):
        """[(state after, result, trace)] of `next`"""
        I = self.I
        self.outcomes, self.typedef = (chars, outs), typedef
        try:
            st = State()
            fields = dict(chars=Sym("chars", (), None), typedef_names=q(*[s(x) for x in TYPEDEFS]), inside_typedef_stmt=c(0), typedef_stmt_nesting_depth=c(0), typedef_stmt_buffer=q())
            fields.update(state)
            lx = I.cell(st, "lexer", self.B.new("Lexer", None, **fields))
            n0 = len(I.panics)
            res = [(I.freeze(s2, I.deref(s2, lx)), I.freeze(s2, r), s2.trace) for s2, r in I.run(self.next, [lx], st)]
            pan = len(I.panics) > n0
            del I.panics[n0:]
            return res, pan
        finally:
            self.outcomes = None


def token_of(r):
    """(variant, payload or None) | 'error' | 'end' of a result of `next`"""
    if r[2] == "None":
        return "end"
    r = r[3][0]
    if r[2] == "Err":
        return "error"
    t = r[3][0][1][1]
    return t


def check(ck):
    L = Lexer(ck)
    I, B = L.I, L.B
    where = ck.where(L.step.name)
    nw = ck.where(L.next.name)

    def payload(t):
        if not (isinstance(t, tuple) and t[0] == "e"):
            return t
        return t[2], (t[3][0] if t[3] else None)

    def product():
        seen = {(L.start, ("start",), "")}
        todo = list(seen)
        trace = {todo[0]: ""}
        nchars = 0
        while todo:
            node = todo.pop()
            fsm, kind, text = node
            path = trace[node]
            shown = repr(path)
            # what the state yields
            if kind[0] != "start":
                want = accept(kind, text)
                for chars, outs, how in ((["x", " "], [some(fsm), NONE], "before another token"), (["x"], [some(fsm)], "at the end of the input")):
                    res, pan = L.lex(chars, outs)
                    for _, r, _ in res:
                        got = token_of(r)
                        key = f"{path}/{how.split()[0]}/{how.split()[1]}"
                        if want is None:
                            bad = kind[0] in MALFORMED and got not in ("error", "end") and got[2] == MALFORMED[kind[0]]
                            ck.ob("token", key, got == "error" or bad, f"{shown} {how} gives {show(got, 4) if got != 'end' else 'the end of the input'}, but it is no token", nw, f"{shown} {how} is an error")
                            continue
                        if got in ("error", "end"):
                            ck.ob("token", key, False, f"{shown} {how} is {got if got == 'error' else 'dropped'}, expected {want[0]}", nw)
                            continue
                        v, p = payload(got)
                        p = None if p is None else Eval("x", text)(p)
                        p = chr(p) if isinstance(p, int) else p
                        ck.ob("token", key, v == want[0] and (want[1] is None) == (p is None) and (p is None or p == want[1]), f"{shown} {how} gives {v}({p!r}), expected {want[0]}({want[1]!r})", nw,
                              f"{shown} {how} gives {v}")
                    ck.ob("token", f"{path}/panic/{len(chars)}", not pan, f"{shown} {how} panics", nw)
            # where it goes
            outs, pan = L.transitions(fsm)
            for ch in ALPHABET:
                nchars += 1
                if kind[0] == "str\\" and ch == "\n":
                    continue        # joined by the preprocessor, and rejected as an escape sequence if not
                want = spec(kind, ch)
                paths = [(st, r) for st, r in outs if L.holds(st, ch, text)]
                key = f"{path}/{ch if ch.isprintable() and ch.isascii() else hex(ord(ch))}"
                ck.ob("step", key + "/covered", bool(paths), f"{shown} followed by {ch!r} has no outcome", where)
                for st, r in paths:
                    goes = r[2] == "Some"
                    if want is None or want[0] == BAD:
                        # a complete token ends here; or the text is no token: then the lexer may stop (and yield what it has, or an error) or not
                        if not goes:
                            ck.ob("step", key, True, sample=f"{shown} ends before {ch!r}")
                            continue
                        ck.ob("step", key, False, f"{shown} goes on with {ch!r} to {show(r[3][0], 4)}" + (", which is no token" if want else ", but the token ends before it"), where)
                        continue
                    nk, add = want
                    if not goes:
                        ck.ob("step", key, False, f"{shown} does not go on with {ch!r}", where)
                        continue
                    # the text, and which identifiers the path is about
                    base = text if text is not None else P
                    new = base + add
                    eqs, refuted = set(), set()
                    ev = Eval(ch, text)
                    for atom, v in st.refine.items():
                        if is_sym(atom) and str(atom.head) == "cmp" and v == c(1) and atom.args[0] == "Eq":
                            a, b = ev(atom.args[1]), ev(atom.args[2])
                            if isinstance(a, str) and P in a + str(b):
                                eqs.add(b if P in a else a)
                        elif is_sym(atom) and str(atom.head) == "cmp" and v == c(0) and atom.args[0] == "Eq":
                            a, b = ev(atom.args[1]), ev(atom.args[2])
                            if isinstance(a, str):
                                refuted.add(b if P in a else a)
                        elif is_sym(atom) and isinstance(v, tuple) and v[0] == "str":
                            x = ev(atom)
                            if isinstance(x, str) and P in x:
                                eqs.add(v[1])
                    if len(eqs) > 1:
                        continue
                    f2 = r[3][0]
                    if eqs:
                        new = eqs.pop()
                    elif nk[0] == "ident" and P in new:
                        for w in list(KEYWORDS) + list(TYPEDEFS):
                            if w.endswith(add) and len(w) > 1:
                                ck.ob("word", f"{path}/{ch}/{w}", w in refuted, f"{w} is lexed as {show(f2, 4)}", where)
                    # the state must keep exactly the text
                    found = []

                    def rewrite(v):
                        x = Eval(ch, text)(v)
                        x = chr(x) if isinstance(x, int) else x
                        found.append(x)
                        return s(x) if x != new or keep else Sym("p", (), STRING)
                    keep = P not in new and (nk[0] != "ident" or new in KEYWORDS or new in TYPEDEFS or any(w.startswith(new) for w in TYPEDEFS if len(new) == 1)) and len(new) <= 8 and nk[0] not in ("str", "str\\", "chr", "chrx", "dec")
                    if nk[0] in ("oct", "float", "exp0", "exp1", "exp", "hex", "bin") and len(new) > 1:
                        keep = False
                    f3 = strings(f2, rewrite)
                    want2 = accept(nk, new)
                    needs = nk[0] not in ("punct",) and new != ""
                    for x in found:
                        ck.ob("text", f"{key}/{x}", x == new, f"{shown} followed by {ch!r} has the text {x.replace(P, '…')!r}, expected {new.replace(P, '…')!r}", where, f"{shown} + {ch!r}: {x.replace(P, '…')!r}")
                    ck.ob("text", key + "/kept", bool(found) or not needs, f"the text of {shown} is lost at {ch!r}", where)
                    t2 = new if keep else P if needs or nk[0] in ("strend", "chrend") else ""
                    if nk[0] in ("str", "strend") and new == "":
                        t2 = ""
                    if nk[0] == "punct":
                        t2 = ""
                    n2 = (f3, nk, t2)
                    if n2 not in seen:
                        seen.add(n2)
                        trace[n2] = new if eqs == set() and new in KEYWORDS or new in TYPEDEFS else path + ch
                        todo.append(n2)
                        if len(seen) > 800:
                            raise AnalysisError("the lexer has too many states")
            for p in pan:
                st = p[2] if isinstance(p, tuple) and len(p) > 2 and isinstance(p[2], State) else None
                ck.ob("step", f"{path}/panic", False, f"the lexer can panic after {shown}", where)
        ck.notes["states of the product"] = len(seen)
        ck.notes["transitions"] = nchars
        words = {n[2] for n in seen if n[1][0] == "ident"}
        for w in list(KEYWORDS) + list(TYPEDEFS):
            ck.ob("word", w, w in words, f"{w} is never lexed as itself", where, f"{w} is recognised")
    ck.guard("step", "product", product)

    # --- next
    tok = lambda v, *a: B.new("Token", v, *a)
    fsm = lambda name, t: ("e", L.start[1], L.start[2], (Sym("state", (name,), None), some(t)))

    def control():
        # the states of the scripts are real ones, so that `next` can ask what kind they are
        st = B.new("State", "BangEq") if "BangEq" in B.variants("State") else L.start[3][0]

        def F(t):
            return ("e", L.start[1], L.start[2], tuple(st if n == "state" else t for n, _ in I.adt_variant(L.start[1], L.start[2])["fields"]))
        A, Bt = F(some(tok("Tilde"))), F(some(tok("Comma")))
        for ws in (" ", "\t", "\n", "\r", "\x0b", "\x0c", " \n\t "):
            res, pan = L.lex(ws + "ab", [some(A), some(Bt)])
            for lx, r, tr in res:
                steps = [x for x in tr if x[0] == "step"]
                ck.ob("next", f"space/{ws!r}", not pan and [x[2] for x in steps] == [c(97), c(98)] and token_of(r) == tok("Comma"), f"white space {ws!r} before a token is not skipped", nw,
                      "white space before a token is skipped")
            res, pan = L.lex(ws, [])
            for lx, r, tr in res:
                ck.ob("next", f"end/{ws!r}", not pan and token_of(r) == "end", f"white space {ws!r} at the end gives {show(token_of(r), 3)}", nw)
        res, pan = L.lex("", [])
        for lx, r, tr in res:
            ck.ob("next", "end", not pan and token_of(r) == "end", "the end of the input is not the end of the tokens", nw, "the end of the input ends the tokens")
        res, pan = L.lex("ab", [NONE])
        for lx, r, tr in res:
            ck.ob("next", "invalid", not pan and token_of(r) == "error", "a character that starts no token is accepted", nw, "a character that starts no token is an error")
        for chars, outs, want, used in (("ab c", [some(A), some(Bt), NONE], tok("Comma"), 2), ("ab", [some(A), NONE], tok("Tilde"), 1), ("abc", [some(A), some(Bt), some(A)], tok("Tilde"), 3),
                                        ("a\n", [some(A), NONE], tok("Tilde"), 1), (" a+", [some(Bt), NONE], tok("Comma"), 2), ("abc", [some(A), some(F(NONE)), NONE], "error", 2)):
            res, pan = L.lex(chars, outs)
            for lx, r, tr in res:
                steps = [x for x in tr if x[0] == "step"]
                adv = sum(1 for x in tr if x[0] == "advance")
                key = f"longest/{chars}/{len(outs)}"
                ck.ob("next", key, not pan and token_of(r) == want, f"{chars!r}: the token is {show(token_of(r), 3)}, expected {show(want, 3)}", nw, "the token of the last state reached is returned")
                ck.ob("next", key + "/kept", want == "error" or adv == used, f"{chars!r}: {adv} characters are used up, expected {used}", nw, "the refused character is left")
                ck.ob("next", key + "/from", [x[1] for x in steps] == [L.start] + [o[3][0] for o in outs[:-1]][:len(steps) - 1], f"{chars!r}: the states are not followed in order", nw)
                ck.ob("next", key + "/names", all(x[3][1] == tuple(s(n) for n in TYPEDEFS) for x in steps), "the type names are not passed on", nw)
        # typedef bookkeeping
        toks = [tok("Typedef"), tok("Semicolon"), tok("LeftCurly"), tok("RightCurly"), tok("Identifier", s("x")), tok("LeftParen"), tok("Struct")]
        for inside in (0, 1):
            for depth in (0, 1, 2) if inside else (0,):
                for t in toks:
                    if t[2] == "RightCurly" and depth == 0 or t[2] == "Typedef" and inside:
                        continue
                    for outcome in ("Ok", "Err"):
                        ends = inside and t[2] == "Semicolon" and depth == 0
                        if outcome == "Err" and not ends:
                            continue
                        res_t = ("e", "std::result::Result", outcome, (("t", ()) if outcome == "Ok" else B.new("LexError", "InvalidTypedefDeclaration"),))
                        old = ("e", "std::result::Result", "Ok", (("t", (c(0), tok("Typedef"), c(1))),))
                        res, pan = L.lex("ab", [some(F(some(t))), NONE], typedef=res_t, inside_typedef_stmt=c(inside), typedef_stmt_nesting_depth=c(depth),
                                         typedef_stmt_buffer=q(old) if inside else q())
                        key = f"typedef/{inside}/{depth}/{t[2]}/{outcome}"
                        ck.ob("typedef", key + "/runs", bool(res) and not pan, "the lexer panics in a typedef declaration", nw)
                        for lx, r, tr in res:
                            buf = B.get(lx, "typedef_stmt_buffer")
                            parsed = [x for x in tr if x[0] == "typedef"]
                            at = B.get(parsed[0][1], "typedef_stmt_buffer") if parsed else buf
                            seen_toks = [x[3][0][1][1] for x in at[1]]
                            want = ([tok("Typedef")] if inside else []) + ([t] if inside or t[2] == "Typedef" else [])
                            ck.ob("typedef", key, token_of(r) == (t if outcome == "Ok" else "error"), f"in a typedef declaration {t[2]} gives {show(token_of(r), 3)}", nw)
                            ck.ob("typedef", key + "/buffer", seen_toks == want, f"a typedef declaration is remembered as {[x[2] for x in seen_toks]}, expected {[x[2] for x in want]}", nw, f"{t[2]} is remembered" if want else None)
                            ck.ob("typedef", key + "/parse", len(parsed) == int(bool(ends)), f"{t[2]} at depth {depth} {'does not end' if ends else 'ends'} the typedef declaration", nw)
                            d = depth + (1 if t[2] == "LeftCurly" else -1 if t[2] == "RightCurly" else 0) if inside else 0
                            if outcome == "Ok":
                                ck.ob("typedef", key + "/depth", B.get(lx, "typedef_stmt_nesting_depth") == c(d), "the braces of a typedef declaration are miscounted", nw)
                                i2 = int(t[2] == "Typedef" or inside and not ends)
                                ck.ob("typedef", key + "/inside", B.get(lx, "inside_typedef_stmt") == c(i2), f"after {t[2]} the lexer is {'not ' if i2 else ''}in a typedef declaration", nw)
    ck.guard("next", "control", control)

    # --- the name a typedef declaration defines
    def names():
        ptn = [f for n, f in I.prog.fns.items() if n.endswith("parse_typedef_name")][0]
        for nds, ident in ((1, some(s("newname"))), (0, None), (2, some(s("newname")))):
            def pol(n):
                m = n.split("::")[-1]
                if m == "parse" and "DeclarationParser" in n:
                    return lambda I, st, args, dty: [(st, ("e", "std::result::Result", "Ok", (decl,)))]
                if m == "new" and "DeclarationParser" in n:
                    return "pure"
                if m == "get_identifier_name":
                    return lambda I, st, args, dty: [(st, ident if ident is not None else NONE)]
                return None
            J = ck.interp(pol)
            C = Build(J)
            decl = C.new("Statement", "Declaration", Sym("specifier", (), None), q(*[Sym("declarator", (i,), None) for i in range(nds)]))
            st = State()
            old = ("e", "std::result::Result", "Ok", (("t", (c(0), tok("Typedef"), c(1))),))
            lx = J.cell(st, "lexer", C.new("Lexer", None, chars=Sym("chars", (), None), typedef_names=q(s("old")), inside_typedef_stmt=c(1), typedef_stmt_nesting_depth=c(0), typedef_stmt_buffer=q(old)))
            for s2, r in J.run(ptn, [lx], st):
                after = J.freeze(s2, J.deref(s2, lx))
                r = J.freeze(s2, r)
                key = f"name/{nds}"
                ns = [x[1] for x in C.get(after, "typedef_names")[1]]
                pw = ck.where(ptn.name)
                if nds == 1:
                    ck.ob("typedef", key, r[2] == "Ok" and ns == ["old", "newname"], f"a typedef declaration of newname makes the type names {ns}", pw, "the declared name becomes a type name")
                    ck.ob("typedef", key + "/buffer", r[2] != "Ok" or len(C.get(after, "typedef_stmt_buffer")[1]) == 0, "the next typedef declaration starts with the tokens of this one", pw)
                else:
                    ck.ob("typedef", key, r[2] == "Err" or ns.count("newname") == nds, f"a typedef declaration of {nds} names is accepted", pw)
    ck.guard("typedef", "names", names)
    for k, n in (("step", 10000), ("token", 150), ("text", 3000), ("word", 60), ("next", 40), ("typedef", 80)):
        ck.floor(k, n)
