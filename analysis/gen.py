"""Abstract inputs for the code generator: variables of every type in symbolic slots, and the code it builds."""
from absint import Sym, c, is_sym, show, AnalysisError, State
from irbuild import *
import wasmsem as ws
from wasmsem import num, add, ext, lo, const_of

INTS = {"I8": (8, "s"), "U8": (8, "z"), "I16": (16, "s"), "U16": (16, "z"), "I32": (32, "s"), "U32": (32, "z"), "I64": (64, "s"), "U64": (64, "z")}
FLOATS = {"F32": 32, "F64": 64}
PTR = ("PointerTo", "I32")
ARR = ("ArrayOf", "I32", 4)
CG = "back_end::target_code_generation::"


def unbox(v):
    return v[1] if v[0] == "box" else v


def tname(t):
    return t if isinstance(t, str) else t[0]


def size_bits(t):
    if t in INTS:
        return INTS[t][0]
    if t in FLOATS:
        return FLOATS[t]
    return 32


def sign(t):
    return INTS[t][1] if t in INTS else "z"


def wasm_ty(t):
    if t in ("I64", "U64"):
        return "i64"
    if t == "F32":
        return "f32"
    if t == "F64":
        return "f64"
    return "i32"


class Gen:
    def __init__(self, ck, policy=None, **kw):
        self.ck = ck
        self.I = ck.interp(policy, **kw)
        self.B = Build(self.I)
        self.conv = self.I.find(CG + "convert_ir_instr_to_wasm")
        self.md0 = self.B.call("middle_end::ir::ProgramMetadata::new")
        self.reset()
        self._frame_ptr()

    def _frame_ptr(self):
        p = self.I.prog
        self.ptr_size = 4

    def reset(self):
        self.vars = {}
        self.globals = {}
        self.types = []
        self.funs = []
        self.strs = []
        self.null = None
        self.n = 10

    def var(self, t, where="local", vt="RValue"):
        """a fresh variable of type t in its own slot"""
        self.n += 1
        v = self.B.var(self.n, vt)
        self.types.append((v, self.B.irty(t) if not (isinstance(t, tuple) and t and t[0] == "e") else t))
        off = Sym("in", (f"off{self.n}",), ("prim", "u32"))
        (self.vars if where == "local" else self.globals)[v] = off
        return v

    def fun(self, t, idx):
        self.n += 1
        f = self.B.id("FunId", self.n)
        self.funs.append((f, self.B.irty(t), self.B.new("FuncIdx", None, c(idx))))
        return f

    def metadata(self):
        B = self.B
        return B.upd(self.md0, var_types=B.map(self.types), function_types=B.map([(f, t) for f, t, _ in self.funs]),
                     null_dest_var=some(self.null) if self.null is not None else NONE)

    def fctx(self):
        B = self.B
        lab = B.var(9)
        return B.new("FunctionContext", None, var_fp_offsets=B.map(list(self.vars.items())), global_var_addrs=B.map(list(self.globals.items())),
                     label_variable=lab, control_flow_stack=q())

    def mctx(self, st, profiling=0, logidx=None):
        B = self.B
        prf = B.new("EnabledProfiling", None, c(profiling))
        fm = [(f, i) for f, _, i in self.funs]
        lid = NONE
        if profiling:
            f = B.id("FunId", 5)
            fm.append((f, B.new("FuncIdx", None, c(logidx))))
            lid = some(f)
        return B.new("ModuleContext", None, fun_id_to_func_idx_map=B.map(fm), string_literal_id_to_ptr_map=B.map(self.strs),
                     enabled_profiling=self.I.cell(st, "profiling", prf), log_stack_ptr_fun_id=lid)

    def code(self, instr, st=None, profiling=0, logidx=None, md=None):
        """[(state, items)] the instructions generated for an IR instruction"""
        I = self.I
        st = st or State()
        out = I.cell(st, "wasm_instrs", q())
        fc = I.cell(st, "fctx", self.fctx())
        mc = I.cell(st, "mctx", self.mctx(st, profiling, logidx))
        m = I.cell(st, "md", md or self.metadata())
        res = []
        for s2, _ in I.run(self.conv, [instr, out, fc, mc, m], st):
            v = I.freeze(s2, out)
            if v[0] != "q":
                raise AnalysisError("generated code is not a known sequence")
            res.append((s2, list(v[1])))
        return res

    def block(self, block, st=None, md=None, profiling=0, logidx=None, label_variable=None):
        """[(state, items)] the instructions generated for a block"""
        I = self.I
        st = st or State()
        fc = self.fctx()
        if label_variable is not None:
            fc = self.B.upd(fc, label_variable=label_variable)
        f = I.find(CG + "convert_block_to_wasm")
        res = []
        for s2, r in I.run(f, [block, I.cell(st, "fctx", fc), I.cell(st, "mctx", self.mctx(st, profiling, logidx)),
                               I.cell(st, "md", md or self.metadata())], st):
            v = I.freeze(s2, r)
            if v[0] != "q":
                raise AnalysisError("generated code is not a known sequence")
            res.append((s2, list(v[1])))
        return res

    def allocation_args(self, f, st, block, out, fty, params, mctx, md, opt):
        """arguments for allocate_local_vars"""
        I, B = self.I, self.B
        return B.bind(f, ("Block", block), ("WasmInstruction", out), ("IrType", B.irty(fty)), ("Vec<", q(*params)), ("ModuleContext", mctx),
                      ("ProgramMetadata", md), ("EnabledOptimisations", I.cell(st, "opt", opt)),
                      ("HashMap", I.cell(st, "globals", B.map(list(self.globals.items())))))

    def instr(self, name, *ops):
        return self.B.new("Instruction", name, self.B.id("InstructionId", 1), *ops)

    def src(self, v):
        return self.B.new("Src", "Var", v)

    def const(self, v, kind="Int"):
        return self.B.new("Src", "Constant", self.B.new("Constant", kind, v))

    # ---- meaning
    FP = ("mem", 32, num(32, 0), 0)
    SP = ("mem", 32, num(32, 8), 0)

    def addr(self, v):
        if v in self.globals:
            return const_of(32, self.globals[v])
        return add(32, self.FP, const_of(32, self.vars[v]))

    def value(self, v, t):
        """value of variable v of type t on the wasm stack"""
        m = ("mem", size_bits(t), self.addr(v), 0)
        if t in FLOATS:
            return m
        w = 64 if size_bits(t) == 64 else 32
        return ext(sign(t), w, m)

    def constant(self, n, t):
        """value of the compile-time number n as a constant of type t"""
        if t in FLOATS:
            return ws.fconst(size_bits(t), n)
        k = size_bits(t)
        w = 64 if k == 64 else 32
        return const_of(w, n)

    def machine(self, items, **kw):
        m = ws.Machine(self.B, **kw)
        m.run(items)
        return m

    def stored(self, v, t, term):
        """the memory word of variable v after assigning it the value term"""
        return lo(size_bits(t), term) if t not in FLOATS else term

    # ---- programs built by the middle end
    def program(self, st, extra_types=(), **md):
        """(reference to a Program, cell) with the variables declared so far"""
        B = self.B
        meta = B.upd(self.metadata(), var_id_generator=B.new("IdGenerator", None, some(B.var(1000))), **md)
        pr = B.new("Program", None, program_instructions=B.call("middle_end::ir::ProgramInstructions::new"), program_metadata=meta)
        return self.I.cell(st, "prog", pr)

    def adopt(self, md):
        """slots for the variables the middle end created"""
        known = dict(self.types)
        for v, t in self.B.get(md, "var_types")[2]:
            if v not in known:
                self.types.append((v, t))
                self.vars[v] = Sym("in", (f"tmp{self.vid(v)}",), ("prim", "u32"))

    def vid(self, v):
        return [x for x in v[3] if isinstance(x, tuple) and x[0] == "c"][0][1]

    def type_of(self, md, v):
        for k, t in self.B.get(md, "var_types")[2]:
            if k == v:
                return t
        return None

    def tdesc(self, t):
        """python description of an IrType value"""
        n = t[2]
        if n == "PointerTo":
            return ("PointerTo", self.tdesc(unbox(t[3][0])))
        if n == "ArrayOf":
            s_ = t[3][1]
            k = None
            if s_[2] == "Some" and s_[3][0][2] == "CompileTime":
                k = s_[3][0][3][0][1]
            return ("ArrayOf", self.tdesc(unbox(t[3][0])), k)
        if n in ("Struct", "Union"):
            return (n, self.vid(t[3][0]))
        if n == "Function":
            return ("Function", self.tdesc(unbox(t[3][0])), tuple(self.tdesc(x) for x in t[3][1][1]), t[3][2][1])
        return n

    def run_ir(self, instrs, md, m=None):
        """Meaning of a straight-line list of IR instructions: the code generated for each, in order."""
        m = m or ws.Machine(self.B)
        for i in instrs:
            outs = self.code(i, md=md)
            if len(outs) != 1:
                raise AnalysisError(f"{len(outs)} outcomes of generating code for {i[2]}")
            m.run(outs[0][1])
            if m.stack:
                raise ws.StackError("a value is left on the stack")
        return m

    def read_src(self, m, s_, md, t):
        """value of an IR operand after m, as a value of type t"""
        if s_[2] == "Constant":
            k = s_[3][0]
            return self.constant(k[3][0], t)
        v = s_[3][0]
        raw = m.read(size_bits(t), self.addr(v))
        if t in FLOATS:
            return raw
        return ext(sign(t), 64 if size_bits(t) == 64 else 32, raw)
