"""Running the middle end's optimiser on programs built from scratch."""
from dataflow import *
from gen import Gen

SWITCH = {"tail": "tail", "unreachable": "unreach", "stack": "stack"}


class Optim(Gen):
    def __init__(self, ck):
        super().__init__(ck)
        self.I.max_steps = 20_000_000
        self.f = self.I.find("middle_end::middle_end_optimiser::ir_optimiser::optimise_ir")
        self.names = self.B.arity("EnabledOptimisations")

    def flags(self, on):
        fields = {}
        for n in self.names:
            k = [x for x, y in SWITCH.items() if y in n]
            if len(k) != 1:
                raise AnalysisError("unknown switch " + n)
            fields[n] = c(int(k[0] in on))
        return self.B.upd(self.B.new("EnabledOptimisations"), **fields)

    def number(self, out, start=10):
        B = self.B
        return [("e", i[1], i[2], (B.id("InstructionId", start + k),) + tuple(i[3][1:])) for k, i in enumerate(out)]

    def optimise(self, funs, glob, on, names):
        """funs: {FunId: (instructions, type, [parameter variables], defined)}; [('Ok', {FunId: instructions}, global instructions, metadata) | ('Err', e)]"""
        I, B = self.I, self.B
        st = State()
        fs = [(f, B.new("Function", None, instrs=q(*ins), type_info=B.irty(t), param_var_mappings=q(*ps), body_is_defined=c(int(d))))
              for f, (ins, t, ps, d) in funs.items()]
        meta = B.upd(self.metadata(), var_id_generator=B.new("IdGenerator", None, some(B.var(1000))),
                     label_id_generator=B.new("IdGenerator", None, some(B.id("LabelId", 1000))),
                     instr_id_generator=B.new("IdGenerator", None, some(B.id("InstructionId", 5000))),
                     function_types=B.map([(f, B.irty(t)) for f, (_, t, _, _) in funs.items()]),
                     function_param_var_mappings=B.map([(f, q(*ps)) for f, (_, _, ps, _) in funs.items()]),
                     function_ids=B.map([(s(n), f) for n, f in names.items()]))
        pi = B.upd(B.call("middle_end::ir::ProgramInstructions::new"), functions=B.map(fs), global_instrs=q(*glob))
        pr = I.cell(st, "prog", B.new("Program", None, program_instructions=pi, program_metadata=meta))
        out = []
        I.panics.clear()
        for s2, r in I.run(self.f, B.bind(self.f, ("Program", pr), ("EnabledOptimisations", I.cell(st, "flags", on if isinstance(on, tuple) else self.flags(on)))), st):
            r = I.freeze(s2, r)
            p = I.freeze(s2, pr)
            if r[2] == "Err":
                out.append(("Err", r))
                continue
            pi = B.get(p, "program_instructions")
            out.append(("Ok", {f: list(B.get(x, "instrs")[1]) for f, x in B.get(pi, "functions")[2]}, list(B.get(pi, "global_instrs")[1]),
                        B.get(p, "program_metadata"), {f: x for f, x in B.get(pi, "functions")[2]}))
        if not out:
            raise ws.StackError("the optimiser panics" + (f": {I.panics[0][2]} in {I.panics[0][0].split('::')[-1]}" if I.panics else ""))
        return out


def same(i, j):
    """the same instruction, whatever its number"""
    return i[2] == j[2] and i[3][1:] == j[3][1:]


def targets(instrs):
    return {o for i in instrs if i[2] in ("Br", "BrIfEq", "BrIfNotEq") for o in i[3] if isinstance(o, tuple) and o[0] == "e" and o[1].endswith("::LabelId")}


def plain(instrs):
    """without instructions that do nothing"""
    t = targets(instrs)
    return [i for i in instrs if i[2] != "Nop" and not (i[2] == "Label" and i[3][1] not in t)]
