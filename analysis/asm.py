"""Module assembly with opaque function bodies."""
from absint import Sym, c, is_sym, show, AnalysisError, elem_ty, State
from irbuild import *

CB = "back_end::target_code_generation::"


def policy(name):
    if name.startswith(CB + "convert_") or "::allocate_vars::allocate_" in name:
        def f(I, st, args, dty):
            terms = tuple(I.freeze(st, a) for a in args)
            st.trace = st.trace + ((name, terms, None),)
            if dty == ("tuple", ()):
                return [(st, ("t", ()))]
            if elem_ty(dty) is not None:
                return [(st, ("q", (("splice", Sym("code", (terms[0],), dty)),)))]
            if dty[0] == "adt" and dty[1].endswith("HashMap"):
                return [(st, Sym("alloc", (terms[0],), dty))]
            if dty[0] == "tuple":
                return [(st, ("t", tuple(Sym("alloc%d" % k, (terms[0],), t) for k, t in enumerate(dty[1]))))]
            return NotImplemented
        return f
    return None


def program_blocks(B, funs, gb, label=890):
    v = B.upd(B.call("relooper::relooper::ProgramBlocks::new"), functions=B.map(funs), global_instrs=some(gb))
    # the variable that holds the next label in the global instructions, where it is recorded
    names = B.arity("ProgramBlocks")
    for n in names:
        if "label" in n:
            v = B.upd(v, **{n: some(B.var(label))})
    return v


class Assembly:
    """generate_target_code for a program with the given imports and defined functions (main first)"""

    def __init__(self, ck, prof=0, imports=("printf",), defined=("main", "f"), I=None, strings=(), opt=None, profiling=None):
        self.ck, self.prof = ck, prof
        I = self.I = I or ck.interp(policy)
        B = self.B = Build(I)
        md0 = B.call("middle_end::ir::ProgramMetadata::new")
        self.f = I.find(CB + "generate_target_code")
        order = list(imports) + list(defined)
        self.fids = {n: B.id("FunId", i) for i, n in enumerate(order)}
        fty = B.irty(("Function", "I32", [], False))
        md = B.upd(md0, function_ids=B.map([(s(n), self.fids[n]) for n in order]),
                   fun_id_generator=B.new("IdGenerator", None, some(B.id("FunId", len(order) - 1))),
                   function_types=B.map([(self.fids[n], fty) for n in order]))
        if strings:
            md = B.upd(md, string_literals=B.map([(B.id("StringLiteralId", k), x) for k, x in enumerate(strings)]))
        funs = []
        self.blocks = {}
        for n in order:
            if n in defined:
                b = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 100 + len(self.blocks)), q()), next=NONE)
                self.blocks[n] = b
                rf = B.new("ReloopedFunction", None, block=some(b), label_variable=some(B.var(900 + len(self.blocks))), type_info=fty, param_var_mappings=q(),
                           body_is_defined=c(1))
            else:
                rf = B.new("ReloopedFunction", None, block=NONE, label_variable=NONE, type_info=fty, param_var_mappings=q(), body_is_defined=c(0))
            funs.append((self.fids[n], rf))
        self.gb = B.new("Block", "Simple", internal=B.new("Label", None, B.id("LabelId", 99), q()), next=NONE)
        pr = B.new("ReloopedProgram", None, program_blocks=program_blocks(B, funs, self.gb),
                   program_metadata=md)
        self.outs = []
        for st, r in I.run(self.f, [pr, I.as_ref(opt or B.new("EnabledOptimisations")), I.as_ref(profiling or B.new("EnabledProfiling", None, c(prof)))]):
            r = I.freeze(st, r)
            if r[2] != "Ok":
                raise AnalysisError("module assembly fails: " + show(r, 3))
            self.outs.append((st, r[3][0]))

    def g(self, v, *p):
        for x in p:
            v = self.B.get(v, x)
        return v

    def imports(self, mod):
        return [(self.g(i, "module_name")[1], self.g(i, "field_name")[1], self.g(i, "import_descriptor")[2])
                for i in self.g(mod, "imports_section", "imports")[1]]

    def bodies(self, mod):
        """[(items, is_entry)]"""
        out = []
        for cdy in self.g(mod, "code_section", "function_bodies")[1]:
            items = list(self.g(cdy, "function_body", "instrs")[1])
            entry = any(isinstance(i, tuple) and i[0] == "splice" and is_sym(i[1]) and i[1].args and i[1].args[0] == self.gb for i in items)
            out.append((items, entry))
        return out

    def entry(self, mod):
        e = [i for i, x in self.bodies(mod) if x]
        if len(e) != 1:
            raise AnalysisError(f"{len(e)} functions run the global initialisers")
        return e[0]

    def import_index(self, mod, name):
        k = 0
        for m, n, d in self.imports(mod):
            if d == "Func":
                if n == name:
                    return k
                k += 1
        return None
