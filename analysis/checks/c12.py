"""C12: liveness."""
from dataflow import *

TECHNIQUE = "abstract interpretation of the flow graph and liveness computation (MIR) on structured blocks; comparison with least-fixpoint liveness over the blocks' own transition relation"
RULE = ("`generate_flowgraph` and `live_variable_analysis` are interpreted abstractly on the blocks the relooper makes of every enumerated "
        "control-flow graph, whose pieces read and write one another's variables. For every instruction the set reported live before it must "
        "contain every variable that some path of the blocks (break, continue, end of handled block, dispatch on the label variable, loop repetition, "
        "conditional arms including empty ones) reads before writing it.")
ASSUMPTIONS = ["what single instructions define and read is right (C11)"]


def reported(W, b):
    I, B = W.I, W.B
    st = State()
    gen = I.find("back_end::dataflow_analysis::flowgraph::generate_flowgraph")
    liv = I.find("back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis")
    I.panics.clear()
    out = []
    for s1, g in I.run(gen, B.bind(gen, ("Block", I.cell(st, "block", b))), st):
        for s2, m in I.run(liv, B.bind(liv, ("Flowgraph", I.cell(s1, "graph", I.freeze(s1, g)))), s1):
            m = I.freeze(s2, m)
            out.append({k: {x for x, _ in v[2]} for k, v in m[2]})
    if not out:
        raise ws.StackError("the analysis panics" + (f": {I.panics[0][2]}" if I.panics else ""))
    return out


def empty_arms(W, b, which):
    """the block with the label assignments of its conditionals removed, as dead-code removal leaves it"""
    def go(x):
        if isinstance(x, tuple) and x and x[0] == "e" and x[2] in ("IfEqElse", "IfNotEqElse") and x[1].endswith("Instruction"):
            arms = [q(*[go(y) for y in a[1] if not (len(a[1]) == 1 and y[2] == "SimpleAssignment" and k in which)]) for k, a in enumerate(x[3][3:5])]
            return x[:3] + (x[3][:3] + tuple(arms),)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return go(b)


def check(ck):
    W = Data(ck)
    where = ck.where("back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis")

    def judge(cls, key, b, lv):
        F = Flow(W.B, lv)
        true = liveness(F, *F.automaton(b))
        for got in reported(W, b):
            for k, (i, before, after) in true.items():
                if k not in got:
                    ck.ob(cls, f"{key}/missing", False, f"{key}: an instruction ({i[2]}) has no live variables recorded", where)
                    continue
                lack = before - got[k]
                ck.ob(cls, key, not lack, f"{key}: {len(lack)} variable(s) that may still be read are reported dead before {i[2]} "
                      f"(number {k[3][0][1]})", where, key)

    def one(case):
        cls, key, mk = case

        def go():
            W.begin()
            for b, lv in W.structured(mk()):
                judge(cls, key, b, lv)
                for w in ((0,), (1,), (0, 1)):
                    e = empty_arms(W, b, w)
                    if e != b:
                        judge("empty arms", f"{key}/{w}", e, None)
        ck.guard(cls, key, go)
    ck.parallel(one, cases(W, ck.tier == "thorough"))
    for k, n in (("graph/2", 100), ("graph/3", 2000), ("graph/large", 1000), ("list", 300), ("empty arms", 500)):
        ck.floor(k, n)
