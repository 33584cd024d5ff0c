"""C01: instruction and number encoding."""
import re
import absint
from absint import Sym, c, is_sym, show, AnalysisError, peel, elem_ty
from wasmbytes import *

RULE = ("Each integer encoder is classified by a bit-provenance analysis of its MIR (every exit's bytes are decoded bit by bit and "
        "compared with the input bits, for 32, 64 and 128 bit inputs). Then `to_bytes` of every WasmInstruction variant, value type, block "
        "type, limits, index and memory-argument type is interpreted abstractly with symbolic fields, giving a byte template per path, "
        "and every template is compared with the WebAssembly binary format. Immediates must be those of the fields, nested code must be "
        "the encodings of its elements in order (element lists of length 0, 1 and 2).")
ASSUMPTIONS = ["Rust's to_le_bytes gives little-endian bytes", "lists longer than 2 are handled like lists of length 2 (loops are uniform)"]

# opcode table: name -> (opcode bytes, immediates); immediates are type names taken from the variant's fields in order
OPS = {}


def op(name, code, *imm):
    OPS[name] = (code if isinstance(code, tuple) else (code,), imm)


op("Unreachable", 0x00); op("Nop", 0x01); op("Br", 0x0C, "LabelIdx"); op("BrIf", 0x0D, "LabelIdx")
op("BrTable", 0x0E, "vec:LabelIdx", "LabelIdx"); op("Return", 0x0F); op("Call", 0x10, "FuncIdx")
op("CallIndirect", 0x11, "TypeIdx", "TableIdx"); op("RefNull", 0xD0, "RefType"); op("RefIsNull", 0xD1); op("RefFunc", 0xD2, "FuncIdx")
op("Drop", 0x1A); op("Select", 0x1B); op("SelectTyped", 0x1C, "vec:ValType")
for i, n in enumerate(["LocalGet", "LocalSet", "LocalTee"]):
    op(n, 0x20 + i, "LocalIdx")
op("GlobalGet", 0x23, "GlobalIdx"); op("GlobalSet", 0x24, "GlobalIdx"); op("TableGet", 0x25, "TableIdx"); op("TableSet", 0x26, "TableIdx")
op("TableInit", (0xFC, 12), "ElemIdx", "TableIdx"); op("ElemDrop", (0xFC, 13), "ElemIdx"); op("TableCopy", (0xFC, 14), "TableIdx", "TableIdx")
op("TableGrow", (0xFC, 15), "TableIdx"); op("TableSize", (0xFC, 16), "TableIdx"); op("TableFill", (0xFC, 17), "TableIdx")
for i, n in enumerate("I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U I64Load8S I64Load8U I64Load16S I64Load16U "
                      "I64Load32S I64Load32U I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32".split()):
    op(n, 0x28 + i, "MemArg")
op("MemorySize", 0x3F, "=0"); op("MemoryGrow", 0x40, "=0"); op("MemoryInit", (0xFC, 8), "DataIdx", "=0"); op("DataDrop", (0xFC, 9), "DataIdx")
op("MemoryCopy", (0xFC, 10), "=0", "=0"); op("MemoryFill", (0xFC, 11), "=0")
op("I32Const", 0x41, "s"); op("I64Const", 0x42, "s"); op("F32Const", 0x43, "f32"); op("F64Const", 0x44, "f64")
k = 0x45
for t in ("I32", "I64"):
    for n in "Eqz Eq Ne LtS LtU GtS GtU LeS LeU GeS GeU".split():
        op(t + n, k); k += 1
for t in ("F32", "F64"):
    for n in "Eq Ne Lt Gt Le Ge".split():
        op(t + n, k); k += 1
for t in ("I32", "I64"):
    for n in "Clz Ctz PopCnt Add Sub Mul DivS DivU RemS RemU And Or Xor Shl ShrS ShrU RotL RotR".split():
        op(t + n, k); k += 1
for t in ("F32", "F64"):
    for n in "Abs Neg Ceil Floor Trunc Nearest Sqrt Add Sub Mul Div Min Max CopySign".split():
        op(t + n, k); k += 1
for n in ("I32WrapI64 I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U I64ExtendI32S I64ExtendI32U I64TruncF32S I64TruncF32U I64TruncF64S "
          "I64TruncF64U F32ConvertI32S F32ConvertI32U F32ConvertI64S F32ConvertI64U F32DemoteF64 F64ConvertI32S F64ConvertI32U F64ConvertI64S "
          "F64ConvertI64U F64PromoteF32 I32ReinterpretF32 I64ReinterpretF64 F32ReinterpretI32 F64ReinterpretI64 I32Extend8S I32Extend16S "
          "I64Extend8S I64Extend16S I64Extend32S").split():
    op(n, k); k += 1
assert k == 0xC5
for i, n in enumerate("I32TruncSatF32S I32TruncSatF32U I32TruncSatF64S I32TruncSatF64U I64TruncSatF32S I64TruncSatF32U I64TruncSatF64S I64TruncSatF64U".split()):
    op(n, (0xFC, i))


def norm(n):
    return n.lower().replace("_", "")


NOPS = {norm(k): v for k, v in OPS.items()}
PATH = {**{i: WIDX + i for i in IDX}, "RefType": WT + "RefType", "ValType": WT + "ValType", "MemArg": BE + "wasm_instructions::MemArg"}


def simple_spec(B, st, vname, names, vals, tys):
    if norm(vname) not in NOPS:
        return None
    code, imm = NOPS[norm(vname)]
    out = [("byte", code[0])] + [("u", x) for x in code[1:]]
    left = list(zip(names, vals, tys))

    def take(pred):
        for i, x in enumerate(left):
            if pred(x[2]):
                return left.pop(i)[1]
        raise AnalysisError(f"{vname} has no field for its immediate")
    for im in imm:
        if im.startswith("="):
            out.append(("byte", int(im[1:])))
        elif im == "s":
            out.append(("s", take(lambda t: t[0] == "prim")))
        elif im in ("f32", "f64"):
            out.append((im, take(lambda t: t == ("prim", im))))
        elif im.startswith("vec:"):
            v = take(lambda t: elem_ty(t) is not None)
            out += vec_spec(B, st, PATH[im[4:]], v)
        else:
            v = take(lambda t: t[0] == "adt" and t[1].split("::")[-1] == im)
            out += spec_of(B, st, PATH[im], v)
    if left:
        raise AnalysisError(f"{vname} has fields that are no immediates: {[x[0] for x in left]}")
    return out


def struct_spec(B, st, vname, names, vals):
    """Block, Loop, IfElse"""
    f = dict(zip(names, vals))
    code = {"Block": 0x02, "Loop": 0x03, "IfElse": 0x04}[vname]
    bt = [v for n, v in f.items() if "type" in n]
    body = [(n, v) for n, v in f.items() if "type" not in n]
    head = [("byte", code)] + spec_of(B, st, BE + "wasm_instructions::BlockType", bt[0])

    def code_of(v):
        return [("enc", WI, e) for e in elems(B.I, st, v)]
    if vname != "IfElse":
        return head + code_of(body[0][1]) + [("byte", 0x0B)]
    e = [v for n, v in body if "else" in n][0]
    t = [v for n, v in body if "else" not in n][0]
    full = head + code_of(t) + [("byte", 0x05)] + code_of(e) + [("byte", 0x0B)]
    if not elems(B.I, st, e):     # an empty else branch may be left out
        return [("alt", [full, head + code_of(t) + [("byte", 0x0B)]])]
    return full


def check(ck):
    B = Bytes(ck)
    I = B.I
    prog = ck.lib()
    for n, (caps, rep) in sorted(B.enc.items()):
        ck.ob("encoder", n, bool(caps), f"{n} is no LEB128 encoder: {rep}", ck.where(n), f"{n}: {sorted(caps)} ({rep})")
    ck.ob("encoder", "unsigned", any("uleb" in v[0] for v in B.enc.values()), "no unsigned LEB128 encoder found")
    ck.ob("encoder", "signed", any("sleb" in v[0] for v in B.enc.values()), "no signed LEB128 encoder found")
    B.opaque = {WI}
    f = B.to_bytes_fn(WI)
    wty = ("adt", WI, ())
    for v in prog.adts[WI]["variants"]:
        vn = v["name"]

        def one(vn=vn):
            fts = I.field_tys(wty, vn)
            vals = [I.sym(n, t) for n, t in fts]
            val = ("e", WI, vn, tuple(vals))
            outs = B.streams(WI, val)
            ck.ob("instruction", vn + "/total", bool(outs), f"{vn} is never encoded", ck.where(f.name))
            for st, items in outs:
                names, tys = [n for n, _ in fts], [t for _, t in fts]
                if vn in ("Block", "Loop", "IfElse"):
                    sp = struct_spec(B, st, vn, names, vals)
                else:
                    sp = simple_spec(B, st, vn, names, vals, tys)
                if sp is None:
                    ck.ob("instruction", vn, False, f"{vn} is no instruction of the binary format", ck.where(f.name))
                    return
                bad = B.match(st, items, sp)
                ck.ob("instruction", vn, bad is None, f"{vn} is written as {show_items(items)}: {bad}", ck.where(f.name),
                      f"{vn} -> {show_items(items)}")
        ck.guard("instruction", vn, one)
    # the immediates' own types, and WasmExpression
    for ty in sorted([WIDX + i for i in IDX] + [WT + x for x in ("NumType", "RefType", "ValType", "Limits", "TableType", "MemoryType", "GlobalType")] +
                     [BE + "wasm_instructions::BlockType", BE + "wasm_instructions::MemArg", BE + "wasm_instructions::WasmExpression"]):
        if ty not in prog.adts:
            if ty.split("::")[-1] in IDX:
                continue
            ck.ob("type", ty, False, f"type {ty} not found")
            continue
        if "<" + ty + TB not in prog.fns:
            continue

        def two(ty=ty):
            val = I.sym(ty.split("::")[-1].lower(), ("adt", ty, ()))
            for st, items in B.streams(ty, val):
                if ty.endswith("WasmExpression"):
                    fs = fields(I, st, val)
                    sp = [("enc", WI, e) for e in elems(I, st, list(fs.values())[0])] + [("byte", 0x0B)]
                else:
                    sp = spec_of(B, st, ty, val)
                bad = B.match(st, items, sp)
                nm = ty.split("::")[-1]
                ck.ob("type", nm, bad is None, f"{nm} is written as {show_items(items)}: {bad}", ck.where("<" + ty + TB), f"{nm} -> {show_items(items)}")
        ck.guard("type", ty, two)
    for n, l, w, s in I.panics:
        ck.ob("total", n + "/" + str(w), False, f"encoding may panic in {n} ({w})", ck.where(n))
    ck.floor("instruction", 180)
    ck.floor("type", 20)
    ck.floor("encoder", 3)
