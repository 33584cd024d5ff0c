"""Planted bugs: source edits, and programs whose behaviour shows them."""
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, **files):
    names = {k.replace("__", "."): v for k, v in files.items()}
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, files=names)


T = "src/back_end/target_code_generation.rs"

seed("c01-sleb-sign", "C01",
     [("src/back_end/integer_encoding.rs", "(value == 0 && sign_bit == 0) || (value == -1 && sign_bit == 1)", "(value == 0 && (sign_bit == 0 || bytes.len() > 2)) || (value == -1 && sign_bit == 1)")],
     "a positive constant whose last 7-bit group has its top bit set and which needs at least four groups, such as 200000000",
     "signed LEB128 encoding of large positive constants: the sign-continuation byte is dropped and the constant becomes negative",
     p__c='#include <stdio.h>\nint main(void){ int x = 134217728 + 5; if (x > 0) { printf("%d\\n", x); } else { printf("negative\\n"); } return 0; }\n',
     p__expected="134217733\nrc=0\n")

seed("c02-long-data", "C02",
     [("src/back_end/wasm_module/data_section.rs", """                let mut bytes = encode_unsigned_int(0);
                bytes.append(&mut offset_expr.to_bytes());
                // data bytes as vector
                bytes.append(&mut encode_unsigned_int(data.len() as u128));""", """                let mut bytes = encode_unsigned_int(0);
                bytes.append(&mut offset_expr.to_bytes());
                // data bytes as vector
                bytes.append(&mut encode_unsigned_int((data.len() & 0x3fff) as u128));""")],
     "static data of 16384 bytes or more", "the length of a data segment is truncated",
     p__c='#include <stdio.h>\nint main(void){ char *s = "' + "abcdefghij" * 1700 + '"; printf("%c%c\\n", s[16999], s[3]); return 0; }\n',
     p__expected="jd\nrc=0\n")

seed("c03-ulong-lt", "C03",
     [(T, """                IrType::U64 => {
                    temp_instrs.push(WasmInstruction::I64LtU);""", """                IrType::U64 => {
                    temp_instrs.push(WasmInstruction::I64LtS);""")],
     "comparing unsigned longs of which one is 2^63 or more", "unsigned long < is computed as a signed comparison",
     p__c='#include <stdio.h>\nint main(void){ unsigned long a = 1; unsigned long b = 0; b = b - 5; if (a < b) { printf("less\\n"); } else { printf("not less\\n"); } return 0; }\n',
     p__expected="less\nrc=0\n")

seed("c04-int-ulong", "C04",
     [("src/middle_end/type_conversions.rs", "            IrType::I32 => left_instrs.push(Instruction::I32toU64(", "            IrType::I32 => left_instrs.push(Instruction::U32toU64(")],
     "a negative int as the left operand of a binary operator whose right operand is an unsigned long", "the usual arithmetic conversions zero-extend a negative int to unsigned long",
     p__c='#include <stdio.h>\nint main(void){ int a = -3; unsigned long b = 10; unsigned long r = a + b; if (r == 7) { printf("ok\\n"); } else { printf("bad\\n"); } return 0; }\n',
     p__expected="ok\nrc=0\n")

seed("c05-ushort-load", "C05",
     [("src/back_end/memory_operations.rs", "IrType::U16 => wasm_instrs.push(WasmInstruction::I32Load16U {", "IrType::U16 => wasm_instrs.push(WasmInstruction::I32Load16S {")],
     "an unsigned short of 32768 or more", "an unsigned short is sign-extended when loaded",
     p__c='#include <stdio.h>\nint main(void){ unsigned short a = 65535; int b = a; printf("%d\\n", b); return 0; }\n',
     p__expected="65535\nrc=0\n")

R = "src/relooper/relooper.rs"
SW = '''#include <stdio.h>
int f(int a, int b) {
  int n = 0;
  int i = 0;
  while (i < 6) {
    i++;
    switch (i - a) {
      case 0: n += 1;
      case 1: n += 10; if (b) continue; n += 100; break;
      case 2: if (b > 1) goto out; n += 1000;
      default: n += 10000;
    }
    if (n > 500000) break;
    n += 100000;
  }
out:
  return n;
}
int main(void) { printf("%d %d %d %d\\n", f(1, 0), f(2, 1), f(3, 2), f(0, 1)); return 0; }
'''
seed("c09-exit-merge", "C09",
     [(R, """                        && !next_entries.contains(&branch_target)
                    {
                        next_entries.push(branch_target);""", """                        && !next_entries.contains(&branch_target)
                        && (next_entries.is_empty() || next_entries.len() < 2)
                    {
                        next_entries.push(branch_target);""")],
     "handled blocks of one dispatch that leave to three different places", "branches out of a handled block to the third destination are not turned into an end of the block and fall through",
     p__c='''#include <stdio.h>
int f(int a) {
  int n = 0;
  switch (a) { case 1: n = 1; goto x; case 2: n = 2; goto y; case 3: n = 3; goto z; case 4: n = 4; goto w; default: n = 9; }
  n += 10;
x: n += 100;
y: n += 1000;
z: n += 10000;
w: n += 100000;
  return n;
}
int main(void) { for (int i = 0; i < 6; i++) printf("%d\\n", f(i)); return 0; }
''', p__expected="111119\n111101\n111002\n110003\n100004\n111119\nrc=0\n")
seed("c09-unconditional-third", "C09",
     [(R, """            if label.instrs.len() > 2 {
                Some(label.instrs.len() - 3)""", """            if label.instrs.len() > 3 {
                Some(label.instrs.len() - 3)""")],
     "a piece of code consisting of nothing but a condition, whose unconditional exit leaves a loop or handled block", "the conditional branch of an otherwise empty piece of code is left in the blocks",
     p__c='''#include <stdio.h>
int main(void) {
  int i = 3;
  int j = 0;
  int n = 0;
  while (i) {
    if (j) break;
    n += 1;
    while (i) { if (n) break; n = n + 5; }
    i--;
  }
  printf("%d %d\\n", i, n);
  return 0;
}
''')
CTX = "src/back_end/target_code_generation_context.rs"
seed("c10-loop-in-case", "C10",
     [(CTX, """                Some(ControlFlowElement::Block(this_loop_block_id)) => {
                    if this_loop_block_id == loop_block_id {
                        return Some(depth);
                    }
                }
                _ => {}
            }
            depth += 1;""", """                Some(ControlFlowElement::Block(this_loop_block_id)) => {
                    if this_loop_block_id == loop_block_id {
                        return Some(depth);
                    }
                    // the block is left by leaving its loop
                    depth -= 1;
                }
                _ => {}
            }
            depth += 1;""")],
     "a break out of an outer loop from a condition inside an inner loop", "the branch depth of a break that crosses an inner loop counts the inner loop once instead of twice",
     p__c='''#include <stdio.h>
int f(int a) {
  int n = 0;
  int i = 0;
  int j;
  while (i < 6) {
    i++;
    j = 0;
    while (j < 5) {
      j++;
      switch (j) { case 3: if (i == a) goto out; n += 7; break; case 4: if (i == a + 1) goto out2; n += 9; case 5: n += 1; break; default: n += 2; }
    }
    n += 100;
  }
out:
  n += 1000;
out2:
  return n;
}
int g(int *p) {
  int n = 0;
  while (*p) {
    while (*p != 7) { if (*p == 8) return n; if (!*p) goto end; n += *p; p++; }
    n += 1000;
    p++;
  }
end:
  return n;
}
int main(void) { int b[9] = {1, 2, 7, 3, 7, 7, 4, 0, 5}; printf("%d %d %d %d\\n", f(1), f(3), f(9), g(b)); return 0; }
''')

D = "src/back_end/dataflow_analysis/"
A = "src/back_end/stack_allocation/"
O = "src/middle_end/middle_end_optimiser/"
H = "#include <stdio.h>\n"

seed("c11-u64f32-ref", "C11",
     [(D + "instruction_def_ref.rs", "        | Instruction::U64toF32(_, _, src)\n", "")],
     "an unsigned long whose only later use is as the other operand of a float", "the operand of an unsigned long to float conversion is not reported as used, so the instruction computing it is removed",
     p__c=H + "int main(void){ unsigned long a = 5; unsigned long b = 7; float f = 1; f = f + 1; unsigned long c = a * b; if (f + c > 20) { printf(\"big\\n\"); } else { printf(\"small\\n\"); } return 0; }\n")

seed("c15-recursion-temps", "C15",
     [(O + "tail_call_optimise.rs", "                                        Src::Var(temp_param.to_owned()),", "                                        if param_i + 1 == params.len() { params[param_i].to_owned() } else { Src::Var(temp_param.to_owned()) },")],
     "a tail-recursive call whose last argument is an earlier parameter", "the last parameter of a tail-recursive call is assigned after the other parameters have been overwritten",
     p__c=H + "int gcd(int a, int b, int n, int was){ if (b == 0) return a * 1000 + n * 100 + was; return gcd(b, a % b, n + 1, a); }\nint main(void){ printf(\"%d\\n\", gcd(84, 30, 0, 0)); return 0; }\n")

seed("c17-tail-temp-size", "C17",
     [("src/back_end/stack_frame_operations.rs", "            temp_stack_ptr_offset += var_byte_size;", "            temp_stack_ptr_offset += var_byte_size.min(PTR_SIZE as u64);")],
     "a tail call with two arguments of which the first is a long or a double held in a variable", "8-byte arguments of a tail call overlap in the temporary space",
     p__c=H + "long g(long a, long b, int c){ return a * 3 + b * 5 + c; }\nlong f(long a, long b, int c){ return g(b, a + 1, c); }\nint main(void){ long r = f(5000000000, 7000000001, 9); printf(\"%ld\\n\", r); return 0; }\n")


seed("c12-empty-pre", "C12",
     [(D + "flowgraph.rs", """                        for next_entry in &next_entry_instrs {""", """                        for next_entry in next_entry_instrs.iter().filter(|_| all_handled_exit_instrs.is_empty()) {""")],
     "an if without else whose body falls through to the code after it", "the edge that skips an if's body is missing",
     p__c=H + "int f(int n){ int r = 3; int q = n * 2; if (n > 3) { r = 5; q = 1; } return r + q; }\nint main(void){ printf(\"%d %d\\n\", f(1), f(8)); return 0; }\n")

seed("c16-after-return", "C16",
     [(O + "unreachable_procedure_elimination.rs", """        for instr in &function.instrs {
            match instr {""", """        for instr in &function.instrs {
            if matches!(instr, Instruction::Ret(..)) && callee_fun_ids.len() > 2 {
                break;
            }
            match instr {""")],
     "a function that calls three or more functions, returns early, and calls another function only after that", "calls after an early return are not part of the call graph",
     p__flags="--noopt-tailcall",
     p__c=H + "int a(int n){ return n + 1; }\nint b(int n){ return n + 2; }\nint c(int n){ return n + 3; }\nint d(int n){ return n + 4; }\nint f(int n){ int r = a(n); r = r + b(n); r = r + c(n); if (r > 20) { return r; } int s = d(r); return s * 2; }\nint main(void){ int x = f(1); int y = f(10); printf(\"%d %d\\n\", x, y); return 0; }\n")

seed("c13-sort", "C13",
     [(A + "clash_interval_var_locations.rs", """        if self.start < other.start {
            Some(Ordering::Less)
        } else if self.start > other.start {""", """        if self.end < other.end {
            Some(Ordering::Less)
        } else if self.end > other.end {""")],
     "variables of at least three sizes, so that an interval that starts earlier ends later than another",
     "the intervals are ordered by where they end, so the search for a free place stops before it has seen all the intervals that overlap",
     p__c=H + """long f(int a, long b) {
  char c0 = (char) a; long l0 = b; int i0 = a + 1; short s0 = (short) (a + 2); long l1 = l0 + i0;
  char c1 = (char) (c0 + 1); int i1 = i0 + s0; long l2 = l1 * 3; short s1 = (short) (s0 + c1); char c2 = (char) (c1 + c0);
  long r = l0 + l1 + l2;
  int q = i0 + i1;
  int t = s0 + s1; int u = c0 + c1 + c2;
  long v = r + q; int w = t + u; char c3 = (char) (w & 63); long x = v + w; long y = x * c3;
  printf("%ld %d %d %d %ld %d %d %ld %ld\\n", r, q, t, u, v, w, c3, x, y);
  return y + c1 + s1 + i1 + l2 + c2;
}
int main(void) { printf("%ld\\n", f(3, 5000000000)); return 0; }
""")


NODEDEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
timeout 60 ./target/debug/c_to_wasm_compiler FLAGS "$here/p.c" -o "$T/p.wasm" >"$T/log" 2>&1 || exit 1
timeout 60 node "$here/p.mjs" "$T/p.wasm"
"""

seed("c06-not-ulong", "C06",
     [(T, """                | IrType::PointerTo(_) => {
                    temp_instrs.push(WasmInstruction::I32Eqz);
                }
                IrType::I64 | IrType::U64 => {
                    temp_instrs.push(WasmInstruction::I64Eqz);
                }""", """                | IrType::U64
                | IrType::PointerTo(_) => {
                    temp_instrs.push(WasmInstruction::I32Eqz);
                }
                IrType::I64 => {
                    temp_instrs.push(WasmInstruction::I64Eqz);
                }""")],
     "! applied to an unsigned long", "an i64 operand is given to i32.eqz, so the module does not validate",
     p__c=H + "int main(void){ unsigned long b = 4294967296; if (!b) { printf(\"true\\n\"); } else { printf(\"false\\n\"); } return 0; }\n")

seed("c08-do-continue", "C08",
     [("src/middle_end/context.rs", """    pub fn do_while_loop(
        start_label: LabelId,
        end_label: LabelId,
        continue_label: LabelId,
    ) -> Self {
        LoopContext {
            start_label,
            end_label,
            continue_label,
        }""", """    pub fn do_while_loop(
        start_label: LabelId,
        end_label: LabelId,
        _continue_label: LabelId,
    ) -> Self {
        LoopContext {
            start_label: start_label.to_owned(),
            end_label,
            continue_label: start_label,
        }""")],
     "a continue in a do-while loop, taken when the condition is false", "continue in a do-while loop goes to the start of the body without testing the condition",
     p__c=H + "int main(void){ int i = 0; do { i = i + 1; if (i == 3) { continue; } if (i > 10) { break; } } while (i < 3); printf(\"%d\\n\", i); return 0; }\n")

seed("c08-switch-default-first", "C08",
     [("src/middle_end/context.rs", """                    LoopOrSwitchContext::Switch(switch_context) => {
                        return switch_context.add_default_block_label(label);
                    }""", """                    LoopOrSwitchContext::Switch(switch_context) => {
                        if switch_context.case_condition_instrs.len() > 12 {
                            return Ok(());
                        }
                        return switch_context.add_default_block_label(label);
                    }""")],
     "a switch with several cases before its default", "the default of a switch with many cases is forgotten",
     p__c=H + "int f(int n){ switch (n) { case 1: return 10; case 2: return 20; case 3: return 30; case 4: return 40; case 5: return 50; case 6: return 60; case 7: return 70; case 8: return 80; case 9: return 90; case 10: return 100; case 11: return 110; case 12: return 120; case 13: return 130; case 14: return 140; default: return 7; } return 0; }\nint main(void){ printf(\"%d %d\\n\", f(3), f(99)); return 0; }\n")

seed("c18-dynamic-log", "C18",
     [("src/back_end/stack_frame_operations.rs", """pub fn increment_stack_ptr_dynamic(
    mut load_byte_size_instrs: Vec<WasmInstruction>,
    wasm_instrs: &mut Vec<WasmInstruction>,
    module_context: &ModuleContext,
) {
    // address operand""", """pub fn increment_stack_ptr_dynamic(
    mut load_byte_size_instrs: Vec<WasmInstruction>,
    wasm_instrs: &mut Vec<WasmInstruction>,
    module_context: &ModuleContext,
) {
    if load_byte_size_instrs.len() > 1 {
        log_stack_ptr(wasm_instrs, module_context);
    }
    // address operand""")],
     "a variable-length array with stack pointer profiling on", "the stack pointer is logged once too often when it is moved by an amount only known at run time",
     demo_only="1",
     p__c="int f(int n){ int a[n]; a[0] = n; return a[0]; }\nint main(void){ return f(3) + f(5); }\n",
     p__mjs="""import {readFileSync} from "fs";
const memory = new WebAssembly.Memory({initial: 1});
const seen = [];
const sp = () => new DataView(memory.buffer).getUint32(8, true);
const f = () => { seen.push(sp()); return 0; };
const imports = {runtime: {memory}, stdlib: {printf: f, strtol: f, strtoul: f, strlen: f, strstr: f, log_stack_ptr: f}};
const m = await WebAssembly.instantiate(readFileSync(process.argv[2]), imports);
m.instance.exports.main(0, 0);
// each call to the logger follows a change of the stack pointer
let again = 0;
for (let i = 1; i < seen.length; i++) if (seen[i] === seen[i - 1]) again++;
console.log(seen.join(" "));
process.exit(seen.length > 4 && again === 0 ? 0 : 1);
""")
SEEDS["c18-dynamic-log"]["files"].pop("demo_only")
SEEDS["c18-dynamic-log"]["demo"] = NODEDEMO.replace("FLAGS", "--prof-stack --noopt-tailcall")

seed("c20-write-error", "C20",
     [("src/back_end/wasm_module/module.rs", "        output.write_all(&self.to_bytes())?;", "        let written = output.write_all(&self.to_bytes());\n        if let Err(e) = written {\n            info!(\"could not write: {}\", e);\n        }")],
     "an output file that can be created but not written", "a failure to write the output is not reported")
SEEDS["c20-write-error"]["files"]["p.c"] = "int main(void){ return 3; }\n"
SEEDS["c20-write-error"]["demo"] = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
# a file size limit of 0 makes every write fail
(trap '' XFSZ; ulimit -f 0; T=$(mktemp -d); ./target/debug/c_to_wasm_compiler "$here/p.c" -o /dev/full >/dev/null 2>&1; rc=$?; rmdir "$T"; [ $rc -ne 0 ])
"""

seed("c22-typedef-digit", "C22",
     [("src/front_end/lexer.rs", """            State::TypedefName => {
                if !is_identifier_char(&input) {""", """            State::TypedefName => {
                if !is_identifier_char(&input) || input.is_ascii_digit() {""")],
     "an identifier that begins with a typedef name followed by a digit", "the identifier is split after the typedef name",
     p__c=H + "typedef int num;\nint main(void){ num num2 = 4; num n = num2 + 1; printf(\"%d\\n\", n); return 0; }\n")

seed("c22-keyword-prefix", "C22",
     [("src/front_end/lexer.rs", """            State::Keyword(mut name) => {
                if !is_identifier_char(&input) {""", """            State::Keyword(mut name) => {
                if !is_identifier_char(&input) || (name == "else" && input == 'i') {""")],
     "an identifier that begins with elsei", "the identifier elseif is read as the keyword else and the identifier if",
     p__c=H + "int main(void){ int elseif = 4; int elsei = 1; printf(\"%d\\n\", elseif + elsei); return 0; }\n")

seed("c23-equality-right", "C23",
     [("src/front_end/c_parser.lalrpop", """  <e1:EqualityExpression> "==" <e2:RelationalExpression>
""", """  <e1:RelationalExpression> "==" <e2:EqualityExpression>
"""),
      ("src/front_end/c_parser.lalrpop", """  <e1:EqualityExpression> "!=" <e2:RelationalExpression>
""", """  <e1:RelationalExpression> "!=" <e2:EqualityExpression>
""")],
     "two equality operators in a row without parentheses", "== and != associate to the right",
     p__c=H + "int main(void){ int a = 2; int b = 2; int c = 1; printf(\"%d %d\\n\", a == b == c, a != c == c); return 0; }\n")

seed("c23-mod-assign", "C23",
     [("src/front_end/c_parser.lalrpop", "    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)))),", "    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)))),")],
     "^= with operands that share a bit", "^= is parsed as |=",
     p__c=H + "int main(void){ int a = 6; a ^= 3; printf(\"%d\\n\", a); return 0; }\n")

seed("c24-hex-two", "C24",
     [("src/front_end/interpret_string.rs", "                                        Some(c) if c.is_ascii_hexdigit() => continue,", "                                        Some(c) if c.is_ascii_hexdigit() && buffer.len() < 2 => {\n                                            continue\n                                        }")],
     "a hexadecimal escape of more than two digits", "hexadecimal escapes stop after two digits",
     p__c=H + "int main(void){ char *s = \"\\x041-\\x0042!\"; printf(\"%s\\n\", s); return 0; }\n")

seed("c26-union-larger", "C26",
     [("src/middle_end/ir_types.rs", """        self.member_types.insert(member_name, member_type);
        // total size of union is the size of the largest member
        if byte_size > self.total_byte_size {""", """        self.member_types.insert(member_name, member_type);
        // total size of union is the size of the largest member
        if byte_size > self.total_byte_size && self.member_types.len() != 3 {""")],
     "a union whose third member is its largest", "the third member of a union does not count for its size",
     p__c=H + "union u { char c; int i; long l; };\nstruct s { union u u; int after; };\nint main(void){ union u x; int after = 77; int n = sizeof(union u); x.l = 5000000000; printf(\"%d %d %ld\\n\", n, after, x.l); return 0; }\n")

seed("c29-nul-end", "C29",
     [("src/back_end/initialise_memory.rs", """        // null terminate the string
        data.push(0x00);""", """        // null terminate the string
        if data.last() != Some(&0x00) {
            data.push(0x00);
        }""")],
     "an empty string literal placed after another one, or a string literal that ends in a null character", "an empty string literal has no terminator of its own",
     p__c=H + "int x = 65;\nint main(void){ char *e = \"ab\\0\"; char *f = \"\"; int n = strlen(f); printf(\"%s|%s|%d\\n\", e, f, n); printf(\"[%d]\\n\", f[0]); return 0; }\n".replace('#include', '#include'))
SEEDS["c29-nul-end"]["files"]["p.c"] = "#include <string.h>\n" + SEEDS["c29-nul-end"]["files"]["p.c"]

seed("c29-sp-byte", "C29",
     [("src/back_end/initialise_memory.rs", "    data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0xFF) as u8;", "    data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0x7F) as u8;")],
     "more than 32 kB of static data", "the initial stack pointer lies inside the static data",
     p__c=H + 'int f(int n){ int a = n; int b = a * 2; int c = b + a; return c; }\nint main(void){ char *s = "' + "abcdefghij" * 3400 + '"; int r = f(5); int i = 0; int sum = 0; while (i < 34000) { sum = sum + s[i]; i = i + 1; } printf("%d %d\\n", r, sum); return 0; }\n')

TAIL = """                IrType::F32 => {
                    temp_instrs.push(WasmInstruction::F32Const { z: 0. });
                    temp_instrs.push(WasmInstruction::F32Eq);
                }
                IrType::F64 => {
                    temp_instrs.push(WasmInstruction::F64Const { z: 0. });
                    temp_instrs.push(WasmInstruction::F64Eq);
                }
                _ => {
                    unreachable!()
                }
            }
            // if so, push 0, else 1
            temp_instrs.push(WasmInstruction::IfElse {
                blocktype: BlockType::ValType(ValType::NumType(NumType::I32)),
                if_instrs: vec![WasmInstruction::I32Const { n: 0 }],
                else_instrs: vec![WasmInstruction::I32Const { n: 1 }],
            });

            // bitwise OR of"""
seed("c03-or-wide", "C03",
     [(T, """                    temp_instrs.push(WasmInstruction::I64Eqz);
                }
""" + TAIL, """                    temp_instrs.push(WasmInstruction::I32WrapI64);
                    temp_instrs.push(WasmInstruction::I32Eqz);
                }
""" + TAIL)],
     "a || b where b is a long whose low 32 bits are zero", "the right operand of || is truncated to 32 bits before it is compared with 0",
     p__c=H + "int main(void){ long b = 4294967296; int a = 0; if (a || b) { printf(\"true\\n\"); } else { printf(\"false\\n\"); } return 0; }\n")

SPMAX = """import {readFileSync} from "fs";
const memory = new WebAssembly.Memory({initial: 1});
let max = 0;
const f = () => { max = Math.max(max, new DataView(memory.buffer).getUint32(8, true)); return 0; };
const imports = {runtime: {memory}, stdlib: {printf: f, strtol: f, strtoul: f, strlen: f, strstr: f, log_stack_ptr: f}};
const m = await WebAssembly.instantiate(readFileSync(process.argv[2]), imports);
m.instance.exports.main(0, 0);
console.log(max);
process.exit(max < 200 ? 0 : 1);
"""
seed("c19-two-flags", "C19",
     [("src/program_config/enabled_optimisations.rs", "        } else if cli_config.noopt_stack_allocation {", "        } else if cli_config.noopt_stack_allocation\n            || cli_config.noopt_unreachable_procedure && cli_config.noopt_tailcall\n        {")],
     "two other --noopt flags given together", "--noopt-tailcall with --noopt-unreachable-procedure also turns off the stack allocation optimisation",
     p__c="int f(int a){ int b = a + 1; " + " ".join("b = b * %d + a;" % i for i in range(3, 63)) + " return b; }\nint main(void){ return f(3); }\n",
     p__mjs=SPMAX)
SEEDS["c19-two-flags"]["demo"] = NODEDEMO.replace("FLAGS", "--prof-stack --noopt-tailcall --noopt-unreachable-procedure")

seed("c25-rem-euclid", "C25",
     [("src/middle_end/compile_time_eval.rs", "                        Ok(ConstantExpressionType::Int(l % r))", "                        Ok(ConstantExpressionType::Int(l.rem_euclid(r)))")],
     "a constant expression with % whose left operand is negative", "% of a negative constant is evaluated as the mathematical remainder",
     p__c=H + "enum e { A = -7 % 3, B };\nint main(void){ int a = A; int b = B; printf(\"%d %d\\n\", a, b); return 0; }\n")

seed("c25-shift", "C25",
     [("src/middle_end/compile_time_eval.rs", "                        Ok(ConstantExpressionType::Int(l >> r))", "                        Ok(ConstantExpressionType::Int(l / (1 << r)))")],
     "a constant expression that shifts a negative number right", "right shift of a negative constant rounds towards zero",
     p__c=H + "enum e { A = -7 >> 1, B };\nint main(void){ int a = A; int b = B; printf(\"%d %d\\n\", a, b); return 0; }\n")


seed("c27-empty-block", "C27",
     [("src/middle_end/ast_to_ir.rs", """            context.push_scope();
            for s in stmts {
                instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
            }
            context.pop_scope();""", """            context.push_scope();
            for s in stmts {
                instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
            }
            if instrs.is_empty() {
                return Ok(instrs);
            }
            context.pop_scope();""")],
     "an empty block in a function with a parameter that hides a global, and a later function that uses the global", "the scope of an empty block is never closed, so the parameters of a function stay visible in the functions after it",
     p__c=H + "int x = 1;\nint f(int x){ if (x) { } return x + 1; }\nint g(void){ return x; }\nint main(void){ int r = f(2); int q = g(); printf(\"%d %d\\n\", r, q); return 0; }\n")

seed("c27-enum-global", "C27",
     [("src/middle_end/context.rs", "                        Some(c) => return Ok(IdentifierResolveResult::EnumConst(c)),", """                        Some(c) => {
                            return match self.scope_stack[0].resolve_identifier_to_var(identifier_name) {
                                Some(var) => Ok(IdentifierResolveResult::Var(var)),
                                None => Ok(IdentifierResolveResult::EnumConst(c)),
                            }
                        }""")],
     "an enum constant declared in a block with the name of a global variable", "a global variable wins over an enum constant of an inner scope",
     p__c=H + "int A = 5;\nint f(void){ enum e { A = 9, B }; return A * 10 + B; }\nint main(void){ int r = f(); printf(\"%d %d\\n\", r, A); return 0; }\n")

seed("c30-one-id", "C30",
     [(O + "tail_call_optimise.rs", """                                for param_i in 0..params.len() {
                                    let temp_param = temp_param_vars.get(param_i).unwrap();""", """                                let last_id = prog_metadata.new_instr_id();
                                for param_i in 0..params.len() {
                                    let temp_param = temp_param_vars.get(param_i).unwrap();"""),
      (O + "tail_call_optimise.rs", """                                    new_instrs.push(Instruction::SimpleAssignment(
                                        prog_metadata.new_instr_id(),
                                        param_var.to_owned(),""", """                                    new_instrs.push(Instruction::SimpleAssignment(
                                        if param_i > 2 {
                                            last_id.to_owned()
                                        } else {
                                            prog_metadata.new_instr_id()
                                        },
                                        param_var.to_owned(),""")],
     "a tail-recursive function of five or more parameters", "the stores to the fourth and later parameters share one instruction id",
     p__c=H + "int f(int a, int b, int c, int d, int e){ if (a == 0) return b * 100 + c + d + e; return f(a - 1, b + c, c + 2, e, d + 1); }\nint main(void){ printf(\"%d\\n\", f(5, 1, 2, 7, 9)); return 0; }\n")

seed("c21-arg-bytes", "C21",
     [("runtime/init_memory.mjs", "const arg_bytes = new TextEncoder().encode(args[i]);", "const arg_bytes = Array.from(args[i], (ch) => ch.charCodeAt(0));")],
     "a program argument with characters outside ASCII", "arguments are stored as UTF-16 code units cut to a byte instead of UTF-8",
     p__c="#include <stdio.h>\n#include <string.h>\nint main(int argc, char **argv){ int n = strlen(argv[1]); printf(\"%d\\n\", n); return 0; }\n", p__args="na\u00efve\u20ac")

seed("c21-strstr-empty", "C21",
     [("runtime/stdlib/string.mjs", "str1.indexOf(str2)", "str2.length > 0 ? str1.indexOf(str2) : -1")],
     "strstr with an empty second string", "strstr returns NULL for the empty string instead of the start of the first string",
     p__c="#include <stdio.h>\n#include <string.h>\nint main(void){ char *s = \"one two one\"; char *r = strstr(s, \"\"); int ok = r == s; printf(\"%d\\n\", ok); return 0; }\n")

seed("c21-double-arg", "C21",
     [("runtime/stdlib/stdio.mjs", "            vararg_ptr += F64_SIZE;", "            vararg_ptr += I32_SIZE;")],
     "a printf with another conversion after a %f", "the argument after a double is read from the middle of the double",
     p__c=H + "int main(void){ double d = 2.75; printf(\"%f %d\\n\", d, 42); return 0; }\n")

seed("c21-toupper", "C21",
     [("headers/ctype.h", """    if (islower(c)) {
        return c - 'a' + 'A';""", """    if (c > 'Z') {
        return c - 'a' + 'A';""")],
     "toupper of a character after the letters, such as {", "toupper changes characters that are not letters",
     p__c="#include <stdio.h>\n#include <ctype.h>\nint main(void){ char a = toupper('{'); char b = toupper('q'); printf(\"%c%c\\n\", a, b); return 0; }\n")

seed("c07-ternary-sign", "C07",
     [("src/middle_end/ast_to_ir.rs", "            if true_var_type != false_var_type {\n                let (\n                    mut true_binary_convert_instrs,",
       "            if true_var_type != false_var_type\n                && !(true_var_type == IrType::I32 && false_var_type == IrType::U32)\n            {\n                let (\n                    mut true_binary_convert_instrs,")],
     "a conditional expression whose second operand is an int and whose third is an unsigned int, used where the sign matters", "the result has the type int instead of unsigned int",
     p__c=H + "int main(int argc, char **argv){ int a = 0 - argc; unsigned int b = 7; int r = 0; if ((argc > 0 ? a : b) > 5) { r = 1; } printf(\"%d\\n\", r); return 0; }\n")

seed("c24-octal-nine", "C24",
     [("src/front_end/interpret_string.rs", "                                Some(c) if c.is_digit(8) => {\n                                    buffer.push(self.s.next().unwrap());", "                                Some(c) if c.is_ascii_digit() => {\n                                    buffer.push(self.s.next().unwrap());")],
     "an octal escape followed by the digit 8 or 9", "the digit is taken into the escape, which is then rejected",
     p__c=H + "int main(void){ char *s = \"a\\08b\"; printf(\"%d %c%c\\n\", s[1], s[2], s[3]); return 0; }\n")

seed("c20-cpp-partial", "C20",
     [("src/preprocessor.rs", "    if output.status.success() {\n", "    if output.status.success() || !output.stdout.is_empty() {\n")],
     "a source the preprocessor rejects after it has printed something, such as one with #error", "a failed preprocessor run is taken for a good one and a module is written",
     p__c=H + "#ifndef NEEDED\n#error NEEDED is not defined\n#endif\nint main(void){ printf(\"built\\n\"); return 0; }\n",
     p__expected="compile rc=101\n")

seed("c28-same-size", "C28",
     [("src/middle_end/aggregate_type_initialisers.rs", "                if expr_var_type != member_type {", """                if expr_var_type.get_byte_size(&prog.program_metadata).get_compile_time_value()?
                    != member_type.get_byte_size(&prog.program_metadata).get_compile_time_value()?
                {""")],
     "a float member initialised with an int variable (or the other way round)", "the value is stored without its conversion",
     p__c=H + "struct s { int a; float f; char c; };\nint main(void){ int i = 3; struct s v = {i, i, i}; int r = v.f == 3; int a = v.a; int c = v.c; printf(\"%d %d %d\\n\", a, r, c); return 0; }\n")

seed("c33-dotted-stem", "C33",
     [("src/preprocessor.rs", """            if include_name == format!("{}.h", filepath.file_stem().unwrap().to_str().unwrap()) {""",
       """            if include_name == format!("{}.h", filepath.file_name().unwrap().to_str().unwrap().split('.').next().unwrap()) {""")],
     "a program whose file name has a dot before its extension and that has a header of its own", "the program's own header is looked for among the supported headers and the program is rejected",
     **{"my.prog__c": H + "#include \"my.prog.h\"\nint main(void){ printf(\"%d\\n\", SIDES); return 0; }\n", "my.prog__h": "#define SIDES 4\n", "my.prog__expected": "4\nrc=0\n"})

seed("c33-missing-own", "C33",
     [("src/preprocessor.rs", """                match load_program_header(filepath, &include_name) {
                    Err(e) => {
                        return match e {
                            PreprocessorError::FileNotFound(f) => {
                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
                            }
                            _ => Err(e),
                        }
                    }
""", """                match load_program_header(filepath, &include_name) {
                    Err(e) => match e {
                        PreprocessorError::FileNotFound(_) => continue,
                        _ => return Err(e),
                    },
""")],
     "a program that includes a header of its own name that does not exist", "the missing header is passed over and the program is compiled without it",
     p__c=H + "#include \"p.h\"\n#ifdef DEBUG\n#define LEVEL 2\n#else\n#define LEVEL 1\n#endif\nint main(void){ printf(\"%d\\n\", LEVEL); return 0; }\n", p__expected="compile rc=1\n")
