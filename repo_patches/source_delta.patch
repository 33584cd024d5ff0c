From 47206110a3bf3c78ffadba4855a6e5af45d423fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 01/59] fix: encode f32 constants as 4 bytes

---
 src/back_end/float_encoding.rs    | 4 ++++
 src/back_end/wasm_instructions.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/back_end/float_encoding.rs b/src/back_end/float_encoding.rs
index a42cfe9..4468010 100644
--- a/src/back_end/float_encoding.rs
+++ b/src/back_end/float_encoding.rs
@@ -1,3 +1,7 @@
+pub fn encode_float32(value: f32) -> Vec<u8> {
+    value.to_le_bytes().to_vec()
+}
+
 pub fn encode_float(value: f64) -> Vec<u8> {
     value.to_le_bytes().to_vec()
 }
diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..3608500 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -1,4 +1,4 @@
-use crate::back_end::float_encoding::encode_float;
+use crate::back_end::float_encoding::{encode_float, encode_float32};
 use crate::back_end::integer_encoding::{encode_signed_int, encode_unsigned_int};
 use crate::back_end::to_bytes::ToBytes;
 use crate::back_end::vector_encoding::encode_vector;
@@ -745,7 +745,7 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                bytes.append(&mut encode_float32(*z));
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From 05e40ccf8e3b10f315abd4ad25fb9397227c9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:20 +0000
Subject: [PATCH 02/59] fix: logical operators on non-int operands generated
 invalid code

---
 src/back_end/target_code_generation.rs | 70 +++++++-------------------
 src/middle_end/ast_to_ir.rs            |  4 +-
 2 files changed, 21 insertions(+), 53 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..a05141f 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -635,12 +635,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -648,7 +648,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1205,16 +1205,17 @@ fn convert_ir_instr_to_wasm(
             //   bitwise AND
             let mut temp_instrs = Vec::new();
             // load srcs onto wasm stack
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let left_type = left_src.get_type(prog_metadata).unwrap();
+            let right_type = right_src.get_type(prog_metadata).unwrap();
             load_src(
                 left_src,
-                dest_type.to_owned(),
+                left_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it left_src is zero
-            match dest_type {
+            match left_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1249,13 +1250,13 @@ fn convert_ir_instr_to_wasm(
 
             load_src(
                 right_src,
-                dest_type.to_owned(),
+                right_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it right_src is zero
-            match dest_type {
+            match right_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1288,25 +1289,8 @@ fn convert_ir_instr_to_wasm(
                 else_instrs: vec![WasmInstruction::I32Const { n: 1 }],
             });
 
-            // bitwise AND
-            match dest_type {
-                IrType::I8
-                | IrType::U8
-                | IrType::I16
-                | IrType::U16
-                | IrType::I32
-                | IrType::U32
-                | IrType::PointerTo(_)
-                | IrType::ArrayOf(_, _) => {
-                    temp_instrs.push(WasmInstruction::I32And);
-                }
-                IrType::I64 | IrType::U64 => {
-                    temp_instrs.push(WasmInstruction::I64And);
-                }
-                _ => {
-                    unreachable!()
-                }
-            }
+            // bitwise AND of the two 0/1 values
+            temp_instrs.push(WasmInstruction::I32And);
 
             // store to dest
             store_var(
@@ -1324,17 +1308,18 @@ fn convert_ir_instr_to_wasm(
             //   bitwise OR
             let mut temp_instrs = Vec::new();
             // load srcs onto wasm stack
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let left_type = left_src.get_type(prog_metadata).unwrap();
+            let right_type = right_src.get_type(prog_metadata).unwrap();
 
             load_src(
                 left_src,
-                dest_type.to_owned(),
+                left_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it left_src is zero
-            match dest_type {
+            match left_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1369,13 +1354,13 @@ fn convert_ir_instr_to_wasm(
 
             load_src(
                 right_src,
-                dest_type.to_owned(),
+                right_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
             );
             // test it right_src is zero
-            match dest_type {
+            match right_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
@@ -1408,25 +1393,8 @@ fn convert_ir_instr_to_wasm(
                 else_instrs: vec![WasmInstruction::I32Const { n: 1 }],
             });
 
-            // bitwise OR
-            match dest_type {
-                IrType::I8
-                | IrType::U8
-                | IrType::I16
-                | IrType::U16
-                | IrType::I32
-                | IrType::U32
-                | IrType::PointerTo(_)
-                | IrType::ArrayOf(_, _) => {
-                    temp_instrs.push(WasmInstruction::I32Or);
-                }
-                IrType::I64 | IrType::U64 => {
-                    temp_instrs.push(WasmInstruction::I64Or);
-                }
-                _ => {
-                    unreachable!()
-                }
-            }
+            // bitwise OR of the two 0/1 values
+            temp_instrs.push(WasmInstruction::I32Or);
 
             // store to dest
             store_var(
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..67a1a06 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1491,8 +1491,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // result is always int 0 or 1
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
-- 
2.43.0


From 1a107666cbb727a23741faab74b73f8255b44e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 03/59] fix: sign-extend signed char and short when converting
 to wider or floating types

---
 src/middle_end/type_conversions.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..4dde0db 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -321,21 +321,21 @@ pub fn get_type_conversion_instrs(
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I8toI16(
+            if dest_type == IrType::U16 {
+                instrs.push(Instruction::I8toU16(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
                     src,
                 ));
-                intermediate_type = IrType::I16;
+                intermediate_type = IrType::U16;
             } else {
-                // unsigned
-                instrs.push(Instruction::I8toU16(
+                // go through the signed types so that the value is sign-extended
+                instrs.push(Instruction::I8toI16(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
                     src,
                 ));
-                intermediate_type = IrType::U16;
+                intermediate_type = IrType::I16;
             }
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
@@ -385,21 +385,21 @@ pub fn get_type_conversion_instrs(
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
             let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I16toI32(
+            if dest_type == IrType::U32 {
+                instrs.push(Instruction::I16toU32(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
                     src,
                 ));
-                intermediate_type = IrType::I32;
+                intermediate_type = IrType::U32;
             } else {
-                // unsigned
-                instrs.push(Instruction::I16toU32(
+                // go through the signed types so that the value is sign-extended
+                instrs.push(Instruction::I16toI32(
                     prog.new_instr_id(),
                     intermediate_var.to_owned(),
                     src,
                 ));
-                intermediate_type = IrType::U32;
+                intermediate_type = IrType::I32;
             }
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
-- 
2.43.0


From 38a28bfa040689e365534934a5a9f7af8da7e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 04/59] fix: support assignment between all integer types

---
 src/middle_end/type_conversions.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 4dde0db..940b191 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -706,6 +706,34 @@ pub fn get_type_conversion_instrs(
             Ok((instrs, Src::Var(dest)))
         }
 
+        // same-width signedness changes, and truncation to 16 bits: storing the value with
+        // the destination type keeps exactly the low-order bytes
+        (IrType::I32, dest_type @ (IrType::I16 | IrType::U16))
+        | (IrType::U32, dest_type @ (IrType::I16 | IrType::U16 | IrType::I32))
+        | (IrType::U64, dest_type @ IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), dest_type)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // truncate 64-bit values to 32 bits first
+        (
+            src_type @ (IrType::I64 | IrType::U64),
+            dest_type @ (IrType::I16 | IrType::U16 | IrType::U32),
+        ) => {
+            let (mut convert_instrs, intermediate) =
+                get_type_conversion_instrs(src, src_type, IrType::I32, prog)?;
+            instrs.append(&mut convert_instrs);
+            let (mut convert_instrs, dest) =
+                get_type_conversion_instrs(intermediate, IrType::I32, dest_type, prog)?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+
         (IrType::F32, IrType::F64) => {
             let dest = prog.new_var(src.get_value_type());
             prog.add_var_type(dest.to_owned(), IrType::F64)?;
-- 
2.43.0


From b045f5b99d6599f8ada9125d1a3e419089e2b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:18 +0000
Subject: [PATCH 05/59] fix: give integer constants from 65536 to 2147483647
 the type int

---
 src/middle_end/instructions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..76c401a 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -27,8 +27,8 @@ impl Constant {
                     -128..=127 => IrType::I8,
                     0..=65_535 => IrType::U16,
                     -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
+                    0..=4_294_967_295 => IrType::U32,
                     0..=18_446_744_073_709_551_615 => IrType::U64,
                     _ => IrType::I64,
                 }
@@ -40,8 +40,8 @@ impl Constant {
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
             Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
                 -2_147_483_648..=2_147_483_647 => IrType::I32,
+                0..=4_294_967_295 => IrType::U32,
                 0..=18_446_744_073_709_551_615 => IrType::U64,
                 _ => IrType::I64,
             },
-- 
2.43.0


From 9585d2fdf663c387e0a4a5eba6c2d71e86329839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:37 +0000
Subject: [PATCH 06/59] fix: convert arguments and return values to the
 declared types

---
 runtime/stdlib/stdio.mjs           |  8 ++---
 src/middle_end/ast_to_ir.rs        | 35 ++++++++++++++++---
 src/middle_end/context.rs          |  2 ++
 src/middle_end/type_conversions.rs | 55 +++++++++++++++++++++++++++++-
 4 files changed, 91 insertions(+), 9 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..86cf08e 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -1,9 +1,7 @@
 import {
     F64_SIZE,
-    I16_SIZE,
     I32_SIZE,
     I64_SIZE,
-    I8_SIZE,
     PTR_SIZE,
 } from "../memory_constants.mjs";
 import {
@@ -74,7 +72,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // shorts are promoted to int when passed as varargs
+                            value = BigInt.asIntN(16, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -96,7 +95,8 @@ export function printf(wasm_memory) {
                             break;
                         case "c":
                             // char
-                            value = next_vararg_int(I8_SIZE);
+                            // chars are promoted to int when passed as varargs
+                            value = Number(next_vararg_int(I32_SIZE) & 0xffn);
                             value = String.fromCharCode(value);
                             break;
                         case "s":
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 67a1a06..df2f2fd 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -18,7 +18,8 @@ use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
-    get_type_conversion_instrs, unary_convert,
+    convert_type_for_passing, default_argument_promotion, get_type_conversion_instrs,
+    unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -78,7 +79,17 @@ fn convert_statement_to_ir(
             Some(expr) => {
                 let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
                 instrs.append(&mut expr_instrs);
-                instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
+                // convert to the return type of the function
+                let return_value = match &context.function_return_type {
+                    Some(return_type) => {
+                        let (mut convert_instrs, return_value) =
+                            convert_type_for_passing(expr_var, return_type.to_owned(), prog)?;
+                        instrs.append(&mut convert_instrs);
+                        return_value
+                    }
+                    None => expr_var,
+                };
+                instrs.push(Instruction::Ret(prog.new_instr_id(), Some(return_value)));
             }
         },
         Statement::While(cond, body) => {
@@ -682,7 +693,11 @@ fn convert_statement_to_ir(
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
+            if let IrType::Function(return_type, _, _) = &type_info {
+                context.function_return_type = Some(*return_type.to_owned());
+            }
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            context.function_return_type = None;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
@@ -847,11 +862,23 @@ pub fn convert_expression_to_ir(
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
 
+            let param_types = match prog.get_fun_type(&fun_id)? {
+                IrType::Function(_, param_types, _) => param_types,
+                _ => return Err(MiddleEndError::UnwrapNonFunctionType),
+            };
+
             let mut param_srcs: Vec<Src> = Vec::new();
-            for param in params {
+            for (param_index, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
+                // convert the argument to the declared type of the parameter
+                let (mut convert_instrs, param_var) = match param_types.get(param_index) {
+                    Some(param_type) => {
+                        convert_type_for_passing(param_var, param_type.to_owned(), prog)?
+                    }
+                    None => default_argument_promotion(param_var, prog)?,
+                };
+                instrs.append(&mut convert_instrs);
                 param_srcs.push(param_var);
             }
             let dest = prog.new_var(ValueType::RValue);
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..dc8065b 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -15,6 +15,7 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    pub function_return_type: Option<IrType>,
 }
 
 pub enum IdentifierResolveResult {
@@ -30,6 +31,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            function_return_type: None,
         }
     }
 
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 940b191..f20ca23 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -1,6 +1,7 @@
 use log::trace;
 
-use crate::middle_end::instructions::{Instruction, Src};
+use crate::middle_end::ids::ValueType;
+use crate::middle_end::instructions::{Constant, Instruction, Src};
 use crate::middle_end::ir::Program;
 use crate::middle_end::ir_types::IrType;
 use crate::middle_end::middle_end_error::MiddleEndError;
@@ -305,6 +306,58 @@ pub fn convert_type_for_assignment(
     Ok((convert_instrs, converted_var))
 }
 
+/// Convert a value that is passed to a function parameter, or returned from a function, to the
+/// declared type of the parameter or return value
+pub fn convert_type_for_passing(
+    src: Src,
+    dest_type: IrType,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let src_type = src.get_type(&prog.program_metadata)?;
+    if src_type == dest_type {
+        return Ok((Vec::new(), src));
+    }
+    if let Src::Constant(constant) = &src {
+        if !dest_type.is_scalar_type() {
+            return Ok((Vec::new(), src));
+        }
+        // give the constant a variable of the right type
+        let constant_type = match (constant, &dest_type) {
+            (Constant::Int(_), IrType::PointerTo(_)) => dest_type.to_owned(),
+            _ => constant.get_type(Some(dest_type.to_owned())),
+        };
+        let temp = prog.new_var(ValueType::RValue);
+        prog.add_var_type(temp.to_owned(), constant_type.to_owned())?;
+        let mut instrs = vec![Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            temp.to_owned(),
+            src,
+        )];
+        let (mut convert_instrs, converted_var) =
+            get_type_conversion_instrs(Src::Var(temp), constant_type, dest_type, prog)?;
+        instrs.append(&mut convert_instrs);
+        return Ok((instrs, converted_var));
+    }
+    if src_type.is_arithmetic_type() && dest_type.is_arithmetic_type() {
+        return convert_type_for_assignment(src, src_type, dest_type, prog);
+    }
+    Ok((Vec::new(), src))
+}
+
+/// Default argument promotions, for arguments that don't have a declared parameter type
+pub fn default_argument_promotion(
+    src: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    match (&src, src.get_type(&prog.program_metadata)?) {
+        // the type of a constant is chosen when the stack frame is set up
+        (Src::Constant(_), _) => Ok((Vec::new(), src)),
+        (_, IrType::F32) => get_type_conversion_instrs(src, IrType::F32, IrType::F64, prog),
+        (_, src_type) if src_type.is_arithmetic_type() => unary_convert(src, prog),
+        _ => Ok((Vec::new(), src)),
+    }
+}
+
 pub fn get_type_conversion_instrs(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 717d7d71a8a578c6b46369744514f19af19259df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 07/59] fix: replace several tail calls in one function

---
 src/middle_end/middle_end_optimiser/tail_call_optimise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..34efea2 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -97,7 +97,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace from the end backwards, so that the indexes of earlier calls stay valid
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From 41952603dff0663f46196490ecb91e047c91bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 08/59] fix: keep a function's stack frame when a pointer to it
 may be in use

---
 .../tail_call_optimise.rs                     | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 34efea2..69c936e 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,12 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // a tail call re-uses the memory of the current stack frame, so it's only safe if no pointer
+    // into this stack frame can be used by the callee
+    if may_have_pointer_to_stack_frame(fun_instrs) {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
@@ -37,7 +43,9 @@ pub fn tail_call_optimise(
                         if return_var_src == call_instr_dest {
                             let mut new_instrs = Vec::new();
                             // check if recursive call
-                            if call_instr_fun_id == this_fun_id {
+                            if call_instr_fun_id == this_fun_id
+                                && params.len() == param_var_mappings.len()
+                            {
                                 // optimise tail recursion
                                 // first make a temp copy of each of the param vars, so we don't
                                 // accidentally overwrite a value before we use it in another param
@@ -109,3 +117,14 @@ pub fn tail_call_optimise(
         }
     }
 }
+
+/// Whether a function takes the address of any of its variables, or allocates any
+/// memory in its own stack frame (eg. an array or struct)
+fn may_have_pointer_to_stack_frame(fun_instrs: &[Instruction]) -> bool {
+    fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    })
+}
-- 
2.43.0


From 9e861b4b1b44182925af7f0fbba835f431100083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 09/59] fix: keep tail call argument copies clear of the new
 frame

---
 src/back_end/stack_frame_operations.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..fdd82bb 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -385,10 +385,31 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     // before we copy them to their new param position
     // use temp_fp to hold the stack ptr value, so we can offset from it while
     // constructing the new stack frame
-    // todo make sure this is definitely after the space for all the new params
     set_temp_frame_ptr_to_stack_ptr(wasm_instrs);
 
-    let mut temp_stack_ptr_offset = 0;
+    // the new stack frame can be bigger than the current one, so start the temp space far enough
+    // above the top of the stack that the new stack frame can't reach it
+    let mut temp_stack_ptr_offset = PTR_SIZE as u64
+        + return_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    for (param_index, param) in params.iter().enumerate() {
+        let param_type = match param {
+            Src::Var(var_id) => prog_metadata.get_var_type(var_id).unwrap(),
+            Src::Constant(constant) => match param_types.get(param_index) {
+                Some(param_type) => param_type.to_owned(),
+                None => constant.get_type_minimum_i32(),
+            },
+            Src::StoreAddressVar(_) | Src::Fun(_) => {
+                unreachable!()
+            }
+        };
+        temp_stack_ptr_offset += param_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    }
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
-- 
2.43.0


From 1bd1a9a826e45bda475ef55832d2a8f4bc53b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 10/59] fix: treat a (void) parameter list as having no
 parameters

---
 src/middle_end/get_ast_type_info.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..7a5697e 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -276,6 +276,10 @@ fn add_type_info_from_declarator(
                     param_bindings.push((name, param_type));
                 }
             }
+            // the special case of (void) means the function has no parameters
+            if !is_variadic && param_bindings.is_empty() && param_types == [IrType::Void] {
+                param_types.clear();
+            }
 
             let (type_info, name, _) = add_type_info_from_declarator(
                 *d,
-- 
2.43.0


From 09f82bf274d5954602fcc4f30fe9eb0c714a7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 11/59] fix: start the stack above the global variables

---
 src/back_end/initialise_memory.rs             | 23 ++++++++++++++-----
 .../stack_allocation/allocate_vars.rs         | 15 ++++--------
 .../stack_allocation/naive_allocation.rs      | 15 ++++--------
 src/back_end/target_code_generation.rs        | 14 +++--------
 4 files changed, 28 insertions(+), 39 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..3b2c4f8 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -1,6 +1,9 @@
 use log::info;
 
 use crate::back_end::memory_constants::{PTR_SIZE, STACK_PTR_ADDR};
+use crate::back_end::stack_allocation::allocate_vars::{
+    allocate_global_vars, VariableAllocationMap,
+};
 use crate::back_end::target_code_generation_context::ModuleContext;
 use crate::back_end::wasm_instructions::{WasmExpression, WasmInstruction};
 use crate::back_end::wasm_module::data_section::DataSegment;
@@ -11,15 +14,17 @@ use crate::middle_end::ir::ProgramMetadata;
 use crate::program_config::program_constants::{
     MEMORY_IMPORT_FIELD_NAME, MEMORY_IMPORT_MODULE_NAME,
 };
+use crate::relooper::blocks::Block;
 
 pub fn initialise_memory(
     wasm_module: &mut WasmModule,
     module_context: &mut ModuleContext,
+    global_block: Option<&Block>,
     prog_metadata: &ProgramMetadata,
-) -> u32 {
-    // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
-    // ----------------------------------------------------------
+) -> VariableAllocationMap {
+    // -------------------------------------------------------------------------
+    // | FP | temp FP | SP | String literals | Global vars | ...stack frames...
+    // -------------------------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
 
@@ -40,8 +45,14 @@ pub fn initialise_memory(
         data.push(0x00);
     }
 
+    // global vars are stored after the string literals. The stack has to start above them, because
+    // the runtime puts the program arguments at the top of the stack before the program runs.
+    let (global_var_addrs, stack_ptr_value) = match global_block {
+        Some(block) => allocate_global_vars(block, data.len() as u32, prog_metadata),
+        None => (VariableAllocationMap::new(), data.len() as u32),
+    };
+
     // set stack ptr to point at top of stack
-    let stack_ptr_value = data.len();
     info!("Setting stack ptr to {}", stack_ptr_value);
     data[STACK_PTR_ADDR as usize] = (stack_ptr_value & 0xFF) as u8;
     data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0xFF) as u8;
@@ -69,5 +80,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    stack_ptr_value as u32
+    global_var_addrs
 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..bc43da4 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -78,18 +78,11 @@ pub fn allocate_local_vars(
     }
 }
 
+/// Returns the address of each global variable, and the first address after all of them
 pub fn allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    start_addr: u32,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+) -> (VariableAllocationMap, u32) {
+    naive_allocate_global_vars(block, start_addr, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..f011e0f 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -51,17 +51,13 @@ pub fn naive_allocate_local_vars(
 
 pub fn naive_allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    start_addr: u32,
     prog_metadata: &ProgramMetadata,
-) -> VariableAllocationMap {
+) -> (VariableAllocationMap, u32) {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
-    let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
+    let mut addr = start_addr;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -73,10 +69,7 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
-    var_addrs
+    (var_addrs, addr)
 }
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index a05141f..c42ded5 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -10,7 +10,7 @@ use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
 };
 use crate::back_end::profiler::initialise_profiler;
-use crate::back_end::stack_allocation::allocate_vars::{allocate_global_vars, allocate_local_vars};
+use crate::back_end::stack_allocation::allocate_vars::allocate_local_vars;
 use crate::back_end::stack_frame_operations::{
     increment_stack_ptr_by_known_offset, increment_stack_ptr_dynamic, load_frame_ptr,
     load_stack_ptr, overwrite_current_stack_frame_with_new_stack_frame, pop_stack_frame,
@@ -56,9 +56,10 @@ pub fn generate_target_code(
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
 
-    let initial_top_of_stack_addr = initialise_memory(
+    let global_var_addrs = initialise_memory(
         &mut wasm_module,
         &mut module_context,
+        prog.program_blocks.global_instrs.as_ref(),
         &prog.program_metadata,
     );
 
@@ -99,16 +100,7 @@ pub fn generate_target_code(
     // set frame ptr to start of this frame
     set_frame_ptr_to_stack_ptr(&mut global_wasm_instrs);
 
-    let mut global_var_addrs = HashMap::new();
     if let Some(global_block) = prog.program_blocks.global_instrs {
-        global_var_addrs = allocate_global_vars(
-            &global_block,
-            initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
-            &prog.program_metadata,
-        );
-
         // let var_offsets = allocate_local_vars(
         //     &global_block,
         //     &mut global_wasm_instrs,
-- 
2.43.0


From c5761e085e6c03a43601946a6a97d660d8e4f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 12/59] fix: give an assignment through a pointer the value
 that was stored

---
 src/middle_end/ast_to_ir.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index df2f2fd..713b612 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2136,9 +2136,11 @@ pub fn convert_expression_to_ir(
             if is_store_to_address {
                 instrs.push(Instruction::StoreToAddress(
                     prog.new_instr_id(),
-                    dest.to_owned(),
-                    src_var,
+                    dest,
+                    src_var.to_owned(),
                 ));
+                // the value of the assignment is the value that was stored
+                return Ok((instrs, src_var));
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
-- 
2.43.0


From dfa92f5dea3696d118f32babcac7a0680c9f2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:58 +0000
Subject: [PATCH 13/59] fix: increment and decrement char, short, floating and
 pointer lvalues

---
 src/back_end/memory_operations.rs |   8 +-
 src/middle_end/ast_to_ir.rs       | 418 ++++++++----------------------
 2 files changed, 106 insertions(+), 320 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..2761865 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -182,15 +182,11 @@ pub fn load_constant(
         },
         IrType::F32 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F32Const { z: z as f32 }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F32Const { z: n as f32 }),
         },
         IrType::F64 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F64Const { z }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F64Const { z: n as f64 }),
         },
         t => {
             debug!("{}", t);
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 713b612..592aa28 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1033,326 +1033,16 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::PostfixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before incrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_increment.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Add, false, prog, context)
         }
         Expression::PostfixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Decrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to decrement
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // the returned value is the variable before decrementing
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(src_to_decrement.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Sub, false, prog, context)
         }
         Expression::PrefixIncrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after incrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_increment = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_increment.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_increment.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Add, true, prog, context)
         }
         Expression::PrefixDecrement(expr) => {
-            context.directly_on_lhs_of_assignment = true;
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
-            context.directly_on_lhs_of_assignment = false;
-            instrs.append(&mut expr_instrs);
-            // make sure the result is an rvalue
-            let dest = prog.new_var(ValueType::RValue);
-            // expr_var is the variable returned, after decrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
-                return Err(MiddleEndError::InvalidOperation(
-                    "Incrementing a non-scalar type",
-                ));
-            }
-            match expr_var {
-                Src::Var(var) => {
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        var.to_owned(),
-                        Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(var),
-                    ));
-                }
-                Src::StoreAddressVar(var) => {
-                    // load value to increment
-                    let src_to_decrement = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        src_to_decrement.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::LoadFromAddress(
-                        prog.new_instr_id(),
-                        src_to_decrement.to_owned(),
-                        Src::Var(var.to_owned()),
-                    ));
-
-                    // increment value
-                    let result = prog.new_var(ValueType::RValue);
-                    prog.add_var_type(
-                        result.to_owned(),
-                        expr_var_type.dereference_pointer_type()?,
-                    )?;
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        result.to_owned(),
-                        Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
-                    ));
-
-                    debug!(
-                        "VAR TYPE: {}, RESULT TYPE: {}",
-                        prog.get_var_type(&var)?,
-                        prog.get_var_type(&result)?
-                    );
-
-                    // store value back
-                    instrs.push(Instruction::StoreToAddress(
-                        prog.new_instr_id(),
-                        var,
-                        Src::Var(result.to_owned()),
-                    ));
-
-                    // store result to dest
-                    prog.add_var_type(dest.to_owned(), expr_var_type.dereference_pointer_type()?)?;
-                    instrs.push(Instruction::SimpleAssignment(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        Src::Var(result),
-                    ));
-                }
-                _ => return Err(MiddleEndError::InvalidLValue),
-            }
-            Ok((instrs, Src::Var(dest)))
+            convert_increment_to_ir(*expr, BinaryOperator::Sub, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
@@ -2171,3 +1861,103 @@ pub fn convert_expression_to_ir(
         }
     }
 }
+
+/// Convert an increment or decrement (operator Add or Sub), where the result is the value either
+/// after (prefix) or before (postfix) changing it
+fn convert_increment_to_ir(
+    expr: Expression,
+    operator: BinaryOperator,
+    is_prefix: bool,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    context.directly_on_lhs_of_assignment = true;
+    let (mut instrs, lvalue) = convert_expression_to_ir(expr, prog, context)?;
+    context.directly_on_lhs_of_assignment = false;
+
+    // check that we're changing an lvalue
+    if !lvalue.get_value_type().is_lvalue() {
+        return Err(MiddleEndError::AttemptToModifyNonLValue);
+    }
+
+    // copy the current value
+    let lvalue_type = lvalue.get_type(&prog.program_metadata)?;
+    let old_value = prog.new_var(ValueType::RValue);
+    let value_type = match &lvalue {
+        Src::Var(_) => {
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                old_value.to_owned(),
+                lvalue.to_owned(),
+            ));
+            lvalue_type
+        }
+        Src::StoreAddressVar(address) => {
+            instrs.push(Instruction::LoadFromAddress(
+                prog.new_instr_id(),
+                old_value.to_owned(),
+                Src::Var(address.to_owned()),
+            ));
+            lvalue_type.dereference_pointer_type()?
+        }
+        Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidLValue),
+    };
+    if !value_type.is_scalar_type() {
+        return Err(MiddleEndError::InvalidOperation(
+            "Incrementing or decrementing a non-scalar type",
+        ));
+    }
+    prog.add_var_type(old_value.to_owned(), value_type.to_owned())?;
+
+    // pointers change by the size of the object they point to
+    let step = match value_type {
+        IrType::PointerTo(_) => {
+            match value_type.get_pointer_object_byte_size(&prog.program_metadata)? {
+                TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
+                TypeSize::Runtime(size_expr) => {
+                    let (mut size_expr_instrs, size_var) =
+                        convert_expression_to_ir(size_expr, prog, context)?;
+                    instrs.append(&mut size_expr_instrs);
+                    size_var
+                }
+            }
+        }
+        _ => Src::Constant(Constant::Int(1)),
+    };
+
+    // the calculation is done in the promoted type
+    let (mut promote_instrs, operand) = unary_convert(Src::Var(old_value.to_owned()), prog)?;
+    instrs.append(&mut promote_instrs);
+    let operand_type = operand.get_type(&prog.program_metadata)?;
+    let result = prog.new_var(ValueType::RValue);
+    prog.add_var_type(result.to_owned(), operand_type.to_owned())?;
+    instrs.push(match operator {
+        BinaryOperator::Sub => {
+            Instruction::Sub(prog.new_instr_id(), result.to_owned(), operand, step)
+        }
+        _ => Instruction::Add(prog.new_instr_id(), result.to_owned(), operand, step),
+    });
+
+    // convert back, and store the new value
+    let (mut convert_instrs, new_value) =
+        convert_type_for_assignment(Src::Var(result), operand_type, value_type, prog)?;
+    instrs.append(&mut convert_instrs);
+    match lvalue {
+        Src::StoreAddressVar(address) => instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            address,
+            new_value.to_owned(),
+        )),
+        lvalue => instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            lvalue.unwrap_var()?,
+            new_value.to_owned(),
+        )),
+    }
+
+    if is_prefix {
+        Ok((instrs, new_value))
+    } else {
+        Ok((instrs, Src::Var(old_value)))
+    }
+}
-- 
2.43.0


From f82833db4262b897a7cff98fc3b55461b7dd206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 14/59] fix: take the address of the object itself for array
 elements and members

---
 src/middle_end/ast_to_ir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 592aa28..05fe7c9 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1045,9 +1045,15 @@ pub fn convert_expression_to_ir(
             convert_increment_to_ir(*expr, BinaryOperator::Sub, true, prog, context)
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            context.directly_on_lhs_of_assignment = true;
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut expr_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            if let Src::StoreAddressVar(address) = expr_var {
+                // array element, struct/union member, or dereferenced pointer
+                return Ok((instrs, Src::Var(address)));
+            }
             let dest = prog.new_var(ValueType::RValue);
             instrs.push(Instruction::AddressOf(
                 prog.new_instr_id(),
-- 
2.43.0


From b1d9a71b6889886e056ac2f340543684bb5d7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 15/59] fix: select members of array elements, nested members
 and dereferenced pointers in place

---
 src/middle_end/ast_to_ir.rs | 41 +++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 05fe7c9..ede68cf 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -892,22 +892,37 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
+            // we only need the address of the object, not its value
+            context.directly_on_lhs_of_assignment = true;
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
-            obj_var_type.require_struct_or_union_type()?;
+            let mut obj_var_type = obj_var.get_type(&prog.program_metadata)?;
 
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
+            let obj_ptr = match obj_var {
+                Src::StoreAddressVar(address) => {
+                    // array element, struct/union member, or dereferenced pointer
+                    obj_var_type = obj_var_type.dereference_pointer_type()?;
+                    obj_var_type.require_struct_or_union_type()?;
+                    address
+                }
+                obj_var => {
+                    obj_var_type.require_struct_or_union_type()?;
+
+                    // obj_ptr = &obj_var
+                    let obj_ptr = prog.new_var(obj_var.get_value_type());
+                    prog.add_var_type(
+                        obj_ptr.to_owned(),
+                        IrType::PointerTo(Box::new(obj_var_type.to_owned())),
+                    )?;
+                    instrs.push(Instruction::AddressOf(
+                        prog.new_instr_id(),
+                        obj_ptr.to_owned(),
+                        obj_var,
+                    ));
+                    obj_ptr
+                }
+            };
 
             match obj_var_type {
                 IrType::Struct(struct_id) => {
-- 
2.43.0


From ac9484d06b88565cc908c743f3261757ba968238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 16/59] fix: accept any dereferenced pointer as an lvalue

---
 src/middle_end/instructions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index 76c401a..7f9d30d 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -84,7 +84,9 @@ impl Src {
 
     pub fn get_value_type(&self) -> ValueType {
         match self {
-            Src::Var(var) | Src::StoreAddressVar(var) => var.get_value_type(),
+            Src::Var(var) => var.get_value_type(),
+            // the object at the address can be assigned to, however the address was calculated
+            Src::StoreAddressVar(_) => ValueType::LValue,
             Src::Constant(_) => ValueType::RValue,
             Src::Fun(_) => ValueType::RValue,
         }
-- 
2.43.0


From b5aef423d679e034b96abccb6ecb3e4b42167a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:21 +0000
Subject: [PATCH 17/59] fix: count a pointer difference in objects

---
 src/middle_end/ast_to_ir.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ede68cf..54fa07b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1472,6 +1472,36 @@ pub fn convert_expression_to_ir(
                     } else {
                         // pointer - pointer -> int
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
+
+                        // the result is the number of objects between the two pointers
+                        let ptr_object_byte_size = match left_var_type
+                            .get_pointer_object_byte_size(&prog.program_metadata)?
+                        {
+                            TypeSize::CompileTime(size) => {
+                                Src::Constant(Constant::Int(size as i128))
+                            }
+                            TypeSize::Runtime(size_expr) => {
+                                let (mut size_expr_instrs, size_var) =
+                                    convert_expression_to_ir(size_expr, prog, context)?;
+                                instrs.append(&mut size_expr_instrs);
+                                size_var
+                            }
+                        };
+                        let byte_difference = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            byte_difference.to_owned(),
+                            left_var,
+                            right_var,
+                        ));
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(byte_difference),
+                            ptr_object_byte_size,
+                        ));
+                        return Ok((instrs, Src::Var(dest)));
                     }
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
-- 
2.43.0


From 2318bb87e925b2298d4571713bd40df08a0e2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 18/59] fix: evaluate comma expressions

---
 src/middle_end/ast_to_ir.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 54fa07b..98ff631 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1907,8 +1907,13 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut cast_instrs);
             Ok((instrs, dest))
         }
-        Expression::ExpressionList(_, _) => {
-            todo!("expression lists")
+        Expression::ExpressionList(first, second) => {
+            // the first expression is only evaluated for its side effects
+            let (mut first_instrs, _) = convert_expression_to_ir(*first, prog, context)?;
+            instrs.append(&mut first_instrs);
+            let (mut second_instrs, second_var) = convert_expression_to_ir(*second, prog, context)?;
+            instrs.append(&mut second_instrs);
+            Ok((instrs, second_var))
         }
     }
 }
-- 
2.43.0


From 67b66b1505a64d7a54dd0a9fd277b23de5322175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:26 +0000
Subject: [PATCH 19/59] fix: give a shift the type of its promoted left operand

---
 src/middle_end/ast_to_ir.rs        |  6 +++---
 src/middle_end/type_conversions.rs | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 98ff631..4eafa7d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -19,7 +19,7 @@ use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
     convert_type_for_passing, default_argument_promotion, get_type_conversion_instrs,
-    unary_convert,
+    shift_convert, unary_convert,
 };
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
@@ -1512,7 +1512,7 @@ pub fn convert_expression_to_ir(
                 }
                 BinaryOperator::LeftShift => {
                     let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                        shift_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
@@ -1528,7 +1528,7 @@ pub fn convert_expression_to_ir(
                 }
                 BinaryOperator::RightShift => {
                     let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
+                        shift_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
                     let right_var_type = right_var.get_type(&prog.program_metadata)?;
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index f20ca23..ae34f99 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -294,6 +294,26 @@ pub fn binary_convert_separately(
     unreachable!("No other possible combinations of types left");
 }
 
+/// Conversions for shift operators: both operands are promoted, but the type of the result is the
+/// type of the left operand
+pub fn shift_convert(
+    left: Src,
+    right: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src, Src), MiddleEndError> {
+    let (mut instrs, left) = unary_convert(left, prog)?;
+    let left_type = left.get_type(&prog.program_metadata)?;
+    let right_type = right.get_type(&prog.program_metadata)?;
+    if !left_type.is_integral_type() || !right_type.is_integral_type() {
+        return Err(MiddleEndError::InvalidOperation(
+            "Shift of a non-integral type",
+        ));
+    }
+    let (mut right_instrs, right) = get_type_conversion_instrs(right, right_type, left_type, prog)?;
+    instrs.append(&mut right_instrs);
+    Ok((instrs, left, right))
+}
+
 pub fn convert_type_for_assignment(
     src: Src,
     src_type: IrType,
-- 
2.43.0


From 981c3ca1f760cc07ab6aeb1af2fc05f644f2072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 20/59] fix: make sizeof count the bytes of its operand without
 evaluating it

---
 src/middle_end/ast_to_ir.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 4eafa7d..b0dc012 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1237,12 +1237,15 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            // the operand is only needed for its type, it isn't evaluated
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
+            let expr_var_type = match &expr_var {
+                Src::Constant(constant) => constant.get_type_minimum_i32(),
+                _ => expr_var.get_type(&prog.program_metadata)?,
+            };
 
             let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
+                expr_var_type.get_array_byte_size(&prog.program_metadata)?
             } else {
                 expr_var_type.get_byte_size(&prog.program_metadata)
             };
@@ -1270,7 +1273,7 @@ pub fn convert_expression_to_ir(
                 Some(x) => x,
             };
             let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
+                type_info.get_array_byte_size(&prog.program_metadata)?
             } else {
                 type_info.get_byte_size(&prog.program_metadata)
             };
-- 
2.43.0


From d738f4d8241a44c799d9eaf79f70172c919909e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 21/59] fix: negate floating, unsigned and large constant
 operands in their own type

---
 src/middle_end/ast_to_ir.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b0dc012..b3933ba 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1185,11 +1185,23 @@ pub fn convert_expression_to_ir(
                     Ok((instrs, Src::Var(dest)))
                 }
                 UnaryOperator::Minus => {
+                    if let Src::Constant(Constant::Int(n)) = expr_var {
+                        // this constant is too big for an int, but its negation might not be
+                        if n <= 1 << 63 {
+                            return Ok((instrs, Src::Constant(Constant::Int(-n))));
+                        }
+                    }
                     let dest = prog.new_var(ValueType::RValue);
+                    // subtract from negative zero for floating types, so that the sign of zero
+                    // is changed as well
+                    let zero = match expr_var_type {
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.0),
+                        _ => Constant::Int(0),
+                    };
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        Src::Constant(zero),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1197,8 +1209,8 @@ pub fn convert_expression_to_ir(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
-                    prog.add_var_type(dest.to_owned(), dest_type)?;
+                    // type of dest is same as type of src
+                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 UnaryOperator::BitwiseNot => {
-- 
2.43.0


From ff750f9b5b8773d5266998141d6ccdb698267e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:18 +0000
Subject: [PATCH 22/59] fix: generate the statements of a switch body in place

---
 src/middle_end/ast_to_ir.rs        | 37 ++++++---------------
 src/middle_end/context.rs          | 52 +-----------------------------
 src/middle_end/middle_end_error.rs |  1 -
 3 files changed, 11 insertions(+), 79 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index b3933ba..f8d00e1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -284,9 +284,9 @@ fn convert_statement_to_ir(
                 Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
             };
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // convert switch body - the case conditions will be stored into the
+            // SwitchContext, and we'll get them from there after
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -308,9 +308,7 @@ fn convert_statement_to_ir(
             }
 
             // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -338,28 +336,18 @@ fn convert_statement_to_ir(
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.add_switch_case_condition(condition_instrs)?;
+                    // start of case body
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -706,11 +694,6 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index dc8065b..c1497b9 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,6 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::{EnumConstant, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
@@ -120,11 +119,9 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn add_switch_case_condition(
         &mut self,
-        case_body_label: LabelId,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
     ) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::CaseOutsideSwitchContext);
@@ -136,13 +133,6 @@ impl Context {
                 Some(loop_or_switch_context) => match loop_or_switch_context {
                     LoopOrSwitchContext::Loop(_) => {}
                     LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
                         switch_context
                             .case_condition_instrs
                             .append(&mut case_condition_instrs);
@@ -157,31 +147,6 @@ impl Context {
         }
     }
 
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::DefaultOutsideSwitchContext);
@@ -637,7 +602,6 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -647,24 +611,10 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
-        }
-    }
-
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         match self.default_block_label {
             None => {
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 11180d2..e63c39b 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,7 +12,6 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
-    NoCaseBlockToPushInstructionTo,
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
-- 
2.43.0


From 8e83639399c1d7b65e26812c3dd8efc821459e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:02 +0000
Subject: [PATCH 23/59] fix: resolve labels to the ones of their own function

---
 src/middle_end/ast_to_ir.rs        | 15 ++++++++++++++-
 src/middle_end/middle_end_error.rs |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f8d00e1..a3bf064 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -316,7 +316,11 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // the label might already have been created by an earlier goto
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -686,6 +690,15 @@ fn convert_statement_to_ir(
             }
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             context.function_return_type = None;
+            // labels are local to the function, so each one has to be defined in its body
+            for (label_name, label_id) in prog.program_metadata.label_ids.drain() {
+                let is_defined = instrs
+                    .iter()
+                    .any(|instr| matches!(instr, Instruction::Label(_, id) if *id == label_id));
+                if !is_defined {
+                    return Err(MiddleEndError::UndeclaredLabel(label_name));
+                }
+            }
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index e63c39b..eabb962 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -15,6 +15,7 @@ pub enum MiddleEndError {
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
+    UndeclaredLabel(String),
     UndeclaredType(String),
     UndeclaredEnumTag(String),
     UndeclaredStructTag(String),
@@ -90,6 +91,9 @@ impl fmt::Display for MiddleEndError {
             MiddleEndError::LoopNestingError => {
                 write!(f, "Loop nesting error when converting to IR")
             }
+            MiddleEndError::UndeclaredLabel(name) => {
+                write!(f, "Undeclared label: \"{name}\"")
+            }
             MiddleEndError::UndeclaredIdentifier(name) => {
                 write!(f, "Use of undeclared identifier: \"{name}\"")
             }
-- 
2.43.0


From fff644dcccd124fb09e48a66c359c6525a2a8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 24/59] fix: keep every entry of a loop block inside the loop

---
 src/relooper/relooper.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..26c1273 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -494,7 +494,8 @@ fn create_loop_block(
     let mut next_labels: Labels = HashMap::new();
     // find the labels that can return to one of the entries, and those that can't
     for (label_id, label) in labels {
-        let mut can_return = false;
+        // the entries themselves always have to be inside the loop
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
-- 
2.43.0


From 7eb47eece95290dfbd3660bb366d1a4249b9212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:51 +0000
Subject: [PATCH 25/59] fix: return explicitly at the end of a function body

---
 src/relooper/relooper.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 26c1273..9b8b9b7 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -84,7 +84,16 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
             continue;
         }
         let label_var = init_label_variable(&mut prog.program_metadata);
-        let (labels, entry) = soupify(function.instrs, &mut prog.program_metadata);
+        let mut instrs = function.instrs;
+        // make reaching the end of the body an explicit return, because what follows
+        // the last label in the output blocks isn't necessarily the end of the function
+        if !matches!(instrs.last(), Some(Instruction::Ret(..))) {
+            instrs.push(Instruction::Ret(
+                prog.program_metadata.new_instr_id(),
+                None,
+            ));
+        }
+        let (labels, entry) = soupify(instrs, &mut prog.program_metadata);
 
         let mut context = RelooperContext::new(
             &mut loop_block_id_generator,
-- 
2.43.0


From 2341a22cf54d77101ec1d2ecee4334189c543263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 26/59] fix: limit the scope of a for loop's declaration to the
 loop

---
 src/middle_end/ast_to_ir.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a3bf064..ce73ae0 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -158,6 +158,8 @@ fn convert_statement_to_ir(
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
+            // a variable declared in the initialiser is only in scope inside the loop
+            context.push_scope();
             // optional initialiser statement - runs before the loop starts
             match init {
                 None => {}
@@ -222,6 +224,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope();
         }
         Statement::If(cond, body) => {
             // if statement condition
-- 
2.43.0


From 99054dbb490a16bb4e292bb615b8689209eba80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:41 +0000
Subject: [PATCH 27/59] fix: report a continue statement in a switch that is
 outside any loop

---
 src/middle_end/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index c1497b9..d7dbf11 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -76,6 +76,9 @@ impl Context {
                 }
                 Some(LoopOrSwitchContext::Switch(_)) => {}
             }
+            if i == 0 {
+                return None;
+            }
             // if context was a switch context, keep looking backwards for the top loop context
             i -= 1;
         }
-- 
2.43.0


From 36eb6d4d6df3958583c9892b841d72f435b52543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 28/59] fix: compare case values in the promoted type of the
 switch expression

---
 src/middle_end/ast_to_ir.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ce73ae0..52a33ed 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -272,6 +272,9 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            // the integer promotions are applied to the switch expression
+            let (mut convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+            instrs.append(&mut convert_instrs);
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -334,12 +337,18 @@ fn convert_statement_to_ir(
                     }
                     let (mut condition_instrs, expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    // compare in the type of the switch expression
+                    let switch_var = context.get_switch_variable().unwrap();
+                    let switch_type = prog.get_var_type(&switch_var)?;
+                    let (mut convert_instrs, expr_var) =
+                        convert_type_for_passing(expr_var, switch_type, prog)?;
+                    condition_instrs.append(&mut convert_instrs);
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
                     // if so, jump to the corresponding block
                     condition_instrs.push(Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
+                        Src::Var(switch_var),
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-- 
2.43.0


From 52c963059a0e00bf54b14901fd868076887b37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 29/59] fix: convert integers to any pointer type

---
 src/middle_end/type_conversions.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index ae34f99..f45f45a 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -583,10 +583,10 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::I32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        // integer to pointer
+        (IrType::I32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::I32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -655,10 +655,10 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
-        // cast to void *
-        (IrType::U32, IrType::PointerTo(t)) if *t == IrType::Void => {
+        // integer to pointer
+        (IrType::U32, IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(IrType::Void)))?;
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(t))?;
             instrs.push(Instruction::U32toPtr(
                 prog.new_instr_id(),
                 dest.to_owned(),
-- 
2.43.0


From 8f181ffeab7583bd95ca8eee1fe0443e1fe27b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:46 +0000
Subject: [PATCH 30/59] fix: only evaluate the right operand of && and || when
 it is needed

---
 src/middle_end/ast_to_ir.rs | 60 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 52a33ed..31fc570 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1319,10 +1319,68 @@ pub fn convert_expression_to_ir(
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
             let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
-            instrs.append(&mut right_instrs);
             let dest = prog.new_var(ValueType::RValue);
             let left_var_type = left_var.get_type(&prog.program_metadata)?;
             let right_var_type = right_var.get_type(&prog.program_metadata)?;
+
+            // the right operand of a logical AND or OR is only evaluated if the left
+            // operand doesn't already determine the result
+            if matches!(op, BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr)
+                && !right_instrs.is_empty()
+            {
+                left_var_type.require_scalar_type()?;
+                right_var_type.require_scalar_type()?;
+                prog.add_var_type(dest.to_owned(), IrType::I32)?;
+                let short_circuit_label = prog.new_label();
+                let end_label = prog.new_label();
+                let zero = Src::Constant(Constant::Int(0));
+                let (branch_instr, result_instr, short_circuit_result) = match op {
+                    BinaryOperator::LogicalAnd => (
+                        Instruction::BrIfEq(
+                            prog.new_instr_id(),
+                            left_var,
+                            zero,
+                            short_circuit_label.to_owned(),
+                        ),
+                        Instruction::LogicalAnd(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            right_var,
+                            Src::Constant(Constant::Int(1)),
+                        ),
+                        Constant::Int(0),
+                    ),
+                    _ => (
+                        Instruction::BrIfNotEq(
+                            prog.new_instr_id(),
+                            left_var,
+                            zero.to_owned(),
+                            short_circuit_label.to_owned(),
+                        ),
+                        Instruction::LogicalOr(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            right_var,
+                            zero,
+                        ),
+                        Constant::Int(1),
+                    ),
+                };
+                instrs.push(branch_instr);
+                instrs.append(&mut right_instrs);
+                instrs.push(result_instr);
+                instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
+                instrs.push(Instruction::Label(prog.new_instr_id(), short_circuit_label));
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    Src::Constant(short_circuit_result),
+                ));
+                instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+                return Ok((instrs, Src::Var(dest)));
+            }
+
+            instrs.append(&mut right_instrs);
             match op {
                 BinaryOperator::Mult => {
                     let (mut convert_instrs, left_var, right_var) =
-- 
2.43.0


From 270cd791dc5994e55d087fba13e1f59251d7991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 31/59] fix: declare a struct with initialisers like any other
 struct variable

---
 src/middle_end/ast_to_ir.rs | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 31fc570..483e47b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -605,25 +605,10 @@ fn convert_statement_to_ir(
                                                 dest_type.to_owned(),
                                             )?;
 
-                                            let byte_size = match dest_type
-                                                .get_byte_size(&prog.program_metadata)
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
+                                            // structs are stored directly in the stack frame
+                                            instrs.push(Instruction::DeclareVariable(
                                                 prog.new_instr_id(),
                                                 dest.to_owned(),
-                                                byte_size,
                                             ));
 
                                             let mut init_instrs = struct_initialiser(
-- 
2.43.0


From 88aee7015f1b06396f8c07ef90c63eeb9f1d197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:04 +0000
Subject: [PATCH 32/59] fix: initialise nested structs at their own address

---
 src/middle_end/aggregate_type_initialisers.rs | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..bf4ecd4 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -102,7 +102,7 @@ pub fn array_initialiser(
                 }
                 IrType::Struct(struct_id) => {
                     // initialise nested struct
-                    let mut init_instrs = struct_initialiser(
+                    let mut init_instrs = struct_initialiser_at_address(
                         member_ptr_var.to_owned(),
                         IrType::Struct(struct_id),
                         sub_member_initialisers,
@@ -132,6 +132,35 @@ pub fn struct_initialiser(
     initialiser_list: Vec<Initialiser>,
     prog: &mut Program,
     context: &mut Context,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    // pointer to the struct we're initialising
+    let struct_ptr_var = prog.new_var(ValueType::LValue);
+    prog.add_var_type(
+        struct_ptr_var.to_owned(),
+        IrType::PointerTo(Box::new(dest_type_info.to_owned())),
+    )?;
+    let mut instrs = vec![Instruction::AddressOf(
+        prog.new_instr_id(),
+        struct_ptr_var.to_owned(),
+        Src::Var(dest),
+    )];
+    instrs.append(&mut struct_initialiser_at_address(
+        struct_ptr_var,
+        dest_type_info,
+        initialiser_list,
+        prog,
+        context,
+    )?);
+    Ok(instrs)
+}
+
+/// Initialise the struct that struct_ptr_var points to
+fn struct_initialiser_at_address(
+    struct_ptr_var: VarId,
+    dest_type_info: IrType,
+    initialiser_list: Vec<Initialiser>,
+    prog: &mut Program,
+    context: &mut Context,
 ) -> Result<Vec<Instruction>, MiddleEndError> {
     let mut instrs = Vec::new();
 
@@ -153,16 +182,11 @@ pub fn struct_initialiser(
             member_ptr_var.to_owned(),
             IrType::PointerTo(Box::new(member_type.to_owned())),
         )?;
-        // member_ptr_var = &dest + byte_offset
-        instrs.push(Instruction::AddressOf(
-            prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(dest.to_owned()),
-        ));
+        // member_ptr_var = struct_ptr_var + byte_offset
         instrs.push(Instruction::Add(
             prog.new_instr_id(),
             member_ptr_var.to_owned(),
-            Src::Var(member_ptr_var.to_owned()),
+            Src::Var(struct_ptr_var.to_owned()),
             Src::Constant(Constant::Int(member_byte_offset as i128)),
         ));
 
@@ -244,7 +268,7 @@ pub fn struct_initialiser(
                 }
                 IrType::Struct(struct_id) => {
                     // initialise nested struct
-                    let mut init_instrs = struct_initialiser(
+                    let mut init_instrs = struct_initialiser_at_address(
                         member_ptr_var,
                         IrType::Struct(struct_id),
                         sub_member_initialisers,
-- 
2.43.0


From 602d93f82b09954acaf02acbbf124bba75bd0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 33/59] fix: convert long offsets to the size of a pointer

---
 src/middle_end/ast_to_ir.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 483e47b..afd109a 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1447,6 +1447,18 @@ pub fn convert_expression_to_ir(
                         // pointer + int
                         // result is the pointer type
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
+                        // a long has to be converted to the size of a pointer first
+                        if matches!(right_var_type, IrType::I64 | IrType::U64) {
+                            let (mut convert_instrs, converted_var) = get_type_conversion_instrs(
+                                right_var,
+                                right_var_type,
+                                IrType::I32,
+                                prog,
+                            )?;
+                            instrs.append(&mut convert_instrs);
+                            right_var = converted_var;
+                            right_var_type = IrType::I32;
+                        }
                         // add to pointer in multiples of the byte size of the type it points to
                         let temp = prog.new_var(right_var.get_value_type());
                         prog.add_var_type(temp.to_owned(), right_var_type)?;
@@ -1483,7 +1495,7 @@ pub fn convert_expression_to_ir(
                         binary_convert(left_var, right_var, prog)?;
                     instrs.append(&mut convert_instrs);
                     let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
+                    let mut right_var_type = right_var.get_type(&prog.program_metadata)?;
                     // must be either arithmetic - arithmetic, or pointer - integer, or pointer - pointer
                     // todo check for pointers being compatible types
                     if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
@@ -1502,6 +1514,19 @@ pub fn convert_expression_to_ir(
                         // pointer - integer
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
 
+                        // a long has to be converted to the size of a pointer first
+                        if matches!(right_var_type, IrType::I64 | IrType::U64) {
+                            let (mut convert_instrs, converted_var) = get_type_conversion_instrs(
+                                right_var,
+                                right_var_type,
+                                IrType::I32,
+                                prog,
+                            )?;
+                            instrs.append(&mut convert_instrs);
+                            right_var = converted_var;
+                            right_var_type = IrType::I32;
+                        }
+
                         // subtract from pointer in multiples of the byte size it points to
                         let temp_right_var = prog.new_var(right_var.get_value_type());
                         prog.add_var_type(temp_right_var.to_owned(), right_var_type)?;
-- 
2.43.0


From 583a9c5e48eddc5fe7c9a3d38c66bac53788bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 34/59] fix: store to the members of a union with their own
 type

---
 src/middle_end/ast_to_ir.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index afd109a..6cb4f0b 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -957,8 +957,18 @@ pub fn convert_expression_to_ir(
                     let member_type = union_type.get_member_type(&member_name)?;
 
                     if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_ptr)))
+                        // store to union: every member is at the address of the union
+                        let ptr = prog.new_var(ValueType::LValue);
+                        prog.add_var_type(
+                            ptr.to_owned(),
+                            IrType::PointerTo(Box::new(member_type)),
+                        )?;
+                        instrs.push(Instruction::SimpleAssignment(
+                            prog.new_instr_id(),
+                            ptr.to_owned(),
+                            Src::Var(obj_ptr),
+                        ));
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
                         let dest = prog.new_var(ValueType::LValue);
@@ -1022,8 +1032,18 @@ pub fn convert_expression_to_ir(
                     let member_type = union_type.get_member_type(&member_name)?;
 
                     if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_var.unwrap_var()?)))
+                        // store to union: every member is at the address of the union
+                        let ptr = prog.new_var(ValueType::LValue);
+                        prog.add_var_type(
+                            ptr.to_owned(),
+                            IrType::PointerTo(Box::new(member_type)),
+                        )?;
+                        instrs.push(Instruction::SimpleAssignment(
+                            prog.new_instr_id(),
+                            ptr.to_owned(),
+                            obj_var,
+                        ));
+                        Ok((instrs, Src::StoreAddressVar(ptr)))
                     } else {
                         // load from union
                         let dest = prog.new_var(ValueType::LValue);
-- 
2.43.0


From c174225b579d239427bd2f4ac1c3ad7c6d478717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 35/59] fix: keep the sign of zero in a unary plus

---
 src/middle_end/ast_to_ir.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6cb4f0b..4a979d8 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1182,10 +1182,15 @@ pub fn convert_expression_to_ir(
                 // }
                 UnaryOperator::Plus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    // add negative zero for floating types, so that the sign of zero is kept
+                    let zero = match expr_var_type {
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.0),
+                        _ => Constant::Int(0),
+                    };
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        Src::Constant(zero),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
-- 
2.43.0


From 6ea183e9c187f34ece9253770578bf6f8ca94982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 36/59] fix: keep global variables out of stack frames

---
 src/back_end/dataflow_analysis/dead_code_analysis.rs | 12 +++++++++++-
 src/back_end/stack_allocation/allocate_vars.rs       |  3 +++
 src/back_end/stack_allocation/naive_allocation.rs    |  3 +++
 .../stack_allocation/optimised_allocation.rs         |  5 ++++-
 src/back_end/target_code_generation.rs               |  1 +
 5 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..79138b3 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -5,11 +5,16 @@ use log::debug;
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::back_end::stack_allocation::allocate_vars::VariableAllocationMap;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_var_addrs: &VariableAllocationMap,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     let mut changes = true;
@@ -28,6 +33,11 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
                 continue;
             }
 
+            // the value of a global var can be read by other functions
+            if defs.iter().any(|var| global_var_addrs.contains_key(var)) {
+                continue;
+            }
+
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
                 // if none of the defined vars are live at any of the successors of this instr,
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index bc43da4..6f32458 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -59,6 +60,7 @@ pub fn allocate_local_vars(
         optimised_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
@@ -69,6 +71,7 @@ pub fn allocate_local_vars(
         naive_allocate_local_vars(
             block,
             &fun_param_var_mappings,
+            global_var_addrs,
             offset,
             var_offsets,
             wasm_instrs,
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index f011e0f..48f6f4b 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -13,6 +13,7 @@ use crate::relooper::blocks::Block;
 pub fn naive_allocate_local_vars(
     block: &Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -25,6 +26,8 @@ pub fn naive_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars.remove(param_var);
     }
+    // global vars have their own address, outside of the stack frame
+    vars.retain(|var, _| !global_var_addrs.contains_key(var));
 
     let mut offset = 0;
 
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..ced0716 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -22,13 +22,14 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
     param_vars_not_to_allocate_again: &Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_var_addrs, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -42,6 +43,8 @@ pub fn optimised_allocate_local_vars(
     for param_var in param_vars_not_to_allocate_again {
         vars_to_allocate.remove(param_var);
     }
+    // global vars have their own address, outside of the stack frame
+    vars_to_allocate.retain(|var, _| !global_var_addrs.contains_key(var));
 
     // pop vars from clash graph onto a stack
     let mut var_allocation_stack: VarAllocationStack = Vec::new();
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index c42ded5..8eda75c 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -254,6 +254,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From 07533b043c0d759497ceaa7587ac89a5058e0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 37/59] fix: keep assignments to variables whose address is
 taken

---
 .../dataflow_analysis/dead_code_analysis.rs     | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 79138b3..5378053 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
@@ -6,6 +6,7 @@ use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgrap
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::back_end::stack_allocation::allocate_vars::VariableAllocationMap;
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
@@ -17,6 +18,16 @@ pub fn remove_dead_vars(
 ) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
+    // a var whose address is taken can be read through a pointer
+    let address_taken_vars: HashSet<VarId> = flowgraph
+        .instrs
+        .values()
+        .filter_map(|instr| match instr {
+            Instruction::AddressOf(_, _, src) => src.unwrap_var().ok(),
+            _ => None,
+        })
+        .collect();
+
     let mut changes = true;
     while changes {
         changes = false;
@@ -34,7 +45,9 @@ pub fn remove_dead_vars(
             }
 
             // the value of a global var can be read by other functions
-            if defs.iter().any(|var| global_var_addrs.contains_key(var)) {
+            if defs.iter().any(|var| {
+                global_var_addrs.contains_key(var) || address_taken_vars.contains(var)
+            }) {
                 continue;
             }
 
-- 
2.43.0


From ca1d877645a0283e970fbaa904b0e8e7f6513b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 38/59] fix: keep variables that are never read clear of live
 variables

---
 src/back_end/dataflow_analysis/clash_graph.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/back_end/dataflow_analysis/clash_graph.rs b/src/back_end/dataflow_analysis/clash_graph.rs
index 431d579..fc6afad 100644
--- a/src/back_end/dataflow_analysis/clash_graph.rs
+++ b/src/back_end/dataflow_analysis/clash_graph.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::fmt::Formatter;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
+use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
@@ -108,6 +109,21 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
 
     let mut clash_graph = ClashGraph::new();
 
+    // an instr overwrites the memory of the var it defines, so that var clashes with every var
+    // that's live after the instr, even if the defined var is never used
+    for (instr_id, instr) in &flowgraph.instrs {
+        for def_var in def_set(instr) {
+            clash_graph.add_var(def_var.to_owned());
+            for successor in flowgraph.successors.get(instr_id).unwrap() {
+                for live_var in live_vars.get(successor).unwrap() {
+                    if live_var != &def_var {
+                        clash_graph.add_clash(def_var.to_owned(), live_var.to_owned());
+                    }
+                }
+            }
+        }
+    }
+
     for (_instr, simultaneously_live_vars) in live_vars {
         if simultaneously_live_vars.len() < 2 {
             // no clashes
-- 
2.43.0


From 560362ffd844aef4791049f1432bd96d19123c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 39/59] fix: use the label variable of the global instructions

---
 src/back_end/target_code_generation.rs         | 5 ++++-
 src/back_end/target_code_generation_context.rs | 5 ++---
 src/relooper/relooper.rs                       | 4 ++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 8eda75c..b3700af 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -109,7 +109,10 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks.global_label_variable.unwrap(),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..802f122 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -1,7 +1,6 @@
 use std::collections::HashMap;
 
 use crate::back_end::wasm_indices::{FuncIdx, WasmIdx};
-use crate::id::Id;
 use crate::middle_end::ids::{FunId, StringLiteralId, VarId};
 use crate::program_config::enabled_profiling::EnabledProfiling;
 use crate::relooper::blocks::{LoopBlockId, MultipleBlockId};
@@ -90,11 +89,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 9b8b9b7..bf7b096 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,8 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    // only None if global_instrs is None
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +56,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -150,6 +153,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From 14890d7e661fb84f257d150fb4fad33fcbd591f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 40/59] fix: continue past conditionals with empty branches in
 the flowgraph

---
 src/back_end/dataflow_analysis/flowgraph.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..bed265f 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -320,10 +320,17 @@ fn add_instrs_to_flowgraph(
                     flowgraph.add_successor(prev_instr_id.to_owned(), instr_id.to_owned());
                 }
 
-                let (instrs1_entry, instrs1_exits, instrs1_jump_exits) =
+                let (instrs1_entry, mut instrs1_exits, instrs1_jump_exits) =
                     add_instrs_to_flowgraph(instrs1, flowgraph);
-                let (instrs2_entry, instrs2_exits, instrs2_jump_exits) =
+                let (instrs2_entry, mut instrs2_exits, instrs2_jump_exits) =
                     add_instrs_to_flowgraph(instrs2, flowgraph);
+                // if a branch is empty, control goes straight on from this instr
+                if instrs1_entry.is_none() {
+                    instrs1_exits.insert(instr_id.to_owned());
+                }
+                if instrs2_entry.is_none() {
+                    instrs2_exits.insert(instr_id.to_owned());
+                }
 
                 if let Some(entry) = instrs1_entry {
                     flowgraph.add_successor(instr_id.to_owned(), entry);
-- 
2.43.0


From 5d74f27ceed9a1272efe7dd988352d6270ddc883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:34 +0000
Subject: [PATCH 41/59] fix: report source lines that cannot be read instead of
 dropping them

---
 src/preprocessor.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 5957077..19e73d3 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -38,15 +38,14 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
     match read_lines(filepath) {
         Ok(lines) => {
             for line in lines {
-                if let Ok(l) = line {
-                    // check if line is a #include directive
-                    if let Some(include) = check_for_include(&l) {
-                        includes.push(include);
-                        continue;
-                    }
-                    output.push_str(&l);
-                    output.push('\n');
+                let l = line.map_err(PreprocessorError::IoError)?;
+                // check if line is a #include directive
+                if let Some(include) = check_for_include(&l) {
+                    includes.push(include);
+                    continue;
                 }
+                output.push_str(&l);
+                output.push('\n');
             }
             Ok((output, includes))
         }
-- 
2.43.0


From 6b7cd962a09966d4e4a499edaaf71ceae12fe82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:38 +0000
Subject: [PATCH 42/59] fix: do not import a library function the program
 defines itself

---
 src/back_end/target_code_generation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index b3700af..e3413c7 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -343,12 +343,12 @@ fn separate_imported_and_defined_functions(
     }
 
     for (fun_id, function) in functions {
-        // check if this function is an imported one
+        // check if this function is an imported one, unless the program defines it itself
         match imported_function_ids.get(&fun_id) {
-            Some(fun_name) => {
+            Some(fun_name) if !function.body_is_defined => {
                 imported_functions.push((fun_id, fun_name.to_owned(), function));
             }
-            None => {
+            _ => {
                 defined_functions.push((fun_id, function));
             }
         }
-- 
2.43.0


From 995e662f29e22376647000b54e55baa636447980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 43/59] fix: recognise typedef names of one letter

---
 src/front_end/lexer.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..0a2f50e 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -556,14 +556,9 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() || c == '_' => {
+                    Some(lex_identifier(c.to_string(), typedef_names))
+                }
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From 576e73b99a3092437ca3333a2fd39c7224b544d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:43 +0000
Subject: [PATCH 44/59] fix: reject string literals and char constants without
 a closing quote

---
 src/front_end/lexer.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 0a2f50e..851d2c5 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -248,6 +248,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return match fsm.state {
                         // EOF
                         State::Start => None,
+                        s if s.is_unterminated_literal() => Some(Err(LexError::InvalidEOF)),
                         _ => match fsm.token {
                             Some(t) => Some(Ok((start.unwrap(), t, end.unwrap() + 1))),
                             None => Some(Err(LexError::InvalidEOF)),
@@ -264,7 +265,12 @@ impl<'input> Iterator for Lexer<'input> {
                 start = Some(i.to_owned());
             }
             end = Some(i.to_owned());
-            let current_token = fsm.token.to_owned();
+            // a literal only counts as a token once its closing quote has been read
+            let current_token = if fsm.state.is_unterminated_literal() {
+                None
+            } else {
+                fsm.token.to_owned()
+            };
             let new_state = fsm.step(c.to_owned(), &self.typedef_names);
             match new_state {
                 Some(f) => {
@@ -434,6 +440,28 @@ enum State {
     Char10,
 }
 
+impl State {
+    /// Whether this is a state inside a string literal or char constant,
+    /// before the closing quote has been read
+    fn is_unterminated_literal(&self) -> bool {
+        matches!(
+            self,
+            State::String1
+                | State::String2
+                | State::String3
+                | State::Char1
+                | State::Char2
+                | State::Char3
+                | State::Char4
+                | State::Char5
+                | State::Char6
+                | State::Char7
+                | State::Char8
+                | State::Char9
+        )
+    }
+}
+
 #[derive(Debug)]
 struct Fsm {
     state: State,
@@ -964,6 +992,8 @@ impl Fsm {
                     state: State::String4,
                     token: Some(Token::StringLiteral("".to_owned())),
                 }),
+                // a string literal has to end on the line it starts on
+                '\n' => None,
                 c => Some(Fsm {
                     state: State::String3,
                     token: Some(Token::StringLiteral(c.to_string())),
@@ -994,6 +1024,7 @@ impl Fsm {
                     }),
                     _ => None,
                 },
+                '\n' => None,
                 c => match self.token {
                     Some(Token::StringLiteral(mut s)) => {
                         s.push(c);
@@ -1011,8 +1042,8 @@ impl Fsm {
                     state: State::Char2,
                     token: Some(Token::CharConstant("\\".to_owned())),
                 }),
-                // empty char constant isn't allowed
-                '\'' => None,
+                // empty char constant isn't allowed, nor is a newline
+                '\'' | '\n' => None,
                 c => Some(Fsm {
                     state: State::Char9,
                     token: Some(Token::CharConstant(c.to_string())),
-- 
2.43.0


From 9fc3f8f8cc67b36e4c9a04f22d464b0dd2a7df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 45/59] fix: support the escape sequences for alert, backspace,
 form feed and vertical tab

---
 src/front_end/interpret_string.rs | 4 ++++
 src/front_end/lexer.rs            | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..1bf5611 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -31,6 +31,10 @@ impl Iterator for InterpretString<'_> {
                     Some('\"') => Ok('"'),
                     Some('?') => Ok('?'),
                     Some('\\') => Ok('\\'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('f') => Ok('\x0c'),
+                    Some('v') => Ok('\x0b'),
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 851d2c5..59ef04f 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1050,7 +1050,8 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
+                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'a' | c @ 'b' | c @ 'f' | c @ 'n'
+                | c @ 'r' | c @ 't' | c @ 'v' => {
                     match self.token {
                         Some(Token::CharConstant(mut s)) => {
                             s.push(c);
-- 
2.43.0


From 679210ddeea9d8dcb9bccb98744de4074a8a3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 46/59] fix: accept all the ways to name the integer types

---
 src/front_end/ast.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0d98dd7..b6c6882 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -601,18 +601,18 @@ impl ArithmeticType {
             0b00_00_0001 | 0b00_01_0001 => Ok(ArithmeticType::I8),
             // unsigned char
             0b00_10_0001 => Ok(ArithmeticType::U8),
-            // signed short
-            0b00_00_0010 | 0b00_01_0010 => Ok(ArithmeticType::I16),
-            // unsigned short
-            0b00_10_0010 => Ok(ArithmeticType::U16),
-            // signed int
-            0b00_00_0100 | 0b00_01_0100 => Ok(ArithmeticType::I32),
-            // unsigned int
-            0b00_10_0100 => Ok(ArithmeticType::U32),
-            // signed long
-            0b00_00_1000 | 0b00_01_1000 => Ok(ArithmeticType::I64),
-            // unsigned long
-            0b00_10_1000 => Ok(ArithmeticType::U64),
+            // signed short (int)
+            0b00_00_0010 | 0b00_01_0010 | 0b00_00_0110 | 0b00_01_0110 => Ok(ArithmeticType::I16),
+            // unsigned short (int)
+            0b00_10_0010 | 0b00_10_0110 => Ok(ArithmeticType::U16),
+            // signed int, or only signed
+            0b00_00_0100 | 0b00_01_0100 | 0b00_01_0000 => Ok(ArithmeticType::I32),
+            // unsigned int, or only unsigned
+            0b00_10_0100 | 0b00_10_0000 => Ok(ArithmeticType::U32),
+            // signed long (int)
+            0b00_00_1000 | 0b00_01_1000 | 0b00_00_1100 | 0b00_01_1100 => Ok(ArithmeticType::I64),
+            // unsigned long (int)
+            0b00_10_1000 | 0b00_10_1100 => Ok(ArithmeticType::U64),
             // float
             0b01_00_0000 => Ok(ArithmeticType::F32),
             // double
-- 
2.43.0


From 40d7e96fe476e76ded70bd27c8569114de20ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 47/59] fix: give literals the bytes C defines for characters
 beyond ASCII

---
 src/back_end/initialise_memory.rs   |  2 +-
 src/front_end/interpret_string.rs   | 25 ++++++++++++-------------
 src/middle_end/ast_to_ir.rs         |  5 ++++-
 src/middle_end/compile_time_eval.rs |  3 ++-
 4 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 3b2c4f8..30149df 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -40,7 +40,7 @@ pub fn initialise_memory(
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
         // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        data.extend(string.chars().map(|c| c as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 1bf5611..48db864 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -4,8 +4,11 @@ use std::{iter::Peekable, str::Chars};
 #[path = "interpret_string_tests.rs"]
 mod interpret_string_tests;
 
+/// each char of the result stands for one byte
 pub fn interpret_string(s: &str) -> Result<String, Error> {
-    InterpretString::new(s).collect()
+    // a character outside of ASCII is the bytes of its encoding
+    let bytes: String = s.bytes().map(char::from).collect();
+    InterpretString::new(&bytes).collect()
 }
 
 struct InterpretString<'a> {
@@ -56,12 +59,10 @@ impl Iterator for InterpretString<'_> {
                                         Some(_) | None => break,
                                     }
                                 }
-                                // convert the hex code to an int, and then to
-                                // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
+                                // convert the hex code to a byte
+                                match u8::from_str_radix(&buffer, 16) {
+                                    Ok(byte) => Ok(char::from(byte)),
+                                    Err(_) => Err(Error::InvalidCharCode(buffer)),
                                 }
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
@@ -88,12 +89,10 @@ impl Iterator for InterpretString<'_> {
                                 Some(_) | None => break,
                             }
                         }
-                        // convert the octal code to an int, and then to the
-                        // corresponding char
-                        let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
-                            Some(c) => Ok(c),
-                            None => Err(Error::InvalidCharCode(buffer)),
+                        // convert the octal code to a byte
+                        match u8::from_str_radix(&buffer, 8) {
+                            Ok(byte) => Ok(char::from(byte)),
+                            Err(_) => Err(Error::InvalidCharCode(buffer)),
                         }
                     }
                     Some(c) => Err(Error::InvalidEscapeChar(c)),
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 4a979d8..92b0998 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -735,7 +735,10 @@ pub fn convert_expression_to_ir(
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            ast::Constant::Char(ch) => {
+                // char is signed
+                Ok((instrs, Src::Constant(Constant::Int(ch as u8 as i8 as i128))))
+            },
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..b767c48 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -32,7 +32,8 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
         Expression::Constant(c) => match c {
             AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            // char is signed
+            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as u8 as i8 as i128)),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-- 
2.43.0


From b8910e606e0a964e7b570edc300b815131ffe723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 48/59] fix: a negative constant is true for the logical not
 operator

---
 src/middle_end/compile_time_eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index b767c48..8d24f75 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -59,10 +59,10 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
-- 
2.43.0


From 7173a6cda56cbc2efc546f10f96ba7e430e58f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 49/59] fix: put a variable in scope in its own initialiser

---
 src/middle_end/ast_to_ir.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 92b0998..0a5cc13 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -492,6 +492,18 @@ fn convert_statement_to_ir(
                             Some(name) => {
                                 match init_expr {
                                     Initialiser::Expr(e) => {
+                                        // the variable is in scope in its own initialiser
+                                        let dest = prog.new_var(ValueType::LValue);
+                                        prog.add_var_type(
+                                            dest.to_owned(),
+                                            dest_type_info.to_owned(),
+                                        )?;
+                                        context.add_variable_to_scope(
+                                            name,
+                                            dest.to_owned(),
+                                            dest_type_info.to_owned(),
+                                        )?;
+
                                         let (mut expr_instrs, expr_var) =
                                             convert_expression_to_ir(e, prog, context)?;
                                         instrs.append(&mut expr_instrs);
@@ -532,21 +544,11 @@ fn convert_statement_to_ir(
                                             src = converted_var;
                                         }
 
-                                        let dest = prog.new_var(ValueType::LValue);
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            src.get_type(&prog.program_metadata)?,
-                                        )?;
                                         instrs.push(Instruction::SimpleAssignment(
                                             prog.new_instr_id(),
                                             dest.to_owned(),
                                             src,
                                         ));
-                                        context.add_variable_to_scope(
-                                            name,
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
-                                        )?;
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-- 
2.43.0


From 1888376421b357957b5ae981fdb04fe0ea3d0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 50/59] fix: keep a variable out of scope in its own array
 bound

---
 src/middle_end/ast_to_ir.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 0a5cc13..507c5a2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -408,11 +408,6 @@ fn convert_statement_to_ir(
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
                                     let var = prog.new_var(ValueType::LValue);
-                                    context.add_variable_to_scope(
-                                        name,
-                                        var.to_owned(),
-                                        type_info.to_owned(),
-                                    )?;
                                     prog.add_var_type(var.to_owned(), type_info.to_owned())?;
 
                                     // if we're declaring an array, allocate space at the end of the stack
@@ -434,15 +429,17 @@ fn convert_statement_to_ir(
                                         };
                                         instrs.push(Instruction::AllocateVariable(
                                             prog.new_instr_id(),
-                                            var,
+                                            var.to_owned(),
                                             array_byte_size,
                                         ));
                                     } else {
                                         instrs.push(Instruction::DeclareVariable(
                                             prog.new_instr_id(),
-                                            var,
+                                            var.to_owned(),
                                         ));
                                     }
+                                    // the name isn't in scope in the array bound
+                                    context.add_variable_to_scope(name, var, type_info)?;
                                 }
                                 None => unreachable!(),
                             },
@@ -558,12 +555,6 @@ fn convert_statement_to_ir(
                                                 dest.to_owned(),
                                                 dest_type.to_owned(),
                                             )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-
                                             let array_byte_size = match dest_type
                                                 .get_array_byte_size(&prog.program_metadata)?
                                             {
@@ -584,6 +575,12 @@ fn convert_statement_to_ir(
                                                 dest.to_owned(),
                                                 array_byte_size,
                                             ));
+                                            // the name isn't in scope in the array bound
+                                            context.add_variable_to_scope(
+                                                name,
+                                                dest.to_owned(),
+                                                dest_type.to_owned(),
+                                            )?;
 
                                             let mut init_instrs = array_initialiser(
                                                 dest,
-- 
2.43.0


From f8b46e2b3434c7e75ab8eaef6f185e89a6ffb517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 51/59] fix: give all file scope declarations of a name the
 same object

---
 src/middle_end/ast_to_ir.rs | 55 +++++++++++++++++++++++++++----------
 src/middle_end/context.rs   |  9 ++++++
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 507c5a2..63df613 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -3,7 +3,8 @@ use log::{debug, trace};
 use crate::front_end::ast;
 use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, SpecifierQualifier, Statement,
+    StorageClassSpecifier, TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
@@ -407,8 +408,14 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
-                                    let var = prog.new_var(ValueType::LValue);
-                                    prog.add_var_type(var.to_owned(), type_info.to_owned())?;
+                                    let (var, is_new) =
+                                        new_declared_var(&name, &type_info, &sq, prog, context)?;
+                                    if !is_new {
+                                        // the object has been set up already
+                                        context.add_variable_to_scope(name, var, type_info)?;
+                                        is_initial_declarator = false;
+                                        continue;
+                                    }
 
                                     // if we're declaring an array, allocate space at the end of the stack
                                     if type_info.is_array_type() {
@@ -490,10 +497,12 @@ fn convert_statement_to_ir(
                                 match init_expr {
                                     Initialiser::Expr(e) => {
                                         // the variable is in scope in its own initialiser
-                                        let dest = prog.new_var(ValueType::LValue);
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
+                                        let (dest, _) = new_declared_var(
+                                            &name,
+                                            &dest_type_info,
+                                            &sq,
+                                            prog,
+                                            context,
                                         )?;
                                         context.add_variable_to_scope(
                                             name,
@@ -549,11 +558,9 @@ fn convert_statement_to_ir(
                                     }
                                     Initialiser::List(initialisers) => match dest_type_info {
                                         IrType::ArrayOf(member_type, size) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::ArrayOf(member_type, size);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
+                                            let (dest, _) = new_declared_var(
+                                                &name, &dest_type, &sq, prog, context,
                                             )?;
                                             let array_byte_size = match dest_type
                                                 .get_array_byte_size(&prog.program_metadata)?
@@ -592,11 +599,9 @@ fn convert_statement_to_ir(
                                             instrs.append(&mut init_instrs);
                                         }
                                         IrType::Struct(struct_id) => {
-                                            let dest = prog.new_var(ValueType::LValue);
                                             let dest_type = IrType::Struct(struct_id);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
+                                            let (dest, _) = new_declared_var(
+                                                &name, &dest_type, &sq, prog, context,
                                             )?;
                                             context.add_variable_to_scope(
                                                 name,
@@ -706,6 +711,26 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// The variable for a declaration, and whether it is a new one. Declarations of the same name at
+/// file scope, and extern declarations of that name, all denote the same object.
+fn new_declared_var(
+    name: &str,
+    var_type: &IrType,
+    specifier: &SpecifierQualifier,
+    prog: &mut Program,
+    context: &Context,
+) -> Result<(VarId, bool), MiddleEndError> {
+    let is_extern = specifier.storage_class_specifier == Some(StorageClassSpecifier::Extern);
+    if let Some(var) = context.resolve_redeclared_var(name, is_extern) {
+        if prog.get_var_type(&var)? == *var_type {
+            return Ok((var, false));
+        }
+    }
+    let var = prog.new_var(ValueType::LValue);
+    prog.add_var_type(var.to_owned(), var_type.to_owned())?;
+    Ok((var, true))
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index d7dbf11..e357ec1 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -193,6 +193,15 @@ impl Context {
         }
     }
 
+    /// The file scope variable that another declaration of the same name refers to, if the
+    /// declaration is itself at file scope or extern
+    pub fn resolve_redeclared_var(&self, name: &str, is_extern: bool) -> Option<VarId> {
+        if self.scope_stack.len() > 1 && !is_extern {
+            return None;
+        }
+        self.scope_stack.first()?.resolve_identifier_to_var(name)
+    }
+
     // pub fn resolve_identifier_to_var(
     //     &self,
     //     identifier_name: &str,
-- 
2.43.0


From 0ca6ca608309325e9ad4a4d40932434166ac0de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:20 +0000
Subject: [PATCH 52/59] fix: give UINT_MAX its value

---
 headers/limits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..a934901 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -14,7 +14,7 @@
 
 #define INT_MIN -2147483648
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 4294967295
 
 #define LONG_MIN -9223372036854775808
 #define LONG_MAX 9223372036854775807
-- 
2.43.0


From 8364bb3263bd07b48cbe5824c1dfb00508343202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 53/59] fix: count vertical tabs and form feeds as white space

---
 headers/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..97f0e26 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -56,7 +56,7 @@ int isupper(char c) {
 }
 
 int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+    return c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f' || c == ' ';
 }
 
 char tolower(char c) {
-- 
2.43.0


From 709a490b845382da839269ee9b4b1f23f419b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 54/59] fix: print only the printable characters of ASCII

---
 headers/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 97f0e26..f1bbc60 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -44,7 +44,7 @@ int ispunct(char c) {
 }
 
 int isprint(char c) {
-    return !iscntrl(c);
+    return c >= 32 && c <= 126;
 }
 
 int islower(char c) {
-- 
2.43.0


From 3cce2f10fba4f29dfe5c311f8cdd8bd60680796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 55/59] fix: return the number of characters from printf

---
 runtime/stdlib/stdio.mjs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 86cf08e..2eb58e9 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -120,7 +120,7 @@ export function printf(wasm_memory) {
 
         process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
 
-        // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        // write return value: the number of characters printed
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
-- 
2.43.0


From 0defb79dac4156d9369148334862d14d07a18229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 56/59] fix: print doubles with six decimals

---
 runtime/stdlib/stdio.mjs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 2eb58e9..dd7ccc6 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -14,6 +14,20 @@ import {
 } from "../memory_operations.mjs";
 import {signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
 
+// format a double like the C format specifier %f: six digits after the decimal point
+function format_double(value) {
+    if (Number.isNaN(value)) {
+        return "nan";
+    }
+    const sign = (value < 0 || Object.is(value, -0)) ? "-" : "";
+    const magnitude = Math.abs(value);
+    if (magnitude === Infinity) {
+        return sign + "inf";
+    }
+    // toFixed() switches to exponential notation at 1e21; doubles that large are integers
+    return sign + (magnitude >= 1e21 ? `${BigInt(magnitude)}.000000` : magnitude.toFixed(6));
+}
+
 // print a null-terminated string from memory to console
 // int printf(const char *format, ...);
 export function printf(wasm_memory) {
@@ -91,7 +105,7 @@ export function printf(wasm_memory) {
                             break;
                         case "f":
                             // double
-                            value = next_vararg_double();
+                            value = format_double(next_vararg_double());
                             break;
                         case "c":
                             // char
-- 
2.43.0


From 17e05380b88bcce95cbd7122bcced9129b218c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 57/59] fix: parse integers in strtol and strtoul as C does

---
 runtime/stdlib/stdlib.mjs | 74 ++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..41cbc1e 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -1,6 +1,42 @@
-import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
+import {I32_SIZE, I64_SIZE, MAX_I64, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
-import {signed_to_unsigned_i64} from "../number_operations.mjs";
+
+// parse the integer at the start of str, as strtol and strtoul do
+// returns its value (0 if there is no number), and the index in str just after it
+// (0 if there is no number)
+function parse_integer(str, base) {
+    let i = 0;
+    // skip initial whitespace
+    while (i < str.length && /[ \t\n\v\f\r]/.test(str[i])) {
+        i++;
+    }
+    let is_negative = false;
+    if (str[i] === "+" || str[i] === "-") {
+        is_negative = str[i] === "-";
+        i++;
+    }
+    // the prefix only counts if it is followed by a digit
+    const has_hex_prefix = str[i] === "0"
+        && (str[i + 1] === "x" || str[i + 1] === "X")
+        && !Number.isNaN(parseInt(str.slice(i + 2, i + 3), 16));
+    if (base === 0) {
+        base = has_hex_prefix ? 16 : (str[i] === "0" ? 8 : 10);
+    }
+    if (base === 16 && has_hex_prefix) {
+        i += 2;
+    }
+    const start = i;
+    let value = 0n;
+    while (i < str.length) {
+        const digit = parseInt(str[i], base);
+        if (Number.isNaN(digit)) {
+            break;
+        }
+        value = value * BigInt(base) + BigInt(digit);
+        i++;
+    }
+    return {value: is_negative ? -value : value, end: i === start ? 0 : i};
+}
 
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
@@ -17,19 +53,14 @@ export function strtol(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        const {value, end} = parse_integer(str, Number(base));
+        // clamp to the range of a long
+        const max = MAX_I64 / 2n - 1n;
+        const min = -MAX_I64 / 2n;
+        const result = value > max ? max : value < min ? min : value;
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
+            let end_ptr_value = str_ptr + end;
             store_ptr(end_ptr, end_ptr_value, memory);
         }
 
@@ -53,20 +84,13 @@ export function strtoul(wasm_memory) {
 
         const str = read_string(str_ptr, memory);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        const {value, end} = parse_integer(str, Number(base));
+        // numbers out of range of an unsigned long become its maximum, negative ones wrap around
+        const out_of_range = value >= MAX_I64 || value <= -MAX_I64;
+        const unsigned_result = out_of_range ? MAX_I64 - 1n : BigInt.asUintN(64, value);
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
+            let end_ptr_value = str_ptr + end;
             store_ptr(end_ptr, end_ptr_value, memory);
         }
 
-- 
2.43.0


From d96de075f8ee05b0f3c9e8dacf85806f57be041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:34 +0000
Subject: [PATCH 58/59] fix: an integer constant that fits a long has type
 long, not unsigned long

---
 src/middle_end/instructions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index 7f9d30d..e657932 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -29,6 +29,7 @@ impl Constant {
                     -32_768..=32_767 => IrType::I16,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
                     0..=4_294_967_295 => IrType::U32,
+                    0..=9_223_372_036_854_775_807 => IrType::I64,
                     0..=18_446_744_073_709_551_615 => IrType::U64,
                     _ => IrType::I64,
                 }
@@ -42,6 +43,7 @@ impl Constant {
             Constant::Int(i) => match i {
                 -2_147_483_648..=2_147_483_647 => IrType::I32,
                 0..=4_294_967_295 => IrType::U32,
+                0..=9_223_372_036_854_775_807 => IrType::I64,
                 0..=18_446_744_073_709_551_615 => IrType::U64,
                 _ => IrType::I64,
             },
-- 
2.43.0


From 536a78d92b0ae59e2231d7ee32f08a8c4c635bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:43 +0000
Subject: [PATCH 59/59] fix: recognise an #include in every form C allows

---
 src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 19e73d3..4947fa9 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -62,7 +62,7 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
 /// If so, returns the name of the header file included, or None otherwise
 fn check_for_include(line: &str) -> Option<String> {
     lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^#include\s[<"](.*)[>"]"#).unwrap();
+        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^>"]*)[>"]"#).unwrap();
     }
 
     if let Some(captures) = INCLUDE_RE.captures(line) {
-- 
2.43.0

