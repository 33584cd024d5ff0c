"""Source of properties.jsonl (python3 tools/props.py writes it)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Instructions and numbers are encoded as the WebAssembly binary format defines",
  "Every WebAssembly instruction, value type and block type the back end can emit is written as exactly the opcode and "
  "immediates, in the order, that the WebAssembly binary format assigns to it, with nested code terminated by its end (and "
  "else) marker. Every unsigned and signed integer immediate, of any magnitude, is written as LEB128 that decodes to the same "
  "value, and float constants as 4 or 8 little-endian bytes.",
  ["inputs", "programs"], "all instructions of the emitter's instruction set with arbitrary immediates; all 64/128-bit immediates",
  "The end-to-end programs use a fraction of about 200 instructions, the unit tests a few dozen integers; an opcode or LEB128 "
  "boundary that no sample hits stays unseen.",
  ["src/back_end/wasm_instructions.rs", "src/back_end/wasm_types.rs", "src/back_end/wasm_indices.rs", "src/back_end/integer_encoding.rs",
   "src/back_end/float_encoding.rs", "src/back_end/vector_encoding.rs"],
  [("WasmInstruction::to_bytes", "src/back_end/wasm_instructions.rs"), ("encode_unsigned_int / encode_signed_int", "src/back_end/integer_encoding.rs"),
   ("encode_float", "src/back_end/float_encoding.rs")])

p("C02", "The emitted module is laid out as the WebAssembly binary format requires",
  "A module starts with the WebAssembly magic and version and lists its sections in the order the format prescribes, each with its "
  "section id, byte length and element count; imports, exports, functions, globals, data segments and code entries are each "
  "encoded field by field as the format defines. Function indices count imported functions first, and every function body is "
  "listed at the position of the index its callers use, with the type declared for it. Exactly the entry point is exported and the memory "
  "and host functions are imported under the names the host runtime supplies.",
  ["programs"], "all programs: any number of types, imports, functions, data segments",
  "Each test program exercises one module shape; the order of sections and index spaces has to hold for any combination of "
  "functions and imports.",
  ["src/back_end/wasm_module/module.rs", "src/back_end/wasm_module/code_section.rs", "src/back_end/wasm_module/imports_section.rs",
   "src/back_end/wasm_module/exports_section.rs", "src/back_end/wasm_module/data_section.rs", "src/back_end/target_code_generation.rs",
   "src/back_end/target_code_generation_context.rs"],
  [("WasmModule::to_bytes", "src/back_end/wasm_module/module.rs"), ("section encoders", "src/back_end/wasm_module/"),
   ("generate_target_code", "src/back_end/target_code_generation.rs"),
   ("ModuleContext function index allocation", "src/back_end/target_code_generation_context.rs")])

p("C03", "Each operator compiles to the right WebAssembly operation for its operand type",
  "For every arithmetic, bitwise, shift, comparison and logical operation and every operand type, the generated code computes that "
  "operation with the width and signedness of the type, takes the left and right operands in source order, and stores the result "
  "in the destination and nowhere else.",
  ["programs", "inputs"], "all operators x operand types x operand kinds (variable or constant)",
  "About 20 operators times 10 types times operand kinds; the test programs reach a small part, mostly with int operands for which signed and "
  "unsigned, or swapped, variants often agree.",
  ["src/back_end/target_code_generation.rs", "src/back_end/memory_operations.rs"],
  [("convert_ir_instr_to_wasm", "src/back_end/target_code_generation.rs")])

p("C04", "Conversions between arithmetic types preserve or wrap the value as C defines",
  "Converting a value from any integer or floating type to any other (by assignment, cast, or the usual arithmetic conversions) "
  "produces code that keeps the value when the target type can represent it, wraps integers modulo the target width, sign-extends "
  "signed and zero-extends unsigned sources, and converts between integers and floats with the signedness of the integer type.",
  ["programs", "inputs"], "all ordered pairs of arithmetic types, all values",
  "About 100 ordered pairs of types, each with negative, boundary and large values; the tests sample a few pairs with small values.",
  ["src/middle_end/type_conversions.rs", "src/back_end/target_code_generation.rs"],
  [("get_type_conversion_instrs / unary_convert / binary_convert", "src/middle_end/type_conversions.rs"),
   ("conversion instructions", "src/back_end/target_code_generation.rs")])

p("C05", "Memory is read and written with the width and extension of the accessed type",
  "Loading or storing an object of any type, through a variable or through a pointer, touches exactly the bytes of that type at exactly "
  "that object's address, and a narrow load is extended according to the signedness of its type. Constants are materialised with the value "
  "and type they have in the program, and copying a struct or union copies all its bytes.",
  ["programs", "inputs"], "all scalar and aggregate types; variables, pointers, constants",
  "Reads with the wrong width or extension usually give the right answer for small values in zeroed memory, so passing samples prove little.",
  ["src/back_end/memory_operations.rs", "src/back_end/target_code_generation.rs"],
  [("load / store / load_var / load_constant", "src/back_end/memory_operations.rs"),
   ("LoadFromAddress, StoreToAddress, AllocateVariable, AddressOf", "src/back_end/target_code_generation.rs")])

p("C06", "Generated code always type-checks and leaves the operand stack balanced",
  "For every program the compiler accepts, each generated instruction sequence finds operands of the types it needs on the WebAssembly "
  "operand stack and leaves the stack as the surrounding block requires, so that the module always validates.",
  ["programs"], "all generated sequences: every intermediate instruction x operand kind x type, prologue and epilogue, calls, profiling code",
  "A test only validates the sequences its own program needs.",
  ["src/back_end/target_code_generation.rs", "src/back_end/memory_operations.rs", "src/back_end/stack_frame_operations.rs", "src/back_end/profiler.rs"],
  [("convert_ir_instr_to_wasm, convert_block_to_wasm", "src/back_end/target_code_generation.rs"),
   ("frame operations", "src/back_end/stack_frame_operations.rs")])

p("C07", "Expressions apply the written operator to operands converted as C requires",
  "Each C unary, binary, compound-assignment, increment/decrement, cast, sizeof, subscript, member and ternary expression computes the "
  "operator written in the source, on its operands in source order, after the usual arithmetic conversions of C. Pointer arithmetic scales "
  "integers by the size of the pointed-to type, and an assignment converts to and stores into exactly the designated object.",
  ["programs", "inputs"], "all expression forms x operand types",
  "The combinations of operators and operand types are far more than the test programs contain, and a wrong operator or missing conversion "
  "often gives the same result for the sampled values.",
  ["src/middle_end/ast_to_ir.rs", "src/middle_end/type_conversions.rs", "src/middle_end/get_ast_type_info.rs"],
  [("convert_expression_to_ir", "src/middle_end/ast_to_ir.rs"), ("binary_convert, unary_convert", "src/middle_end/type_conversions.rs")])

p("C08", "Control-flow statements transfer control as C defines",
  "if, while, do-while, for, switch, the ternary operator, &&, ||, break, continue, goto, labels and return transfer control exactly as C "
  "defines: conditions are evaluated the required number of times and in order, loop bodies and the for increment run in order, a switch "
  "enters at the matching case or default and falls through, and break or continue leave or resume the innermost enclosing construct.",
  ["programs"], "all nestings of control statements",
  "Nestings of loops, switches and jumps are unbounded; tests contain a handful.",
  ["src/middle_end/ast_to_ir.rs", "src/middle_end/context.rs"],
  [("convert_statement_to_ir", "src/middle_end/ast_to_ir.rs"), ("break/continue/case label stacks", "src/middle_end/context.rs")])

p("C09", "Structuring control flow never loses, duplicates or redirects a branch",
  "When the compiler rebuilds structured control flow from labels and branches, every labelled piece of code is kept exactly once and every "
  "branch reaches the piece of code that carries its target label, whatever mixture of loops, multi-way blocks and jumps the program contains.",
  ["programs"], "all control-flow graphs",
  "The shapes of control-flow graphs are unbounded, and irreducible ones and jumps out of nested loops are hardly sampled.",
  ["src/relooper/relooper.rs", "src/relooper/soupify.rs", "src/relooper/blocks.rs"],
  [("create_block_from_labels", "src/relooper/relooper.rs"), ("soupify", "src/relooper/soupify.rs")])

p("C10", "Structured branches reach the enclosing block or loop they name",
  "Every break and continue between structured blocks is emitted as a WebAssembly branch whose depth designates exactly the enclosing "
  "construct it names, at any depth of nesting, including through conditionals and the wrappers that code generation itself adds.",
  ["programs"], "all nestings of loops, blocks and conditionals",
  "Depth errors only show at nestings the tests do not contain.",
  ["src/back_end/target_code_generation.rs", "src/back_end/target_code_generation_context.rs"],
  [("convert_block_to_wasm and ControlFlowElement stack", "src/back_end/target_code_generation.rs")])

p("C11", "Data-flow facts name every variable an instruction reads and writes",
  "For every kind of intermediate instruction, the sets of variables it defines and references that the optimisations rely on contain exactly "
  "the variables its generated code writes and reads, and every variable an instruction mentions is given a place in the stack frame.",
  ["programs"], "all intermediate instructions x operand kinds",
  "A missing entry only shows when another variable happens to share the slot at the wrong time.",
  ["src/back_end/dataflow_analysis/instruction_def_ref.rs", "src/back_end/stack_allocation/get_vars_from_block.rs"],
  [("def / ref sets", "src/back_end/dataflow_analysis/instruction_def_ref.rs"), ("get_vars", "src/back_end/stack_allocation/get_vars_from_block.rs")])

p("C12", "Liveness covers every path on which a variable may still be read",
  "A variable is considered live wherever some path of the program may read it before it is overwritten, across loops, conditionals, "
  "breaks, continues, multi-way blocks and early ends, and the analysis repeats until nothing changes.",
  ["programs"], "all control-flow shapes",
  "Wrong liveness shows only as memory corruption in programs with particular control flow and register pressure.",
  ["src/back_end/dataflow_analysis/live_variable_analysis.rs", "src/back_end/dataflow_analysis/flowgraph.rs"],
  [("live_variable_analysis", "src/back_end/dataflow_analysis/live_variable_analysis.rs"), ("generate_flowgraph", "src/back_end/dataflow_analysis/flowgraph.rs")])

p("C13", "Variables that may be alive at the same time never share memory",
  "In every stack frame, with either allocation scheme, two variables whose lifetimes may overlap, or one of which may be accessed through a "
  "pointer, occupy disjoint byte ranges, each as large as the variable's type, inside the frame and apart from the saved frame data and parameters.",
  ["programs", "configurations"], "all functions and sets of variables, both allocation schemes",
  "Overlaps corrupt values only for particular interference patterns.",
  ["src/back_end/stack_allocation/optimised_allocation.rs", "src/back_end/stack_allocation/naive_allocation.rs",
   "src/back_end/stack_allocation/clash_interval_var_locations.rs", "src/back_end/dataflow_analysis/clash_graph.rs",
   "src/data_structures/interval_tree.rs"],
  [("allocate_local_vars", "src/back_end/stack_allocation/"), ("generate_clash_graph", "src/back_end/dataflow_analysis/clash_graph.rs")])

p("C14", "Dead-code removal only deletes computations with no observable effect",
  "Removing dead code never removes a call, a store through a pointer, a branch, a label, a return or any other instruction with an effect besides its "
  "result, nor a computation whose result may still be read directly or through a pointer.",
  ["programs"], "all instruction kinds and liveness situations",
  "Deleting an effect is visible only in programs where the result of that instruction is unused.",
  ["src/back_end/dataflow_analysis/dead_code_analysis.rs", "src/middle_end/middle_end_optimiser/remove_redundancy.rs"],
  [("remove_dead_vars", "src/back_end/dataflow_analysis/dead_code_analysis.rs"), ("remove_unused_labels", "src/middle_end/middle_end_optimiser/remove_redundancy.rs")])

p("C15", "Only calls whose result is returned unchanged become tail calls",
  "A call is turned into a tail call only if the value it returns is immediately returned by the caller, and the tail call passes the "
  "same arguments to the same function. Because a tail call reuses the caller's frame, no call of a function whose frame is pointed to is "
  "turned into one. Every other instruction of the function is kept in place and in order.",
  ["programs"], "all functions with any number of calls and returns",
  "The transformation is wrong only for particular sequences (several calls, intervening code).",
  ["src/middle_end/middle_end_optimiser/tail_call_optimise.rs"],
  [("tail_call_optimise", "src/middle_end/middle_end_optimiser/tail_call_optimise.rs")])

p("C16", "Removing unreachable procedures keeps every function that can be called",
  "Every function reachable from the entry point through any chain of calls, direct, nested or tail calls, and every function whose address may be taken, is kept.",
  ["programs"], "all call graphs",
  "Tests contain few call-graph shapes.",
  ["src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs"],
  [("remove_unused_procedures", "src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs")])

p("C17", "Caller and callee agree on the stack-frame layout for every signature",
  "For any parameter list and return type, a call stores each argument at the offset where the callee reads the corresponding parameter, "
  "reads the result where the callee stores it, and restores the caller's frame exactly; a tail call passes its arguments and the "
  "frame link the same way, and a frame's locals never overlap its parameters, return value or link.",
  ["programs"], "all signatures, argument kinds, variadic calls, tail calls, the entry point",
  "Agreement has to hold for all parameter sizes and counts; tests use mostly one or two int parameters.",
  ["src/back_end/stack_frame_operations.rs", "src/back_end/target_code_generation.rs", "src/back_end/stack_allocation/allocate_vars.rs"],
  [("set_up_new_stack_frame, overwrite_current_stack_frame_with_new_stack_frame, pop_stack_frame", "src/back_end/stack_frame_operations.rs")])

p("C18", "Stack-pointer profiling logs every stack-pointer change, and only when enabled",
  "With stack-pointer profiling enabled, every place where generated code changes the stack pointer reports the new value to the host directly "
  "afterwards, and nothing else about the program's behaviour changes. With it disabled, no profiling call or import is emitted.",
  ["programs", "configurations"], "all programs x profiling on/off",
  "The profiling option is not exercised by the tests.",
  ["src/back_end/profiler.rs", "src/back_end/stack_frame_operations.rs", "src/program_config/enabled_profiling.rs"],
  [("log_stack_ptr", "src/back_end/profiler.rs")])

p("C19", "Each command-line switch enables or disables exactly the feature it names",
  "Every optimisation and profiling switch of the command line turns exactly the named feature on or off, independently of the others; each enabled optimisation "
  "is applied, and no disabled one is. Combining switches composes them. Without switches every optimisation is on and profiling is off.",
  ["configurations"], "all combinations of command-line switches",
  "The tests only run the default switches.",
  ["src/main.rs", "src/lib.rs", "src/program_config/enabled_optimisations.rs", "src/program_config/enabled_profiling.rs",
   "src/middle_end/middle_end_optimiser/ir_optimiser.rs"],
  [("CliConfig", "src/main.rs"), ("EnabledOptimisations construction", "src/program_config/enabled_optimisations.rs"), ("optimise_ir", "src/middle_end/middle_end_optimiser/ir_optimiser.rs")])

p("C20", "A failed compilation is reported and never produces an output module",
  "When preprocessing, parsing, translation, code generation or writing the result fails, the failure reaches the user as an error message and a "
  "non-zero exit status, and no stage continues with partial results. The output file is written only after every stage has succeeded.",
  ["inputs", "fault_sequences"], "all failing inputs and I/O failures at every stage",
  "The tests only compile valid programs.",
  ["src/main.rs", "src/lib.rs", "src/preprocessor.rs", "src/front_end/parser.rs", "src/back_end/wasm_module/module.rs"],
  [("run / main", "src/lib.rs, src/main.rs"), ("preprocess", "src/preprocessor.rs")])

p("C21", "The host runtime, the compiler and the C headers agree on the library interface",
  "Every library function the compiler may import is provided by the host runtime under that name and declared in the bundled headers, and the runtime reads "
  "its arguments from, and writes its result to, the frame offsets at which compiled code puts them for the declared signature. "
  "Each provided function behaves like the C library function of that name, as do the functions, limits and types defined in the headers. The runtime gives "
  "main the program's arguments, as argc and argv describe, and exits with main's result.",
  ["programs", "inputs"], "all imported functions and signatures",
  "Tests call few library functions with few argument shapes.",
  ["runtime", "headers", "src/program_config/program_constants.rs", "src/middle_end/ids.rs"],
  [("runtime library functions", "runtime/"), ("imported function names", "src/back_end/")])

p("C22", "Source text is split into the tokens the C grammar defines",
  "Every source text is split by longest match into C tokens: each operator, keyword, identifier, numeric constant, character constant and string "
  "literal yields its own token with its exact text or value, and anything else is an error.",
  ["inputs"], "all source texts",
  "The set of source texts is unbounded; only tokens occurring in the tests are exercised.",
  ["src/front_end/lexer.rs"], [("Lexer state machine", "src/front_end/lexer.rs")])

p("C23", "Expressions parse with the precedence and associativity of C",
  "Every expression, declaration and statement is grouped as the C grammar prescribes: operator precedence and associativity follow C, each operator token builds the "
  "operation it denotes with its operands in source order, and each combination of type keywords denotes its C type.",
  ["inputs", "programs"], "all expressions and declarations",
  "Pairs and triples of operators are too many for samples.",
  ["src/front_end/c_parser.lalrpop", "src/front_end/ast.rs"],
  [("grammar productions and actions", "src/front_end/c_parser.lalrpop"), ("type specifier combination", "src/front_end/ast.rs")])

p("C24", "Character and string escapes denote the bytes C defines",
  "In character constants and string literals every simple, octal and hexadecimal escape of C denotes its C value, every other character denotes itself, and "
  "malformed escapes are rejected; a string's bytes reach the data segment unchanged and NUL-terminated.",
  ["inputs"], "all literals",
  "Unit tests cover some escapes; the rest of the input space is unbounded.",
  ["src/front_end/interpret_string.rs"], [("interpret_string", "src/front_end/interpret_string.rs")])

p("C25", "Compile-time evaluation gives the value the expression has at run time",
  "A constant expression evaluated by the compiler (case labels, array sizes, enumerators, initialisers) has the value that C assigns to it: each operator "
  "computes the C operation on its operands in order, and operations that cannot be evaluated are rejected.",
  ["inputs", "programs"], "all constant expressions",
  "Operators times operand values are unbounded, and the tests use a few literal constants.",
  ["src/middle_end/compile_time_eval.rs"], [("eval", "src/middle_end/compile_time_eval.rs")])

p("C26", "Object sizes and member offsets are consistent everywhere",
  "The size of each scalar type is the size its loads and stores use; a struct's members occupy disjoint consecutive ranges within the struct's size, a union's members all start at "
  "offset zero within the size of the largest, and an array of n elements occupies n times the element size. sizeof, member access, subscripts and copies all use these same sizes and offsets.",
  ["programs"], "all nested types",
  "Types nest without bound.",
  ["src/middle_end/ir_types.rs", "src/middle_end/ast_to_ir.rs"],
  [("get_byte_size, StructType, UnionType", "src/middle_end/ir_types.rs")])

p("C27", "Names resolve to the innermost declaration in scope",
  "A use of a variable, type name, tag or enumerator refers to the declaration in the innermost enclosing scope that is visible there; a declaration in an inner scope "
  "hides an outer one only until that scope ends, for every nesting of blocks, loops and functions.",
  ["programs"], "all nestings of scopes and declarations",
  "Shadowing combinations are unbounded.",
  ["src/middle_end/context.rs", "src/middle_end/ast_to_ir.rs"],
  [("scope stack", "src/middle_end/context.rs")])

p("C28", "Initialisers store each value into the element or member it initialises",
  "An aggregate initialiser stores its k-th value into the k-th element or member, at that element's offset and converted to its type, recursively for nested aggregates; "
  "string literals initialise character arrays byte by byte, and a scalar initialiser stores the converted value.",
  ["programs"], "all aggregate types and initialiser lists",
  "Aggregates nest without bound.",
  ["src/middle_end/aggregate_type_initialisers.rs", "src/middle_end/ast_to_ir.rs"],
  [("array_initialiser, struct_initialiser", "src/middle_end/aggregate_type_initialisers.rs")])

p("C29", "Static data and the initial stack never overlap",
  "Every string literal is stored once, complete and NUL-terminated, at the address the code uses for it; literals do not overlap each other, the reserved pointers at the start of "
  "memory, or the stack, which starts above all of them, and the memory is large enough for them.",
  ["programs"], "any number and length of literals",
  "Overlaps depend on total literal sizes.",
  ["src/back_end/initialise_memory.rs", "src/back_end/memory_constants.rs", "src/back_end/wasm_module/data_section.rs"],
  [("initialise_memory", "src/back_end/initialise_memory.rs")])

p("C30", "Identifiers generated by the compiler are never reused",
  "Every variable, label, function, struct, union, instruction and string-literal identity the compiler generates within one compilation is distinct from all others of its kind, and so is every block identity within one function.",
  ["programs", "histories"], "all sequences of allocations",
  "Collisions need particular allocation sequences.",
  ["src/id.rs", "src/middle_end/ids.rs", "src/middle_end/ir.rs", "src/back_end/wasm_indices.rs"],
  [("IdGenerator", "src/id.rs"), ("WasmIdxGenerator", "src/back_end/wasm_indices.rs")])

p("C31", "Compiled programs compute what the C standard says for the whole program",
  "For every valid program in the supported subset and every input, running the compiled module produces the same output and exit status as a conforming C implementation.",
  ["programs", "inputs"], "all programs and inputs", "Unbounded set of programs.",
  ["src"], [("whole pipeline", "src/lib.rs")])

p("C32", "Compilation terminates with bounded resources",
  "For every input the compiler terminates, with a result or an error, without exhausting memory or overflowing the stack.",
  ["inputs"], "all inputs", "Unbounded set of inputs.",
  ["src"], [("relooper recursion, fixpoint loops", "src/relooper/relooper.rs, src/back_end/dataflow_analysis")])

p("C33", "The preprocessor sees the program and all its headers, whole and in order",
  "Preprocessing hands the C preprocessor every line of the program and of each header it includes, directly or through another header, unchanged and in order, with a header's lines before "
  "every line that follows its #include and headers in the order of their inclusion, in whatever form C lets the #include be written. The program's own header (the one with its name) comes from "
  "the program's folder, the others from the supported headers; a header that does not exist is reported by name; what the preprocessor prints is what is compiled.",
  ["inputs"], "all programs and headers, without cycles of inclusion",
  "Headers nest in any shape and an #include can be written in many ways.",
  ["src/preprocessor.rs"],
  [("remove_include_directives, include_headers, run_c_preprocessor", "src/preprocessor.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
