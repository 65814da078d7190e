P("G01", "The collector keeps everything a script can still reach, and frees the rest",
  "A garbage collection never frees or leaves dangling an object, property, string or FFI function that is still reachable from any place where the engine keeps script values: the operand, call, argument and scope stacks, the receiver and other saved values, values registered by embedders, FFI callbacks. Everything reachable through properties is followed, owned strings are moved together with every reference to them, and unreachable cells go back to the free list exactly once.",
  ["programs", "histories"], "every script and every moment at which a collection can run",
  "Which structures hold the last reference at the moment of a collection depends on the program and on allocation pressure; the tests sample a few.",
  ["src/mjs_gc.c", "src/mjs_core.h", "src/mjs_ffi.c"],
  [("mark phase", "src/mjs_gc.c mjs_gc, gc_mark, gc_mark_mbuf_val"), ("sweep", "src/mjs_gc.c gc_sweep"), ("string compaction", "src/mjs_gc.c gc_mark_string, gc_compact_strings")],
  [("interpreter state", "all fields of the interpreter structure that hold script values", "src/mjs_core.h struct mjs")],
  ["mjs_gc", "script gc()"],
  "value-field enumeration from the type-checked program + must-mark dataflow over the mark phase, structural sweep obligations",
  "Every field that ever receives a script value is enumerated from stores in the IR; each must be visited by the mark phase on every path before sweeping.")

P("G02", "No script value is kept across a collection unless the collector knows about it",
  "Native code that holds a script value in a local variable while calling something that can collect garbage has registered that variable, and does not use an unregistered copy afterwards. Every registration made by the engine is undone on every path before the variable goes away.",
  ["programs", "histories"], "every path through the engine's native functions that can trigger a collection",
  "A stale copy is only wrong when a collection happens in exactly that window and reuses or moves the cell.",
  ["src/mjs_builtin.c", "src/mjs_exec.c", "src/mjs_object.c", "src/mjs_json.c", "src/mjs_ffi.c", "src/mjs_core.c"],
  [("registration", "src/mjs_core.c mjs_own, mjs_disown"), ("collection points", "src/mjs_gc.c maybe_gc, mjs_gc")],
  [("registered values", "addresses of values the collector must mark and may update", "src/mjs_core.h owned_values")],
  ["mjs_exec", "mjs_call", "mjs_apply", "mjs_struct_to_obj", "script JSON.parse"],
  "liveness of script-value SSA registers across may-collect call sites + path-sensitive own/disown typestate",
  "Call graph reachability of the collector decides the call sites; registers of script-value origin live across them are violations.")

P("G17", "Every temporary resource is released exactly once and never used afterwards",
  "Each heap block, file, mapping or growable buffer that a function acquires for its own use (including the strings that conversion, formatting and JSON helpers hand out together with an ownership flag) is released exactly once on every path through that function, error paths included, or handed over to the caller or to the structure that owns it; nothing is accessed through it after the release. Owned texts of the interpreter (error message, stack trace) are never lost, released twice or left dangling when they are replaced.",
  ["programs", "histories", "fault_sequences"], "every path of every library function that acquires or releases a resource, error and allocation-failure paths included",
  "A leak or a use after free on an error path only shows on inputs that take exactly that path, and usually only under a memory checker.",
  ["src/mjs_exec.c", "src/mjs_object.c", "src/mjs_core.c", "src/mjs_json.c", "src/mjs_ffi.c", "src/mjs_conversion.c", "src/common/cs_file.c", "src/common/str_util.c"],
  [("ownership flag", "src/mjs_conversion.c mjs_to_string"), ("error texts", "src/mjs_core.c mjs_set_errorf, mjs_prepend_errorf, mjs_print_error"), ("file helpers", "src/common/cs_file.c")],
  [("error message, stack trace", "heap texts owned by the interpreter", "src/mjs_core.h error_msg, stack_trace")],
  ["mjs_exec", "mjs_exec_file", "mjs_call", "mjs_get_v", "mjs_set_v", "mjs_strerror", "script JSON.parse / JSON.stringify", "FFI calls"],
  "path-sensitive ownership typestate over the IR with callee ownership summaries",
  "Every acquiring or releasing call site is an obligation; all paths to all returns are followed with constant/nullness facts.")

P("G05", "Every native function a script calls delivers exactly its result",
  "Each built-in function (and each FFI call) hands a result to the interpreter on every path through it, error paths included: it never goes back to the script leaving its arguments where the result is expected, and it does not look at its arguments any more once the result has taken their place.",
  ["programs", "inputs"], "every path through every function registered as callable from scripts and through the FFI call",
  "A forgotten result on one error path leaves the operand stack off by the number of arguments only for that combination of argument kinds.",
  ["src/mjs_array.c", "src/mjs_string.c", "src/mjs_builtin.c", "src/mjs_json.c", "src/mjs_object.c", "src/mjs_ffi.c", "src/mjs_exec.c"],
  [("result delivery", "src/mjs_core.c mjs_return"), ("argument access", "src/mjs_core.c mjs_arg, mjs_nargs"), ("native call", "src/mjs_exec.c OP_CALL, mjs_ffi.c mjs_ffi_call2")],
  [("operand stack", "arguments of a native call, replaced by its result", "src/mjs_core.h stack")],
  ["script calls of built-ins", "mjs_exec", "mjs_call"],
  "path-sensitive typestate (result delivered / not) over every registered native function",
  "Callables are found from the uses of native function value constructors; helpers are inlined or summarised.")

P("G15", "Interpreter instances are isolated from each other",
  "Two interpreter instances in one process never influence each other: apart from the documented logging settings, the library keeps no writable global or static data, hands the address of none to code that writes through it, and changes no process-wide C library state (locale, environment, working directory, random seed, signal handlers).",
  ["programs", "histories", "schedules"], "every function of the library and every interleaving of two instances",
  "Cross-talk shows only for two instances doing related things in one process, possibly in two threads; the tests run one at a time.",
  ["src/mjs_core.c", "src/mjs_exec.c", "src/mjs_ffi.c", "src/mjs_object.c", "src/mjs_json.c", "src/common"],
  [("instance creation", "src/mjs_core.c mjs_create")],
  [("interpreter state", "all of it lives in the instance", "src/mjs_core.h struct mjs")],
  ["mjs_create", "mjs_exec", "mjs_destroy"],
  "whole-library effect analysis: addresses of stores traced to their root objects, interprocedural write summaries of parameters",
  "Every store, memory intrinsic and call of every library function is visited.")

P("G04", "Calls and runs leave the interpreter's stacks as they found them",
  "The interpreter keeps its operand, call, argument, scope and loop stacks and `this` balanced: a function call (from a script or from native code, of a script function or a native one, whether it succeeds or fails) is undone completely when it ends, so that the caller finds its own frames, scopes, loops and `this` and just the result on the operand stack; and a program or call that ends with an error leaves all five stacks and `this` as they were before it, so that later runs are not affected by it.",
  ["programs", "histories", "inputs"], "every path through every instruction of the dispatch loop, the call/return primitives, mjs_apply and load()",
  "An unbalanced stack shows only when a particular error happens inside a particular nesting of calls, loops and blocks, and often only in a later run.",
  ["src/mjs_exec.c", "src/mjs_builtin.c", "src/mjs_core.c"],
  [("frames", "src/mjs_exec.c call_stack_push_frame, call_stack_restore_frame"), ("error exit", "src/mjs_exec.c mjs_execute"), ("native callers", "src/mjs_exec.c mjs_apply, src/mjs_builtin.c mjs_load")],
  [("five stacks and `this`", "operands, frames, argument positions, scopes, loop records", "src/mjs_core.h struct mjs")],
  ["mjs_exec", "mjs_call", "mjs_apply", "script calls, load()"],
  "symbolic stack-effect analysis of every instruction path, checked against the effect of a call / the entry state",
  "Each stack is modelled as a base plus the elements pushed on the path; a frame records positions that must be restored.")

P("G24", "break, continue and return act only in the running function and its loops",
  "`break` and `continue` affect only loops of the function (or program) that is running, never a loop of its caller: outside of one's own loop they are a script error. They go back to exactly the scopes that were open when that loop was entered. `return` sets the result only of a function that this execution has called: at the top level of a program or of a loaded file it is a script error and does not disturb the caller.",
  ["programs"], "every path through the instructions that use loop records or set return values",
  "It takes a misplaced statement in a callee or a loaded file while the caller is inside a loop or a call; the tests have a few such programs at most.",
  ["src/mjs_exec.c"],
  [("loop records", "src/mjs_exec.c OP_LOOP, OP_BREAK, OP_CONTINUE"), ("return value", "src/mjs_exec.c OP_SETRETVAL")],
  [("loop records", "scope depth, break and continue addresses of each open loop", "src/mjs_core.h loop_addresses"), ("frames", "where the frame remembers the depth of the loop stack", "src/mjs_core_internal CALL_STACK_FRAME_ITEM")],
  ["mjs_exec", "mjs_call", "script break / continue / return"],
  "symbolic stack-effect analysis: path facts required at every use of loop records and return positions",
  "The layout of records and frames is derived from the instruction that writes them.")

P("G09", "Nesting is limited: programs and data cannot overflow the native stack",
  "However deeply a program, JSON text, value or FFI signature is nested, and however functions, native functions, load() and callbacks call each other, the engine's own recursion stays within fixed limits and ends in a script error instead of overflowing the native stack. The limits count only the nesting in progress: levels are given back when a construct, call or operation ends, also when it fails, so they never build up over a program's length or over several runs.",
  ["programs", "inputs", "histories"], "every cycle of the call graph and every path through its functions",
  "Stack overflow needs inputs nested far beyond what tests contain, in exactly the construct that lacks a limit; a leaking counter needs long programs.",
  ["src/mjs_parser.c", "src/mjs_exec.c", "src/mjs_json.c", "src/frozen/frozen.c", "src/mjs_ffi.c", "src/mjs_object.c", "src/mjs_gc.c"],
  [("parser levels", "src/mjs_parser.c enter_level, PARSE_LTR_BINOP, parse_block"), ("nested execution", "src/mjs_exec.c mjs_execute, mjs_apply"), ("JSON", "src/frozen/frozen.c json_parse_value, src/mjs_json.c to_json_or_debug")],
  [("nesting counters", "current nesting of each kind", "pstate.depth, mjs.exec_depth, frozen.depth, mjs.json_visited_stack")],
  ["mjs_exec", "mjs_call", "JSON.parse", "JSON.stringify", "ffi()"],
  "call-graph cycles + path-sensitive guard analysis: removing the calls guarded by a counter compared with a constant must leave no cycle; counter balance on every return",
  "Marking of deeply nested values by the collector recurses without a limit (recorded as a known finding).")

P("G12", "An imported C function is entered exactly as declared",
  "Whenever the FFI enters an imported C function, it does so through the machine signature of the declaration: every argument travels in a parameter of its declared machine type (integer/pointer word, float or double), the k-th parameter gets the k-th argument, and the result is read as the declared result type. A combination that cannot be expressed is refused with an error before anything is called; no declared combination crashes or aborts the process.",
  ["inputs", "programs"], "every number of arguments, every kind of each argument and every kind of result",
  "There are hundreds of combinations of kinds; the tests call a dozen. A wrong register class gives garbage silently.",
  ["src/ffi/ffi.c"],
  [("trampoline", "src/ffi/ffi.c ffi_call")],
  [("argument records", "kind and value of each argument", "src/ffi/ffi.h struct ffi_arg")],
  ["script calls of ffi() functions"],
  "abstract interpretation of the trampoline over its finite domain of argument counts and kinds (values stay abstract)",
  "Each call site's signature, argument origin and result member are compared with the declared kinds.")

P("G13", "FFI calls hand the declared arguments over or are refused",
  "A call of an imported function reaches the C code only when the script passes the declared number of arguments and each of them is of a kind its declared C type accepts; then the k-th C argument is made from the k-th script argument alone, by its declared type, strings are handed over from storage that stays valid for the argument, a callback keeps its own function and userdata (a record made for one signature is never used for another), and the result becomes a script value of the declared kind. Every mismatch is a script error, never a crash and never a call.",
  ["inputs", "programs", "histories"], "every declared type x kind of script value x position, every callback/userdata placement, result type and argument count",
  "The combinations of types, positions and value kinds are far more than any test samples, and a wrong slot shows only with particular neighbours.",
  ["src/mjs_ffi.c"],
  [("marshalling", "src/mjs_ffi.c mjs_ffi_call2"), ("callback records", "src/mjs_ffi.c ffi_get_matching, ffi_cb_args")],
  [("callback records", "function, userdata and signature bound for C code", "src/mjs_ffi_internal ffi_cb_args")],
  ["script calls of ffi() functions"],
  "abstract interpretation of the marshalling code over the finite domain of declared types and value kinds, with origin tracking",
  "Values carry the number of the script argument they come from.")

P("G14", "C callbacks made from script functions match their declaration",
  "A callback signature is accepted only if it can be honoured: the C function pointer handed out then has a parameter of the declared machine type at every declared position, and when C calls it, the registered script function gets the arguments in declared order, each converted by its declared type with its sign and value kind, and its own userdata is used; the result is converted by the declared type. Signatures that are malformed or not supported are script errors and never abort the process.",
  ["inputs", "programs"], "every callback signature and every implementation of the callback table",
  "Implementations are chosen by signature out of a table; one wrong entry shows only for that exact signature.",
  ["src/mjs_ffi.c"],
  [("validation", "src/mjs_ffi.c mjs_ffi_sig_validate, mjs_parse_ffi_signature"), ("selection and delivery", "src/mjs_ffi.c ffi_get_callback..., ffi_cb_impl_generic, ffi_cb_impl_*")],
  [("signature records", "types of result and parameters", "src/mjs_ffi.h struct mjs_ffi_sig")],
  ["ffi() of functions with callbacks", "C code that calls back"],
  "abstract interpretation of validator, selection, implementations and delivery over signature domains; path-sensitive exploration of the signature parser",
  "The three parts are checked against each other: accepted shape, machine type of the chosen implementation, delivered arguments.")

P("G07", "Operators do what their operands' kinds say, or are errors",
  "Every operator works on its own operands in source order, and its meaning depends only on their kinds: arithmetic and bit operators take numbers (NaN operands and division by zero give NaN or infinity, never a trap), + and - also a pointer with a number and - two pointers, + also joins two strings; every other combination is a script error, there is no implicit conversion. Comparisons hold only between numbers, with the relation the operator names. === and !== are each other's opposite and compare by kind: numbers by value (0 equals -0, NaN equals nothing), strings by their text, a NULL pointer equals null, everything else by identity. Assignments, compound assignments, ++ and -- store to the property they name, with the operator they name, and yield the value of the language's rules; a store through a pointer writes one byte and is an error unless index and value are numbers and the value is 0..255.",
  ["programs", "inputs"], "every operator x every combination of kinds of both operands",
  "Some forty operators times a hundred combinations of kinds; tests have some hundred combinations, mostly of numbers.",
  ["src/mjs_exec.c"],
  [("operators", "src/mjs_exec.c exec_expr, do_op, do_arith_op, check_equal, op_assign")],
  [("operand stack", "operands and results", "src/mjs_core.h struct mjs stack")],
  ["script operators"],
  "abstract interpretation of the operator implementation over the finite domain of operators x operand kinds, with the origin of each operand tracked",
  "Numeric results are uninterpreted terms: the machine operation and its operands are compared, not values.")

P("G08", "Each value has one kind, and all of the API agrees on it",
  "Every value an embedder or script can hold is of exactly one kind, and everything agrees on it: each mjs_is_... is true exactly for its kinds (FFI functions are functions to typeof), typeof and the type query name that kind and never abort, each constructor makes a value of its own kind for every argument (any NaN becomes the one NaN; any nonzero int is true), which its getter turns back into what was put in, and the getters of another kind give their neutral value. undefined, null, false, NaN, 0 and the empty string are false as conditions, everything else of these kinds and every object, array, function and pointer is true. Conversion to text is defined for strings, numbers, booleans, null, undefined and pointers, is a script error for objects and functions, and reports correctly whether the text must be freed.",
  ["inputs", "programs", "configurations"], "every kind of value and every argument of the constructors",
  "Values are NaN-packed: a wrong mask or tag shows only for particular bit patterns (a NaN with payload, a high pointer, one string form).",
  ["src/mjs_primitive.c", "src/mjs_core.c", "src/mjs_util.c", "src/mjs_conversion.c", "src/mjs_object.c", "src/mjs_string.c", "src/mjs_array.c", "src/mjs_ffi.c"],
  [("kinds", "src/mjs_primitive.c, src/mjs_core.c mjs_get_type"), ("conversions", "src/mjs_conversion.c")],
  [("packed value", "tag and payload bits", "src/mjs_internal.h MJS_TAG_*")],
  ["mjs_is_*, mjs_get_*, mjs_mk_*", "typeof", "conditions", "string conversion"],
  "abstract interpretation of classifiers, constructors, getters and conversions over the finite partition of values by tag",
  "Payloads stay symbolic; floating point classification is modelled per part.")

P("G06", "A value of one kind is never taken for one of another",
  "Whatever kinds of values the script or the embedder hands over - as this, arguments, operands, prototypes or property values - no builtin function, API function or bytecode instruction takes the payload of a value of one kind for data of another kind (an object, a property list, an FFI signature, a text), dereferences the NULL that the accessors give for a value of another kind, makes a property whose name is no string, or aborts the process because of the kind of a value: unsuitable kinds are an error or a neutral result.",
  ["inputs", "programs"], "every native function, API function and instruction x every kind of each value it inspects",
  "Some sixty functions with several values of fourteen kinds each; a missing guard shows only for the one unsuitable kind and then corrupts memory.",
  ["src/mjs_builtin.c", "src/mjs_array.c", "src/mjs_string.c", "src/mjs_object.c", "src/mjs_json.c", "src/mjs_ffi.c", "src/mjs_exec.c", "src/mjs_conversion.c", "src/mjs_util.c"],
  [("builtins and API", "src/mjs_builtin.c, src/mjs_string.c, src/mjs_array.c, src/mjs_object.c, src/mjs_json.c"), ("instructions", "src/mjs_exec.c mjs_execute")],
  [("packed value", "tag and payload bits", "src/mjs_internal.h MJS_TAG_*")],
  ["script operations", "mjs_get*, mjs_set*, mjs_del, mjs_next, mjs_array_*, mjs_call"],
  "abstract interpretation of each function over the finite partition of values by tag, with lazily enumerated kinds and symbolic payloads",
  "Pointers made by C code (foreign values) are trusted to be what the script uses them for; combinations which exceed the state limit are counted as undecided.")

P("G31", "Text of scripts is data, never a format",
  "Whatever text a script, a file name, a signature or the embedder supplies - in error messages, stack traces, die(), printed values, JSON output, log lines - is passed to the formatting functions as a value: the format of every formatting call comes from literals of the program only (directly, through conditionals, constant tables, or the format parameter of a wrapper), and every literal asks for no more values than the call passes, each of the machine type passed, with directives that the formatting function knows.",
  ["inputs", "programs", "configurations"], "every formatting call x every text and integer width",
  "A format made of text works for all ordinary texts and reads or writes arbitrary memory for texts with a per cent sign; a wrong width shows only on other platforms.",
  ["src/mjs_core.c", "src/mjs_util.c", "src/mjs_exec.c", "src/mjs_ffi.c", "src/mjs_builtin.c", "src/mjs_json.c", "src/common/str_util.c"],
  [("error texts", "src/mjs_core.c mjs_set_errorf, mjs_prepend_errorf, mjs_print_error, mjs_die"), ("printed values", "src/mjs_util.c mjs_jprintf"), ("JSON output", "src/mjs_json.c, src/frozen/frozen.c json_printf")],
  [("error message", "text of the last error", "src/mjs_core.h struct mjs error_msg, stack_trace")],
  ["die(), print(), load(), ffi()", "mjs_strerror, mjs_print_error", "mjs_printf, mjs_sprintf, mjs_fprintf"],
  "interprocedural origin analysis of every format operand, and comparison of literal directives with the typed arguments",
  "What %s and %p arguments point to is not compared; formats that the embedder passes are trusted.")

P("G20", "Objects are maps from texts to values",
  "An object holds at most one value per property name, and names are equal exactly when their whole texts are (same length and bytes, zero bytes included, whatever form the string has). Reading gives the value last set for that name - through the chain of prototypes the nearest one's, ending on every chain and cycle - or undefined; setting replaces that value or adds one property whose name keeps its text, and changes no other; deleting removes exactly that property and reports whether there was one; iterating from undefined yields each name once and ends. Items of an array are named by their decimal index, in every operation, and its length is the greatest decimal index plus one. Values that are no objects have no properties and setting one is an error.",
  ["inputs", "programs"], "every object x every name x every operation",
  "Lookup has separate paths for short and long names, and names may be prefixes of each other, contain zero bytes or come as foreign strings: tests use a handful of names.",
  ["src/mjs_object.c", "src/mjs_array.c", "src/mjs_string.c"],
  [("properties", "src/mjs_object.c mjs_get_own_property, mjs_get*, mjs_set*, mjs_del, mjs_next"), ("items", "src/mjs_array.c mjs_array_get2, mjs_array_set, mjs_array_del, mjs_array_length, mjs_array_push")],
  [("property list", "names and values", "src/mjs_object.h struct mjs_object, struct mjs_property")],
  ["property access, for..in, arrays", "mjs_get*, mjs_set*, mjs_del, mjs_next, mjs_array_*"],
  "abstract interpretation of the property functions over a finite domain of heaps (names by class of text)",
  "Bytes of texts are never looked at: comparisons are decided by the class of the two texts.")

P("G33", "Methods of arrays and strings address what they say",
  "push appends its arguments in order and gives the new length. splice removes and returns, in order, exactly the items it addresses (a negative start counts from the end, positions and counts are clamped to the array), puts the new items there in order and keeps the others in order. slice gives the addressed part of the text, clamped likewise and empty when the end is before the start. indexOf gives the position of the first occurrence at or after the given one, or -1. at and charCodeAt give the byte as a number 0..255, or undefined beyond the end. length and method names apply only by their whole name to strings and arrays, a subscript of a string gives that one byte as string or undefined beyond the end, for every index. None of them reads bytes outside of the text.",
  ["inputs", "programs"], "every length x position x count x number of arguments",
  "Boundary positions (negative, just beyond the end, more to delete than there is) multiply; tests sample a few.",
  ["src/mjs_array.c", "src/mjs_string.c", "src/mjs_exec.c", "src/mjs_util.c"],
  [("array methods", "src/mjs_array.c mjs_array_splice, mjs_array_push_internal"), ("string methods", "src/mjs_string.c mjs_string_slice, mjs_string_index_of, mjs_string_char_code_at"), ("names", "src/mjs_exec.c getprop_builtin")],
  [("array items", "properties named by decimal index", "src/mjs_array.c")],
  ["array and string methods in scripts"],
  "abstract interpretation of the native functions over abstract arrays and texts of every small length and every class of position",
  "Array items are opaque, texts are known by length and class. Positions beyond the range of int are out of scope.")

P("G18", "Every compiled instruction is one the interpreter decodes as it was meant",
  "In the bytecode the compiler produces, for programs of any size and shape, every instruction is followed by exactly the operands (numbers, texts, raw bytes) the interpreter reads for it, and every jump - of conditions, loops, && and ||, ?:, break and continue, function bodies, and the entry point of a function - is filled in and leads to the start of the instruction it was meant to reach, also when distances need several bytes and already emitted code has to move.",
  ["inputs", "programs", "configurations"], "every program the parser accepts x every distance",
  "Distances change their encoded size at 128 and 16384 bytes of code; whichever of the nested jumps forgets to follow the move goes wrong only for long bodies, conditions or increments.",
  ["src/mjs_parser.c", "src/mjs_bcode.c", "src/mjs_exec.c", "src/common/cs_varint.c"],
  [("code generation", "src/mjs_parser.c parse_*"), ("code buffer", "src/mjs_bcode.c emit_byte, emit_int, emit_str, mjs_bcode_insert_offset")],
  [("generated code", "instructions and distances", "src/mjs_core.h bcode_gen, src/mjs_parser.h cur_idx")],
  ["script execution"],
  "abstract interpretation of the parsing functions over a code buffer of symbolic layout, with instruction semantics extracted from the interpreter's dispatch loop",
  "Positions are linear terms over the lengths of the pieces emitted. Which tokens select which instruction is not this property.")

P("G28", "Every construct leaves the interpreter's stacks as the code around it expects",
  "The code of every expression leaves exactly one value, and that of every statement exactly the one its enclosing list drops, whatever is inside; each branch, loop, early exit by break or continue and short-circuit reaches the place where ways meet with the same number of operands, scopes, loops and argument lists; loops, blocks and calls remove what they added, and function bodies start on an empty frame. So running a construct any number of times neither piles up nor uses up values, scopes or loop records.",
  ["programs", "histories"], "every program the parser accepts",
  "A construct that leaves one value too many works in every test that does not repeat it inside a loop or an argument list; the combinations of nested constructs are unbounded.",
  ["src/mjs_parser.c", "src/mjs_exec.c"],
  [("code generation", "src/mjs_parser.c parse_*"), ("stack effects", "src/mjs_exec.c mjs_execute")],
  [("operand stack, scopes, loops, arguments", "heights", "src/mjs_core.h struct mjs stack, scopes, loop_addresses, arg_stack")],
  ["script execution", "memory use of long running scripts"],
  "stack-effect analysis of emitted code per construct with contracts between the parsing functions, effects extracted from the interpreter",
  "Assignment targets and operands of ++ and -- are taken to be names or properties without parentheses, a prefix ++ or -- to stand in front of a name.")

P("G11", "A script that does not compile is rejected as a whole",
  "Whenever any part of a source text is not accepted by the parser, however deeply it is nested, compiling fails: nothing of that text is executed, the code generated so far is discarded, and the caller of exec, load or eval gets the error. An error in a part (an operand, a list element, a loop header, a nested body) is never overlooked by the construct around it.",
  ["inputs", "programs"], "every malformed text",
  "Every construct has its own calls that can fail; a forgotten check makes only scripts with an error in just that place run half compiled.",
  ["src/mjs_parser.c", "src/mjs_exec.c", "src/mjs_bcode.c"],
  [("error propagation", "src/mjs_parser.c parse_*"), ("commit or discard", "src/mjs_parser.c mjs_parse, src/mjs_exec.c mjs_exec_internal")],
  [("generated code", "uncommitted code", "src/mjs_core.h bcode_gen")],
  ["mjs_exec, mjs_exec_file, load()"],
  "path-sensitive propagation analysis: every failing callee outcome on every path of the parsing functions and of the entry points",
  "Which tokens and texts the grammar accepts is taken from the parser itself.")

P("G16", "Destroying an interpreter releases everything it owns, once",
  "Destroying an interpreter, in whatever state its runs left it, releases each piece of heap memory it owns exactly once: the stacks and other buffers, the string storage, all bytecode in memory (and none in read-only storage), the error message and stack trace, every callback descriptor, every block of objects, properties and FFI signatures, the callback signature of each FFI function, and the structure itself; nothing is accessed after its release. ffi_cb_free releases exactly the descriptors of that function and userdata and leaves the others linked. A new interpreter has its storage set up, with cells large enough for what is kept in them, before the first value is made.",
  ["histories", "configurations"], "every state of buffers, bytecode parts, descriptor lists and arenas",
  "A leak or a double release at the end shows in no result, and only for states (several blocks, callbacks still registered) the tests do not build.",
  ["src/mjs_core.c", "src/mjs_gc.c", "src/mjs_ffi.c", "src/common/mbuf.c"],
  [("create and destroy", "src/mjs_core.c mjs_create, mjs_destroy"), ("arenas", "src/mjs_gc.c gc_arena_init, gc_arena_destroy, gc_sweep"), ("callbacks", "src/mjs_ffi.c mjs_ffi_cb_free, mjs_ffi_args_free_list, mjs_ffi_sig_destructor")],
  [("interpreter", "all owned memory", "src/mjs_core.h struct mjs")],
  ["mjs_create, mjs_destroy", "script ffi_cb_free"],
  "abstract interpretation of the releasing functions over a finite domain of heaps whose blocks have identities",
  "Files mapped into memory for .jsc bytecode are not unmapped by the code and not part of the statement.")

P("G25", "Readers of scripts and JSON text stop at the end of the text",
  "Whatever characters a script or a JSON text consists of, its reader reads none behind the end. The token reader of scripts reads no character behind the terminating NUL, leaves the reader at or before it, and after every token has advanced unless it stands on the NUL (also inside unterminated strings and comments and after a stray backslash). The reader behind JSON.parse, and the one that undoes escapes in JSON strings, read only before the end pointer they are given. A script read from a file and a text copied for JSON.parse have a NUL directly behind their last character.",
  ["inputs"], "every text of every length",
  "Each reader has dozens of places that look one or more characters ahead; only a text ending exactly there shows a missing test for the end, and then as a silent read of neighbouring memory.",
  ["src/mjs_tok.c", "src/frozen/frozen.c", "src/mjs_json.c", "src/common/cs_file.c"],
  [("token reader", "src/mjs_tok.c pnext, getstr, getnum, getident, skip_spaces_and_comments"), ("JSON reader", "src/frozen/frozen.c json_walk, parse_*, json_unescape"), ("terminators", "src/common/cs_file.c cs_read_file, src/mjs_json.c mjs_json_parse")],
  [("reader position", "pos between the start and the end of the text", "src/mjs_tok.h struct pstate, src/frozen/frozen.c struct frozen")],
  ["mjs_exec, load, JSON.parse"],
  "abstract interpretation over a tape of unknown length with exact positions relative to the proven extent, path-sensitive character facts",
  "What the tokens mean is not part of it. Texts given to mjs_exec are C strings.")

P("G30", "Text and array buffers are never written past their end",
  "Whatever a script, a JSON text, a number, a format's arguments or the embedder's buffer size is, the engine writes nothing behind the end of a buffer whose size it knows: local arrays, arrays inside of structures (argument tables and type tables of FFI signatures, the path of the JSON reader), blocks it has just allocated, and a buffer that a caller hands over together with its size (JSON.stringify's printer, c_snprintf, varints, unescaping). Room for a terminating NUL and for signs, prefixes and padding is counted; when the room is used up the rest is dropped and only counted.",
  ["inputs"], "every value, text length, number of arguments and buffer size",
  "An overflow shows only for the length that fills a buffer exactly, and then as a silent write into a neighbouring object.",
  ["src/mjs_json.c", "src/mjs_ffi.c", "src/mjs_exec.c", "src/mjs_conversion.c", "src/mjs_string.c", "src/common/str_util.c", "src/common/cs_varint.c", "src/common/cs_file.c", "src/common/mg_str.c", "src/frozen/frozen.c"],
  [("JSON printer", "src/mjs_json.c to_json_or_debug, snquote, append_hex"), ("number and text formatting", "src/common/str_util.c c_vsnprintf, c_itoa, mg_avprintf"), ("FFI tables", "src/mjs_ffi.c mjs_ffi_sig_set_val_type, mjs_ffi_call2, ffi_cb_impl_generic"), ("JSON reader", "src/frozen/frozen.c json_append_to_path, json_truncate_path, json_unescape"), ("scratch buffers", "src/mjs_exec.c .jsc file name, src/mjs_conversion.c, src/common/cs_file.c")],
  [("room left", "size of the buffer minus what was written", "local variables"), ("path_len", "length of the JSON path, at most 255", "src/frozen/frozen.c struct frozen"), ("args_cnt", "number of parameters, at most 6", "src/mjs_ffi.h struct mjs_ffi_sig")],
  ["JSON.stringify, JSON.parse, ffi(), load(), c_snprintf, mjs_json_stringify"],
  "linear inequalities over SSA values: guards that dominate the write, case split over joins, induction at loops, inferred ranges of structure members",
  "Buffers that grow (struct mbuf) are covered by G20 and G33, storage of strings by G13. Lower ends are not decided.")

def na(id, title, statement, over, text, why, files, reason): NA(id, title, statement, over, text, why, files, reason)
na("N01", "Numeric results of operators and conversions",
  "The result of every arithmetic, shift and comparison operator, and of every conversion between numbers and text, is the one the language defines.",
  ["inputs"], "every pair of doubles", "Rounding, overflow and NaN cases are unbounded.", ["src/mjs_exec.c", "src/mjs_conversion.c"],
  "The statement is about the values machine floating point operations and libc conversions yield; static rules decide which operation is applied to which operand (claimed in G07), not what it computes.")
na("N02", "JSON round trip",
  "JSON.parse(JSON.stringify(v)) equals v for every value that JSON can express.",
  ["inputs"], "every finite value", "Equality of whole values built by two independent recursive programs over unbounded texts.", ["src/mjs_json.c", "src/frozen/frozen.c"],
  "Needs equality of unbounded texts through printing and parsing of numbers; single steps (kinds, ownership, nesting limits, format use) are claimed in G06, G09, G17 and G31.")
na("N03", "String contents survive compaction",
  "After a collection every live string has the same bytes as before it.",
  ["histories"], "every layout of the string storage", "Depends on which strings alias which storage at run time.", ["src/mjs_gc.c"],
  "The collector threads values through the string bytes themselves; that this in-place encoding is undone for every layout is a property of run time contents no rule over the source decides. That every reference is visited and moved is claimed in G01.")
na("N04", "Line numbers in stack traces",
  "Each entry of a stack trace names the line of the statement being executed.",
  ["programs"], "every program", "The map is delta encoded at run time.", ["src/mjs_parser.c", "src/mjs_bcode.c"],
  "The line of an instruction depends on the text being compiled and the order of emissions at run time; no static rule relates it to the source position beyond the call sites.")
na("N05", "Behaviour when memory is exhausted",
  "When an allocation fails, the engine reports an error and stays usable.",
  ["fault_sequences"], "every allocation", "Every allocation site is a fault point.", ["src/mjs_core.c", "src/mjs_gc.c", "src/common/mbuf.c"],
  "The engine is not written to this: mbuf and the arenas ignore or abort on failure by design, so the property does not hold here; error paths that exist are checked for resources in G17.")
na("N06", "Termination of scripts",
  "Every run of a terminating script ends, and in time proportional to the instructions executed.",
  ["programs"], "every script", "Undecidable in general.", ["src/mjs_exec.c"],
  "Depends on the script's own loops; recursion depth of the engine is bounded in G09.")
