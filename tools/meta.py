CB = "CBMC contract harness on the real code (unbounded input size, unwinding assertions)"
prop("C01", "UTF-8 conversion is exact",
 "Decoding UTF-8 accepts exactly the well-formed sequences of RFC 3629, with their exact length and code, never reads outside the given bytes and always makes progress; ill-formed and truncated sequences are reported. Encoding yields the unique UTF-8 form of each Unicode scalar value and refuses every other value, and decoding what was encoded gives the value back.",
 ["inputs"], "all byte sequences of any length; all char values", "The tests decode a few dozen sample strings; the set of byte sequences and code points (1.1M) is not enumerated, truncation and adjacency to the end of the buffer are not observable to them.",
 ["src/encoding.c", "src/encoding.h"], [("the UTF-8 codec", "src/encoding.c: utf8_scan_char, utf8_str2int, utf8_int2str, utf8_char_len")], ["codec table entry found by name"],
 CB, "Contracts of scan/decode/encode/length enforced on the codec methods reached through the public codec table, for a buffer of any size and any char value; specification written from RFC 3629. Trusts CBMC and the C specification.")
prop("C02", "EUC, Shift_JIS and Latin-1 conversion is exact",
 "For EUC-JP, EUC-CN, EUC-KR, Shift_JIS (JIS X 0213) and ISO-8859-1, the decoder accepts exactly the sequences of the encoding's lead and trail byte ranges, never reads outside the given bytes and always makes progress, and reports every other sequence as ill-formed or truncated. The encoder accepts exactly the char values the decoder can yield and refuses every other, and the two are inverse to each other.",
 ["inputs"], "all byte sequences of any length; all char values; each of the five encodings", "The tests use small samples of Japanese text; range limits of lead and trail bytes are not enumerated.",
 ["src/encoding.c"], [("the five codecs", "src/encoding.c: *_scan_char, *_str2int, *_int2str, *_char_len")], ["codec table entry found by name"],
 CB, "As C01, for the other five codecs. The specification follows the byte ranges the decoders document.")
IR = "contract checking of the compiled source (LLVM IR) by a path-wise verification-condition generator with Z3; loop invariants by Houdini"
LATER = "planned; no check yet"
def later(id, title, statement, text, tests, files, mech, over=["inputs"], tech=None):
    if tech: return prop(id, title, statement, over, text, tests, files, mech, technique=tech, note=NOTE.get(id, ""), na=NA_WHY.get(id, LATER))
    prop(id, title, statement, over, text, tests, files, mech, technique=IR, note=NOTE.get(id, "") + " Decided on the LLVM IR of the current source in both storage layouts; trusts the verification-condition generator in lib/, Z3 and the storage-accessor contracts.", na=NA_WHY.get(id, LATER))
NOTE = {
 "A01": "Each arithmetic procedure is under a contract which fixes the result and the error condition for every reduction state and all operands.",
 "A03": "Each procedure is under a contract which fixes the result and the error condition for all operands.",
 "C03": "Each procedure is under contract; integer->char separately for the six encodings, calling their real length methods.",
 "L01": "Proved for finite structures of any length and for circular lists, with termination; callers of the classifier are checked against its contract.",
 "Q01": "The contract of equal? is the unfolding of its definition, recursive calls are checked against it; partial correctness (circular structures excluded).",
 "S01": "Loop-free harnesses over arbitrary component values: constructor, predicates, getters, setters, mark, unmark and reclaim of every object type in both layouts (macro objects in the hygienic build). Trusts CBMC; pointer conversions keep bits.",
 "V01": "Proved for vectors of any size by inferred loop invariants with array facts.",
 "L03": "list, reverse, map and for-each over one list are proved for lists of any length; append of up to 3 lists (4 thorough) and map and for-each over 2 lists (3 thorough) of any length each are bounded in the number of lists only and not counted as proved.",
 "E02": "Lookup in a frame and over frames (any size and depth), reference, set!, new frames, parameter lists, arity and the frame of a closure call are proved; evaluation enters as a contract with arbitrary effects on the heap; the hygienic-macro build is not covered.",
 "E01": "Dispatch over all procedure and syntax type codes, argument evaluation (any number), the reduction protocol of the variadic operators, call-with-values and multiple values (compact layout only) are proved; apply is bounded to 1-4 direct arguments (its list of any length); that procedures with optional arguments reject superfluous ones is only tested. Evaluation enters as a contract which leaves the form unchanged.",
 "L02": "Proved for lists of any length by inferred loop invariants; equal? enters through its contract.",
}
NOTE["E03"] = "if, and, or, begin, cond (with recipients) and case are proved for any number of sub-expressions and clauses; memv, length and begin enter through their contracts; evaluation is a contract which leaves the form unchanged."
NOTE["K02"] = "delay and force are proved, with evaluation as a contract that has any effect except on determined promises, which is what force is proved to keep."
NOTE["G01"] = "Marking an object (three layouts), the registered variables, definite and conservative regions of any length, the table of registered variables of any size and the recognition of heap references are proved. That every marked object's descendants are marked follows by an induction on paths which is not machine-checked; libgcroots, which finds the stack, is trusted."
NOTE["G02"] = "Proved for any number and size of heaps, one arbitrary cell standing for all; releasing the external resources of one cell is decided by CBMC in all three layouts. The system allocator is trusted to return distinct fresh blocks."
NA_WHY = {}
later("A01", "Integer arithmetic is exact or signals an error",
 "For all integers, +, -, abs, quotient, remainder, modulo, /, the comparisons, max, min and the sign and parity predicates give the mathematically exact result (quotient and / truncated) or, when it does not fit the integer range or the divisor is zero, signal an error; they never return a wrong number or crash. An argument which is not an integer is always rejected with an error.",
 "all pairs of integers in the full machine range, both storage layouts, and all argument kinds", "Boundary values are sampled; 2^120 pairs cannot be.", ["src/number.c"], [("arithmetic procedures", "src/number.c")])
later("A02", "Integer and text conversion are inverse",
 "number->string writes every integer exactly in radix 2, 8, 10 and 16, and string->number reads it back to the same integer; an unsupported radix is an error. No input makes the conversion write outside its buffers.",
 "all integers, all four radixes", "a handful of values are tested", ["src/number-io.c"], [("conversion", "src/number-io.c")])
later("A03", "Bitwise operations are exact",
 "logand, logior, logxor, lognot, bitwise-if and logtest compute the two's complement bitwise result for all integers, with their documented identities for no arguments, and reject every other kind of argument.",
 "all integers", "samples only", ["src/module-srfi60.c"], [("SRFI-60", "src/module-srfi60.c")])
later("C03", "Character procedures are total and consistent",
 "Character comparisons order characters by code (case-insensitive ones after ASCII folding), the class predicates and case conversions agree with their ASCII definition for every character, and char->integer and integer->char are inverse, integer->char rejecting every number that is not a character of the current encoding. Every argument which is not a character is rejected.",
 "all characters", "samples only", ["src/char.c"], [("char procedures", "src/char.c")])
later("S01", "Object representation keeps every value apart",
 "In both storage layouts each constructed object answers true to exactly one type predicate, yields back exactly the components it was made from, and changing one component changes no other component, type or mark of any object.",
 "all integers, characters and component values", "samples only", ["src/storage-compact.h", "src/storage-fatty.h"], [("accessor macros", "src/storage-*.h")], tech=CB)
later("L01", "List classification never misjudges or hangs",
 "For every object, proper, improper and circular lists of any size are told apart exactly, the length reported for a proper list is exact, and the classification always terminates; list? is true of exactly the proper lists and length signals an error for anything else.",
 "all list structures of any length including circular ones", "a few short lists are tested", ["src/list.c"], [("list classification", "src/list.c: scm_length, scm_p_listp, scm_p_length")])
later("L02", "List search and access are exact",
 "memq, memv, member, assq, assv, assoc, list-ref and list-tail return the first matching tail or pair or the addressed element or tail, in lists of any length, and signal an error instead of reading past the end or of an ill-formed list. cons makes a new pair of its arguments, every composition of car and cdr up to four levels returns exactly the addressed component or signals an error where a pair is missing, and set-car! and set-cdr! change exactly the named field of the named pair.",
 "lists of any length, any key", "short samples", ["src/list.c"], [("list access", "src/list.c")])
later("L03", "List construction is exact and fresh",
 "list, append, reverse, map and for-each build their results with exactly the specified elements in the specified order for arguments of any length, share structure only where documented, and never modify an argument list.",
 "lists of any number and length", "short samples", ["src/list.c", "src/procedure.c"], [("list builders", "src/list.c, src/procedure.c")])
later("G01", "Garbage collection keeps every reachable object",
 "A collection marks every object reachable, through any kind of object, at any depth and over cycles, from the C stack and registers, from the registered variables and from the symbols, and marks nothing else but what a conservative reading of the stack reaches. A variable that was registered stays registered, whatever else is registered or unregistered, until it is unregistered itself. Every word of the stack that refers to an object of the heap is recognised as such.",
 "all heap graphs, registration histories and stack contents", "tests collect only small heaps, whose objects are almost all found in several ways", ["src/storage-gc.c"], [("mark", "src/storage-gc.c: mark_obj, gc_mark, gc_mark_global_vars, gc_mark_protected_var, gc_mark_locations"), ("registration", "src/storage-gc.c: scm_gc_protect, scm_gc_unprotect, locate_protected_var"), ("recognition", "src/storage-gc.c: within_heapp")], over=["histories"])
later("G02", "Sweeping frees exactly the unmarked cells",
 "After a collection every cell that was not marked is on the free list exactly once with its external resources released once, and every marked cell is kept unchanged and unmarked. An allocation takes its cell off the free list and always obtains one, collecting and adding a heap as needed, unless the configured maximum of heaps is reached, which is reported as an error. At shutdown every external resource and every heap is released once.",
 "all heap states, any number and size of heaps", "tests cannot observe the free list or the marks and collect only small heaps", ["src/storage-gc.c"], [("sweep", "src/storage-gc.c: gc_sweep, free_cell, finalize_heap"), ("allocation", "src/storage-gc.c: scm_alloc_cell, gc_mark_and_sweep, add_heap, initialize_heap, scm_prealloc_heaps")], over=["histories"])
later("V01", "Vector access is bounds-checked and exact",
 "Vector procedures read and write exactly the addressed element and no other, accept exactly the indexes 0 to length-1, and conversions and fills treat every element, for vectors of any size.",
 "all vectors, all indexes", "samples", ["src/vector.c"], [("vector procedures", "src/vector.c")])
later("T01", "Strings keep their contents and invariants",
 "String procedures return and modify exactly the addressed characters, accept exactly the valid index ranges, keep every string terminated and its length consistent with its contents, and never change a literal.",
 "all strings, indexes, encodings", "samples", ["src/string-procedure.c", "src/string.c"], [("string procedures", "src/string-procedure.c")])
later("E01", "Arguments reach procedures exactly as passed",
 "Every call of a built-in procedure with a wrong number of arguments is rejected with an error, and otherwise each parameter receives its own argument, for every calling form and number of arguments.",
 "all procedures and argument lists", "samples", ["src/eval.c", "src/procedure.c"], [("call dispatch", "src/eval.c: call, call_continuation, map_eval, reduce, scm_p_apply, scm_call, scm_eval"), ("multiple values", "src/procedure.c: scm_p_values, scm_p_call_with_values"), ("registration tables", "generated function tables")])
later("E02", "Variable lookup finds the innermost binding",
 "A variable reference or assignment always acts on the innermost binding of that name, for environments of any depth and frames of any shape including rest parameters, and on no other.",
 "all environments", "samples", ["src/env.c", "src/eval.c", "src/syntax.c"], [("environment", "src/env.c"), ("closure call", "src/eval.c: call_closure"), ("assignment", "src/syntax.c: scm_s_setx")])
later("E03", "Conditional forms choose the right branch",
 "if, and, or, begin, cond and case evaluate exactly the sub-expressions their definition selects, in order, and give the value of the selected one.",
 "all expressions and evaluation results", "samples", ["src/syntax.c"], [("conditional syntax", "src/syntax.c: scm_s_if, scm_s_and, scm_s_or, scm_s_begin, scm_s_cond, scm_s_cond_internal, scm_s_case")], over=["programs"])
later("Y01", "A symbol name denotes one symbol",
 "Interning the same name any number of times yields the same symbol, different names yield different symbols, and the name of a symbol never changes, for any number of symbols and any hash distribution.",
 "all names and histories", "samples", ["src/symbol.c"], [("symbol table", "src/symbol.c")], over=["histories"])
later("Q01", "Equivalence predicates obey their definition",
 "eq?, eqv? and equal? implement their definition for every pair of objects: eqv? compares numbers and characters by value and others by identity, equal? compares pairs, strings and vectors of any size by structure, and each coarser predicate accepts what the finer accepts.",
 "all pairs of objects", "samples", ["src/procedure.c"], [("equivalence", "src/procedure.c")])
later("K01", "dynamic-wind guards run exactly once per crossing",
 "When control passes between two points of the dynamic extent, exactly the after thunks of the extents left are run innermost first and then the before thunks of the extents entered outermost first.",
 "all nesting depths and jumps", "samples", ["src/continuation.c"], [("dynamic wind", "src/continuation.c")], over=["programs"])
later("K02", "A promise is evaluated at most once",
 "force evaluates the delayed expression until it first yields a value, returns that same value on every later call, and never lets a reentrant evaluation change an already determined value.",
 "all evaluation orders", "samples", ["src/promise.c"], [("promises", "src/promise.c: scm_s_delay, scm_p_force, scm_init_promise")], over=["programs"])
later("P01", "Ports deliver every character exactly once",
 "read-char and peek-char deliver exactly the characters of the source in order, peek-char consumes nothing, end of input is reported only at the end, and line tracking counts every newline.",
 "all inputs", "samples", ["src/port.c", "src/scmport-*.c"], [("ports", "src/scmport-*.c")])
later("X01", "Primitives reject objects of the wrong type",
 "No built-in procedure reads or writes the components of an object as another type than it has: an argument of the wrong type is always rejected with an error before anything is changed.",
 "all argument kinds for all built-in procedures", "only a few wrong types are tested per procedure", ["src/*.c"], [("type checks", "src/*.c")])
