#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit here, then run)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), hook=None, state=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               hook_needed=hook, **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

K, I, L = "src/kernel/", "include/meevax/kernel/", "library/"

prop("C01", "Garbage collection never changes what a program does",
 """For every program and every point at which storage may be reclaimed, the program's output, values and errors are the same as if nothing were ever reclaimed.
 No object that the program can still reach (through variables, closures, continuations, the exception-handler and dynamic-wind state, parameters, ports, libraries, symbols, or a primitive's own temporaries) is ever reclaimed, overwritten or altered.""",
 ["programs", "schedules"], "all programs x all sets of allocation points at which a collection runs, with fresh and with recycled memory",
 """The test programs allocate far less than the collection threshold between the points that matter, so only a handful of collection points are ever exercised; a missing root or a mis-scanned object shows only when a collection hits one particular allocation.""",
 [K+"collector.cpp", I+"collector.hpp", "include/meevax/memory/pointer_set.hpp", "include/meevax/memory/allocator.hpp", K+"environment.cpp", K+"dynamic_environment.cpp"],
 [("mutators registered as roots; mark from every registered root that is not inside a heap object", K+"collector.cpp"),
  ("per-object extents found by address so that interior roots mark their owner", "include/meevax/memory/pointer_set.hpp"),
  ("virtual machine registers as mutators", I+"dynamic_environment.hpp")],
 ["output and values of the interpreter", "AddressSanitizer reports"], "a collection forced at chosen allocation requests (MEEVAX_VERIF)")

prop("C02", "Unreachable storage is reclaimed; long-running programs stay bounded",
 """Objects that become unreachable, including cyclic structures and objects that own resources such as ports, are reclaimed by a collection, so the number of live objects after a collection does not depend on how long a loop has run.
 Running a loop whose live data is bounded keeps the process's memory bounded without the program asking for a collection, and every reclaimed object is finalised exactly once.""",
 ["programs", "histories"], "all programs with bounded live data, all iteration counts, all kinds of objects",
 """The unit tests compare a few counts after one collection; none runs a loop long enough to see growth or checks every kind of object and cyclic garbage.""",
 [K+"collector.cpp", I+"collector.hpp", "include/meevax/memory/allocator.hpp", "include/meevax/memory/model.hpp"],
 [("mark and sweep from registered roots", K+"collector.cpp"), ("allocation counter triggers collection", I+"collector.hpp"), ("free list reuse", "include/meevax/memory/allocator.hpp")],
 ["gc-count / live object counter after a collection", "resident size of the process", "destructor counts"], "count of live objects")

prop("C03", "The collector's address set behaves as an ordered set of addresses",
 """For every sequence of insertions, removals, membership tests, lower-bound searches and traversals, the address set that the collector uses to find objects and roots gives the answers of a mathematical set of addresses, visiting every element exactly once in ascending order.
 This holds for addresses anywhere in the address space, across page and word boundaries, and for sets that become empty and are refilled.""",
 ["histories"], "all sequences of operations over all addresses",
 """The unit tests insert a few hundred consecutive addresses; boundary words, sparse pages and interleaved removal are not sampled.""",
 ["include/meevax/memory/pointer_set.hpp"],
 [("sorted pages of bit sets with forward/backward iterators", "include/meevax/memory/pointer_set.hpp")],
 ["return values of the set's operations"], None)

prop("C04", "Immediate values survive being stored in any object slot",
 """Every number, character, boolean and the empty list that a program stores in any variable, list, vector, box, record or closure is later read back as the same value of the same type, bit for bit (including every fixnum and every flonum bit pattern that is not a NaN, and every Unicode character).
 No immediate value is ever mistaken for another type, and distinct values never become identical.""",
 ["inputs"], "all 2^32 small integers, all 2^64 flonum bit patterns, all characters, all pairs of types",
 """Tests store a dozen values; the encodings that collide with a tag or lose a sign bit are at particular bit patterns.""",
 ["include/meevax/memory/nan_boxing_pointer.hpp", "include/meevax/memory/literal.hpp", I+"pair.hpp", I+"number.hpp"],
 [("signatures in NaN payloads", "include/meevax/memory/nan_boxing_pointer.hpp")], ["type predicates and values", "decoded C++ values"], None)

prop("C05", "Exact arithmetic is exact",
 """For all exact integers and rationals of any size, +, -, *, /, expt with an exact integer exponent, abs, square, numerator, denominator, exact, floor, ceiling, truncate, round, max and min give the mathematically exact result in lowest terms, as an exact number.
 Comparisons and the numeric predicates (exact?, integer?, rational?, zero?, positive?, negative?, even?, odd?) agree with the mathematical values.""",
 ["inputs"], "all exact integers and ratios, in particular around the boundary between small and large representations",
 """Tests check tens of operand pairs; overflow of the small representation, normalisation and mixed-representation dispatch depend on the magnitudes of both operands.""",
 [K+"number.cpp", I+"number.hpp", K+"large_integer.cpp", K+"ratio.cpp", I+"small_integer.hpp"],
 [("overflow to large integers", K+"number.cpp"), ("ratio normalisation via GMP", K+"ratio.cpp")], ["printed value and exactness"])

prop("C06", "Integer division, gcd, lcm and exact-integer-sqrt obey their laws",
 """For all integers n and nonzero d, each division operator family (floor, truncate, ceiling, round, euclidean, balanced, with quotient, remainder and two-value forms, and quotient, remainder, modulo) returns the unique q and r with n = dq + r that its rounding rule prescribes.
 gcd, lcm, exact-integer-sqrt, numerator/denominator-based helpers and their exact results agree with the mathematical definitions for operands of any size and sign, and division by exact zero raises an error that can be handled.""",
 ["inputs"], "all integer pairs, all signs and sizes, exact and inexact integers",
 """Each family has a few sample rows; sign combinations with operands of mixed size and halfway cases are not all covered.""",
 [K+"number.cpp", L+"srfi-141.ss", L+"r7rs.ss", L+"r4rs.ss", K+"boot.cpp"],
 [("native truncate/floor division", K+"number.cpp"), ("division families in Scheme", L+"srfi-141.ss")], ["printed values"])

prop("C07", "Bitwise operations agree with two's complement of unbounded width",
 """For all exact integers, every operation of the bitwise library (logical operations, shifts, counts, lengths, single-bit and bit-field operations, conversions to lists and vectors, folds and generators) gives the result of treating the integer as an infinite two's complement bit string.""",
 ["inputs"], "all integers, all bit positions and field bounds",
 """The tests sample small operands; sign extension, widths beyond a machine word and field boundaries are where implementations fail.""",
 [L+"srfi-151.ss", K+"boot.cpp", K+"number.cpp", K+"large_integer.cpp"],
 [("bitwise primitives on small and large integers", K+"boot.cpp"), ("derived operations", L+"srfi-151.ss")], ["printed values"])

prop("C08", "Inexact arithmetic follows IEEE 754 doubles",
 """For all flonums (including infinities, NaN and signed zeros) the operations +, -, *, /, sqrt, floor, ceiling, truncate, round, abs, max, min and the comparisons, numeric predicates and conversions between exact and inexact give the IEEE double result, with mixed exact/inexact operands treated as contagion prescribes.
 Elementary functions agree with the correctly rounded result within a few units in the last place, exact of a finite flonum is the exact same value, and inexact of it gives the flonum back.""",
 ["inputs"], "all flonums and all mixed pairs of exact numbers and flonums",
 """Tests check a few values per function with a tolerance; sign of zero, NaN, infinities, ties and magnitudes outside the exactly representable range need generated operands.""",
 [K+"number.cpp", I+"number.hpp", K+"boot.cpp", L+"srfi-144.ss"],
 [("number-type dispatch", I+"number.hpp"), ("libm calls", K+"number.cpp")], ["value bit for bit through exact conversion"])

prop("C09", "Numbers and their textual representations convert faithfully",
 """For every exact number z and every radix 2, 8, 10 or 16, converting z to a string and back gives z, and for every finite flonum converting to decimal and back gives the same flonum.
 Every numeric literal that the Scheme grammar allows (prefixes, ratios, decimals, exponents, infinities, rectangular complex numbers) denotes its mathematical value with the right exactness, identically in program text and through string conversion, and a string that is not a numeric literal converts to false.""",
 ["inputs"], "all numbers, radices and literal spellings",
 """Tests list some dozens of literals; spelling combinations, long mantissas and extreme exponents are unbounded.""",
 [K+"number.cpp", I+"textual_input_port.hpp", K+"textual_input_port.cpp", K+"complex.cpp", K+"ratio.cpp"],
 [("numeric literal parser", K+"number.cpp"), ("number printing", K+"textual_output_port.cpp")], ["values of literals", "strings printed"])

prop("C10", "What is written can be read back",
 """For every datum built from numbers, booleans, characters, strings, symbols (with any name), pairs, lists, vectors, bytevectors and homogeneous vectors, writing it and reading the text gives a datum equal to the original, with every distinct type preserved, and sharing and cycles are preserved by write and write-shared through datum labels.
 Writing is a pure function of the datum, nothing but the datum's text is consumed when it is read back, and two different data never have the same written form.""",
 ["inputs"], "all data, all symbol names, all characters, all sharing graphs",
 """Tests write a few data; escapes, unusual symbol names, cycles and sharing patterns are combinatorial.""",
 [K+"textual_output_port.cpp", K+"textual_input_port.cpp", I+"textual_input_port.hpp", I+"datum_labels.hpp", K+"string.cpp", K+"symbol.cpp", K+"character.cpp", K+"pair.cpp"],
 [("write procedures per type", K+"textual_output_port.cpp"), ("recursive-descent reader", I+"textual_input_port.hpp")], ["written text", "read datum"])

prop("C11", "The reader answers every input with the right data or a read error",
 """For every sequence of bytes, reading data from it ends: it yields exactly the data that the Scheme lexical syntax prescribes (comments, whitespace, quotations, strings, characters, labels, nested lists and vectors), or a read error that the program can catch, or the end-of-file object, never a crash, hang or wrong datum.
 Incomplete data is never delivered as a complete datum, and the reader's position after a datum is right behind it.""",
 ["inputs"], "all byte strings, in particular truncated, malformed and non-UTF-8 ones",
 """Tests read well-formed programs; malformed input is practically absent from the suite.""",
 [K+"textual_input_port.cpp", I+"textual_input_port.hpp", K+"character.cpp"],
 [("recursive-descent reader", I+"textual_input_port.hpp"), ("UTF-8 decoding", K+"textual_input_port.cpp")], ["sequence of read data / errors", "sanitizer reports"])

prop("C12", "Tail calls run in constant space; deep recursion does not exhaust the C stack",
 """An unbounded number of active tail calls (through if, cond, case, and, or, when, unless, let forms, named let, do, begin, lambda bodies, apply, call/cc, call-with-values, mutual recursion and continuation invocation, as prescribed for tail positions) runs in bounded space.
 Non-tail recursion of any depth in Scheme code, and lists of any length in library procedures that iterate over them, are limited by available memory only, never by a crash.""",
 ["programs", "histories"], "all compositions of tail-position forms, all iteration counts and depths",
 """Tests loop at most thousands of times and in a few forms; a form that loses its tail property fails only after many iterations.""",
 [K+"dynamic_environment.cpp", K+"syntactic_environment.cpp", I+"syntactic_environment.hpp", I+"dynamic_environment.hpp"],
 [("tail_call / tail_apply / tail_select instructions", I+"syntactic_environment.hpp"), ("heap-allocated dump", I+"dynamic_environment.hpp")], ["memory used and completion of long loops"])

prop("C13", "Continuations and dynamic-wind behave as R7RS prescribes",
 """Invoking a captured continuation, any number of times, from inside or outside its extent, resumes exactly that continuation with the given values, and every control transfer runs exactly the after thunks of the extents left, innermost first, and the before thunks of the extents entered, outermost first, in the dynamic environment of their dynamic-wind.""",
 ["programs", "histories"], "all programs that combine call/cc, dynamic-wind, re-entry, generators, exceptions and parameters",
 """Tests have a handful of control patterns; the interaction of winding, re-entry and nesting is combinatorial.""",
 [L+"r5rs.ss", L+"meevax.ss", L+"r4rs.ss", K+"continuation.cpp", K+"dynamic_environment.cpp"],
 [("windup! in the dynamic-wind library", L+"r5rs.ss"), ("copying of the machine state into a continuation object", K+"dynamic_environment.cpp")], ["event traces of programs"])

prop("C14", "Exceptions reach the right handler with the right object",
 """raise, raise-continuable, error and errors raised by primitives call the current innermost handler in the dynamic context of the raise except that the handler is the outer one; guard selects the first matching clause, evaluates it in the guard's dynamic environment, re-raises when none matches, and runs the dynamic-wind thunks in between.
 Returning from a non-continuable handler is itself an error in the outer handler, and the raised object, an error's message and irritants arrive unchanged.""",
 ["programs", "histories"], "all nestings of handlers, guards, raises, re-raises, winds, continuations and primitive errors",
 """Tests cover one or two levels of nesting; handler-stack restoration bugs need deeper nestings and mixed exits.""",
 [L+"r7rs.ss", L+"srfi-34.ss", L+"meevax.ss", K+"dynamic_environment.cpp", K+"error.cpp"],
 [("handler stack as dynamic state", L+"r7rs.ss"), ("primitive errors delivered to Scheme handlers", K+"dynamic_environment.cpp")], ["event traces of programs"])

prop("C15", "Parameter objects follow dynamic extent",
 """A parameter object returns the value bound by the innermost active parameterize, converted exactly once by its converter, or else its initial value; bindings of one parameterize take effect together and are restored on every exit, normal or not, and reinstated on re-entry through a continuation.""",
 ["programs", "histories"], "all nestings of parameterize, calls, escapes, re-entries, errors and converters",
 """Tests bind one or two parameters; leaks appear only with escapes and re-entries at particular points.""",
 [L+"srfi-39.ss", L+"r7rs.ss", L+"meevax.ss"],
 [("parameterize on top of dynamic state", L+"srfi-39.ss")], ["event traces of programs"])

prop("C16", "Macros are hygienic and expand by the syntax-rules rules",
 """A syntax-rules macro use expands as its first matching rule prescribes (literals, nested ellipses, tail patterns, vectors, custom ellipsis, escaped ellipsis, underscores): identifiers inserted by the template refer to the macro's definition environment whatever bindings surround the use, and identifiers from the use keep their meaning whatever bindings the template introduces.
 Renaming the local variables of a macro or of its use never changes what the program does, and a use that matches no rule is an error.""",
 ["programs"], "all macro definitions, uses and surrounding binding contours",
 """Tests check known idioms; capture depends on coincidences of names across macro, use and context.""",
 [K+"syntactic_environment.cpp", I+"syntactic_environment.hpp", K+"syntactic_closure.cpp", K+"transformer.cpp", L+"srfi-149.ss", L+"r4rs.ss", L+"meevax.ss"],
 [("syntactic closures and renaming", K+"syntactic_closure.cpp"), ("syntax-rules expander", L+"srfi-149.ss")], ["values of programs", "comparison with renamed programs"])

prop("C17", "The evaluator agrees with a reference interpreter on every program form",
 """For every program of the core language (lambda with all parameter shapes, define at top level and in bodies, set!, if, let forms, named let, letrec, do, case, cond with =>, when, unless, quasiquote with nesting and splicing, case-lambda, let-values, define-values, closures over mutable variables, apply, higher-order procedures) the value is the one the language definition prescribes.
 Evaluation happens once per expression in a consistent order, mutation of a variable is seen by exactly the closures that share it, and the result does not depend on compile-time rewriting.""",
 ["programs"], "all well-formed programs of the core language",
 """Tests are a fixed set of small programs; compiler errors show in particular combinations of scopes, frames, arities and positions.""",
 [I+"syntactic_environment.hpp", K+"syntactic_environment.cpp", K+"dynamic_environment.cpp", I+"dynamic_environment.hpp", L+"r4rs.ss", L+"r5rs.ss", L+"r7rs.ss", L+"srfi-16.ss", L+"srfi-11.ss", L+"srfi-8.ss", L+"srfi-31.ss"],
 [("compiler to SECD instructions with de Bruijn coordinates", I+"syntactic_environment.hpp"), ("virtual machine", I+"dynamic_environment.hpp")], ["values of programs"])

prop("C18", "List procedures agree with their specification",
 """For all lists, every procedure of the list libraries (construction, selection, append, reverse, map, for-each, fold, filter, partition, search, deletion, association lists, set operations, member and assoc with custom equality) returns what its specification prescribes, calls its procedure arguments on the prescribed elements in the prescribed order where one is prescribed, and leaves its arguments unmodified unless it is a linear-update variant.""",
 ["inputs"], "all lists (proper, dotted, circular where allowed), all optional arguments, all lengths",
 """Each procedure has a few examples; unequal lengths, empty lists, dotted tails, sharing and long lists multiply.""",
 [L+"srfi-1.ss", L+"r4rs.ss", L+"r7rs.ss", I+"list.hpp", K+"list.cpp", K+"boot.cpp"],
 [("native list primitives", K+"list.cpp"), ("SRFI 1 in Scheme", L+"srfi-1.ss")], ["values", "arguments after the call"])

prop("C19", "Strings and characters behave as sequences of Unicode scalar values",
 """For all strings and index ranges, the string procedures (construction, length, reference, mutation, substring, append, copy, overlapping copy, fill, list, vector, UTF-8 and symbol conversions, comparison with any number of arguments, map, for-each) behave as operations on sequences of code points, and invalid indexes that the implementation checks raise errors.
 Character classification, case conversion, digit values and comparisons agree with the Unicode character database for every scalar value, and encoding to and decoding from UTF-8 is lossless.""",
 ["inputs"], "all strings over all scalar values, all ranges, all 1,112,064 characters",
 """Tests use short ASCII strings and a few accented letters; ranges, overlaps and the Unicode tables are far larger.""",
 [K+"string.cpp", K+"character.cpp", K+"boot.cpp", L+"r4rs.ss", L+"r7rs.ss", "configure/UnicodeData.txt"],
 [("string as a vector of characters", K+"string.cpp"), ("tables generated from UnicodeData.txt", K+"character.cpp")], ["values"])

prop("C20", "Vectors, bytevectors and homogeneous vectors store and copy exactly",
 """For all vectors, bytevectors and homogeneous numeric vectors and all index ranges, construction, reference, mutation, copying (overlapping in both directions), filling, appending, mapping and conversion to and from lists, strings and each other behave as operations on sequences of the element type, with element values in range stored and returned unchanged and nothing outside the range touched.""",
 ["inputs"], "all element types, lengths, ranges and overlaps",
 """Tests copy one or two ranges per type; off-by-one ranges, overlap directions and per-type element conversion multiply.""",
 [K+"vector.cpp", I+"homogeneous_vector.hpp", K+"boot.cpp", L+"srfi-4.ss", L+"r7rs.ss", L+"r4rs.ss"],
 [("vector primitives with ranges", K+"boot.cpp"), ("homogeneous vectors over std::valarray", I+"homogeneous_vector.hpp")], ["values"])

prop("C21", "Equivalence predicates are consistent equivalence relations",
 """eq?, eqv? and equal? are reflexive (numbers that are not NaN), symmetric and transitive on all objects, eq? implies eqv? implies equal?, and equal? is exactly structural equality: it holds between two data if and only if they have the same type, shape and equal leaves.
 Distinct mutable pairs are never eq?, an object is always eq? to itself wherever it is stored, equality never depends on the order of arguments or on history, and membership, association and case dispatch use these same predicates.""",
 ["inputs", "histories"], "all pairs and triples of objects",
 """Tests compare a dozen fixed pairs; asymmetries and type confusions sit at particular pairs of types.""",
 [K+"comparator.cpp", I+"comparator.hpp", K+"number.cpp", K+"pair.cpp", K+"vector.cpp", "include/meevax/memory/model.hpp", I+"homogeneous_vector.hpp"],
 [("dynamic compare per type", "include/meevax/memory/model.hpp"), ("equal? recursion", K+"comparator.cpp")], ["values of predicates"])

prop("C22", "Ports deliver every character and byte exactly once, in order",
 """For every sequence of operations on string, bytevector and file ports, textual and binary, reading returns the written or given data exactly once and in order (read-char, peek-char, read-line, read-string, read, read-u8, peek-u8, read-bytevector and its destructive form), peeking consumes nothing, the end-of-file object appears exactly at the end, and output accumulates exactly what was written in the order of writing.
 Ports report open and closed state correctly, closing (explicitly or by call-with-port and with-…-file forms) flushes everything to the file, opening a missing file raises a file error, and current-port redirection applies exactly during its extent.""",
 ["histories", "inputs"], "all operation sequences over all contents, encodings and port kinds",
 """Tests read a few short strings; interleavings of peek, read and line operations at boundaries are combinatorial.""",
 [K+"textual_input_port.cpp", K+"textual_output_port.cpp", K+"input_file_port.cpp", K+"output_file_port.cpp", K+"input_string_port.cpp", K+"output_string_port.cpp", K+"binary_input_file_port.cpp", K+"binary_output_file_port.cpp", I+"input_homogeneous_vector_port.hpp", I+"output_homogeneous_vector_port.hpp", K+"boot.cpp", L+"r7rs.ss", L+"r4rs.ss"],
 [("port class hierarchy over iostreams", I+"textual_input_port.hpp"), ("current ports as parameters", L+"r7rs.ss")], ["data returned", "file contents"])

prop("C23", "Libraries and environments keep names apart",
 """A program sees exactly the names its import sets select (only, except, prefix, rename, in any nesting) with the values of the exporting library; names a library does not export are invisible outside it and never interfere with the importer's, a library's body is evaluated once however often and under whatever names it is imported, and exported procedures and macros keep referring to the library's own bindings.
 eval and environment evaluate in exactly the environment given, cond-expand chooses the first satisfied clause, and include inserts the file's data.""",
 ["programs", "histories"], "all library graphs, export specs, import-set nestings and evaluation environments",
 """Tests define a few libraries with one or two modifiers; nestings of modifiers and library graphs are combinatorial.""",
 [K+"library.cpp", I+"library.hpp", K+"environment.cpp", I+"environment.hpp", K+"conditional_expand.cpp", I+"include.hpp", I+"conditional_expand.hpp", L+"r7rs.ss"],
 [("import sets computed from identities", K+"library.cpp"), ("define-library evaluates the body on first use", K+"library.cpp")], ["values of programs", "side-effect counters of library bodies"])

prop("C24", "Records, promises, multiple values and boxes keep their contracts",
 """Each record type is disjoint from every other type and record type, its constructor, predicate, accessors and modifiers relate exactly the declared fields, and modification is seen through every reference; accessors applied to other objects are errors that can be caught where the implementation checks.
 A promise is computed at most once and always yields its first value even under re-entrant forcing, delay-force chains run iteratively, and values, call-with-values, receive, let-values and define-values deliver exactly the values produced, in order; streams of boxes read back what was last stored.""",
 ["programs", "histories"], "all record definitions, promise graphs, value counts and operation sequences",
 """Tests define a few record types and promises; re-entrancy, chains and field permutations are not sampled.""",
 [L+"srfi-9.ss", L+"srfi-45.ss", L+"r7rs.ss", L+"r4rs.ss", L+"srfi-11.ss", L+"srfi-8.ss", L+"srfi-111.ss", K+"box.cpp", L+"r5rs.ss"],
 [("define-record-type macro", L+"srfi-9.ss"), ("promise boxes with trampolined force", L+"srfi-45.ss")], ["values of programs"])

prop("C25", "Valid programs never trigger undefined behaviour in the interpreter",
 """No program that uses procedures within their domains, on any data and with any collection timing, makes the interpreter read or write outside an object, use an object after its reclamation, overflow a signed integer, or otherwise execute undefined behaviour, from start-up through normal exit.""",
 ["programs", "inputs"], "all valid programs",
 """The tests run without sanitizers against a release build, so silent out-of-bounds accesses and overflows pass.""",
 ["src", "include/meevax"], [("memory model with tagged pointers and explicit destruction", "include/meevax/memory/model.hpp")],
 ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "assertions"], "collections forced at chosen allocation requests (MEEVAX_VERIF)")

prop("C26", "An error at top level leaves the interpreter consistent",
 """After any error that is signalled while a top-level datum is read, expanded or evaluated, the interpreter reports the error and continues with the next datum exactly as if the failing datum had stopped at the point of error: earlier definitions and side effects stay, later data evaluate normally, and no handler, parameterization, wind or half-made definition leaks.
 Loading a file or running a script evaluates its data in order, and the exit status and output reflect exit, emergency-exit and uncaught errors as documented.""",
 ["histories", "fault_sequences"], "all sequences of data mixing valid ones with ones that fail at any point",
 """Each test script runs without uncaught errors; nothing samples evaluation after a failure.""",
 [K+"interaction_environment.cpp", K+"environment.cpp", K+"dynamic_environment.cpp", "src/main.cpp", I+"configuration.hpp", K+"configuration.cpp"],
 [("per-datum catch in the REPL loop", "src/main.cpp"), ("machine registers reset per evaluation", K+"environment.cpp")], ["standard output and error, exit status of the real executable"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
