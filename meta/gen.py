#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "lib/tinycc/"
GEN, PP, ELF, X64, X64L, ASM = T + "tccgen.c", T + "tccpp.c", T + "tccelf.c", T + "x86_64-gen.c", T + "x86_64-link.c", T + "tccasm.c"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or ["standard output, standard error and exit status of cjit"], "hook_needed": None},
              "technique": technique, "note": note})


TRUST = " Trusts gcc/clang (only where both agree and the sanitizers stay silent) as witnesses of the C semantics."

prop("C01", "Integer computations give the value and type the C language prescribes",
     "A C program built from integer types of every width and signedness, including _Bool, bit-fields and compound assignments, prints exactly the values the C language (LP64, two's complement) prescribes when run by cjit. "
     "This covers promotion and conversion, constants of every spelling, comparisons, shifts, division and remainder, logical and conditional operators, increments, calls and sizeof/_Generic types, whatever the storage of the operands and however deeply expressions are nested. "
     "It holds for all operand values for which the language defines the result.",
     ["programs", "inputs"], "all defined integer expressions over all types, storage kinds and operand values",
     "The tinycc tests compare a fixed set of expressions with fixed values; the product of operators, types, operand kinds and values is never walked.",
     [GEN, X64], [("gen_opic constant folding", GEN), ("gen_opif/gen_op usual conversions", GEN), ("gen_cast", GEN), ("gv / bit-field load, vstore", GEN), ("gen_opi, gen_opl, gen_cvt", X64)],
     "property-based testing: generated programs against a reference interpreter",
     "Random exploration with a reference interpreter for integer C written for this check; every reported case is re-judged by gcc -O0/-O2, clang and the UB/address sanitizers.")

prop("C02", "Floating-point computations match the platform's IEEE arithmetic bit for bit",
     "Programs using float, double and long double compute, convert, compare and store exactly the bit patterns that the platform's IEEE-754 (x86-64 SysV) arithmetic defines, including signed zeros, infinities, NaN comparisons and conversions to and from every integer type when the value is representable. "
     "Decimal and hexadecimal floating literals denote the correctly rounded value of their type. "
     "It makes no difference whether an operand is a constant, a variable, memory or a call result.",
     ["programs", "inputs"], "all expressions over the three real floating types and the integer types, all operand bit patterns",
     "Tests print a handful of floats with limited precision; sign of zero, NaN ordering, rounding and conversion boundaries are not sampled.",
     [GEN, PP, X64], [("gen_opif", GEN), ("gen_cast float/int", GEN), ("parse_number", PP), ("gen_opf, gen_cvt_ftoi, gen_cvt_itof", X64), ("libtcc1 conversion helpers", T + "lib/libtcc1.c")],
     "property-based testing: differential against gcc and clang on bit patterns",
     "Differential on raw bit patterns." + TRUST)

prop("C03", "Objects are laid out and initialised exactly as the platform ABI and C prescribe",
     "Size, alignment, member offsets, bit-field placement, array bounds and the complete initial contents of any object - static, automatic or compound literal, with nested aggregates, designators, brace elision, strings, flexible array members, unions, and packed or aligned attributes - equal what the platform's C ABI and the language define. "
     "Members not named by an initialiser are zero. "
     "Writing any member or bit-field changes that member and nothing else.",
     ["programs"], "all object types built from scalars, arrays, structs, unions, bit-fields and enums, with all well-formed initialisers",
     "Layout tests pin a few structs; nesting, designator order, bit-field runs and attribute combinations are unbounded.",
     [GEN], [("struct_layout", GEN), ("decl_initializer, decl_designator, init_putv", GEN), ("adjust_bf, load_packed_bf, store_packed_bf", GEN), ("type_size", GEN)],
     "property-based testing: generated types and initialisers, byte images compared with gcc",
     "Differential on member-wise and byte images; padding bytes are compared only where static storage makes them zero." + TRUST)

prop("C04", "Calls interoperate with code built by the platform's other compilers",
     "A call between code compiled by cjit and a function in a shared library or object built by the system compiler passes every argument and return value unchanged, in both directions and through function pointers and callbacks. "
     "This holds for any mix and number of integer, pointer, float, double, long double, struct and union parameters and results, including variadic ones and va_list, and values the caller keeps across the call survive it. ",
     ["programs", "inputs"], "all function signatures within the SysV x86-64 calling convention, including variadic calls, in both directions",
     "abitest samples some thirty fixed signatures; classification of aggregates over registers and stack depends on combinations of members and preceding arguments.",
     [X64, GEN, T + "lib/va_list.c"], [("classify_x86_64_arg, gfunc_sret", X64), ("gfunc_call, gfunc_prolog, gfunc_epilog", X64), ("gen_vla, va_arg lowering", GEN)],
     "property-based testing: generated signatures called across gcc-built shared objects",
     "Each generated call is checked by the callee and the caller for every argument byte; the counterpart is built by gcc.")

prop("C05", "Constant expressions evaluate the same at compile time and at run time",
     "An integer, floating or address constant expression has the same value wherever the language requires it to be evaluated at compile time - static initialisers, enumerators, array bounds, case labels, bit-field widths, _Static_assert, #if - as the same expression evaluated at run time. "
     "Conditions decided at compile time select exactly the branch that would be taken at run time, and unselected code has no effect.",
     ["programs"], "all constant expressions in all contexts that require them",
     "Tests use each context with one or two literals; agreement of the preprocessor, the folder and the code generator over all operators and values is a relation, not an example.",
     [GEN, PP], [("gen_opic, gen_opif", GEN), ("expr_const64, expr_preprocess", GEN + " " + PP), ("init_putv with relocation", GEN), ("condition_3way, CODE_OFF nocode_wanted", GEN)],
     "property-based testing: metamorphic (compile time versus run time) plus reference interpreter",
     "The same expression with literal and with volatile operands, in every constant context, against the interpreter of C01 and gcc.")

prop("C06", "Preprocessing follows the C standard for every macro, directive and include",
     "Macro definition, redefinition and expansion (object-like, function-like, variadic, #, ##, recursion and rescanning), conditional groups, #include resolution with -I order, include guards, #line, pragmas push/pop_macro, predefined macros, comments, line splices and character/string constants have exactly the effect the C standard prescribes. "
     "The resulting token sequence, and the file and line every token is attributed to, are those of the system compiler's preprocessor. "
     "Outside are features the bundled compiler does not have (trigraphs, digraphs, universal character names in identifiers, u8/u/U literals, _Pragma) and what no document settles (GNU ', ##' with an explicitly empty argument or one naming the macro again, which line of a multi-line construct __LINE__ is, the value of multi-character constants with high bytes).",
     ["programs", "inputs"], "all well-formed preprocessing translation units",
     "The pp tests compare about twenty fixed files; interactions of nested expansion, argument prescan and pasting are unbounded.",
     [PP], [("macro_subst, macro_arg_subst, macro_twosharps", PP), ("preprocess, preprocess_skip, expr_preprocess", PP), ("next_nomacro, parse_string, parse_number", PP), ("search_cached_include, include guards", PP)],
     "property-based testing: generated macro programs, token streams compared with gcc -E",
     "Differential on token sequences and on stringised results printed by running programs; cases on which gcc and clang differ are dropped.")

prop("C07", "Control flow, scopes and lifetimes execute as the C abstract machine prescribes",
     "Any nesting of if, loops, switch (with ranges, fall-through and default), goto and computed goto, break, continue, return, statement expressions, variable-length arrays, alloca, recursion, block scopes with shadowing, setjmp/longjmp and cleanup attributes visits statements, evaluates conditions and ends scopes in exactly the order the language defines, and leaving a scope that declared variable-length arrays gives their memory back. "
     "Pointers, arrays, structures and functions used along the way keep their values.",
     ["programs"], "all well-formed function bodies built from these statements",
     "The tests contain fixed small functions; jump chains, register saving across branches and scope unwinding depend on the surrounding code.",
     [GEN, X64], [("block, switch lowering gcase", GEN), ("gvtst, gsym jump chains", GEN), ("label scopes and cleanup try_call_scope_cleanup", GEN), ("gen_vla_*", X64), ("save_regs, nocode_wanted", GEN)],
     "property-based testing: generated statement programs against gcc",
     "Differential execution of generated terminating programs with a trace of visited points." + TRUST)

prop("C08", "A program behaves the same in every way cjit can be given it and can emit it",
     "The output and exit status of a program are the same whether its source is a file, standard input, split over several files in any order, or passed through an object file made with -c, and whether it is run in memory, from an executable made with -o, or through the libtcc interface. "
     "Source text reaches the compiler unaltered: any file name, any line length, any number of lines, comments of any length, with or without a final newline or CRLF line ends.",
     ["programs", "inputs", "configurations"], "all programs, all ways of delivering the source, all output modes",
     "cli tests run one hello-world per mode and never compare modes on the same generated program or feed unusual source texts.",
     ["src/main.c", "src/cjit.c", "src/file.c", T + "tccrun.c", ELF],
     [("cjit_add_file, cjit_add_source, cjit_add_buffer", "src/cjit.c"), ("load_stdin, file_load", "src/file.c"), ("cjit_compile_file, cjit_link, cjit_exec", "src/cjit.c"), ("tcc_relocate", T + "tccrun.c"), ("elf_output_file", ELF)],
     "property-based testing: metamorphic comparison of delivery and output modes",
     "Every generated program is run in all modes and compared with the natively compiled reference.")

prop("C09", "Linking binds every symbol to the definition the ELF rules select",
     "Programs split over several translation units - C sources, objects made by cjit -c or by the system compiler, archives and shared libraries - link and run with each reference bound to the definition the linkage rules select: statics stay private, weak yields to strong, common symbols merge, archives contribute just the members needed, and sections, relocations, constructors and thread of addresses stay consistent. "
     "Conflicting strong definitions and unresolved symbols are errors. "
     "Executables and objects that cjit writes are valid for the system's linker, loader and binary tools.",
     ["programs", "configurations"], "all partitions of programs into translation units, all symbol kinds, all mixes of object producers",
     "The tests link two fixed files; symbol resolution is a function of all the units together and of their order.",
     [ELF, X64L, T + "tccrun.c", "src/cjit.c"], [("set_elf_sym, resolve_common_syms, relocate_syms", ELF), ("tcc_load_object_file, tcc_load_archive", ELF), ("relocate", X64L), ("build_got_entries", ELF)],
     "property-based testing: generated symbol graphs against a model of ELF resolution and the system toolchain",
     "Expected bindings come from a model of the rules, confirmed with gcc/ld on the same units.")

prop("C10", "Assembler input is encoded as the system assembler encodes it",
     "Every instruction and operand form the assembler accepts produces the machine code that GNU as defines for it, or code with identical effect and operands. "
     "This includes every register, operand size, addressing mode, displacement, immediate, prefix, and reference to a local or external symbol.",
     ["programs", "inputs"], "all instructions in the assembler's tables with all operand forms",
     "asmtest.S is one fixed file; operand sizes, displacements, immediates and register classes multiply to far more forms.",
     [ASM, T + "i386-asm.c", T + "x86_64-asm.h"], [("asm_opcode, asm_modrm", T + "i386-asm.c"), ("asm_parse_directive, asm_expr", ASM), ("asm_compute_constraints, asm_gen_code, subst_asm_operand", T + "i386-asm.c")],
     "property-based testing: differential disassembly against GNU as",
     "Instructions are compared after disassembly; encodings may differ when the decoded instruction is identical.")

prop("C11", "Built-in and runtime-support functions compute their documented results",
     "The compiler's built-ins (__builtin_* bit counting, choose/constant/types_compatible, alloca, expect, frame and return address), the C11 atomic operations of <stdatomic.h> and the atomic built-ins the compiler provides, for every size and order, and the runtime support library used by generated code return the documented values and have exactly the documented effects on memory for all operands. "
     "Atomic read-modify-write operations stay indivisible when threads race on them.",
     ["programs", "inputs", "schedules"], "all operand values and sizes; racing threads for the atomics",
     "Tests call a few built-ins with a few values; atomics are tested with one size and order at a time.",
     [T + "lib/builtin.c", T + "lib/stdatomic.c", T + "lib/atomic.S", T + "lib/libtcc1.c", T + "lib/alloca.S", GEN, T + "include/stdatomic.h"],
     [("parse_builtin_params, unary builtins", GEN), ("parse_atomic", GEN), ("__atomic_* helpers", T + "lib/atomic.S, stdatomic.c"), ("__builtin_ffs, clz, ctz, popcount, parity", T + "lib/builtin.c")],
     "property-based testing: reference model of each built-in, racing threads with an invariant",
     "Single-thread effects against a model; indivisibility only through conservation laws over racing threads on the available cores (no schedule control).")

prop("C12", "A program with an error is diagnosed, never executed, and reported as failed",
     "When any source given to cjit is not a valid program - a syntax, type, declaration, preprocessor or link error anywhere in any of the files, or a file that cannot be read - no user code runs, the exit status is non-zero, no output file is reported as made, and a diagnostic naming the file and line of the error appears on standard error. "
     "A valid program is never rejected because of what precedes it.",
     ["programs", "inputs", "configurations"], "all single-fault mutations of valid programs, in all modes",
     "The error tests of tinycc list fixed snippets; that no invalid program ever starts running is a statement about all of them and all of cjit's modes.",
     ["src/main.c", "src/cjit.c", GEN, PP, T + "libtcc.c"], [("tcc_error / error1 and setjmp recovery", T + "libtcc.c"), ("cjit_add_file, cjit_exec return values", "src/cjit.c"), ("cjit_compile_file", "src/cjit.c"), ("type and syntax checks", GEN)],
     "property-based testing: fault injection into generated valid programs, exit status and trace oracle",
     "Faults are of kinds the C standard requires to be diagnosed and gcc and clang both reject; the unmodified program must run.")

prop("C13", "Any input is compiled or rejected cleanly: no crash, hang or memory corruption",
     "Whatever bytes cjit is given as C source text or assembly, it either processes them or reports an error and exits normally. "
     "It never crashes, loops forever, or reads or writes memory outside its own objects, and the outcome is the same on every run.",
     ["inputs"], "all byte strings as C sources and as assembly sources",
     "The tests only feed well-formed files and a few fixed errors.",
     [GEN, PP, ASM, ELF, T + "libtcc.c", "src/cjit.c"], [("error recovery", T + "libtcc.c"), ("token buffers, cstr, section growth", PP + " " + ELF), ("expression and declaration parser recursion", GEN), ("operand and directive parsing", ASM + " " + T + "i386-asm.c")],
     "fuzzing: grammar-aware and mutational inputs on an address-sanitized build",
     "Random search with AddressSanitizer as oracle; object files, archives and libraries as input are outside.")

prop("C14", "Compilation states are independent and the library interface keeps its contract",
     "Any sequence of library calls - creating states, adding options, defines, include paths, symbols, strings and files, relocating, looking up symbols, outputting and deleting - behaves the same whatever other states exist, were used before, failed before, or are used by other threads at the same time. "
     "Code relocated by one state keeps working until that state is deleted, and errors go to that state's error handler only.",
     ["histories", "schedules"], "all interleavings of operations on several states in one process",
     "libtest and libtest_mt run one fixed history.",
     [T + "libtcc.c", T + "libtcc.h", T + "tccrun.c", PP], [("tcc_enter_state/tcc_exit_state and the global tcc_state", T + "libtcc.c"), ("tccgen_init, tccpp_new/tccpp_delete reset", PP), ("tcc_relocate, tcc_get_symbol, tcc_run_free", T + "tccrun.c")],
     "stateful property-based testing: histories over several states against a model, under AddressSanitizer",
     "Model of which definitions each state has; histories run in one process with and without sanitizer and with threads.")

prop("A01", "Arguments, streams, exit status and process id pass unchanged to the program",
     "The running program sees as its arguments exactly the strings that follow the -- separator on the cjit command line, in order and unaltered, and argc counts them; standard input, output, error and the environment are those of the caller. "
     "cjit's exit status is the program's: its return value or exit code, modulo 256 as for any process (how a program ended by a signal is reported is left open). "
     "With -p, the named file holds the id of the process that runs the program.",
     ["inputs", "configurations"], "all argument vectors, numbers of source files and options before the separator, all exit codes",
     "cli.bats passes one or two plain words with one source file.",
     ["src/main.c", "src/cjit.c", "src/ketopt.h", T + "tccrun.c"], [("arg_separator, left_args, right_args", "src/main.c"), ("remove_args", "src/main.c"), ("cjit_exec, write_pid", "src/cjit.c")],
     "property-based testing: generated command lines against a model of argument passing",
     "Argument vectors over arbitrary bytes; expected argv, status and streams known from the generator.")

prop("A02", "Command-line options have their documented effect wherever they are placed",
     "-D, -I, -L, -l, -C, CFLAGS, -e, -o, -c, -q and --verb have the documented effect for any value, attached or separate, repeated, and in any order, each define and include path taking effect in the order given. "
     "Options documented as ignored change nothing about what is compiled or how the program runs. "
     "An unknown option or a missing option value is reported on standard error.",
     ["configurations", "inputs"], "all option lists and orders",
     "cli.bats tries each option once, alone.",
     ["src/main.c", "src/cjit.c", "src/ketopt.h"], [("option loop", "src/main.c"), ("parse_value", "src/main.c"), ("remove_args, ignored_args", "src/main.c"), ("cjit_define_symbol, cjit_set_tcc_options, cjit_add_include_path", "src/cjit.c")],
     "property-based testing: metamorphic option lists against a model of their effect",
     "Expected effect computed by a model from the option list; permutations and insertions of no-effect options must not change the outcome.")

prop("A04", "The runtime assets on disk are complete and correct whatever happened before",
     "cjit works from any working directory, with any number of cjit processes starting at once, after an interrupted earlier run, and with an empty or already populated asset directory. "
     "The unpacked headers and runtime library are byte-identical to those built into the executable, --xass extracts them to the directory it names, and an asset directory that cannot be written is reported as an error.",
     ["schedules", "crash_points", "configurations"], "all start-up interleavings, interruption points and initial states of the asset directory",
     "The tests run cjit one process at a time with assets already in place.",
     ["src/assets.c", "src/cjit.c", "src/muntar.c", "build/embed-asset-path.sh"], [("cjit_mkdtemp / extract_assets", "src/cjit.c, generated assets.c"), ("muntargz_to_path", "src/muntar.c")],
     "property-based testing: start-up histories with killed and concurrent processes",
     "Crash points are sampled by killing at syscall counts; schedules by racing processes.")

prop("B01", "Gunzip restores the original bytes of every valid gzip stream",
     "Decompressing any valid gzip stream - any block types, code shapes, distances and lengths, optional header fields and compression level, up to the largest ratios deflate allows - yields exactly the original bytes and their count whenever the output buffer is large enough. "
     "The outcome depends only on the stream.",
     ["inputs"], "all valid gzip members and all output buffer sizes",
     "The only streams the tests see are the embedded assets, made by one gzip at one level.",
     ["src/tinflate.c", "src/tinfgzip.c", "src/tinf.h"], [("tinf_build_tree, tinf_decode_symbol, tinf_inflate_block_data", "src/tinflate.c"), ("tinf_gzip_uncompress", "src/tinfgzip.c")],
     "property-based testing: round trip through zlib and an own deflate encoder, on a sanitized build",
     "Encoder written for the check produces block and code shapes zlib never emits.",
     ["return value and output buffer of the gzip decoder"])
prop("B02", "Damaged gzip input is refused and memory outside the buffers is not touched",
     "For any byte string given as a gzip stream, decoding terminates, never reads past the input or writes past the stated output size, and reports success only when the stream is well formed, the output complete and its checksum and length agree with the trailer. "
     "Damage of any kind - truncation, bit flips, invalid codes, distances before the start, an output buffer that is too small - is reported as an error.",
     ["inputs"], "all byte strings and all output sizes",
     "No test feeds damaged data.",
     ["src/tinflate.c", "src/tinfgzip.c"], [("bounds checks in tinf_getbits, tinf_inflate_block_data", "src/tinflate.c"), ("header, trailer and checksum checks", "src/tinfgzip.c")],
     "fuzzing: damaged and crafted streams on a sanitized build, zlib as oracle",
     "zlib decides what each stream means; guard zones and AddressSanitizer watch the buffers.",
     ["return value and output buffer of the gzip decoder"])
prop("B03", "Extracting a USTAR archive reproduces exactly its directories and files",
     "Extracting any valid USTAR archive, plain or gzip-compressed, from memory or with --xtgz, creates exactly the directories and regular files it lists, with their paths (including split long names), contents and sizes, in whatever compliant way the writer formatted the fields, and reports success. "
     "Reading an archive entry by entry, in pieces of any size, yields the same names, sizes, modes, times, types and bytes.",
     ["inputs"], "all archives of directories and regular files whose directories precede their contents",
     "muntar.bats extracts one archive made by one tar.",
     ["src/muntar.c", "src/muntar.h", "src/main.c"], [("mtar_read_header, mtar_read_data, raw_to_header", "src/muntar.c"), ("muntar_to_path, muntargz_to_path", "src/muntar.c"), ("--xtgz", "src/main.c")],
     "property-based testing: round trip from generated trees through an own USTAR writer",
     "The resulting file tree is compared with the generated one; links and device entries are outside the domain.",
     ["the extracted file tree", "records returned by the archive reader", "exit status of cjit --xtgz"])
prop("B04", "A damaged or hostile archive cannot crash, escape its target or pass for success",
     "Whatever bytes are given as an archive, extraction stays inside the memory of the archive and inside the target directory, terminates, and reports an error when a header is corrupted, an entry runs past the end of the archive, a name would leave the target directory, or a file or directory cannot be written. "
     "What it reports as success has been written completely.",
     ["inputs", "fault_sequences"], "all byte strings as archives; write failures at any point",
     "No test feeds a damaged archive or makes a write fail.",
     ["src/muntar.c", "src/main.c"], [("mtar_read_header checksum", "src/muntar.c"), ("bounds checks of the memory reader", "src/muntar.c"), ("path check and write checks in muntar_to_path", "src/muntar.c")],
     "fuzzing and fault injection: damaged archives extracted as an unprivileged user on a sanitized build",
     "Each archive is damaged in a way whose required verdict is known; extraction runs as an unprivileged user and the whole surrounding tree is compared.",
     ["the extracted file tree and its surroundings", "return values", "exit status of cjit --xtgz"])
prop("B05", "Path functions agree with segment-wise path semantics and stay in their buffers",
     "Joining, normalising, relativising, absolutising, splitting, changing roots, basenames and extensions of any path, in Unix or Windows style, gives the result defined segment by segment in the library's documentation, returns the full length the result needs, and never writes beyond the buffer size it was given, truncating with a terminator instead. "
     "Normalising is idempotent and may be done in place.",
     ["inputs"], "all path strings in both styles and all buffer sizes",
     "No test of the repository calls these functions directly.",
     ["src/cwalk.c", "src/cwalk.h"], [("cwk_path_join_and_normalize_multiple", "src/cwalk.c"), ("cwk_path_get_next_segment, segment iteration", "src/cwalk.c"), ("cwk_path_get_relative, cwk_path_get_absolute", "src/cwalk.c"), ("cwk_path_change_*", "src/cwalk.c")],
     "property-based testing: reference model over split paths, on a sanitized build",
     "Model written from the documentation; where that leaves a result open the case is not judged.",
     ["return values and buffers of the path functions"])
prop("B06", "The growable array behaves as a list with optional search keys",
     "After any history of adding, inserting, setting, swapping, removing, deleting, clearing and searching, in fixed or dynamic mode, keyed or not, the array returns the contents, order, used count and search results of the list the operations describe, grows when needed, frees or forgets exactly the removed elements and reports failure without changing anything when an operation is impossible.",
     ["histories"], "all operation histories, element sizes, keys and capacities",
     "No test calls the array directly; cjit itself only appends.",
     ["src/array.c", "src/array.h"], [("XArray_AddData, XArray_Insert, XArray_Remove, XArray_Delete", "src/array.c"), ("resize logic", "src/array.c"), ("keyed search", "src/array.c")],
     "stateful property-based testing: operation histories against a list model, on a sanitized build",
     "Model in the harness; sanitizers watch the storage.",
     ["results of the array functions"])
prop("B07", "A library name resolves to the file the search order selects",
     "For any set of -L folders, links and linker scripts, -l NAME loads the first libNAME.so that is a regular file once all links are followed, looking in the -L folders in command-line order, then in the current folder, then in the system's library folders; "
     "when that file is a linker script, every library it names under INPUT, GROUP or AS_NEEDED is loaded in order, relative names and -lNAME items found by the same search. "
     "A name found nowhere is reported on standard error, and library files named directly on the command line are used as given.",
     ["configurations", "inputs"], "all arrangements of directories, links and linker scripts",
     "elflinker tests resolve one system library and one fixed script.",
     ["src/elflinker.c", "src/cjit.c"], [("resolve_libs, lib_path lists", "src/elflinker.c"), ("ld script lexer ld_next and ld_add_file_list", "src/elflinker.c"), ("new_solve_symlink", "src/elflinker.c")],
     "property-based testing: generated directory trees against a model of the search",
     "Marker libraries print which file was really loaded; arrangement and expectation come from the generator.")
prop("B08", "Archives made by the built-in archiver link like those of the system archiver",
     "An archive created from any object files contains exactly those members, byte for byte and in order, under their base names (cut to what the header field holds), with a symbol index covering exactly the defined global and weak symbols of each member; it replaces an archive that was there. "
     "The system's ar, nm and ld and cjit itself accept it and link it as they would the system's own archive, and listing and extracting return what was stored, also from archives the system's ar made. "
     "Inputs that are no object files or are damaged, truncated archives and failing writes end in an error status with no archive or partial member passed off as complete.",
     ["inputs", "programs"], "all lists of object files, names and symbol sets, and damaged versions of them",
     "No test inspects the archives cjit-ar makes.",
     ["src/cjit-ar.c", ELF], [("cjit_ar member and symbol table writing", "src/cjit-ar.c"), ("tcc_load_archive", ELF)],
     "property-based testing: generated object files, read back by the system tools and an own reader; linked programs; fault injection",
     "Generated ELF objects, own ar and ELF reader plus GNU ar/nm/ld as oracles.",
     ["the archive file", "exit status and output of linking with it"])

prop("C16", "Inline assembly exchanges values with C as its constraints say",
     "For every asm statement with register, memory, immediate and matching operands, the template sees the current values of its inputs, its outputs reach exactly the objects named, references print the operand in the form and size the modifier asks for, and early clobbers, read-write operands and declared clobbers are respected: no operand shares or loses a register it needs. "
     "Everything the statement does not name keeps its value, including the registers a function has to preserve; asm goto continues at the label its code jumps to.",
     ["programs", "inputs"], "all combinations of constraints, modifiers, operand expressions and clobbers on integer operands",
     "The asm tests use a few fixed statements.",
     [T + "i386-asm.c", T + "tccasm.c"], [("asm_compute_constraints, subst_asm_operand, asm_gen_code, asm_clobber", T + "i386-asm.c"), ("asm_instr, subst_asm_operands, parse_asm_operands", T + "tccasm.c")],
     "property-based testing: differential against gcc on generated asm statements",
     "The templates are chosen so that their effect follows from the constraints alone, whatever registers a compiler picks.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "its check is not built yet"})
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: every check builds /repo's working tree in a scratch folder and drives its programs and functions from outside."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
