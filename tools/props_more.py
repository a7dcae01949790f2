META = 'runtime metamorphic monitor: a generated program and an equivalent one must compile to the same bytes or to the same observed behaviour, under the sanitized compiler'

prop('C06', 'Macros are expanded as the C standard says',
     'Replacing parts of a program by object-like and function-like macros whose expansion is the replaced text, in any nesting of macros calling macros, '
     'with any spelling of arguments, #, ##, #undef and redefinition, does not change what the compiled program does.',
     ['programs', 'macro definitions'], 'all programs and all ways of abstracting their tokens into macros, except macro calls nested in the arguments of the same macro',
     'The tests have about 30 fixed macro programs; argument collection, the stack of macro contexts, self-reference and pasting interact with every token.',
     ['pnut.c'], [('attempt_macro_expansion, get_macro_args_toks, instantiate: expansion stack', 'pnut.c'), ('paste_tokens, stringify_token', 'pnut.c'), ('macro_parent/self reference detection', 'pnut.c')],
     META, 'generated programs folded into random nests of macros for the three backends, certified by gcc -E to expand to the program', ['the generated code', 'stdout and exit status of the compiled program'])

prop('C07', 'Conditional groups, #include and directives select exactly the active text',
     'Surrounding the text of a program by #if, #ifdef, #ifndef, #elif, #else groups with any constant conditions, moving parts of it to included files at any depth, '
     'defining and undefining macros in the source or with -D and -U, and adding inactive text, comments and line breaks does not change what the compiled program does.',
     ['programs', 'directives', 'include trees'], 'all programs and all groupings with conditions whose value C defines, up to ten nested groups',
     'The tests have a few fixed files; the state of nested groups, of skipped text and of the stack of input files is unbounded.',
     ['pnut.c'], [('handle_preprocessor_directive, the stack of #if states', 'pnut.c'), ('eval_constant with if_macro', 'pnut.c'), ('include_file, handle_include, the stack of files', 'pnut.c')],
     META, 'generated programs rewritten into random groups and include trees for the three backends, certified by gcc -E to give the same tokens', ['the generated code', 'stdout and exit status of the compiled program'])

prop('C08', 'Integer literals and constant expressions have the value C gives them',
     'Literals in every base, with every suffix the backend supports, character constants, and constant expressions in enumerators (with the implicit increments), array sizes, '
     'case labels, #if conditions and initialisers of global variables have the value C gives them, in the three backends.',
     ['literals', 'constant expressions'], 'all literals representable in the types of the backend and all defined constant expressions of literals',
     'The tests use a few dozen literals; the tokenizer, the 64-bit accumulation, the representation of small and large integers, three evaluators and the printing of bases for the shells interact on 2^64 values.',
     ['pnut.c', 'exe.c', 'x86.c', 'sh.c'], [('accum_digit, u64_mul_u32, u64_add_u32, u64_to_obj', 'pnut.c'), ('eval_constant, parse_enum', 'pnut.c'), ('wrap_integer: base of the literal in the script', 'sh.c'), ('mov_reg_large_imm', 'x86.c')],
     DIFF, 'boundary and random values in every base and context, random constant expressions over all operators', ['stdout of the compiled program'])

prop('C11', 'String and character literals denote exactly their bytes',
     'Every string literal (any bytes, escapes, adjacent literals, embedded null characters, any length) and character constant, wherever it is used (pointer, array initialiser with or without size, '
     'element of an array of strings, argument, returned value, case label), denotes the bytes C gives it, whatever their meaning for the shell or printf.',
     ['literals', 'contexts'], 'all byte sequences; for scripts run by yash, all sequences of bytes below 128',
     'The tests use a few strings; each byte has its own combination of C escape, shell quoting, printf quoting and unpacking, with interactions between neighbours.',
     ['pnut.c', 'sh.c', 'sh-runtime.c', 'exe.c'], [('get_string_char, accum_string_until, intern_str', 'pnut.c'), ('escape_text, comp_defstr, character_ident', 'sh.c'), ('unpack_string, defstr, char_to_int', 'sh-runtime.c'), ('codegen_string and array initialisers', 'exe.c')],
     DIFF, 'random byte sequences weighted on shell, printf and C special characters, in every context, six shells and two native backends', ['stdout of the compiled program'])

prop('C12', 'printf and putchar of scripts print what C prints',
     'In scripts, printf with any format made of text, flags, width, precision (also *) and the conversions d i o u x X c s %, whether compiled to the printf of the shell or executed by the run time library, '
     'and putchar of any byte, print what C prints, in order, under the six shells.',
     ['formats', 'arguments'], 'all formats and arguments; o, u and x on non-negative values; strings ending with newlines only for %s without width in formats known at compilation',
     'The tests use a few formats; the translation splits formats into several shell commands whose parameters, quoting and state interact.',
     ['sh.c', 'sh-runtime.c'], [('handle_printf_call, printf_call, comp_putchar_inline', 'sh.c'), ('_printf, _put_pstr, _putchar', 'sh-runtime.c')],
     DIFF, 'random formats, arguments and calling contexts, both implementations, six shells against glibc', ['stdout of the script'])

prop('C13', 'Programs read and write the same bytes as the C program',
     'open, read, write, close, fopen, fgetc, fclose, getchar, putchar, lseek, unlink (the last two natively), the arguments of main and the exit status behave as in C: '
     'every byte of every file and of the standard input is read once and in order whatever the mix of functions, lengths of lines, sizes of reads and missing final newlines, '
     'files have the contents written, and arguments and exit status are passed unchanged.',
     ['sequences of input and output operations', 'contents of files', 'arguments'],
     'all sequences of operations on files that are not read and written at the same time; inputs without null bytes for scripts (and below 128 for yash)',
     'The tests read about ten fixed files; the line buffers of the shell run time library depend on the lengths of lines and on the history of reads of each descriptor.',
     ['sh-runtime.c', 'exe.c', 'x86.c'], [('_getchar, refill_buffer, unpack_line, read_byte, _read, _open, _write', 'sh-runtime.c'), ('make_argv, unpack_string', 'sh-runtime.c'), ('builtins read, write, open, fgetc, getchar; fgetc buffers', 'exe.c, x86.c')],
     DIFF, 'generated programs of file operations on generated files, arguments and standard input; traces, exit status and final contents of every file are compared', ['stdout, exit status and files'])

prop('C15', 'Calls, recursion and local variables of scripts are isolated as in C',
     'In scripts, every call has its own parameters and local variables (any number, hidden globals, recursion and mutual recursion, any nesting of calls in expressions and arguments), '
     'they keep their values across calls, a return from any nesting of loops, conditionals and switches gives its value to the caller and restores the variables of the caller, '
     'for every option of the shell backend that changes how variables are saved and passed.',
     ['programs', 'options', 'depths of calls'], 'all programs of the shell subset and the six combinations of options that change the calling sequence',
     'The tests have a few recursive functions; shell variables are global, so isolation depends on what each function saves, on the order of its parameters and on how it returns.',
     ['sh.c', 'sh-runtime.c'], [('let_params, save_local_vars, restore_local_vars, comp_return', 'sh.c'), ('let, endlet, set and positional parameters', 'sh-runtime.c'), ('handle_side_effects_go: temporaries __t', 'sh.c')],
     DIFF, 'generated sets of mutually recursive functions with up to 20 parameters, under six option sets and six shells', ['stdout and exit status of the script'])

prop('C16', 'Objects have the sizes, layouts and addresses of the C ABI',
     'Natively, sizeof, the offset and the bytes of every member and element of structures, unions, anonymous members and multidimensional arrays, pointer arithmetic, differences and comparisons, '
     'accesses through every equivalent expression, and structure assignment, agree with the C compiler of the platform.',
     ['types', 'access expressions'], 'all types built from char, short, int, long long and their unsigned variants, pointers, arrays, structures and unions (no enum members, no bit fields)',
     'The tests access a few structures; alignment, nesting, anonymous members and access paths combine without bound and an error is only seen when two members overlap or foreign code reads them.',
     ['exe.c', 'pnut.c', 'x86.c'], [('struct_union_size, struct_member_offset_go, type_largest_member, type_width', 'exe.c'), ('codegen_lvalue, pointer arithmetic in codegen_binop', 'exe.c'), ('copy_obj, load_mem_location, write_mem_location', 'exe.c')],
     DIFF, 'random types and objects, every leaf written and read through random equivalent paths, bytes of whole objects dumped; reference on the same data model', ['stdout of the executable'])

prop('C23', 'Declarators mean the type C gives them',
     'Natively, every declarator (pointers, arrays, pointers to arrays, pointers to functions, arrays of them, in any nesting, with parentheses, typedef names, parameters, several declarators in a declaration, '
     'type names in casts and sizeof) declares an object of the type C gives it: it can be used according to that type and has its size.',
     ['declarators'], 'all declarators of depth at most five over scalar and structure types and functions of int',
     'The tests have a dozen declarators; the inversion of declarators is recursive and its errors only show for particular nestings.',
     ['pnut.c', 'exe.c'], [('parse_declarator, get_inner_type_parent, declarator stack', 'pnut.c'), ('value_type, dereference_type', 'exe.c')],
     DIFF, 'random declarators for globals, locals, parameters and typedefs, each built, walked to its scalars, called and measured', ['stdout of the executable'])

prop('C24', 'Control statements of executables transfer control as in C',
     'Natively, goto in every direction (into and out of blocks, loops and switches), switch with cases and default anywhere in its body including nested loops and blocks with local variables, fallthrough, '
     'break and continue in any nesting, and returns, execute the statements C executes, in the same order, with intact variables.',
     ['programs', 'nestings of statements'], 'all nestings of control statements, labels and cases that do not use indeterminate variables',
     'The tests have about ten programs with goto and switch; every jump must adjust the stack from the frame of its origin to the frame of its target.',
     ['exe.c', 'pnut.c'], [('codegen_statement, jump_to_goto_label, def_goto_label', 'exe.c'), ('cases and switch operands on the stack', 'exe.c'), ('cgc_add_enclosing_loop/switch', 'env.c')],
     DIFF, 'random nests with a label or case on any statement; every loop and label prints a mark, so that the paths are compared', ['stdout of the executable'])

prop('C25', 'Calls of executables pass every parameter and result with its type',
     'Natively, arguments are converted to the type of their parameter and results to the type of the function, for any number and mix of parameter types, in nested, recursive and mutually recursive calls, '
     'and every activation has its own parameters and local variables.',
     ['programs', 'types'], 'all sets of functions over the integer types of the backend',
     'The tests call functions of ints with a few arguments; conversions, stack slots and evaluation of nested calls combine over all signatures.',
     ['exe.c'], [('codegen_params, codegen_call, add_params', 'exe.c'), ('codegen_convert', 'exe.c')],
     DIFF, 'generated sets of mutually recursive functions with up to 20 parameters of mixed types', ['stdout and exit status of the executable'])

prop('C26', 'Initialisers give objects the values C gives them',
     'Natively, global, static and local variables of every type have after their declaration the value given by their initialiser (scalars, strings, nested and partial braced lists, arrays sized by their initialiser, '
     'addresses, structure copies), members and elements without initialiser are zero, uninitialised globals are zero, and locals are initialised at each execution of their declaration.',
     ['types', 'initialisers'], 'all types of C16 and fully braced initialisers',
     'The tests have a few initialisers; layout, partial lists, strings and reused stack memory combine.',
     ['exe.c', 'pnut.c'], [('codegen_initializer, codegen_initializer_string, initialize_memory', 'exe.c'), ('parse_initializer', 'pnut.c'), ('initializer_size', 'exe.c')],
     DIFF, 'random types and initialisers in globals, statics, locals on a dirty stack, and loops', ['stdout of the executable'])

prop('C05', 'The compiler compiled by itself is the same compiler',
     'pnut compiled by pnut, for any of its targets and as a script under every shell, accepts and rejects the same inputs as pnut compiled by gcc, and writes the same bytes; compiled by itself it is a fixed point.',
     ['inputs of the compiler', 'targets', 'options of the compiler'], 'the sources of pnut and all inputs, valid and invalid, for every pair of a backend and a host backend',
     'The tests compile pnut with itself once, for one set of options, and the bootstrap script compares only the compilation of pnut itself: a miscompilation that shows on other inputs, or options other than the default, is not seen.',
     ['pnut.c', 'sh.c', 'exe.c', 'sh-runtime.c', 'env.c', 'elf.c', 'x86.c'], [('whole compiler', 'pnut.c'), ('bootstrap', 'exe.c, sh.c')],
     DIFF, 'self-compiled compilers (stages, fixed points, scripts under several shells) are compared with the compiler built by gcc on repository, generated, mutated and invalid inputs', ['exit status, stdout and executable of the compilers'])

prop('C09', 'The compiler ends normally and without memory errors for every input',
     'For every input, valid or not, the compiler ends by itself with exit status 0 or 1: it never reads or writes outside its tables, never uses uninitialized memory or a node of another kind, never crashes and never loops; '
     'inputs that exceed its tables are rejected or compiled correctly, and SAFE_MODE, which checks the accesses to the syntax tree, accepts the same inputs and writes the same output, except for the programs it rejects by design (undefined labels, numbers of arguments, calls of other objects than functions).',
     ['all inputs', 'options of the compiler', 'sizes of programs'], 'all inputs with at most 3000 levels of nesting',
     'The tests are valid programs and a few dozen invalid ones, of small size; the compiler keeps everything in fixed arrays and untyped integers, so an error shows only on particular inputs, and often silently.',
     ['pnut.c', 'sh.c', 'exe.c', 'env.c', 'elf.c', 'mach-o.c', 'x86.c', 'debug.c'], [('heap, string_pool, text_pool, glo_decls, code buffers, if_macro_stack, macro stack', 'pnut.c, sh.c, env.c, exe.c'), ('get_child_, get_val_ and their checked variants', 'pnut.c'), ('get_tok, parse_*', 'pnut.c')],
     'AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer and the SAFE_MODE assertions observe the compiler', 'instrumented builds of every backend and of many options compile generated, mutated, unstructured and very large inputs', ['sanitizer reports, exit status, termination, agreement of the builds'])

prop('C27', 'Executables for macOS behave as the C program they were compiled from',
     'Every program of the C subset of the x86-64 backend is accepted for macOS, and the Mach-O file written is one that the loader of macOS can run from its load commands alone: '
     'its executable prints the same output, performs the same input and output and exits with the same status as the C program, using the system calls, flags and error convention of macOS.',
     ['programs', 'sizes of code and data'], 'all programs of the subset whose system calls succeed',
     'The tests of this target cannot run on another system, so nothing of the file format, of the system calls and of the startup code is checked here by them.',
     ['mach-o.c', 'x86.c', 'exe.c'], [('load commands, segment sizes, entry point', 'mach-o.c'), ('system call numbers and carry flag', 'x86.c'), ('setup of arguments and of the heap', 'exe.c')],
     'runtime monitor: strict Mach-O loader with emulation of the macOS system calls, differential against a certified reference execution',
     'generated programs of every kind and of sizes that cross page boundaries, run by a loader that maps only what the load commands describe and traps every system call', ['stdout and exit status, files written, system calls made'])

prop('C28', 'Identifiers designate the declarations in scope',
     'Every use of an identifier designates the innermost visible declaration of its name space: local variables and parameters of any kind (also pointers to functions, arrays, structures, static variables) hide the parameters, variables, functions and '
     'enumerators of the enclosing scopes from their declaration to the end of their block, and only there; labels, tags and members are apart from them. In scripts, local variables and parameters hide the variables, functions and enumerators of the file.',
     ['programs', 'nestings of scopes', 'names declared again'], 'all programs; local types, enumerators and typedef names, extern and function declarations in blocks are outside of the subset, as are in scripts local variables that hide each other',
     'The tests declare most names once; what a name designates after an inner scope ends, or for a kind of object not tried in that position, is not checked.',
     ['exe.c', 'sh.c', 'env.c', 'pnut.c'], [('cgc_lookup_*, resolve_identifier, cgc_locals', 'env.c'), ('codegen_call, codegen_rvalue', 'exe.c'), ('env_var, assert_var_decl_is_safe', 'sh.c')],
     DIFF, 'generated programs declare the same few names in every scope and name space and print what each use designates', ['the value printed by every use'])

prop('C18', 'Compilations are deterministic and independent of the environment',
     'The output of the compiler depends only on the contents of the inputs and the options: not on the environment, the working directory, the names and places of the files, the memory allocator, the limits of the process, the time, nor on how the compiler itself was compiled; '
     'and the behaviour of a script depends only on its input and arguments: not on environment variables of its caller, the working directory, the name of the script, the positional parameters of no use, nor the way the shell is started.',
     ['programs', 'environments', 'ways to run the compiler and the scripts'], 'all programs; the environment variables that the shells themselves interpret, and those named as the internal variables of the runtime library, are excluded',
     'The tests compile each program once in one environment; a dependence on uninitialised memory, on a variable of the caller or on the directory shows only in another environment.',
     ['pnut.c', 'sh.c', 'sh-runtime.c', 'env.c', 'exe.c'], [('variables of the script, names and prefixes', 'env.c, sh.c'), ('runtime_*', 'sh-runtime.c'), ('globals of the compiler', 'pnut.c')],
     DIFF, 'the same compilation, and the same script, is run under perturbed environments (variables that collide with names of the program, directories, limits, allocator fill bytes, descriptors, shells started in other ways) and must give the same bytes', ['stdout, exit status and files of the compiler and of the scripts'])

prop('C19', 'The output is one complete well-formed executable, where it was asked for',
     'On success the native compilers write exactly one static ELF executable that is well-formed and loadable, with the same bytes whatever the destination (standard output, -o of a new or an existing file, a link, a pipe), without other effect on the file system; '
     'a failure of the compilation, of the options, of the inputs or of the output is reported by a message and exit status 1 and leaves no executable that looks complete.',
     ['programs', 'sizes', 'destinations', 'failures'], 'all programs and destinations',
     'The tests run the executables of a few small programs written to one kind of destination; sizes near page boundaries, existing destinations and failing writes are not tried.',
     ['elf.c', 'exe.c', 'pnut.c'], [('write headers, section sizes, .bss', 'elf.c'), ('generate_exe, write_i8, code buffers', 'exe.c'), ('options -o, handling of missing files', 'pnut.c')],
     'runtime monitor: strict ELF reader and kernel loader, comparison of destinations, faults injected in the inputs and outputs', 'programs of chosen sizes are written to every kind of destination; each executable is read by a strict reader and run; failing inputs, options and devices are injected', ['bytes written, files created, exit status, execution of the result'])

prop('C20', 'Messages, __LINE__ and __FILE__ locate the source',
     'When errors are located, the message names the file that has the error and a line from that of the preceding tokens to that of the offending one, through comments, line splices, conditional groups and nested includes; '
     '__LINE__ and __FILE__ have in the program and in conditions the values of C, and #error prints its message.',
     ['programs of several files', 'places of errors'], 'all programs, __LINE__ in arguments of macro calls that span lines excluded',
     'The tests have a dozen errors near the start of files; the positions after multi-line constructs and around includes are not checked.',
     ['pnut.c'], [('get_ch, line_number, column_number', 'pnut.c'), ('get_tok, last_tok_line_number', 'pnut.c'), ('include_stack', 'pnut.c'), ('fatal_error, syntax_error', 'pnut.c')],
     'runtime oracle: errors injected at known places; differential against gcc for __LINE__ and __FILE__', 'an error of each kind is put at a random token of a generated program spread over included files, with comments, splices and groups between lines', ['location printed in the message; values printed by the program'])

prop('C17', 'Options of the compiler do not change what programs do',
     'The optional features of the shell backend (printing of characters, saving of variables, packed runtime, line reading, constant parameters, comments with the C code, runtime inclusion, locations in messages, line continuations, checks) change the text of the script, '
     'but never what the script does: with any set of them it behaves as the C program; and the options of the native backends that are not part of the language leave the executable the same, byte for byte.',
     ['programs', 'sets of options'], 'all sets of the options that compile; RT_NO_INIT_GLOBALS, documented to leave globals uninitialised, is fixed by the workload',
     'The tests run two sets of options, on the same programs; features that interact with each other or with a program of another kind are not run together.',
     ['pnut.c', 'sh.c', 'sh-runtime.c', 'env.c', 'exe.c'], [('#ifdef of each option', 'sh.c, sh-runtime.c, env.c, pnut.c')],
     DIFF, 'each option alone, all options but one, and random sets of options, compile generated programs of every kind, run by several shells', ['stdout and exit status of the scripts; bytes of the executables'])

prop('C10', 'Programs outside the language are rejected',
     'A program that is not a sentence of the C grammar, breaks a rule that the compiler checks (misplaced break, continue or case, operands that are not lvalues, ill-formed literals, declarations or directives, undeclared names, unknown members, '
     'operands and initialisers of the wrong kind in the native backends), or uses a construct that its backend does not support, is never compiled silently: wherever the construct is, the compiler prints a message and exits with status 1, '
     'while the same program with the corresponding valid construct is accepted.',
     ['programs', 'places in a program', 'backends'], 'all programs; lists of parameters and names of types, read more liberally than C, excluded',
     'The tests have a few dozen erroneous programs, with one error each, at the top of a small file; whether an error is seen depends on the constructs around it and on what precedes it.',
     ['pnut.c', 'sh.c', 'exe.c'], [('parse_error, syntax_error, expect_tok', 'pnut.c'), ('fatal_error of the code generators', 'sh.c, exe.c'), ('parse_*', 'pnut.c'), ('bindings of loops and switches', 'env.c')],
     'runtime oracle: pairs of a wrong construct and its valid counterpart at the same place; differential against the syntax errors of gcc', '320 wrong constructs and their counterparts at random places of generated programs, for every backend, and random edits of programs that gcc rejects as syntax errors', ['exit status and message of the compiler'])
