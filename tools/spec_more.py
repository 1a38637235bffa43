prop("C10", "A generated C mock compiles, links and has exactly the declared interface",
     "Every header of the supported subset yields a mock whose source and header compile with gcc and clang, whose header is self-contained, can be included repeatedly, from C++ and together with other mocks, and which links with the other mocks of the project. "
     "The mock defines each function with exactly its declared type, f_ExpectAndReturn taking the parameters, the returned value unless void, and one matcher per parameter, "
     "and f_ExpectReturnAndOutput if and only if a parameter is a pointer or array whose innermost objects are writable, with one output per such parameter and a size for each which is untyped or incomplete.",
     ["inputs"], "all headers of C declarations of scalar, enum, struct, union, typedef, pointer, array and function-pointer types in any spelling, with macros, attributes, comments and redeclarations",
     "The tests compile mocks of a fixed set of hand-written headers, one spelling per type.",
     [CT, LP, G + "src/FunctionDeclaration.cpp", G + "src/TypeItf.cpp"],
     [("declarations read from the header", LP), ("text of the mock", CT)],
     "monitoring the generator's output with two compilers and libclang as type oracle, on randomised declarations and the installed headers", "Held on the headers generated; the spellings listed as known findings fail.")
prop("C11", "Generated comparators decide equality of all fields and explain a mismatch",
     "For every struct and union used by a function and selected with --generate-comparator-of, cmp_ and cmp_deref_ptr_ comparators exist under each name by which the functions use it, and accept if and only if every field, at any depth, compares equal, whatever the padding holds; they modify nothing and read only the two objects. "
     "On a mismatch the message, never longer than the message buffer, names the parameter, the path and an unequal field (with its index in an array), and gives its actual and its expected value (integers wider than char, enums, pointers).",
     ["inputs"], "all records built from scalars, bitfields, enums, pointers, callbacks, arrays, nested, anonymous and typedef'd structs and unions, all values and padding, names of any length",
     "The tests compare a few fixed structs with one field changed.",
     [CT, G + "src/ComposableType.cpp", G + "src/EasyMockGenerateTypes.cpp"], [("comparator of a composable type", CT)],
     "leaf-by-leaf oracle generated from the declaration, over padded and mutated objects on the heap, under ASan+UBSan (clang and gcc)", "Held on the records and pairs evaluated.")
prop("C12", "--generate-types gives the mock the types of the header, byte for byte",
     "With --generate-types the mock compiles without the header it was made from, and every type used by a mocked function keeps there the size, alignment, field offsets, bit positions and enum constants which the compiler gives it in the header. "
     "Callers compiled with the header and the mock compiled without it therefore agree on every argument, result, output and comparison.",
     ["inputs", "configurations"], "all headers of the supported subset without packing, alignment attributes or arrays of arrays, with recursive, nested, anonymous and forward-declared types",
     "The tests look at the text of a few generated types and use them only together with themselves.",
     [CT, G + "src/Enum.cpp", G + "src/TypedefType.cpp"], [("generation of used types", CT)],
     "layout monitoring by two compilers on both sides of the generated headers, and reference-model monitoring of histories across them under ASan+UBSan",
     "Held on the headers generated; packed, aligned and multi-dimensional fields are known findings.")
prop("C13", "Exactly the selected functions are mocked, each once",
     "The mock defines exactly the functions which the given header itself declares, wherever macros, #line, conditions or repetitions put the declaration, except those which the header defines (also after declaring them), makes inline or static, or declares as never returning, and those whose name is a macro in the end. "
     "--generate-included-functions adds the functions of the included headers, --generate-types those which are inline, static, defined or never return, --mock-only keeps only the named functions and --ignore-generation-of removes the named ones; in any combination and with the same -I and -D as the compiler. With --mock-cpp the same holds for functions in namespaces and for methods, of any access, which the options name without their scope.",
     ["inputs", "configurations"], "all C projects of headers and includes and C++ projects of functions, overloads, namespaces and classes which --mock-cpp supports, function declarations of every kind, all combinations of the selecting options and parser options",
     "The tests give each option to one or two headers with a couple of functions.",
     [LP, CT, G + "src/ElementToMockContext.cpp"], [("origin of a declaration", LP), ("selection of the functions", CT)],
     "monitoring the symbols of the compiled mock against an independent libclang reading of the same header, on random projects and the installed headers",
     "Held on the projects and headers mocked; the installed headers which cannot be mocked for other reasons are known findings.")
prop("C14", "The mock's functions carry exactly the selected attributes",
     "With --generate-types each function of the mock is declared and defined with those attributes of the header's declaration which --generate-attribute selects, with the same parameters, and with no other, however the header spells, groups and places them. "
     "The return and parameter types do not change, the mock compiles for any selection, also without --generate-types, and its functions get the binding, visibility and section which the attributes ask for.",
     ["inputs", "configurations"], "all functions with any attributes known to the compiler, in any placement, spelling and object-like macro, and all selections",
     "The tests generate one format attribute and compare parsed objects of a few attributes.",
     [LP, CT, G + "src/FunctionAttribute.cpp"], [("attributes of a declaration", LP), ("text of the attributes", CT)],
     "monitoring the generated declarations through libclang and the symbols of the compiled mock against a header holding the selected attributes only", "Held on the functions generated; attributes written by macros with parameters are a known finding.")
prop("C15", "The command line is obeyed in any order and from any directory, or refused",
     "EasyMockGenerate mocks the functions which its options and those of the parser (-I, -D, -U, -include, -std, ...) select, into the two files of the output directory and no others, the same whatever the order of the options, "
     "the directory it runs in, and whether paths are absolute or relative to that directory or to the one given with --cwd. A command line which misses or repeats -i, -o, --cwd or the value of an option, names what does not exist or holds an option nobody knows is refused: "
     "it ends with a status which is not zero, says why on the standard error and writes nothing; -h and --help describe every option and write nothing.",
     ["inputs", "configurations"], "all command lines over all directory trees, names of files and directories, and options of the parser",
     "The tests parse a dozen short command lines without running the generator.",
     [G + "src/CmdLineParser/CmdLineParser.cpp", G + "src/main.cpp", LP, CT], [("reading of the arguments", G + "src/CmdLineParser/CmdLineParser.cpp"), ("change of directory", G + "src/main.cpp"), ("options of the parser", LP)],
     "metamorphic and reference monitoring of runs of the generator: snapshots of the directory tree, exit status and functions mocked, against an independent reading of the header with the same options", "Held on the command lines run.")
prop("C16", "A failed generation is reported, and never passes for a success",
     "EasyMockGenerate ends with success only if both files of the mock are complete, whatever was in their place before and whichever system call fails meanwhile. Otherwise it ends with a status which is not zero and a reason on the standard error, "
     "and a header with errors (located in their file) leaves the output directory as it was; warnings never prevent a mock, and --ignore-parser-error mocks all functions which are still understood.",
     ["inputs", "fault_sequences", "crash_points"], "all C and C++ headers with errors anywhere, all failures of reading and writing, all states of the output directory",
     "The tests never run the generator on a broken header or a full disk.",
     [G + "src/MainCodeGenerator.cpp", CT, LP, G + "src/main.cpp"], [("failure of the parser", G + "src/MainCodeGenerator.cpp"), ("writing of the files", CT)],
     "fault injection into the generator's system calls (strace), errors injected into headers, and snapshot monitoring of the output directory", "Held on the failures injected.")
prop("C17", "The mock depends on the declarations and options alone, and nothing else changes",
     "Headers which declare the same functions and types give the same mock with the same options, wherever their tokens, comments, line ends, splices, includes, guards and conditions stand and however they spell types, constness and namespaces, and the mock of a function is the same whatever other functions are mocked, repeated or left out. "
     "It is the same in every environment, directory, locale and address layout, when generators work side by side, and a run writes nothing but the two files, starts no program and uses no network.",
     ["inputs", "configurations", "schedules"], "all C and C++ headers of the supported subset in all layouts, all surroundings of the process, all parallel runs",
     "The tests read headers written in one way, in one process.",
     [LP, CT, G + "src/MainCodeGenerator.cpp", G + "src/main.cpp"], [("text of a declaration", LP), ("sections of the functions", CT), ("writing of the files", CT)],
     "metamorphic monitoring: mocks of equivalent headers and of repeated, parallel and partial runs compared as texts; system calls of the generator recorded and judged (strace)", "Held on the headers and surroundings tried.")

prop("C18", "The generator survives whatever header and options it is given",
     "For every file given as a header, well-formed or not, and every combination of options, the generator ends in bounded time with a status and a diagnostic, or with a mock. "
     "It never accesses memory it does not own or which is gone, executes undefined behaviour, exhausts its stack, dies of a signal or an uncaught exception; an assertion is a diagnostic for a construct which is not supported, and is not reached by a header of the supported subset.",
     ["inputs", "programs", "configurations"], "all files as headers, all options, C and C++",
     "The tests give well-formed headers of a fixed set of shapes to a generator built without sanitizers.",
     [LP, CT, G + "src/ComposableType.cpp", G + "src/main.cpp", G + "src/TypeItf.cpp"], [("hash of types", G + "src/ComposableType.cpp"), ("types of the AST", LP), ("generated sections", CT)],
     "fuzzing of the generator built with AddressSanitizer and UndefinedBehaviorSanitizer (odd, mutated, truncated, extreme and binary headers, hostile options), runs under valgrind memcheck; deterministic cases shrunk", "Held on the headers tried.")

prop("C21", "A mock header with generated types defines the macros of the header",
     "With --generate-types, each macro which the header or what it includes leaves defined is defined by the mock header with the same parameters and the same replacement, so that any use of it expands alike, white space aside; a macro left undefined is not defined. "
     "Mock headers of headers which share a third can be included together.",
     ["inputs", "programs", "configurations"], "all macros (object-like, function-like, variadic) in all orders of definition, undefinition, inclusion and condition",
     "The tests read five macros of one header into the parser's context and never the generated header.",
     [LP, CT, G + "src/ElementToMockContext.cpp", G + "src/MacroDefinition.cpp"], [("MacroBrowser", LP), ("fillInMacroDefinition", CT), ("addMacroDefine", G + "src/ElementToMockContext.cpp")],
     "differential monitoring: gcc's table of macros and its expansion of generated uses, with the header and with its mock, over random headers", "Held on the headers tried but for the listed finding.")

prop("C22", "Ignored fields are left out, and nothing else is",
     "With --ignore-field-generation-of T, generated comparators decide on every field except those of T, at every place where a T is held, and the comparators of T accept any two values. "
     "With --generate-types, T is declared without fields and every other type which holds none by value is the header's type. Without these options the mock is the one made without the option.",
     ["inputs", "programs", "configurations"], "all headers, all choices of tagged records to ignore, all pairs of values",
     "The tests check that the option's value is stored; nothing checks what it does to a mock.",
     [LP, CT], [("m_ignoreTypeFieldList", LP), ("generateDeclarationOfComposableType", CT)],
     "online verdict oracle over random values of every record under AddressSanitizer and UndefinedBehaviorSanitizer, layout monitor of the generated types, differential comparison of mocks with and without the option", "Held on the headers tried.")

prop("C19", "C++ mocks follow the same rules, for functions, methods and references",
     "A mock made with --mock-cpp of a function, a function in namespaces or a method of a class or struct compiles next to its header, whatever other functions share the name, and obeys every rule of the C mocks: the nth call meets the nth expectation, matchers see the actual and the recorded arguments, one error per mismatch, order and missing calls reported, outputs written, init starts anew; with no limit on the number of expectations, in programs with C mocks too and in shared objects which are loaded and unloaded. "
     "An expectation recorded for an instance accepts that instance only and one recorded for none accepts any; a recorded reference is returned as the very object, and references given are neither copied late nor modified.",
     ["inputs", "programs", "histories"], "all histories on mocks of all headers of the C++ subset of DESIGN.md",
     "The tests mock a few C++ headers and make a handful of calls, with one parameter per method.",
     [CT, "src/easyMockFramework/include/MockedFunction.h", LP], [("template of the mocked function", CT), ("MockedCppFunction", "src/easyMockFramework/include/MockedFunction.h"), ("return types", LP)],
     "online checker of a reference model over random histories on C++ mocks of random headers, driver and mocks under AddressSanitizer and UndefinedBehaviorSanitizer (clang++ and g++)", "Held on the histories tried.")
