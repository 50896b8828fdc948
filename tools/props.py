HOOKS = None
TV = "Model-based verification: an explicit TLA+ specification of the language's abstract machine (specs/SysYMachine.tla), executed and checked with TLC, judges recorded observations of the real compiler"

prop("C01", "Optimisation does not change what a program does",
     "For every SysY program and input whose behaviour is defined, the output and exit code obtained by running the compiled program are the same at every optimisation level (0 to 3), namely those the language prescribes. Compilation at any level terminates without crashing, and the optimised program neither faults nor fails to terminate.",
     ["programs", "inputs", "configurations"],
     "all defined SysY programs, all inputs, -O0 to -O3, run with the built-in IR simulator (-t sim -e)",
     "The tests run each pass over a few dozen hand-written programs and compare text or one output; a transformation is wrong only for particular shapes, constants and trip counts.",
     ["cmmc/Transforms", "cmmc/Analysis", "cmmc/IR", "cmmc/ExecutionEngine/Interpreter.cpp"],
     [("pass pipeline", "cmmc/Transforms/TransformPass.cpp"), ("legality conditions of each transformation", "cmmc/Transforms/*"), ("analyses they query", "cmmc/Analysis/*")],
     technique=TV,
     note="Explores generated programs (random ones plus parameterised idioms for each loop, memory, arithmetic and call transformation); "
          "the specification decides definedness and the expected behaviour of each. Trusts TLC and the generator's parser of its own programs; bounded by the program sets.")

prop("C02", "Programs mean what the language says",
     "The unoptimised program computes what the SysY language (with the extensions for, do-while, ?:, bit operators, ++ and --, assignment, compound assignment and comma expressions, goto) prescribes for its source text: literals, operator precedence and conversions, scoping, initialisers of arrays, parameter passing, short-circuit evaluation, control flow and the input/output library. Layout, comments and the spelling of literals do not matter.",
     ["programs", "inputs"],
     "all defined SysY programs in any source style, all inputs, -O0",
     "The existing tests sample a few hundred programs written in one style; the meaning of an operator or initialiser shape in every context is not enumerated.",
     ["cmmc/Frontend/ScannerSysY.ll", "cmmc/Frontend/ParserSysY.yy", "cmmc/Frontend/EmitIR.cpp", "cmmc/ExecutionEngine/Interpreter.cpp"],
     [("scanner and grammar", "cmmc/Frontend/ScannerSysY.ll, ParserSysY.yy"), ("IR emission", "cmmc/Frontend/EmitIR.cpp"), ("IR interpreter and its runtime functions", "cmmc/ExecutionEngine/Interpreter.cpp")],
     technique=TV,
     note="Several thousand generated programs per run, three quarters of them re-spelled in random source styles; the specification computes the expected behaviour from the abstract program.")

def machine_prop(id, name, tgt, dirs, extra=""):
    prop(id, "Generated %s assembly behaves like the program" % name,
         "For every SysY program and input whose behaviour is defined, executing the %s assembly the compiler prints (any optimisation level, with its runtime routines) yields the output and exit code the language prescribes: instruction selection, scheduling, register allocation, spilling, the calling convention, frame layout and address or immediate ranges never change it; compilation terminates without crashing and the code does not fault.%s" % (name, extra),
         ["programs", "inputs", "configurations"],
         "all defined SysY programs, all inputs, -t %s at -O0 to -O3" % tgt,
         "The test suite only compares assembly text with snapshots; no generated %s instruction is executed by it." % name,
         dirs + ["cmmc/CodeGen"],
         [("instruction selection and legalisation", dirs[0]), ("register allocation, scheduling, peepholes", "cmmc/CodeGen"), ("printed assembly", dirs[0] + "/*.yml")],
         technique=TV + ", run by an executor of the assembly text",
         note="harness/asmsim executes the printed assembly (user-mode subset of the instruction set, calling convention, runtime calls); the specification judges what it prints. "
              "Trusts asmsim's instruction semantics (written from the ISA manuals, cross-checked by three targets agreeing).")


machine_prop("C03", "RISC-V", "riscv", ["cmmc/Target/RISCV"])
machine_prop("C04", "ARM", "arm", ["cmmc/Target/ARM"])
machine_prop("C05", "MIPS", "mips", ["cmmc/Target/MIPS"])

prop("C06", "SPL programs mean what the language says",
     "A correct SPL program (with or without the extensions: initialisers, nested declarations, for, do-while, break, continue, ?:, bit operators, ++ and --, compound assignment, global variables; a structure is passed by value, an array by reference) whose behaviour is defined prints and returns what the language prescribes, whichever way it is run: by the built-in simulator, as the three-address code printed by -t tac, or as the MIPS assembly with its printed input/output routines, at every optimisation level (three-address code has no form for global variables, % and the bit operators, which the other routes have). Compilation terminates without crashing, and the three-address code is well formed (labels, functions, one operation per line, DEC objects, matching ARG/PARAM).",
     ["programs", "inputs", "configurations"],
     "all defined SPL programs, all inputs, -t sim / tac / mips, -O0 to -O3",
     "The tests compile a few dozen SPL programs and mostly compare text; member offsets, copies of aggregates, evaluation order, short circuits and argument passing combine in unbounded ways, and the printed three-address code is never executed.",
     ["cmmc/Frontend/ScannerSpl.ll", "cmmc/Frontend/ParserSpl.yy", "cmmc/Frontend/EmitIR.cpp", "cmmc/Target/TAC", "cmmc/CodeGen", "cmmc/Target/MIPS"],
     [("scanner and grammar", "cmmc/Frontend/ScannerSpl.ll, ParserSpl.yy"), ("structures, arrays, calls by reference", "cmmc/Frontend/EmitIR.cpp"), ("selection and printing of three-address code", "cmmc/Target/TAC/TAC.yml, TACTarget.cpp, TACISelInfo.cpp"), ("runtime routines", "cmmc/Target/MIPS/MIPSTarget.cpp")],
     technique=TV + ". Printed three-address code is executed by a second TLA+ machine (specs/TAC.tla).",
     note="Generated SPL programs; two specifications: the source machine decides, the three-address machine executes the printed code. Bounded by the program sets; at O1-O3 an operation without a three-address form is inconclusive.")

prop("C07", "Three-address code keeps its meaning",
     "A three-address program (the language cmmc prints with -t tac and reads from .ir files: GOTO/IF with arbitrary control flow, DEC objects and addresses, ARG/PARAM/CALL with recursion, READ/WRITE) whose behaviour is defined behaves the same after it has been loaded, optimised at any level and printed again as three-address code or MIPS assembly; in particular cmmc can load what it printed. Compilation terminates without crashing.",
     ["programs", "inputs", "configurations"],
     "all defined three-address programs whose functions are defined before they are called, all inputs, -t tac / mips, -O0 to -O3",
     "The repository has a handful of three-address files, all printed by compilers from structured programs; irreducible control flow, addresses that merge or travel through memory and calls are not sampled.",
     ["cmmc/Conversion/TAC.cpp", "cmmc/Conversion/TACImpl.cpp", "cmmc/Target/TAC", "cmmc/Transforms", "cmmc/Analysis", "cmmc/CodeGen"],
     [("loader", "cmmc/Conversion/TAC.cpp"), ("alias reasoning about integers used as addresses", "cmmc/Analysis/AliasAnalysis.cpp"), ("printer", "cmmc/Target/TAC/TACTarget.cpp")],
     technique="Model-based verification with a TLA+ specification of the three-address machine checked with TLC: the specification executes the source program (which must be defined) and the code cmmc prints for it, and every observation (three-address output of the same machine, MIPS assembly executed by harness/asmsim) is validated against the specification's behaviour.",
     note="Generated programs with random control-flow graphs and address manipulation plus cmmc's own output for SPL programs. Overflow counts as undefined. Bounded by the program sets; trusts TLC and asmsim.")

prop("C08", "Ill-formed programs are rejected with the right diagnostic",
     "In strict mode (--strict), for each line of an SPL program that breaks rules of the language the compiler prints a diagnostic with that line number and the number of one of those rules (A unknown word or unfinished comment, B missing punctuation, 1 undefined variable, 2 undefined function, 3/4/15 variable, function or structure defined again, 5 types of an assignment or initialisation, 6 assignment to a value, 7 operands of an operator, 8 type of a returned value, 9 number or types of arguments, 10 index of something that is no array, 11 call of something that is no function, 12 index that is no integer, 13 member of something that is no structure, 14 unknown member), and no diagnostic for any other line. A SysY program that breaks a rule (names, types, constant expressions, array sizes, initialisers, return, break and continue, assignment to constants, syntax) is rejected with a message for the first line that does. A rejected program yields a nonzero exit status and no output; a program that breaks none is accepted without diagnostics. It never crashes. (Texts with faults A or B are not analysed further.)",
     ["programs"],
     "all SPL programs in strict mode and all SysY programs, one statement per line",
     "The tests contain about fifty ill-formed SPL programs, each with its expected messages; scopes, shadowing, nesting of structures and arrays, and several faults in one program combine in unbounded ways, and no test rejects a SysY program for its meaning.",
     ["cmmc/Frontend/EmitIR.cpp", "cmmc/Frontend/DriverImpl.cpp", "cmmc/Frontend/ParserSpl.yy", "cmmc/Frontend/ScannerSpl.ll", "cmmc/Frontend/ParserSysY.yy"],
     [("scopes and name lookup", "cmmc/Frontend/EmitIR.cpp: pushScope, popScope, addIdentifier, lookupIdentifier"), ("types of expressions and conversions", "cmmc/Frontend/EmitIR.cpp: convertTo, BinaryExpr::emit, FunctionCallExpr::emit"), ("reporting", "cmmc/Frontend/EmitIR.cpp: reportSplError; DriverImpl.cpp: reportLexerError, reportParserError")],
     technique="Model-based verification: a TLA+ specification of the static semantics (specs/Static.tla: a machine that reads a program item by item with a stack of scopes and issues diagnostics), checked with TLC, judges the recorded verdict of the real compiler on every generated program",
     note="Generated programs with up to three faults; the specification decides whether a program is ill-formed, where and by which rule. Bounded by the program set; conversions between char and int inside operators, which strict mode rejects without a rule number, are left out.")
