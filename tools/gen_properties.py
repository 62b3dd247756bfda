#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit the table here, then run it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["native callback arguments", "global variables", "error text"],
                               hook_needed=None, **({"state": state} if state else {}))))

p("C01", "Expressions evaluate by the language's operator and conversion rules",
  "For every expression built from literals, variables, object fields and operators, evaluation yields exactly the value and type given by the language rules: C-like precedence and left associativity, each operand evaluated once, the right operand converted to the left operand's type, 32-bit wrap-around integer arithmetic, string concatenation, and 0/1 results for comparisons and logic. Assignment and prefix or postfix increment/decrement (x = x plus or minus 1 on the target as written) store the right value in the right place, and assignment and the prefix forms yield the value stored, the postfix forms on integers the value before. Operations that have no meaning (division by zero or overflowing division, arithmetic on nil, objects or functions) raise a script error instead of producing a value or disturbing the host.",
  ["programs", "inputs"], "every operator, every operand value/type, every parenthesisation and operator mix",
  "The tests evaluate a few dozen fixed expressions; operator x type x boundary-value x precedence combinations are a product they do not sample.",
  ["src/nkexpr.c", "src/nkopcode.c", "src/nkvalue.c"],
  [("precedence climbing and operator emission", "src/nkexpr.c nkiCompilerParseExpression/EmitExpression"), ("operator implementations", "src/nkopcode.c nkiOpcode_*"), ("conversions and comparison", "src/nkvalue.c")])

p("C02", "Control flow, functions and scopes follow the structured program",
  "Any program built from if/else, while, do-while, for, break, blocks, variable declarations, functions, recursion and return executes exactly the statements its structure prescribes, in order, and each loop, call and block leaves the rest of the program undisturbed. A name always refers to the innermost visible declaration, locals and parameters are private to their call, globals are shared, functions without a return yield 0 and uninitialised variables start as 0. Functions are values: they can be stored, passed, compared and called with exactly the declared parameters.",
  ["programs"], "all programs over the statement grammar, all nestings",
  "The tests run about two dozen fixed scripts whose nesting of break/return/scope exits covers only a handful of the combinations that adjust the stack.",
  ["src/nkcompil.c", "src/nkexpr.c", "src/nkopcode.c"],
  [("scope contexts and stack-offset bookkeeping", "src/nkcompil.c nkiCompilerPushContext/PopContext, CompileBreak/Return"), ("call/return", "src/nkopcode.c nkiOpcode_call/return")])

p("C03", "Compile-time evaluation never changes what a program computes",
  "Replacing any literal operand of an expression by a variable holding the same value (or the reverse) never changes the result value, its type, or whether an error is raised. This includes integer wrap-around, mixed integer/float operands, very small and very large floats, negation, and division by zero.",
  ["programs", "inputs"], "every constant subexpression of every expression",
  "No test compares a literal expression with the same expression over variables.",
  ["src/nkopt.c", "src/nkexpr.c", "src/nkcompil.c"],
  [("constant folding", "src/nkopt.c nkiCompilerOptimizeConstants")])

p("C04", "Objects behave as maps from typed keys to values",
  "After any sequence of field stores, reads, removals (storing nil) and length queries through any mix of script syntax and host API, an object holds exactly the entries of an ordinary map keyed by value and type: reads return the last stored value or nil, length equals the number of present keys, removal affects only its key, and look-ups never create entries. Keys of different type or content never alias, keys that compare equal always do, and this holds no matter how keys collide in the table. Identity is by reference: distinct objects never share entries and copies of a reference do.",
  ["histories", "inputs"], "all operation sequences over all key types, including colliding keys",
  "The tests store a few keys once; bucket collisions, removal from the middle of a chain, mixed-type keys and reuse after removal need sequences they do not contain.",
  ["src/nkobjs.c", "src/nkopcode.c", "src/nkvalue.c", "src/nkx.c"],
  [("bucketed hash table", "src/nkobjs.c nkiVmObjectFindOrAddEntry/ClearEntry"), ("hash and strict compare", "src/nkvalue.c nkiValueHash/nkiValueCompare")])

p("C05", "Garbage collection is invisible to the running program",
  "Whenever and however often garbage collection runs - automatically at any interval or forced by the host between any two instructions or inside any native call - the program's output, final state and errors are the same as without it. In particular nothing that is still reachable from variables, stacks, coroutines, suspended calls, object fields or keys, callable objects, native-held handles or native mark callbacks is ever reclaimed or altered; and a cleanup callback of native data may itself store new objects and strings, call the script or ask for a collection without harm.",
  ["schedules", "programs", "histories"], "every collection point of every execution, every collection schedule",
  "The tests collect at one default interval; a root that is missed only at one specific point between two instructions never meets a collection there.",
  ["src/nkgc.c", "src/nkvm.c", "src/nkcorout.c", "src/nkstring.c", "src/nkobjs.c"],
  [("mark and sweep", "src/nkgc.c nkiVmGarbageCollect"), ("periodic trigger", "src/nkvm.c nkiVmIterate")])

p("C06", "Unreachable objects and strings are reclaimed, each exactly once",
  "A collection reclaims every object and every dynamically created string that is no longer reachable, including cycles, self references and objects used only as keys, and keeps every one that is. An object with attached native data has its cleanup callback called exactly once, with its own data, when it is reclaimed or when the VM is deleted, and never while it is reachable. Reclaimed slots are reused safely: memory use of a steady-state program does not grow.",
  ["histories"], "all object graphs and all mutation/collection histories",
  "Tests never compare the set of live objects with reachability; leaks that are freed at VM deletion are invisible to valgrind.",
  ["src/nkgc.c", "src/nkobjs.c", "src/nkstring.c", "src/nktable.c"],
  [("sweep and cleanup callbacks", "src/nkgc.c, src/nkobjs.c nkiVmObjectTableCleanupObject"), ("hole lists", "src/nktable.c")],
  ["cleanup callbacks", "nkxGetNextObjectOfExternalType", "nkxVmGetCurrentMemoryUsage"])

p("C07", "External handles pin objects exactly as long as they are held",
  "For every history of acquiring and releasing handles, creating and dropping references and collecting, an object (and everything reachable from it) stays alive and unchanged while its handle count is above zero or script can reach it, and becomes collectable when neither holds. The reported handle count always equals acquisitions minus releases for that object. Releasing a handle that is not held, or passing a non-object, is reported as an error and changes nothing.",
  ["histories"], "all acquire/release/link/unlink/collect histories over several objects",
  "No test acquires more than one handle or releases in different orders.",
  ["src/nkobjs.c", "src/nkgc.c", "src/nkx.c"],
  [("handle list and counts", "src/nkobjs.c nkiVmObjectAcquireHandle/ReleaseHandle")],
  ["nkxVmObjectGetExternalHandleCount", "cleanup callbacks"])

p("C08", "A VM saved at any instant and restored continues identically",
  "If a running program is saved between any two instructions and restored into a VM, fresh or already used (even the VM that was saved), that has registered the same native functions and types, the restored VM produces exactly the remaining output, errors and final state the original would have, including suspended coroutines, call stacks, globals, functions, object contents and keys, native-typed objects, handles, source positions and program end state (limits and user data belong to the host and are set by it). Saving does not disturb the VM being saved, and this holds across any number of save/restore generations.",
  ["crash_points", "programs", "histories"], "every save point of every program; any number of generations",
  "The test harness saves at a few instants of each script and checks mostly that it still runs to the end.",
  ["src/nksave.c", "src/nkx.c"],
  [("serialisers, one per table", "src/nksave.c nkiSerialize*"), ("native function matching", "src/nksave.c nkiSerializeExternalFunctionTable")],
  ["nkxVmSerialize stream", "native callback arguments after restore"])

p("C09", "Damaged, truncated or foreign saves never harm the host",
  "Restoring from any byte stream into any VM, fresh or already used - a valid save cut at any point, with any byte altered, or one whose native functions are missing - returns to the host without memory errors, hangs or aborts, and either succeeds or reports failure. Whatever the outcome, the VM can afterwards be inspected, run under an instruction limit, collected, saved and deleted safely, and deleting it returns all memory. Running whatever program results can only ever raise script errors.",
  ["inputs", "fault_sequences"], "every truncation point and every single-byte alteration of valid saves",
  "The tests load only streams they just wrote; AFL fuzzing was used by hand and samples.",
  ["src/nksave.c", "src/nkvm.c", "src/nkstack.c", "src/nkopcode.c"],
  [("validation on load", "src/nksave.c"), ("index masking", "src/nkstack.c, src/nkvm.c instructionAddressMask/staticAddressMask")],
  ["return value of nkxVmSerialize", "sanitizers", "host allocator"])

p("C10", "Allocation failure anywhere is survivable and leaks nothing",
  "If the host allocator fails at any single request, or from any request onwards, during any API call (create, compile, run, call, collect, save, restore, shrink, register, error reporting), that call returns to the host, the failure can be queried, every later API call returns without touching the program, and deleting the VM gives every block back exactly once. No native callback is entered with an invalid VM and no memory error, abort or hang occurs.",
  ["fault_sequences"], "every allocation index of every history, single and persistent failure, also during teardown",
  "The memfail tests hit failure at pseudo-random rates in whole scripts; they reach each allocation site only by chance and do not vary the API call in progress.",
  ["src/nkmem.c", "src/nkfail.h", "src/nkx.c", "src/nkvm.c"],
  [("failure long-jump handlers around each API call", "src/nkfail.h"), ("allocation list released at deletion", "src/nkmem.c, src/nkvm.c nkiVmDestroy")],
  ["host allocator", "nkxVmHasAllocationFailure", "sanitizers"])

p("C11", "All memory goes through the host allocator and is accounted exactly",
  "With replacement allocation functions, every block the library uses (apart from the VM's own control structure in the usage figures) is obtained from and returned to them with the host's context pointer, and each is returned exactly once by the time the VM is deleted. The reported current usage always equals the sum of the sizes outstanding, the reported peak equals its maximum, and usage never exceeds a limit set by the host: a request that would exceed it fails instead. Memory helper functions offered to hosts (allocate, array, reallocate, duplicate, free) keep contents, detect size overflow and obey the same accounting.",
  ["histories", "configurations"], "every API history; every limit value",
  "Tests use plain malloc; nothing compares reported numbers with actual requests or tries limit values one by one.",
  ["src/nkmem.c", "src/nkx.c", "src/nkvm.c"],
  [("allocation header list and counters", "src/nkmem.c nkiMalloc_real/nkiFree/nkiRealloc")],
  ["host allocator", "nkxVmGetCurrentMemoryUsage", "nkxVmGetPeakMemoryUsage"])

p("C12", "Sandbox limits are enforced exactly and fail safely",
  "A program may never run more instructions than the host's instruction limit plus one collection interval, hold more stack values than the stack limit (or the built-in one), or hold more fields in one object than the field limit; and it is never stopped by a limit it stays within. Exceeding a limit raises a script error (never memory corruption or a hang), leaves objects consistent, and limits set by the host take effect for the rest of the run.",
  ["configurations", "programs"], "every limit value around the program's actual need",
  "Tests run with one fixed setting; off-by-one and enforcement gaps need each limit value tried against programs of known need.",
  ["src/nkvm.c", "src/nkstack.c", "src/nkobjs.c"],
  [("instruction budget at collection interval", "src/nkvm.c nkiVmIterate"), ("stack growth check", "src/nkstack.c"), ("field count check", "src/nkobjs.c")],
  ["native callback counts", "nkxVmObjectGetSize", "error text"])

p("C13", "Coroutines follow the create/resume/yield/finish protocol",
  "For every history of creating, resuming, yielding, finishing and querying several coroutines, including nesting and passing values both ways: a created coroutine runs only when resumed, each resume continues exactly after the last yield with the resumed value as the yield's result, the resumer receives the yielded or returned value, and a finished coroutine reports finished and yields nil for ever. Resuming an active coroutine, yielding outside any coroutine or across a native call, or resuming a non-coroutine, is a script error. Each coroutine's locals, arguments and calls are private to it.",
  ["histories", "schedules"], "all interleavings of operations over several coroutines",
  "crtest covers one linear use; protocol errors live in orders of operations across coroutines.",
  ["src/nkcorout.c", "src/nkopcode.c", "src/nkvm.c", "src/nkfse.c"],
  [("execution context switch", "src/nkvm.c nkiVmPushExecutionContext/Pop, src/nkopcode.c nkiOpcode_coroutine*")])

p("C14", "Compacting a VM at any instant changes nothing observable",
  "Shrinking the VM's tables between any two instructions of any program leaves output, errors and final state exactly as without shrinking, including objects used as keys, suspended coroutines, handles, native-typed objects and strings, and may be repeated and combined with collection and saving. Values obtained after shrinking refer to the right objects. Shrinking never increases the memory in use, and after collecting and shrinking the memory in use depends on what is alive, not on the holes that past objects and strings left.",
  ["schedules", "programs"], "every shrink point of every execution",
  "The test harness shrinks between iterations of a few scripts that have almost no holes to compact.",
  ["src/nkshrink.c", "src/nktable.c"],
  [("move entries into holes and rewrite references", "src/nkshrink.c nkiVmShrink")])

p("C15", "VMs are isolated from each other",
  "Any number of VMs used in any interleaving of API calls and instruction slices behave each exactly as if alone: outputs, errors, memory accounting, native registrations and user data never cross, and destroying or crashing (by error or allocation failure) one has no effect on the others, even when one is used from inside a native call of another.",
  ["schedules"], "every interleaving of two VMs' step sequences",
  "All tests use one VM at a time.",
  ["src/nkvm.c", "src/nkx.c", "src/nkfail.h"],
  [("all state hangs off the VM", "src/nkvm.h")])

p("C16", "Running in slices equals running to completion",
  "However the host divides execution - any sequence of step counts, with any host reads between them - the outputs, errors and final state equal those of running the program in one go, and a step of n executes at most n instructions. After the program has ended or an error has occurred further stepping changes nothing, and the ended state is reported exactly when the program has ended.",
  ["schedules", "programs"], "every partition of every execution",
  "Tests iterate with one fixed slice.",
  ["src/nkvm.c", "src/nkx.c"],
  [("nkiVmIterate loop", "src/nkvm.c")], ["native callback arguments", "nkxVmProgramHasEnded"])

p("C17", "Incremental compilation and REPL recovery are faithful",
  "Compiling a script in any split into top-level pieces, with or without running after each, is equivalent to compiling it as one; a line with a compile or run-time error reports it and, once cleared, leaves all earlier definitions and values intact: a line that does not compile (an unfinished block included) leaves no trace and the compiler back at the top level, a line that fails while running keeps only what it executed and the names it declared. Later lines work accordingly, for any number of lines and errors.",
  ["histories"], "all sequences of good, bad and incomplete lines",
  "The REPL has no tests at all.",
  ["src/nkcompil.c", "src/nkx.c"],
  [("partial finalize and error-state clearing", "src/nkcompil.c nkiCompilerPartiallyFinalize/ClearReplErrorState")])

p("C18", "Errors stop the program at once and are reported faithfully",
  "From the moment a script or native error is raised no further script statement takes effect, the error is counted once, and a program that raises none reports none. The error text has exactly the reported length, contains every message in order, and names the source file and the line of the statement at fault, honouring multiple scripts and file/line directives. Errors raised in functions, coroutines, native calls and host-initiated calls all surface to the host the same way.",
  ["programs", "histories"], "every error kind at every program position",
  "Tests check that a failing script fails, not that nothing ran afterwards nor where the error was reported.",
  ["src/nkerror.c", "src/nkvm.c", "src/nkcompil.c", "src/nktoken.c"],
  [("error list", "src/nkerror.c"), ("position markers", "src/nkcompil.c, src/nkvm.c")],
  ["nkxGetErrorCount/Length/Text", "native callback arguments"])

p("C19", "Any source text either compiles or is rejected with an error",
  "For every input text - any bytes, any token order, any nesting depth or length - compilation returns with either success and no errors or failure with at least one error (nesting beyond the compiler's fixed limit, and chains of operators or arguments longer than it, may be rejected), without memory errors, hangs, aborts or leaks. A program that failed to compile executes nothing. Well-formed programs are accepted and text outside the grammar is rejected.",
  ["inputs", "programs"], "all byte strings and token strings up to a length; all truncations and single-token edits of valid programs",
  "Tests contain a handful of malformed scripts.",
  ["src/nktoken.c", "src/nkcompil.c", "src/nkexpr.c", "src/nkfse.c"],
  [("tokenizer", "src/nktoken.c"), ("recursive-descent compiler with recursion limit", "src/nkcompil.c")],
  ["return value of compile", "error count", "sanitizers", "host allocator"])

p("C20", "Native calls receive exactly what the script passed and checks are exact",
  "A native function is entered once per call with exactly the argument values in order, its returned value becomes the call's value (0 if it sets none), and an error it raises stops the script. Declared parameter counts and types, including native object types, admit exactly the matching calls: every mismatch is reported as a script error without entering the function, and no matching call is refused. Script function calls with the wrong number of arguments are errors.",
  ["inputs", "programs"], "every declared signature against every argument tuple",
  "Tests register few signatures and call them mostly correctly.",
  ["src/nkfunc.c", "src/nkx.c", "src/nkopcode.c"],
  [("argument checks", "src/nkfunc.c nkiVmCallFunction/nkiFunctionCallback*, src/nkopcode.c nkiOpcode_call")])

p("C21", "Host-initiated calls are well nested and leave the VM as found",
  "A host may call any script or native function value at any time the VM is between instructions, also from inside a native call and recursively; it runs to completion and returns the function's value (yielding out of it is an error), and the interrupted program then continues as if the call had been an ordinary one. Wrong argument counts, non-callable values and errors inside the call are reported and do not corrupt the interrupted program's state.",
  ["histories", "schedules"], "every call point, depth and callee",
  "Tests call one function after the program ends.",
  ["src/nkfunc.c", "src/nkvm.c"],
  [("nested execution until return", "src/nkfunc.c nkiVmCallFunction")])

p("C22", "Strings and literals keep their exact content",
  "Every string literal denotes exactly the bytes written, with the escape sequences for newline, return, tab and quote decoded and adjacent literals joined; concatenation, storage, passing to and from native code, collection and saving preserve every string. Strings compare equal by content and equal strings, however made, are interchangeable as keys. Numeric literals denote exactly the written integer or its value as a double rounded to 32 bits. An integer converts to its decimal text and back unchanged, a float to fixed-point text with six decimals, and a string to the number its leading numeric part denotes.",
  ["inputs"], "every byte and escape in every position; every short numeric literal",
  "unicode.nks and a few literals are all that is tested.",
  ["src/nktoken.c", "src/nkstring.c", "src/nkdynstr.c", "src/nkvalue.c"],
  [("literal scanning", "src/nktoken.c"), ("interning", "src/nkstring.c")])

p("C23", "Native types and subsystems keep their registration and life-cycle contract",
  "Native types, functions and subsystems are retrievable by the name they were registered under; registering a function again yields the same id, registering a type name again is an error that leaves the first in place, and initialising a subsystem again replaces its data. Typed objects report exactly the type and data last set and are enumerated exactly once by type. Each subsystem is cleaned up exactly once when the VM is deleted, even after an error or allocation failure, its save callback is called once per save or restore in the matching mode, and what callbacks write is read back exactly.",
  ["histories", "fault_sequences"], "all registration/set/delete/save histories",
  "Only the test subsystem's single happy path is exercised.",
  ["src/nkx.c", "src/nkvm.c", "src/nksave.c", "src/nkobjs.c"],
  [("subsystem table", "src/nkx.c nkxInitSubsystem"), ("external types", "src/nkvm.c nkiVmRegisterExternalType")],
  ["callbacks", "nkxGetNextObjectOfExternalType"])

p("C24", "Global variables are one shared cell for host and script",
  "A global created by script or host is found by its exact name from the moment it is declared, through the compiler while compiling and through the VM afterwards; host writes are seen by the script and script writes by the host at once, for every type, and no two names share a cell however many globals exist. Names that do not exist, including locals and prefixes of other names, yield nothing and no error.",
  ["histories", "inputs"], "all declaration/read/write orders, all numbers of globals",
  "Tests look up one or two globals after the run.",
  ["src/nkcompil.c", "src/nkvm.c", "src/nkx.c"],
  [("static space and name table", "src/nkcompil.c nkiCompilerFinalize, src/nkvm.c nkiVmFindGlobalVariable")],
  ["nkxVmFindGlobalVariable"])

p("C25", "Method calls and callable objects bind their data correctly",
  "Calling obj.name(args) with the arrow form passes the object itself first and evaluates it once, the dot form passes only the arguments, and calling an object runs its executable field with its data field, if present, inserted first, through any permitted chain of callable objects and in any context including coroutines, native-function targets and functions called by the host. Missing or non-callable targets and too-long chains are script errors.",
  ["programs"], "every call form x target kind x argument count x context",
  "callobj and obcalls test a few shapes outside coroutines and host calls.",
  ["src/nkexpr.c", "src/nkopcode.c"],
  [("self-call preparation and callable object redirection", "src/nkopcode.c nkiOpcode_prepareSelfCall/nkiOpcode_call")])

p("C26", "A script cannot damage its host through the interpreter's own bookkeeping",
  "Whatever a script stores into the bookkeeping its calls keep within reach (own function, argument count, return address), in any call context including coroutines and calls from the host, the run ends, stops with a script error or meets its instruction limit. Afterwards the VM can still be inspected, collected, shrunk, saved, called and deleted; no memory outside it is touched, nothing leaks and native data is cleaned up exactly once.",
  ["inputs", "programs"], "every stored value (in particular every instruction index) x call context x continuation",
  "evil.nks and the fuzzer corpus hold a few samples; nothing enumerates the values.",
  ["src/nkopcode.c", "src/nkstack.c", "src/nkcorout.c", "src/nkvm.c", "src/nkfunc.c"],
  [("return", "src/nkopcode.c nkiOpcode_return"), ("underflow checks", "src/nkstack.c"), ("context switch checks", "src/nkcorout.c")])

p("C27", "The command-line interpreter runs files and interactive sessions faithfully",
  "Given one script file the interpreter prints exactly what the script prints, reports compile and run-time errors on standard error and exits with 0 only if there were none; without arguments it does the same line by line, keeping variables and functions and carrying on after errors until the end of input. Bad arguments and unreadable files are errors. Its natives print, stringGetASCII, stringGetLengthASCII and loadFile work for all arguments; files and lines of any length and content are accepted, and it neither leaks nor crashes, even when an allocation fails.",
  ["inputs", "histories", "fault_sequences"], "all sessions of a few lines, all sizes, all argument lists, all allocation failures",
  "No test runs interactive mode or looks at the natives' edge cases.",
  ["src/interp/main.c"],
  [("input loading", "src/interp/main.c loadScriptFromStream"), ("REPL loop", "src/interp/main.c main"), ("natives", "src/interp/main.c")],
  ["main"])

p("C28", "Looking at a VM never changes or harms it",
  "Every call that only inspects a VM - errors, limits, settings, memory figures, end of program, types and native data by id or name, globals, fields that are not added, handle counts, the state dump - may be made at any moment: between any two instructions, inside native calls, after errors, failed compilations, allocation failures or loading a damaged save. It never crashes, adds no error and changes no later output, value, error or save. Equal states dump equally: a restored VM's dump equals the original's.",
  ["schedules", "inputs", "fault_sequences"], "all instruction boundaries, all allocation failures, all damaged saves",
  "The dump is printed by the test driver but never compared, and queries are made only at the end.",
  ["src/nkdbg.c", "src/nkx.c", "src/nkvm.c", "src/nkobjs.c"],
  [("state dump", "src/nkdbg.c nkiDbgDumpState"), ("queries", "src/nkx.c")],
  ["nkxDbgDumpState", "nkxVmFindGlobalVariable", "nkxGetErrorText"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
