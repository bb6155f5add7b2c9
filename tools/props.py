import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Concurrent executions of one compiled engine never influence each other",
"After one successful compile (or load), any number of threads may execute the same single-expression engine, batch engine, expression or pipeline at the same time, each with its own execution context or with none, also from inside a function that a running program calls. Whatever the interleaving, every call returns exactly the value, the status and the error text, and produces exactly the stores, that the same call produces when run alone; the compiled program stays usable and unchanged afterwards.",
["schedules","programs","inputs"],
"for every program, every set of per-thread argument records and call variants, and every interleaving of the threads at basic-block, memory-access, allocator and (sampled) machine-instruction granularity",
"The existing suites contain no concurrent execution at all; every Execute is issued from the main thread. A hidden shared scratch buffer, a function-local cache or a mutable constant only shows under a particular preemption.",
["src/exec_engine.cc","src/batch_exec_engine.cc","src/execute_dispatch.h","src/arena.cc","src/function","src/codegen","athena/athena.h"],
[("Execute overloads use only the caller's or a stack ExecContext","src/exec_engine.cc"),("built-ins allocate only from the context arena","src/function/*.cc"),("constants are emitted as read-only globals","src/codegen/const_global_emit.cc")],
observe=["ExecEngine::Execute","BatchExecEngine::ExecuteAt/ExecuteAll","AthenaExpression::Execute","AthenaPipeline::Execute"])

p("C02","Reusing an execution context is unobservable and keeps memory bounded",
"Running any sequence of executions, of any programs and engines and whether or not they fail, through one reused execution context gives each call the same value, status, error text and stores as running it with a brand-new context. After every call the caller's context holds no errors and no live objects of that call (each object created in it is destroyed exactly once), and the memory it retains does not grow with the number of calls.",
["histories","programs","inputs","configurations"],
"for every history of calls over several engines, every mix of failing and succeeding executions, every context chunk size, and every content of recycled memory",
"Tests reuse a context at most a handful of times with one small expression and default chunk size; stale bytes in recycled chunks, a missed clear on one overload or an unbounded chunk list need long mixed histories.",
["include/exec_options.h","include/arena.h","src/arena.cc","src/exec_engine.cc","src/batch_exec_engine.cc"],
[("the ctx overloads clear the context after each call","src/exec_engine.cc, src/batch_exec_engine.cc"),("Arena::Reset runs finalizers and keeps one chunk","src/arena.cc")],
state=[("ExecContext.arena","per-execution memory","include/exec_options.h"),("ExecContext.errors","errors raised by this execution","include/exec_options.h")],
observe=["status/value of each call","ExecContext::errors","Arena::total_bytes"])

p("C03","Runtime failures are reported completely and only by the failing execution",
"An execution returns a non-OK status if and only if a function it actually ran reported an error, and the text contains exactly the errors raised by that execution, in the order raised; a built-in that needs lists of matching lengths reports every mismatch. No error leaks into another entry, another call, another thread or a later reuse of the context. Executing all entries of a batch runs every entry exactly once in index order even when some fail, reports exactly the failing entries' errors, and leaves the results of the non-failing entries correct.",
["fault_sequences","histories","schedules","programs"],
"for every choice of failing callbacks per execution and entry, every call variant, every interleaving with other executions and every earlier history of the context",
"Existing error tests inject one error into one call at a time; which subsets of callbacks fail, in which entry, under which interleaving, is a fault-sequence space.",
["include/exec_options.h","src/exec_engine.cc","src/batch_exec_engine.cc","src/function_registry.cc","src/codegen/function_codegen.cc"],
[("errors vector on the context, joined into a RuntimeError","include/exec_options.h"),("ExecuteAll accumulates per-entry statuses and continues","src/batch_exec_engine.cc")],
observe=["Status of Execute*/ExecuteAt/ExecuteAll","callback log kept by the harness"])

p("C04","An engine is always wholly its last successful program or cleanly empty",
"Through any history of compiles and loads, successful or failing for any reason, an engine executes either exactly the program of its most recent successful compile or load, in full, or reports an error status; it never crashes, never runs a mixture or a program whose replacement destroyed it, and never reports entry counts, return types, IR or saved bytes of a different program. A failed compile leaves the engine empty (a script that does not even parse may leave the previous program in full service), a rejected load never leaves it half-replaced, and a later valid compile or load always restores full service under the engine's own options.",
["histories","fault_sequences","configurations"],
"for every sequence of compile/load/execute/save/inspect operations on single and batch engines, with failures injected by invalid programs, unresolvable functions, damaged artifacts and failing memory mappings",
"Tests exercise at most one failing operation followed by nothing; the state left behind by each kind of failure and its interaction with the next operations is a history property.",
["src/exec_engine.cc","src/batch_exec_engine.cc","src/jit_core.cc","athena/athena.cc"],
[("Compile clears published state up front and publishes on success","src/exec_engine.cc"),("LoadCompiled validates the header before touching the engine","src/exec_engine.cc, src/batch_exec_engine.cc")],
state=[("entry function pointer(s) and return type(s)","what Execute will call","include/exec_engine.h, include/batch_exec_engine.h"),("JIT core","owner of the code memory","src/jit_core.h")],
observe=["Status of every API call","GetFunctionCount, GetReturnType, GetIRCode, SaveCompiled"])

p("C05","A saved program survives a process crash and restart unchanged",
"If saving a compiled program succeeded and its bytes reached stable storage intact, then after a crash and restart a fresh engine in a process where every user function, buffer and library object lives at different addresses loads those bytes and behaves identically to the original for every input: same values, errors, stores, entry count and return types. Nothing in the artifact depends on the memory of the process that wrote it, and saving does not disturb the engine.",
["crash_points","programs","inputs","configurations"],
"for every program (single and batch), both FP modes, every crash point after a durable save, any number of restarts, and every re-registration of user functions at new addresses",
"Save/load tests load in the same process, with the same function addresses and with the writer's memory still alive, so an embedded pointer or a reliance on live state is invisible to them.",
["src/exec_engine.cc","src/batch_exec_engine.cc","src/compiled_artifact.cc","src/jit_core.cc","src/function_registry.cc","src/codegen/const_global_emit.cc"],
[("user functions are external symbols resolved at load","src/function_registry.cc"),("constants are emitted into the object","src/codegen/const_global_emit.cc"),("object bytes captured by the transform layer","src/jit_core.cc")],
observe=["SaveCompiled","LoadCompiled","Execute* after reload"])

p("C06","Damaged, torn or foreign artifacts are refused cleanly",
"Loading an artifact that was truncated, torn, extended, duplicated, misdirected to the other engine kind, written by an incompatible host, or whose framing bytes were corrupted returns an error status: it never crashes, throws, hangs, allocates memory out of proportion to the input, or disturbs the program the engine was serving. Unknown optional extensions are skipped, and each host-compatibility check can be waived on its own without waiving any other check.",
["fault_sequences","crash_points","inputs"],
"for every truncation point, torn or lost sector, appended or duplicated data, corruption of header, length, count, extension and trailer bytes of a valid artifact, every waiver combination",
"Tests try a few hand-made corruptions; lengths and counts near the integer limits and arbitrary torn-write images are out of their reach.",
["src/compiled_artifact.cc","src/compiled_artifact.h","src/exec_engine.cc","src/batch_exec_engine.cc"],
[("bounds-checked reader, magic and trailer","src/compiled_artifact.cc"),("CheckHostCompatibility","src/compiled_artifact.cc")],
observe=["LoadCompiled status","later Execute on the same engine"])

p("C07","Arena memory is disjoint, aligned, destroyed once, and survives exhaustion",
"Every block handed out by an execution arena is aligned as requested, lies in memory the arena owns, and overlaps no other live block, and its contents stay untouched until the arena is reset or destroyed. Objects created in it are destroyed exactly once, newest first, at reset or destruction. When the system refuses memory the request yields null, no object is registered, and the arena stays fully usable, and all its memory is returned when it is destroyed. The byte counts it reports never exceed the memory it holds.",
["fault_sequences","histories","configurations"],
"for every sequence of allocate/create/reset/destroy with any sizes and alignments and any chunk size, and every subset of underlying allocations failing",
"Tests cannot make the allocator fail and check a few fixed sequences; overlap, alignment and once-only destruction are universally quantified over histories.",
["include/arena.h","src/arena.cc"],
[("bump allocation with padding","src/arena.cc"),("reverse finalizer walk","src/arena.cc"),("null on chunk allocation failure","src/arena.cc")],
state=[("chunks, avail pointer/bytes, finalizers","arena bookkeeping","include/arena.h")],
observe=["Arena::Allocate/Create/Reset","total_bytes/avail_bytes"])

p("C08","A batch behaves as its entries compiled and run separately",
"Compiling several programs into one batch engine is observationally the same as compiling each alone: entry i always returns the value, type, errors and stores of program i, entries never read or disturb one another's variables, constants or results, and executing all entries equals executing each in order (calls that only read may be evaluated once on behalf of several entries, and identical pipelines may share identical stores). This holds for any composition and order of entries, for any subset of failing entries, and for concurrent execution of different entries.",
["programs","schedules","fault_sequences","configurations"],
"for every multiset of programs packed into a batch, every argument record, every failing subset and every interleaving of entry executions",
"Tests pack a few similar expressions; sharing introduced by one-module compilation (symbols, constants, scopes, merged calls) depends on the composition.",
["src/batch_exec_engine.cc","src/jit_core.cc","src/codegen","src/validator.cc"],
[("one entry function per program in one module","src/jit_core.cc"),("fresh codegen context per entry","src/jit_core.cc")],
observe=["ExecuteAt","ExecuteAll","GetFunctionCount","GetReturnType"])

p("C09","Refused system memory makes compile or load fail cleanly, never half-work",
"If the operating system refuses to map or protect memory at any point while an engine is created, compiled, loaded or destroyed, the call returns an error status or succeeds with a fully working program; it never crashes, hangs, reports success with unusable code, or damages other engines. Once memory is available again the same engine compiles, loads and executes normally, and nothing stays mapped for a failed attempt (except what the JIT linker itself keeps after a refused protect or unmap request).",
["fault_sequences","histories"],
"for every position and run length of failing map/protect/unmap calls within engine creation, compile, load and re-compile, interleaved with executions of other engines",
"No test can make a mapping fail; the error paths of JIT creation, linking and lookup are never executed.",
["src/jit_core.cc","src/exec_engine.cc","src/batch_exec_engine.cc"],
[("every LLJIT Expected/Error is turned into a Status","src/jit_core.cc"),("Reset on entry of BuildAndLink/LoadObject","src/jit_core.cc")],
observe=["Status of Compile/LoadCompiled","mmap/mprotect/munmap seam"])

p("C10","Compiled code is self-contained and independent of memory layout",
"After a compile or load returns, the program keeps giving the same results when the expression tree, the source text, the function registry, the artifact bytes and the option object used to build it are destroyed and their memory is overwritten or reused. Compiling the same program again gives the same behaviour whatever the addresses the allocator returns and whatever bytes fresh or recycled memory contains.",
["configurations","histories","programs"],
"for every program and input, every allocator placement/reuse policy and every fill pattern of fresh and freed memory, every order of destroying the inputs of the compile",
"Tests keep all compile inputs alive on the stack while executing and run under one allocator layout; dangling views and reads of uninitialised memory then usually look right.",
["src/codegen/const_global_emit.cc","src/codegen","src/jit_core.cc","src/function_registry.cc","athena/ast_builder.cc","src/diagnostic.cc"],
[("constants copied into module globals","src/codegen/const_global_emit.cc"),("user functions resolved at link time","src/function_registry.cc"),("object bytes copied before link","src/jit_core.cc")],
observe=["Execute* after destroying inputs under a simulated heap"])

p("C11","Pipelines perform exactly the stores their statements describe",
"Executing a compiled set of pipelines performs, for each pipeline, exactly the stores its statements prescribe for the given input, each exactly once (repetitions of the identical store by a repeated identical pipeline may be performed once), in statement order and with the values a direct reading of the script gives, including assignments, constants and nested conditional blocks; grouping pipelines together never changes, drops, duplicates or reorders a pipeline's stores or lets it see another's variables. This holds when some functions fail, under concurrent executions, and for any number, order and sharing pattern of pipelines.",
["programs","schedules","fault_sequences","inputs"],
"for every set of pipeline scripts (any sharing of sub-expressions, any nesting of conditional blocks), every input, failing subset and interleaving, checked against a small reference interpreter",
"Tests cover a few fixed scripts and never compare against an independent reading of the script or run them concurrently or with failing functions.",
["athena/athena.cc","athena/pipeline_grouper.cc","athena/dsu.cc","athena/ast_builder.cc","src/codegen/if_block_codegen.cc","src/codegen/no_op_codegen.cc","src/scope_stack.h","src/function_registry.cc"],
[("union of pipelines sharing sub-expressions into isolated groups","athena/pipeline_grouper.cc"),("scopes merged by phi nodes","src/codegen/if_block_codegen.cc"),("store functions write only through their output argument","src/function_registry.cc")],
observe=["store-function call log"])

p("C12","Only the selected branch of a conditional is evaluated",
"A conditional expression, multi-way selection, conditional block or logical and/or evaluates its conditions left to right, stops at the deciding one, and runs exactly the selected alternative. A function call that fails in an alternative that is not selected contributes no error, no store and no context allocation, and a failing call in a selected one always does.",
["fault_sequences","programs","inputs"],
"for every nesting of conditionals, every truth assignment of the conditions and every set of callbacks armed to fail",
"Tests check the value of conditionals, not what the unselected side did; eager evaluation after optimisation is only visible when the unselected call fails or has effects.",
["src/codegen/if_codegen.cc","src/codegen/switch_codegen.cc","src/codegen/binary_op_codegen.cc","src/codegen/if_block_codegen.cc","src/function_registry.cc"],
[("control flow emitted as branches","src/codegen/*_codegen.cc"),("function attributes forbid speculation","src/function_registry.cc")],
observe=["callback log","Status","store log"])

p("C13","Engines and executions return every resource they take",
"Over any repeated lifecycle of registries, engines, contexts, compiles, loads, saves, executions and destructions, including failing ones, the process's live heap and its mapped code memory return to the level they had before the lifecycle. Nothing is freed twice or used after it was freed.",
["histories","fault_sequences"],
"for every lifecycle script repeated several times, with failing compiles, loads, callbacks and arena allocations mixed in",
"Tests never measure memory, and error paths are where ownership is lost.",
["src/jit_core.cc","src/exec_engine.cc","src/batch_exec_engine.cc","src/arena.cc","src/function/list_indexing.cc","athena/ast_builder.cc","athena/parser.yy"],
[("unique_ptr ownership throughout","include/*.h"),("arena finalizers for heap-owning objects","include/arena.h")],
observe=["simulated heap live bytes/blocks","mapped pages"])

p("C14","Separate engines work side by side without interference",
"Threads that each own their engine may create, compile, load, execute, save and destroy it while other threads do the same with theirs, sharing only an already filled function registry. Every such operation gives the same outcome as when it runs alone, and none blocks forever.",
["schedules","histories"],
"for every interleaving of engine lifecycles on several threads and every mix of compile, load, save, execute and destroy",
"No test uses more than one thread; process-wide state (one-time initialisation, target registration, static tables) is first touched in an order tests never vary.",
["src/jit_core.cc","src/function_registry.cc","src/exec_engine.cc","src/batch_exec_engine.cc","athena/ast_builder.cc","athena/token.ll"],
[("function-local static for one-time LLVM initialisation","src/jit_core.cc"),("registry lookups are read-only after registration","src/function_registry.cc"),("reentrant scanner and parser","athena/token.ll, athena/parser.yy")],
observe=["Status and results of every operation per thread"])

p("C15","Programs keep their functions; registries hold exactly what was registered",
"A registry answers lookups, compiles and loads with exactly the function registered last for that name and those parameter types, with the return type, kind and context convention it was registered with. A registration that is refused (a duplicate without permission to override, a null function) changes nothing, and registries never affect one another. A program stays bound to the functions that were registered when it was compiled or loaded: later registrations, overrides, other compiles and the registry's destruction never change what it calls, also while other threads execute it. Loading a saved program binds it by name to the functions of the registry given to that load and fails if one is missing there.",
["histories","programs","schedules"],
"for every history of registrations, overrides and refusals over any number of registries, interleaved with compiles, saves, loads, executions and destructions, and every schedule of threads executing meanwhile",
"No test overrides a function, changes a registry after a compile, uses two registries with different contents, or executes while one is being changed.",
["include/function_registry.h","src/function_registry.cc","src/codegen/function_codegen.cc","src/jit_core.cc","src/validator.cc"],
[("signature to function map","src/function_registry.cc"),("symbols of a compiled program are defined from the registry at compile and load","src/jit_core.cc, MappingToJIT"),("context convention","src/codegen/function_codegen.cc")],
observe=["Value returned by every call (it identifies the function)","GetFuncBySign","status of registrations, compiles and loads"])
# pure-input properties: listed, not claimed
p("C20","Operators follow the documented promotion and arithmetic rules",
"For every pair of operand types and every operand value, arithmetic, comparison, bitwise and logical operators give the result documented for the promoted type.",
["inputs"],"for every operator, operand types and values","Finite samples cannot cover the value space; this is a pure function of its input.",
["src/codegen/binary_op_codegen.cc","src/codegen/unary_op_codegen.cc","src/type.cc"],[("promotion table","src/type.cc")])
p("C21","Every built-in function returns its documented value",
"For every argument within its documented domain each built-in scalar, string, list, group and lookup function returns the value doc/function.md specifies.",
["inputs"],"for every built-in, signature and argument","Pure value semantics over unbounded inputs.",
["src/function","doc/function.md"],[("registered C functions and intrinsics","src/function/*.cc")])
p("C22","Invalid programs are rejected with a diagnostic, valid ones are accepted",
"Every script or tree that violates the grammar, scoping, constness, typing or signature rules is rejected by compile with an error status naming the offending place, and every conforming one compiles.",
["programs"],"for every source text or expression tree","The program space is unbounded; a pure function of the source.",
["src/validator.cc","athena/parser.yy","athena/token.ll","src/diagnostic.cc"],[("validator and grammar","src/validator.cc, athena/parser.yy")])
p("C23","Optimisation never changes a program's value",
"For every program the optimised machine code computes the value of the unoptimised program, with strict floating-point mode bit-exact to IEEE evaluation order.",
["programs","inputs","configurations"],"for every program, input and FP mode","Translation correctness over all programs; no schedule or fault is involved.",
["src/jit_core.cc","src/function_registry.cc"],[("O3 pipeline with commutative-call canonicalisation","src/jit_core.cc")])
p("C24","Memory refused to an execution is reported by that execution and nothing else",
"If the system refuses memory to an execution's arena at any request made while built-ins and generated code run, that execution returns an error status with a text, and no value computed from the missing memory is passed off as a result. It never crashes, hangs or writes outside its memory. The engine, the context and every other execution stay fully usable: the same call succeeds with the same result once memory is available, in the same context or a new one, and executions of other threads meanwhile are unaffected.",
["fault_sequences","programs","inputs","schedules"],
"for every program over the built-ins, every position and run length of refused arena requests, every chunk size, every history of the context and every interleaving with other executions",
"No test can make the arena's allocation fail, so the null checks behind every allocating built-in are never executed.",
["src/function","src/arena.cc","src/exec_engine.cc","src/batch_exec_engine.cc"],
[("Arena::Allocate returns null on refusal","src/arena.cc"),("built-ins report the refusal on the context","src/function/*.cc")],
observe=["Status and result of the refused execution","later executions"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
