import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    P.append(d)

p("M01","Memory growth obeys the page model, also when the system refuses memory",
 "A request to grow a linear memory either returns the previous size in pages, leaves every old byte in place, and makes exactly the requested pages available zero-filled, or it returns -1 and changes neither size nor contents. It returns -1 when the result would exceed the memory's limit (for any 32-bit request, however large) or when the system cannot supply the memory; memory.size always reports the current size. Data written through loads and stores of every width is found again unchanged after any history of such growths.",
 ["histories","fault_sequences","inputs"],
 "every history of grow/size/load/store/fill/copy requests on bounded and unbounded memories, every request size, and every choice of which growth requests the allocator refuses or satisfies by moving the block",
 "The outcome depends on the history of earlier growths, on whether the allocator moved the block, and on which request it refused; a test sees one history with an allocator that never refuses.",
 ["pwart/extfunc.c","pwart/opgen_mem.c","pwart/modparser.c"],
 [("insn_memorygrow","pwart/extfunc.c"),("parse_memory_type and memory section allocation","pwart/modparser.c"),("opgen_GenMemoryGrow, opgen_GenCurrentMemory","pwart/opgen_mem.c")],
 [("pages/maximum/bytes/fixed","size, limit and storage of a linear memory","include/pwart.h struct pwart_wasm_memory")],
 ["pwart_get_export_memory","memory.grow and memory.size results","loads and stores"])

p("M02","Every holder of a memory keeps seeing the same memory across growth",
 "When a linear memory grows, and possibly moves, every function that uses it - the function that asked for the growth, its callers still in progress, functions of other modules that import the memory, and the host through the exported memory object or the inspection of a module's state - continues with the same contents and the new size. A value stored by one of them is what any other loads next, whichever path (direct, indirect, imported, host or tail call) the growth happened under.",
 ["histories","programs","fault_sequences"],
 "every call chain of functions of several modules and host functions sharing memories, with growth at any point of the chain and any placement of the moved block",
 "Generated code keeps the memory's address in a register; a stale copy shows only if the block really moves while a particular caller is suspended, which the real allocator rarely does in a test.",
 ["pwart/opgen_utils.c","pwart/opgen_mem.c","pwart/wagen.c","pwart/extfunc.c"],
 [("base reload after calls in pwart_EmitCallFunc2","pwart/opgen_utils.c"),("memory base setup in pwart_EmitFuncEnter","pwart/opgen_utils.c"),("opgen_GenBaseAddressReg","pwart/opgen_mem.c"),("choice of cached memory in pwart_PrepareFunc","pwart/wagen.c")],
 [("cached_midx / mem_base_local","which memory's base is kept in a register and where","pwart/def.h")],
 ["loads in suspended callers after callee growth","pwart_get_export_memory"])

p("L01","A module that cannot be loaded is rejected cleanly and completely",
 "Loading a module whose imports cannot be resolved, which does not begin as a WebAssembly version 1 module or uses a feature the compiler does not support, whose segments do not fit, or for whose memories, tables or code the system refuses memory, returns no module and an error message. The process, the namespace and all modules loaded before keep working exactly as if the load had never been tried, and the same load succeeds later once the cause is gone.",
 ["fault_sequences","histories","inputs"],
 "every point of a load at which a memory, table or code allocation can be refused or an import can be missing, at every position in a history of loads and calls",
 "Needs the allocator or the mapping of executable memory to fail at one particular call in the middle of a load, or an import to vanish, which ordinary tests never produce.",
 ["pwart/modparser.c","pwart/wagen.c","pwart/namespace.c","pwart/pwart.c","pwart/extfunc.c"],
 [("load_module error returns and free_module/free_runtimectx","pwart/modparser.c"),("pwart_load_module, pwart_namespace_define_wasm_module","pwart/pwart.c, pwart/namespace.c"),("pwart_EmitFunction","pwart/wagen.c")],
 [("compile_succeeded","whether the runtime context outlives the compiler","pwart/def.h")],
 ["return value and err_msg of the load functions","exports of previously loaded modules"])

p("L02","Loading, running and unloading return every resource exactly once",
 "After any history of loading modules (successfully or not), running them, growing their memories, and unloading them, deleting what remains returns all heap memory and all executable memory the engine took; nothing is released twice and nothing released is used again. Unloading or failing to load one module never disturbs the code, tables, globals or memory of another one that is still loaded.",
 ["histories","fault_sequences"],
 "every history of successful and failed loads, calls, growths, replacements and unloads over several modules, with allocation failures anywhere",
 "A leak, double release or stale reference needs a particular history (failed load after partial code generation, replacement, unload order) and does not change any result a unit test checks.",
 ["pwart/modparser.c","pwart/wagen.c","pwart/util.c","pwart/namespace.c","sljit/sljit_src/sljitLir.c","sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c"],
 [("free_runtimectx, free_module","pwart/modparser.c"),("dynarr/pool","pwart/util.c"),("pwart_namespace_delete/remove_module","pwart/namespace.c"),("sljit_free_code","sljit/sljit_src/sljitLir.c")],
 [],["heap blocks outstanding","executable mappings outstanding","bytes of live generated code"])

p("L03","Imports bind to the exporter's own object, and stay bound",
 "Each import of a module is bound at load time to the very function, table, memory or global of that kind that the named module exports under that name at that moment, so writes made through any importer, the exporter or the host are seen by all others. Later definitions, replacements under the same name or removals of other modules change what future imports find but never what an already loaded module is bound to.",
 ["histories","programs"],
 "every graph of modules importing and re-exporting functions, tables, memories and mutable globals from wasm and host modules, and every history of loads, replacements and interleaved writes through them",
 "Aliasing mistakes appear only with several modules, several objects of different kinds and same names, and interleaved writes; unit tests load one module at a time.",
 ["pwart/modparser.c","pwart/namespace.c","pwart/pwart.c","pwart/opgen_mem.c"],
 [("import section of load_module, get_export","pwart/modparser.c"),("namespace_SymbolResolve","pwart/namespace.c"),("pwart_get_export_*","pwart/pwart.c")],
 [("globals[].val.opw","address of the bound global","pwart/def.h"),("funcentries","bound function entries","pwart/def.h")],
 ["pwart_get_export_*","values read through each module"])

p("L04","Running code can load, look up and unload modules safely",
 "WebAssembly code that is running may load a module into its own namespace - the one its module was last defined in or given the resolver of, whoever compiled it - have the new module's start function run once, look up exported functions of any module by name and call them, and unload modules again, at any call depth and also when such a load fails. Each builtin reports success (null) or the error message, and the running code and its callers continue unharmed with their own locals, memory and module state.",
 ["histories","fault_sequences"],
 "every nesting and order of load, import, call and unload requests issued by running code, with loads that fail for any reason in between",
 "Failure of a nested load, re-entry of the compiler below running generated code and unload during execution need specific multi-step histories with faults.",
 ["pwart/extfunc.c","pwart/namespace.c","pwart/opgen_misc.c","pwart/pwart.c"],
 [("resolver of a module state in pwart_namespace_define_module, pwart_set_state_symbol_resolver","pwart/pwart.c"),("insn_load_module, insn_unload_module, insn_import","pwart/extfunc.c"),("pwart_CheckAndGenStubFunction","pwart/opgen_misc.c")],
 [],["result of the builtins","state of the calling module afterwards"])

p("N01","A namespace is a map from names to modules with paired notifications",
 "At every moment of any history of define, replace, remove, lookup and resolve operations, a namespace finds for each name exactly the module last defined under it and not removed since, resolves symbols only in such modules, and tells every host module exactly once when it is attached and exactly once when it is removed, replaced or the namespace is deleted. A removed name resolves to nothing and can be defined again, other names and other namespaces are unaffected, and the namespace's own meta module always gives the namespace itself.",
 ["histories"],
 "every history of define/replace/remove/find/resolve/delete over host and wasm modules in several namespaces, including operations made from inside attach and detach notifications and failed loads",
 "The registry is only wrong after particular orders (remove then redefine, replace by another kind, growth of the module list), which a few fixed examples do not reach.",
 ["pwart/namespace.c"],
 [("pwart_namespace_define_module/remove_module/find_module/delete","pwart/namespace.c"),("namespace_SymbolResolve","pwart/namespace.c")],
 [("mods","list of named modules","pwart/def.h Namespace")],
 ["pwart_namespace_find_module","resolver results","on_attached/on_detached calls"])

p("X01","Executions on different stacks do not disturb each other",
 "Any number of threads of control, each with its own runtime stack, can run functions of the same modules at the same time, suspended and resumed in any order inside host functions. Each computes the results, host-call arguments and private data it would compute alone, and state they share (memories, globals, tables) evolves exactly as in the corresponding sequential order of their host-call-delimited segments.",
 ["schedules","programs"],
 "every program in the supported structured subset, every number of simulated threads and every interleaving of them at host calls",
 "Depends on which execution is suspended at which call while another one runs the same code; a test runs one execution at a time.",
 ["pwart/opgen_utils.c","pwart/opgen_ctl.c","pwart/opgen_mem.c","pwart/wagen.c","pwart/pwart.c"],
 [("all mutable execution state on the runtime stack or in saved registers: pwart_EmitFuncEnter/EmitCallFunc2/EmitFuncReturn","pwart/opgen_utils.c"),("pwart_call_wasm_function, pwart_rstack_*","pwart/pwart.c")],
 [],["results and host-call arguments per thread","shared memory, globals and tables"])

p("X02","Calls nest and re-enter through host functions without losing values",
 "A call - direct, indirect through a table, imported from another module, to a host function that calls back into WebAssembly, or a tail call - delivers its arguments in order to the callee, returns all results to the caller, and leaves the caller's other operands, locals and control flow untouched, at every nesting depth and mix of value types. Tail calls run in bounded stack however long the chain, and locals not yet assigned read as zero in every activation. Code that can never run, such as what follows a branch or a return in its block, changes nothing.",
 ["programs","histories"],
 "every call graph in the supported structured subset, every mix of i32/i64/f32/f64/reference arguments, results and live operands, and every re-entry pattern chosen by the host",
 "Values are lost only for particular combinations of live operands, register pressure, argument layout and re-entry; unit tests try a few signatures without re-entry.",
 ["pwart/opgen_utils.c","pwart/opgen_ctl.c","pwart/wagen.c"],
 [("pwart_EmitCallFunc2, pwart_EmitFuncReturn, pwart_EmitFuncEnter","pwart/opgen_utils.c"),("opgen_GenCall, opgen_GenCallIndirect","pwart/opgen_ctl.c"),("local zero-initialisation analysis in pwart_PrepareFunc","pwart/wagen.c")],
 [],["results, host-call arguments, locals after calls"])

p("X03","A function table always holds what was last written to it",
 "Each slot of a table holds the function last put there by the module's element segments at load, by table.set, table.fill or table.copy in any module sharing the table, or by the host, and table.get and indirect calls through any of these modules use exactly that function. Declarative or passive element segments change no slot, and table.size and the inspection of a module's state report the table's size and slots.",
 ["histories","programs"],
 "every history of loads with element segments into own or imported tables and of table reads, writes, fills, copies and indirect calls by several modules and the host",
 "Needs several modules writing one table in different orders; the translation of compile-time to run-time references is only wrong for some of those histories.",
 ["pwart/modparser.c","pwart/opgen_mem.c","pwart/opgen_misc.c","pwart/opgen_ctl.c"],
 [("element section and entry fix-up in load_module","pwart/modparser.c"),("opgen_GenTableGet/Set/Copy/Fill, opgen_GenBaseAddressRegForTable","pwart/opgen_mem.c"),("opgen_GenCallIndirect","pwart/opgen_ctl.c")],
 [("table entries","run-time function references","include/pwart.h struct pwart_wasm_table")],
 ["pwart_get_export_table entries","result of indirect calls"])

p("T01","Modules can be compiled by several threads at once",
 "Threads that compile, run and free different modules with different compilers at the same time, under any interleaving, get the same modules, results and errors as if each had worked alone. This includes the first use of the builtin symbols and the shared allocator of executable memory.",
 ["schedules"],
 "every interleaving, at the granularity of single memory accesses, of threads that load, execute and free modules, starting from a process that has not used the engine yet",
 "Lazy initialisation and shared allocator state go wrong only if a thread is interrupted inside a window of a few instructions.",
 ["pwart/pwart.c","pwart/opgen_misc.c","pwart/modparser.c","sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c","sljit/sljit_src/sljitUtils.c"],
 [("pwart_get_builtin_symbols","pwart/pwart.c"),("allocator lock","sljit/sljit_src/sljitUtils.c")],
 [("builtin_symbols, pwart_InlineFuncList","process-wide builtin tables","pwart/pwart.c, pwart/def.h")],
 ["load results and function results per thread"])

p("T02","The executable-memory allocator is a correct concurrent allocator",
 "Under any interleaving of threads allocating, releasing and trimming executable memory, with the system refusing memory at any time, live blocks never overlap, are writable and executable over their whole requested size, keep their contents, and an allocation fails only if the system refused memory. Released memory is reused, adjoining released blocks merge, and when everything is released and trimmed all memory goes back to the system. The library's growable stacks keep everything between their start and end through any resizing, and fail only outside their limits or when memory is refused.",
 ["schedules","fault_sequences","histories"],
 "every interleaving at memory-access granularity of allocate/free/trim histories with any sizes, and every pattern of refused mappings",
 "Needs interruption inside the allocator, particular size histories for splitting and merging, and failing mmap, none of which tests control.",
 ["sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c","sljit/sljit_src/allocator_src/sljitExecAllocatorPosix.c","sljit/sljit_src/sljitUtils.c"],
 [("sljit_malloc_exec, sljit_free_exec, sljit_free_unused_memory_exec and the allocator lock","sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c")],
 [("free_blocks, total_size, allocated_size","free list and accounting","sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c")],
 ["addresses and contents of live blocks","mapped chunks"])

p("J01","Code generation survives memory exhaustion at any point",
 "If any allocation made while a function is built and generated with the low-level compiler library is refused, the library reports the out-of-memory or executable-memory error, all later emit calls are harmless, no code is produced, and freeing the compiler returns everything. Otherwise the generated function computes what the emitted instructions say.",
 ["fault_sequences","programs"],
 "every sequence of emitted instructions (arithmetic, memory, jumps, labels, calls, constants, jump tables) and every single or repeated allocation failure during creation, emission and generation",
 "Each allocation failure point is a separate path through emission; tests run with an allocator that never fails.",
 ["sljit/sljit_src/sljitLir.c","sljit/sljit_src/sljitNativeX86_common.c","sljit/sljit_src/sljitNativeX86_64.c"],
 [("ensure_buf/ensure_abuf, compiler->error, CHECK_ERROR, FAIL_IF","sljit/sljit_src/sljitLir.c"),("sljit_generate_code","sljit/sljit_src/sljitNativeX86_common.c")],
 [("compiler->error","sticky error state","sljit/sljit_src/sljitLir.h")],
 ["sljit_get_compiler_error","sljit_generate_code result","results of generated code"])

p("J02","A serialized compilation resumes after a restart as if uninterrupted",
 "A compilation in progress that was serialized at any point and restored later - also in a new process after the first one died - continues with the remaining instructions and produces code computing the same results as an uninterrupted compilation. A successful serialization changes nothing in the original compilation. A buffer that is not a complete serialization of this kind and version, or a restore or serialization refused memory, is reported as failure without leaking.",
 ["crash_points","programs","fault_sequences"],
 "every instruction sequence, every crash point between two emitted instructions, repeated crashes, and allocation failures during serialization and restore",
 "The state to be saved differs at every point of every program (pending jumps, labels, constants, open frames); tests check a few fixed points.",
 ["sljit/sljit_src/sljitSerialize.c"],
 [("sljit_serialize_compiler, sljit_deserialize_compiler","sljit/sljit_src/sljitSerialize.c")],
 [],["results of code generated after restore"])

p("R01","Regular-expression matching does not depend on how input arrives",
 "For every supported pattern and every input, the match found by the streaming matcher is the leftmost longest one (or the shortest, where non-greedy is requested, with the reported rule identifier), whichever way the input is cut into pieces, and whatever other matches over the same or other compiled patterns are in progress in between or were reset before. Matching several texts at the same time on one compiled pattern gives each its own result.",
 ["schedules","inputs"],
 "every pattern of the supported syntax, every text, every division of it into pieces and every interleaving of concurrent matches",
 "Results may depend on state carried across piece boundaries and between matches; tests feed whole strings to one match.",
 ["sljit/regex_src/regexJIT.c"],
 [("regex_continue_match, regex_get_result, regex_reset_match","sljit/regex_src/regexJIT.c"),("generated state-update code","sljit/regex_src/regexJIT.c compile functions")],
 [("struct regex_match current/next states, index, best_*","streaming state","sljit/regex_src/regexJIT.c")],
 ["regex_get_result","regex_is_match_finished"])

p("R02","Compiling a regular expression under memory exhaustion fails cleanly",
 "If any allocation made while compiling a pattern or starting a match is refused, the call returns nothing and reports a memory error, and every block and all executable memory taken so far is returned. Invalid patterns are reported as invalid with nothing leaked, other compiled patterns keep working, and the same call succeeds once memory is available.",
 ["fault_sequences","inputs"],
 "every pattern and every allocation failure point during compilation and match creation",
 "Every failure point is its own cleanup path, and tests run with an allocator that never fails.",
 ["sljit/regex_src/regexJIT.c"],
 [("stack_init/stack_push, regex_compile cleanup paths, regex_begin_match","sljit/regex_src/regexJIT.c")],
 [],["error code and NULL results","heap and executable memory outstanding"])

p("S01","Threads and locks offered to WebAssembly keep their contract",
 "Every thread started through the thread binding runs its entry function exactly once, with the given argument, on a runtime stack of its own that is released when it ends. Mutexes give mutual exclusion, trylock tells truthfully whether it got the lock, condition variables atomically release and regain the mutex and every signal sent to a waiting thread wakes one, so programs correct under these rules finish with the right results under every schedule; a refused thread start is reported to the caller and leaks nothing, and a mutex, condition or library for which memory is refused, or which libuv cannot set up, is reported as null or as an error and never used.",
 ["schedules","fault_sequences"],
 "every interleaving of the threads at every lock, condition and host operation and inside the binding, with thread creation, memory and the setting up of mutexes and conditions refused at any point and spurious wakeups",
 "Depends on the schedule and on failing thread creation; no test runs this binding at all.",
 ["pwart_syslib/libuv.c","pwart_syslib/util.c"],
 [("wasm__uv_thread_create, wasm__uv_wasmthreadentry, mutex and condition wrappers","pwart_syslib/libuv.c")],
 [("struct libuv_wasmthread","per-thread start block","pwart_syslib/libuv.c")],
 ["arguments seen by thread entry functions","counters protected by mutexes","heap after all threads ended"])

p("S02","File builtins transfer and report exactly what happened",
 "Reading, writing, opening and closing files through the builtins transfers exactly the items the C library transferred, to and from exactly the given addresses, and returns that count; open gives a usable file or null. The error number returned is the one of this operation when it failed and zero when it succeeded, under every sequence of operations and injected I/O errors.",
 ["fault_sequences","histories"],
 "every history of open/read/write/close over several files with short transfers, I/O errors, full disk and exhausted descriptors at any operation",
 "Errors, short transfers and left-over error state from an earlier operation need an I/O layer that fails on demand.",
 ["pwart/extfunc.c"],
 [("insn_fopen, insn_fread, insn_fwrite, insn_fclose, insn_stdio","pwart/extfunc.c")],
 [],["results of the builtins in WebAssembly","file contents"])

p("S03","WASI calls act on the program's current memory and report every outcome",
 "Each WASI call passes the program's arguments to the system interface in order and full width, reads and writes only the program's memory at the given addresses as it is at that moment (also after growth), gathers and scatters vectored I/O in order, and returns the system interface's error code unchanged. File contents, offsets and results are those of a reference file system under every history with short transfers, errors, full disk and clock jumps, and arguments and environment are delivered completely.",
 ["histories","fault_sequences"],
 "every history of WASI calls over several files with growth in between and every sequence of short transfers, error codes, disk-full conditions and clock changes",
 "Requires an I/O layer that fails, shortens and delays on demand and a memory that moves between calls; no test runs this binding at all.",
 ["pwart_syslib/libwasi.c"],
 [("the 46 wasm__* wrappers, pwart_wasi_module_init","pwart_syslib/libwasi.c")],
 [("uwmem","memory the calls act on","pwart_syslib/libwasi.c"),("uvwc","WASI state","pwart_syslib/libwasi.c")],
 ["memory contents and error codes seen by the program","reference file system"])

p("S04","Native callbacks and native calls from WebAssembly are repeatable and re-entrant",
 "A callback made for native code from a WebAssembly function can be invoked any number of times, also recursively and from several threads of control in any interleaving, until it is deleted; each invocation receives its own arguments and user data and delivers its own result. Native calls made from WebAssembly pass all arguments and the result intact, and deleting callbacks and call descriptions returns their memory.",
 ["schedules","histories"],
 "every signature over the supported types, every number and nesting of invocations and interleaving of them at host calls, and allocation failures",
 "A single invocation, as an example would make, cannot show what the second, nested or interleaved one does.",
 ["pwart_syslib/libffi.c"],
 [("wasmcb__c2wasm_adapter, wasmcb__ffi_closurecb, wasm__ffix_new_c_callback, wasm__ffix_del_c_callback, wasm__ffix_call","pwart_syslib/libffi.c")],
 [],["arguments and results of callbacks","heap after deletion"])

p("S05","System libraries can be attached and detached any number of times",
 "Attaching the system libraries makes each enabled library available in that namespace with all its functions, and detaching removes exactly those and returns their resources, in any order and number of repetitions over several namespaces and whether or not the WASI environment was initialised. Afterwards the namespace works on, finds none of the detached libraries, and can be deleted or attached again.",
 ["histories","fault_sequences"],
 "every history of attach, detach, WASI initialisation (succeeding or failing), module definition, use and deletion over several namespaces",
 "The stale references and missing-library paths show only after particular orders of operations; no test runs this code.",
 ["pwart_syslib/pwart_syslib.c","pwart_syslib/libwasi.c","pwart_syslib/libuv.c","pwart_syslib/libffi.c","pwart/namespace.c"],
 [("pwart_syslib_load, pwart_syslib_unload","pwart_syslib/pwart_syslib.c"),("pwart_*_module_new/delete","pwart_syslib/*.c"),("pwart_wasi_module_init","pwart_syslib/libwasi.c")],
 [("uvwcinited","whether the WASI environment exists","pwart_syslib/libwasi.c")],
 ["pwart_namespace_find_module","heap outstanding"])

p("S06","The command line runner executes a whole program or says why not",
 "pwart_wasiexec, given a program file and arguments, reads the whole file, runs the program's start function and then its exported `_start`, once each and in this order, with the path and the further arguments as the program's arguments and its exported memory as WASI memory, and ends with 0 or with the status the program exits with. If the file cannot be opened, measured or read completely, is too large or no valid program, uses WASI while WASI cannot be initialised, or memory is refused, nothing of the program runs, a message is printed and the status is not 0. A program that needs no WASI runs whether or not WASI can be initialised. WASI is initialised before the program runs, and if it cannot be the user is told.",
 ["fault_sequences","inputs"],
 "every program file, argument list and pattern of failing opens, seeks, reads, partial reads, refused memory and failing WASI initialisation",
 "The faults of the file system and the allocator are not in a test's hands, and no test runs this program.",
 ["pwart_syslib/wasiexec.c","pwart_syslib/libwasi.c","pwart_syslib/pwart_syslib.c","pwart/namespace.c"],
 [("main","pwart_syslib/wasiexec.c"),("pwart_wasi_module_set_wasiargs, pwart_wasi_module_set_wasimemory","pwart_syslib/libwasi.c")],
 [("wasiargc, wasiargv, uwmem","the program's arguments and memory","pwart_syslib/libwasi.c")],
 ["exit status, messages, C library calls, the program's output"])

# not applicable to this family
p("Z01","Every supported instruction computes the WebAssembly result",
 "Each numeric, conversion and comparison instruction yields, for every operand, the result the WebAssembly specification prescribes.",
 ["inputs"],"all operands of all numeric instructions",
 "There are 2^64 and more operand combinations per instruction.",
 ["pwart/opgen_num.c","pwart/extfunc.c"],[("opgen_GenNumOp and insn_* helpers","pwart/opgen_num.c, pwart/extfunc.c")])
p("Z02","Every valid module decodes to the module it encodes",
 "Decoding a valid binary module yields exactly the types, imports, functions, segments and exports it encodes, for every legal encoding.",
 ["inputs"],"all valid binary encodings",
 "The set of encodings is unbounded.",
 ["pwart/modparser.c","pwart/util.c"],[("load_module, read_LEB","pwart/modparser.c, pwart/util.c")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    try: jsonschema.validate(d,s)
    except Exception as e: print(d['id'],str(e)[:300])
    assert len(d['title'])<=80,d['id']
print(len(P))
