import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/dredd/src/main.cc"; A="src/libdredd/src/mutate_ast_consumer.cc"; F="src/libdredd/src/new_mutate_frontend_action_factory.cc"
V="src/libdredd/src/mutate_visitor.cc"; E="src/libdredd/src/mutation_replace_expr.cc"; U="src/libdredd/src/mutation_replace_unary_operator.cc"; B="src/libdredd/src/mutation_replace_binary_operator.cc"; R="src/libdredd/src/mutation_remove_stmt.cc"; T="src/libdredd/src/mutation_tree_node.cc"; L="src/dredd/src/log_failed_files_diagnostic_consumer.cc"; UT="src/libdredd/src/util.cc"
p("C01","Source files are rewritten atomically at every crash point and fault",
 "At every instant of a dredd run - whatever I/O error, short or failed write, full disk, failed allocation or kill happens, and wherever it lands - each source file passed to dredd holds either exactly its original text or exactly its complete instrumented text, never a truncated or mixed version. No file other than the listed sources, the mutation info file and transient temporaries is created, changed or removed, and headers are never changed. A run that ends by returning (rather than being killed or running out of memory) leaves no temporary files behind.",
 ["crash_points","fault_sequences","inputs","configurations"],
 "every system call boundary of a run as a crash point; every sequence of injected errors on the calls that touch the user's files; generated source sets and options",
 "Tests only run dredd to completion on a healthy disk; none injects a write error, a full disk or a crash, so the state of the sources between the first and last system call is never looked at.",
 [A,M],[("write of the rewritten main file through a temporary and rename",A)],
 [("source files on disk","the user's only copy of the program","working tree of the user")],["the scratch directory after every mutating system call"])
p("C02","The exit status tells the truth about what was written",
 "dredd exits with status 0 if and only if every requested file was analysed and its instrumented text (when it has mutation opportunities) and the complete mutation info file (when one was requested) were written; otherwise it exits non-zero and says why on standard error, naming each requested file that was skipped. Interruptions a caller must simply retry (EINTR, short reads, short writes) are not failures: they change neither the status nor any output.",
 ["fault_sequences","crash_points","inputs","configurations"],
 "every sequence of injected open/read/write/rename/close errors, EINTR and short transfers on the user's files, in multi-file runs that mix good, uncompilable, missing, empty and duplicate files in any order",
 "Tests cover one missing file and two bad/good file mixes with no I/O error; nothing checks the status when an output cannot be written, nor every order of good and bad files.",
 [M,A,L,F],[("return code of the tool run, check of the info stream, list of failed files",M),("clearing of diagnostics per file",F)],None,["exit status, stderr, sources and info file of each simulated run"])
p("C03","A file that cannot be processed is as if it had not been listed",
 "When processing of one listed file fails (it does not compile, cannot be read, or its new text cannot be written), the failing file keeps its original text and is not described in the mutation info file, and every other file's instrumented text, its mutant ids and the info file are identical to those of a run in which the failing file was not listed. The info file, whenever the run returns, is one complete valid JSON document describing exactly the files that were instrumented, or is reported as not written.",
 ["fault_sequences","inputs","histories"],
 "every subset and order of failing files, every cause and position of failure, including failures at the write stage after analysis succeeded",
 "The existing bespoke tests use two fixed files with a compile error and look only at one expected message and output; write-stage failures and id sequences after a failure are never examined.",
 [M,A,F,L],[("skip on error, info recorded only for instrumented files, id counter unaffected by a failed file",A)],
 [("mutation id counter","next global id, shared by all files of a run",M),("mutation info","per-file record accumulated over the run",M)],["sources and info file versus a reference run without the failing files"])
p("C04","Mutant ids are unique, contiguous and mean one mutant in one file",
 "Over a whole run the ids in the mutation info file are exactly 0..N-1, each used once, and each file owns one contiguous block in the order files are processed. The same ids select the same mutants at run time: enabling id k activates code in the file that owns k and in no other, and tracking reports k only for that file.",
 ["histories","inputs","configurations","fault_sequences"],
 "every list and order of files (including files without mutation opportunities, failing files and repeated files), every option combination, followed by executions of the linked program",
 "Single-file tests always start at id 0 and compare text; the multi-file id offset used by the code generator and by the run-time library is checked by no test.",
 [M,A,R,E,U,B],[("global id counter threaded through all files; per-file initial id subtracted in generated code",A)],
 [("mutation id counter","next global id",M)],["mutation info file; behaviour of linked instrumented programs"])
p("C05","Output depends only on the inputs and options",
 "Instrumented sources, mutation info file, diagnostics and exit status are a function of the input files and command line alone: they do not vary with memory layout, allocator behaviour, contents of fresh memory, process id, clock, random numbers, temporary file names, file timestamps or previous runs. (The debugging option that prints AST node addresses is excluded.)",
 ["schedules","configurations","inputs","histories"],
 "every address-space layout, allocator reuse policy, fill pattern, clock, pid and entropy value under which the same command can run",
 "A test runs each input once in one environment; a dependency on pointer order or uninitialised memory shows up only under another layout.",
 [A,V,T,M],[("declarations sorted before insertion; ordered traversal",A)],None,["outputs of repeated runs under different simulated environments"])
p("C06","Each file is instrumented exactly once, independent of the others",
 "However often and by whatever spelling of its path a file is listed (command line repeats, repeats in the compilation database, ./ and ../ forms), it is instrumented exactly once per run (and never, however often it is listed, if its processing fails). Its instrumented text is the same, up to the offset of its id block, as if it had been processed alone, whatever files came before it in the list.",
 ["histories","inputs","configurations"],
 "every sequence of file names with repeats and aliases, and every history of previously processed files in the same process",
 "Tests process one file per run or two fixed files; no test lists a file twice or compares a file's output after different histories.",
 [F,A,M],[("set of processed files",F),("fresh consumer and rewriter per file",A)],
 [("processed files","files already seen in this run",F)],["sources and info file versus single-file reference runs"])
p("C07","With no mutant enabled the instrumented program behaves as the original",
 "A program instrumented by dredd still builds, and when no mutant is enabled every execution of it produces the same observable history (outputs, side effects and their order, exceptions, results of failing operations, exit status, termination) as the original program under the same thread schedule and the same sequence of environment faults. This holds for every selection set that names only ids not owned by the program. (Outside the guarantee: programs that change the selection or tracking variable while they run, whose result the language leaves unspecified - such as operand order -, or that inspect their own source positions.)",
 ["schedules","fault_sequences","programs","inputs"],
 "every program in the supported C and C++ subset, every thread interleaving and every sequence of failing calls the program meets",
 "The unit tests compare generated text with stored text and the examples run a few fixed single-threaded inputs; equivalence under interleavings and failing calls is never executed.",
 [E,U,B,R,V,A],[("generated wrapper functions return the original operation when nothing is enabled; short-circuit operators via closures",E)],
 [("some_mutation_enabled and enabled bitset","thread-local enabledness cache in generated code",A)],["history of original versus instrumented program in lockstep schedules"])
p("C08","Exactly the selected mutants are active, in every thread",
 "For every set of ids given in the selection variable, every thread of every instrumented file behaves, from its first instruction to its last, as the program in which precisely those mutants (as described in the mutation info file) have been applied, and no others. This does not depend on which thread or file first consults the selection, on interleaving, on the number of ids or of mutants, or on ids that belong to other programs. (The exclusions of C07 apply.)",
 ["schedules","programs","configurations","histories"],
 "every generated program, every set and order of ids including higher-order sets, every interleaving of thread start-up and first use",
 "Tests inspect generated text; the few executed examples enable single mutants in one thread, so mutant meaning, higher-order selection, id blocks beyond the first and first-use races are not exercised.",
 [A,E,U,B,R],[("parsing of the selection variable into a thread-local bitset; per-mutant conditional in wrapper functions",A)],
 [("enabled bitset","per-thread, per-file set of active mutants",A)],["history of instrumented program versus reference program edited according to the info file"])
p("C09","Coverage tracking never disturbs the program",
 "A program instrumented in tracking mode behaves exactly as the original under the same schedule and environment faults, whether or not the tracking file variable is set, and also when the tracking file cannot be opened or written at any point (missing directory, permission, descriptor limit, full disk, interrupted call). A failing tracking file costs records, never the program: no crash, no changed result, no descriptor leak, and bounded extra work. The tracking file is never held open while the program's own code runs, and nothing is ever written anywhere else.",
 ["schedules","fault_sequences","programs"],
 "every program, interleaving and sequence of faults on the tracking file's system calls",
 "The single tracking test runs one C program once with a writable file and looks at the ids written.",
 [A,R,E,U,B],[("record function in the tracking prelude",A)],
 [("already_recorded flags","which mutants were reported in this process",A)],["history of tracking build versus original; open descriptors; tracking file"])
p("C10","The tracking file lists exactly the mutants that were reached",
 "Without faults, at the end of a run the tracking file holds, one decimal id per line, exactly the ids of the mutants whose code the execution reached, each at most once per process, appended to whatever the file held before. Concurrent threads, files of one program, and several processes sharing the file never lose, duplicate, split or merge lines; and after a crash at any point the file contains only whole reached ids and every mutant whose first reach had completed.",
 ["schedules","crash_points","fault_sequences","programs","histories"],
 "every program, interleaving of threads and processes, crash point and pre-existing file content",
 "The one tracking test is single-threaded, single-process and C only, and never crashes.",
 [A,R,E,U,B],[("atomic once-flag per mutant and append-mode open, write, close per record",A)],
 [("already_recorded flags","which mutants were reported in this process",A),("tracking file","append-only record of reached ids","user")],["tracking file after every write and at the end versus the reached set computed by an independent reference instrumentation"])
p("C11","A killed mutant is a covered mutant; both modes describe the same mutants",
 "Mutating and tracking runs over the same sources and options assign the same ids to the same mutants and write the same mutation info file. Under the same schedule and faults, a mutant can change the observable behaviour of the program only if the tracking build reports it as reached on that execution.",
 ["schedules","programs","fault_sequences","configurations"],
 "every program, mutant, interleaving and fault sequence",
 "No test runs both modes on the same input, let alone relates them under different schedules.",
 [A,R,E,U,B,V],[("one traversal and numbering shared by both modes",A)],None,["mutation info of both modes; tracking file versus divergence of each single-mutant run"])
p("C12","Instrumentation adds no data race, shared state or interference",
 "Instrumented code, in both modes, introduces no data race and no interaction between threads, or with library state the program itself uses, that the original program does not have: a race-free program stays race-free under every interleaving, and selection or tracking in one thread never alters what another thread or the program's own calls observe. Threads make progress independently: instrumentation takes no lock and never waits for another thread.",
 ["schedules","programs"],
 "every interleaving of memory accesses and library calls of instrumented threads, including thread start-up, first use in each file, and exit",
 "The threaded example is run under the OS scheduler a handful of times with no race detection.",
 [A],[("thread-local selection state; atomic once-flags",A)],None,["happens-before analysis of every access in simulated executions; library-state monitor"])
p("C13","Reported mutant locations and actions describe the code that was mutated",
 "query_mutant_info.py renders, for every id in a mutation info file, the text at the recorded source range and the replacement that the instrumented program applies when that id is enabled.",
 ["inputs","programs"],
 "every source file and every id",
 "Tests compare a handful of stored listings.",
 ["scripts/query_mutant_info.py",UT],[("source range and snippet recorded with each mutant",UT)])
p("C14","Redundancy optimisations only drop mutants, never change their meaning",
 "The set of mutants generated with optimisations enabled is a subset of those generated with optimisations disabled, up to renumbering, and every dropped mutant is equivalent to the original or to a retained mutant.",
 ["programs","inputs"],
 "every program",
 "Tests compare stored output for fixed programs in both modes.",
 [E,U,B],[("redundancy predicates per operator and operand",B)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
