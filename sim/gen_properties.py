import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p('C01','Threads sharing one compiled grammar do not influence each other',
 'When several threads parse, match or scan through their own execution contexts over one shared compiled grammar database, each operation returns exactly the value, error state, match position and AST records it would have returned had it run alone. The same holds when other threads at the same time create and destroy their own contexts, query the shared database, or load and compile other grammars.',
 ['schedules','inputs'],'all interleavings of 2-4 threads at single memory-access granularity, all inputs, encodings and grammars',
 'The test programs are single threaded; none runs two contexts at once, so every existing test sees only the one serial schedule.',
 ['rpa/rpastat.c','rpa/rpavm.c','rpa/rpadbex.c','rvm/rvmcpu.c','rpa/rpacache.c'],
 [('one rpastat_t (cpu, stack, cache, input map) per thread; rpadbex_t read-only after compile','rpa/rpastat.h, rpa/rpastat.c:rpa_stat_create'),('shared byte code executed without modification','rvm/rvmcpu.c:rvm_cpu_exec')],
 [('rpadbex_s.executable','shared byte code','rpa/rpadbexpriv.h')],['rpa_stat_parse','rpa_stat_match','rpa_stat_scan','records array'])
p('C02','An abort request stops a running operation promptly and touches nothing else',
 'An abort requested from another thread while a parse, match or scan is running makes that call return within a bounded amount of further work, either with its ordinary result because it had already finished or negative with the user-abort error. Other contexts are unaffected, and the aborted context afterwards gives the same results as a fresh one.',
 ['schedules','inputs','histories'],'every instant of the operation (any memory access) at which the abort can land, single and repeated aborts, all operations, and every later use of the context',
 'No test ever calls abort from another thread; the window between positions of a scan and during set-up is unreachable by a single-threaded test.',
 ['rpa/rpastat.c','rvm/rvmcpu.c','rpa/rpavm.c'],
 [('cpu abort flag polled by the instruction loop','rvm/rvmcpu.c:rvm_cpu_exec, rvm_cpu_abort'),('error code USERABORT','rpa/rpastat.c:rpa_stat_abort')],
 [('rvmcpu_s.abort','stop request','rvm/rvmcpu.h')],['return value and rpa_stat_lasterror'])
p('C03','A reused execution context behaves like a fresh one',
 'Whatever an execution context was used for before - successes, mismatches, rule aborts, user aborts, exhausted stacks, other rules, encodings, inputs and input sizes - the next parse, match or scan on it gives exactly the result a freshly created context gives.',
 ['histories','inputs','fault_sequences'],'all histories of operations and interruptions on one context',
 'Tests create a context per case or repeat one operation; the product of histories and interruption points is not sampled.',
 ['rpa/rpastat.c','rpa/rpacache.c','rvm/rvmcpu.c'],
 [('per-operation re-initialisation','rpa/rpastat.c:rpa_stat_init'),('memo invalidation by serial','rpa/rpacache.c:rpa_cache_invalidate'),('cpu abort/error reset','rvm/rvmcpu.c:rvm_cpu_exec')],
 [('rpacache_s.serial','validity of memo entries','rpa/rpacache.h')],['rpa_stat_* results'])
p('C04','Losing memoised results or switching optimisations never changes a parse',
 'The memo cache is only an optimisation: if any subset of memoised sub-results is lost or never stored (up to disabling the cache altogether), every parse, match and scan still gives the same result and the same AST records. The same holds for the other optimisations, the first-character bitmaps and the merging of alternatives at compile time: with them on or off, the same inputs are accepted with the same records and the same aborts.',
 ['fault_sequences','inputs','programs','configurations'],'every pattern of lost or evicted memo entries and every setting of the optimisations, over all grammars and inputs',
 'Tests use the cache in its one natural configuration; eviction patterns depend on input length and rule numbering and are never varied.',
 ['rpa/rpacache.c','rpa/rpavm.c','rpa/rpacompiler.c','rpa/rpabitmap.c','rpa/rpaoptimization.c'],
 [('lookup/set around rule calls','rpa/rpavm.c:rpavm_swi_checkcache, rpavm_swi_setcache'),('key = (input position, rule id), serial','rpa/rpacache.c')],
 [('rpacachedentry_t','memoised result and records','rpa/rpacache.h')],['rpa_stat_parse records'])
p('C05','AST records always describe a well-formed tree inside the input',
 'After any parse the records appended to the caller\'s array form properly nested and matched start/end pairs; both records of a pair name the same rule and the same byte range, ranges lie inside the given buffer, children lie inside their parents and siblings are ordered, and records present before the call are untouched. Navigation (parent, child, sibling, size, copy) agrees with that nesting, and dumping records never crashes; a parse that fails or is interrupted leaves the earlier records untouched and adds no record reaching outside the input.',
 ['inputs','fault_sequences','histories'],'all grammars and inputs, interruption of the operation at any point, arrays already holding records',
 'Tests check record counts or a few fixed trees for fixed inputs, never under interruption or with pre-filled arrays.',
 ['rpa/rpavm.c','rpa/rparecord.c','rpa/rpastat.c','rpa/rpacache.c'],
 [('record emission and truncation on back-tracking','rpa/rpavm.c:rpavm_swi_emitstart/emitend/getcurrec/setcurrec'),('tree navigation','rpa/rparecord.c')],
 [('R_REC','current top of records','rpa/rpavm.h')],['records array'])
p('C06','Exhausting the execution stack is an error, never a crash or a wrong answer',
 'With any configured execution stack size and any nesting of the input, parse, match and scan either give the result they give with an ample stack or return negative with a non-zero error code; they never terminate the process, never write outside the stack, and leave the context usable.',
 ['configurations','inputs','fault_sequences'],'all stack sizes and nesting depths, so that exhaustion strikes at every push of the program',
 'Tests run with the default stack and shallow inputs; the exhaustion paths are never executed.',
 ['rvm/rvmcpu.c','rvm/rvmcpu.h','rpa/rpavm.c','rpa/rpastat.c'],
 [('stack size check before pushes','rvm/rvmcpu.h:RVM_STACK_CHECKSIZE, RVM_ABORT'),('error propagation','rpa/rpastat.c:rpa_stat_exec')],
 [('rvmcpu_s.stack, stacksize','execution stack','rvm/rvmcpu.h')],['return value, rpa_stat_lasterror'])
p('C07','Interrupted or malformed grammar loads are reported and leave no trace',
 'Loading a truncated, corrupted or conflicting grammar, and calling the database functions out of order, fails with a negative result and a matching error code, without crashing, as does executing an entry that is no rule (a directive); dumping the database or tracing a compilation neither crashes nor changes anything; after closing and reopening, or for any other database, a valid grammar then compiles and parses exactly as in a fresh database.',
 ['histories','fault_sequences','inputs'],'all truncation and corruption points of grammar text, all orders of create/open/load/close/compile/query calls',
 'Tests load known-good or a few known-bad grammars once; truncation at every byte and reuse after failure are not exercised.',
 ['rpa/rpadbex.c','rpa/rpaparser.c','rpa/rpacompiler.c'],
 [('state checks and error codes','rpa/rpadbex.c:rpa_dbex_open/load/close/compile'),('unresolved symbol detection','rpa/rpadbex.c:rpa_dbex_compile')],
 [('rpadbex_s.err, rules, recmap','database state','rpa/rpadbexpriv.h')],['return values, rpa_dbex_lasterror, later parses'])
p('C08','Spin locks exclude, atomics and reference counts are exact under threads',
 'At most one thread at a time holds a spin lock and every waiting thread eventually gets it; concurrent atomic updates lose nothing and return exact previous values; a reference-counted or garbage-collected object shared by threads is destroyed exactly once, when the last reference goes, and never before.',
 ['schedules'],'all interleavings of 2-4 threads at single memory-access granularity',
 'Existing tests for these primitives are single threaded or absent; real-thread stress cannot reach chosen interleavings.',
 ['rlib/rspinlock.c','rlib/ratomic.c','rlib/rref.c','rlib/robject.c','rlib/rgc.c','rlib/rstring.c','rlib/rarray.c'],
 [('compare-and-swap acquire','rlib/rspinlock.c'),('count manipulation under the reference\'s own lock','rlib/rref.c')],
 [('rref_s.count','owners','rlib/rref.h')],['critical section occupancy, destructor calls'])
p('C09','Allocation accounting is exact and nothing is leaked, also after failures',
 'The library\'s reported amount of allocated memory always equals what is really outstanding once its calls have returned, whatever the thread schedule, and returns to its starting value when every object has been destroyed - also when operations were aborted, ran out of stack, or grammar and expression loads failed half-way.',
 ['schedules','fault_sequences','histories'],'all interleavings of allocating threads and all interruption points of parses, loads and compilations',
 'Tests compare the counter once at exit of a single-threaded, fault-free program.',
 ['rlib/rmem.c','rpa/rpadbex.c','rpa/rpastat.c','rex/rexdb.c','rex/rexcompiler.c'],
 [('counters under a lock','rlib/rmem.c'),('destructors','*_destroy functions')],
 [('g_allocmem','bytes outstanding','rlib/rmem.c')],['r_debug_get_allocmem'])
p('C10','Shared automata give every thread, engine and chunking the same matches',
 'Threads searching through one shared compiled automaton, each with its own search context, find exactly the tokens and matches they would find alone; feeding the input in any chunking gives the state it gives in one piece; and the non-deterministic, the on-the-fly deterministic and the pre-built deterministic simulation of a set of expressions agree: each finds exactly the prefixes the expressions describe, under their own ids.',
 ['schedules','inputs','configurations'],'all interleavings at memory-access granularity, all chunkings, all inputs and expressions',
 'Tests run one simulator on whole short strings in one thread.',
 ['rex/rexdfasimulator.c','rex/rexnfasimulator.c','rex/rexregex.c','rex/rexdfaconv.c','rex/rexdfa.c'],
 [('simulation state kept in the caller\'s object','rex/rexdfasimulator.h, rex/rexregex.c'),('subset construction','rex/rexdb.c:rex_db_createdfa')],
 [('rexdfa_t','shared read-only tables','rex/rexdfatypes.h')],['rex_regex_scan/match/tokenize, dfa substates'])
p('C11','A rejected expression leaves the expression set as it was',
 'Adding a malformed or truncated regular expression to an expression set fails without crashing, and the automaton finally built accepts exactly the expressions whose addition succeeded, each reported under its own id, in the same way as if the failed attempts had never been made.',
 ['histories','inputs','fault_sequences'],'all sequences of valid, truncated and corrupted expressions added to one database',
 'Tests add only valid expressions, or one invalid one in isolation.',
 ['rex/rexcompiler.c','rex/rexdb.c','rex/rexfragment.c'],
 [('compiler error return','rex/rexcompiler.c:rex_compiler_addexpression')],
 [('rexdb_t states','NFA under construction','rex/rexdb.h')],['return value of add, later matches'])
p('C12','grep output depends only on the bytes of the files, not on how I/O delivers them',
 'rexgrep and rpagrep print the matches of their patterns in the given bytes (rpagrep as UTF-8 text, whatever the encoding of the input), the same whether they come from a file or from standard input in reads of any size, with interrupted or short reads in between; searching by lines finds in each line what it finds when the line is a file of its own. Files that cannot be opened, inspected or mapped, or that vanish or are empty, are skipped without crashing and without affecting the output for other files.',
 ['fault_sequences','inputs'],'all read fragmentations and all open/stat/map/read failure points, over all inputs and patterns',
 'The tools have no fault tests; the kernel in the test environment practically always returns full reads.',
 ['rexgrep/rexgrep.c','rexgrep/unix/rexgrepdep.c','rpagrep/rpagrep.c','rpagrep/unix/rpagrepdep.c'],
 [('whole-file mapping','*_map_file'),('stdin accumulation loop','*_buffer_loadfile'),('line splitting','rexgrep.c/rpagrep.c scan_lines')],
 [('buffer','input bytes','rexgrep/rexgrep.h, rpagrep/rpagrep.h')],['stdout, exit'])
p('C13','Recursive search visits every regular file once, even under directory faults',
 'A recursive search examines every regular file below the given path exactly once in every directory order and for every tree shape, path length and file type mix; a directory that cannot be opened or entries that vanish during the walk cost at most those entries, and the walk always terminates with nothing left open.',
 ['fault_sequences','inputs'],'all directory trees, enumeration orders and failure points of opendir/readdir/stat',
 'No test walks a directory at all.',
 ['rexgrep/unix/fsenum.c','rpagrep/unix/fsenum.c','rexgrep/rexgrep.c','rpagrep/rpagrep.c'],
 [('work list of directories','fsenum.c')],[('fsenum list','directories still to visit','fsenum.c')],['files reported to the callback'])
p('C14','A saved automaton is either complete and equivalent or reported as failed',
 'When a compiled automaton is saved and later used, the search finds exactly what the original patterns find. A write that fails, is short or hits a full disk at any point is reported as an error, and a file left truncated or corrupted in its size fields by an interrupted save is rejected when loaded, never searched with or crashed on.',
 ['crash_points','fault_sequences','inputs'],'every truncation length of the saved file, every failing write, all patterns',
 'No test saves or loads an automaton file.',
 ['rexgrep/rexgrep.c','rexgrep/rexgrep-main.c','rex/rexdfa.c'],
 [('write of header and tables','rexgrep.c save'),('mapping and use of the file','rexgrep.c load')],
 [('rexdfa header','table sizes','rex/rexdfatypes.h')],['exit status, matches'])
p('C15','The automaton generator never silently produces incomplete output',
 'Running rexcc on a token file either writes the complete output for it and succeeds, or reports failure with a non-zero exit; unreadable or truncated input, malformed token expressions and output writes that fail or fall short at any point are all failures, and none crashes it; dumping the states of the automaton (-D, -d, -N) does not crash either.',
 ['fault_sequences','crash_points','inputs'],'every failing open/read/write point and every truncation of the token file',
 'The build runs rexcc once on a good file with a healthy disk.',
 ['rexcc/rexcc.c','rexcc/rexccmain.c'],
 [('parse and output functions','rexcc/rexcc.c')],[('return status','success of the run','rexcc/rexccmain.c')],['exit status, output file'])
p('C16','JSON documents read from a stream are accepted completely or not at all',
 'Reading a JSON value from a stream gives the same value whatever the sizes in which the stream delivers its bytes; if the stream ends early or fails inside the value the read reports an error rather than yielding a partial value, and never crashes or hangs. What was written is read back equal, and escaped characters are read as the characters they name.',
 ['fault_sequences','crash_points','inputs'],'every truncation and failure point, every chunking, all values within the supported types',
 'Tests read complete in-memory documents.',
 ['rexjson/rexjson++.cpp','rexjson/rexjson++.h'],
 [('token automaton over stream characters','rexjson++.cpp:get_token'),('recursive readers throwing on mismatch','rexjson++.cpp:read*')],
 [('value','result tree','rexjson++.h')],['read()/write() results and exceptions'])
p('C17','The C JSON parser stays within its record buffer and reports overflow',
 'For every document, every truncation of it and every size of the caller\'s record array, the C JSON parser either fills in records that are in bounds and properly linked to the parsed text, or returns an error; it never writes beyond the array or reads beyond the text, and a parser object reused after an error behaves like a new one.',
 ['crash_points','inputs','configurations','histories'],'every record-buffer size and truncation point, all documents, reuse of the parser object after failures',
 'Tests parse complete documents with ample record arrays.',
 ['rexjson/rexjson.c','rexjson/rexjson.h'],
 [('record allocation check','rexjson.c'),('token automaton','rexjson.c:rexjson_get_token')],[('rexjson_t','parser object','rexjson/rexjson.h')],['return value, error, records'])
p('C18','Every RPC request gets exactly one well-formed reply whatever its handler does',
 'For every request text, handler exception and request order, the RPC server produces exactly one reply object carrying the request\'s id and either a result or an error, invokes the named handler at most once and only for a valid request naming it, and serves the following requests as if the failed ones had not occurred.',
 ['histories','fault_sequences','inputs'],'all request sequences with malformed, truncated or unknown requests and handlers failing by exception',
 'The RPC classes are only compiled, not run, by the build; there are no tests.',
 ['rexjsonrpc/rpcserver.h'],
 [('catch-all around call','rpcserver.h')],[('method map','registered handlers','rpcserver.h')],['returned reply value, handler invocation count'])
p('C19','JSON values and property trees survive failing allocations and throwing hooks',
 'If memory runs out or a property hook throws at any point while a JSON value or property tree is built, copied, assigned, moved or converted, the operation reports it by exception, every object involved stays valid and destructible with its old or its new content, and nothing is leaked or freed twice. An operation that reports success did all of what was asked, calling the hooks of each property once; a value its check hook refuses is not stored, and no property is read or written against its access mode.',
 ['fault_sequences','histories'],'every allocation of every operation sequence failing, and every hook call throwing',
 'Tests never inject an allocation failure.',
 ['rexjson/rexjson++.cpp','rexjson/rexjson++.h','rexjsonrpc/property.h','rexjsonrpc/property.cpp'],
 [('copy, assignment and destroy of the tagged union','rexjson++.cpp'),('property setters with hooks','rexjsonrpc/property.h')],[('value type tag and pointer','ownership','rexjson++.h')],['exceptions, values, outstanding allocations'])
# not applicable
def na(id,title,st,files,mech,why):
    p(id,title,st,['inputs','programs'],'all inputs',why,files,mech)
na('C20','Parsing implements the documented BNF/PEG semantics',
 'For every grammar and input, parse, match and scan consume exactly the prefix the documented ordered-choice semantics prescribes.',['rpa/rpacompiler.c','rpa/rpavm.c'],[('compilation to byte code','rpa/rpacompiler.c')],'Unit tests sample some grammars; the quantifier is over all grammars and inputs.')
na('C23','VM instructions compute the documented results',
 'Every virtual machine instruction gives the documented result for every operand combination.',['rvm/rvmcpu.c','rvm/rvmreg.c'],[('op handlers','rvm/rvmcpu.c')],'Unit tests sample operands.')
na('C24','Character decoding is total, bounded and exact',
 'Decoding of every byte sequence as UTF-8 or UTF-16LE is exact for well-formed text, never reads past the end and always advances.',['rlib/rutf.c','rlib/rcharconv.c'],[('decoders','rlib/rutf.c')],'Tests sample some sequences.')
na('C25','Containers behave like their abstract data types',
 'Arrays, hash maps, lists, buffers and strings behave like the corresponding mathematical objects for every sequence of operations.',['rlib/rarray.c','rlib/rhash.c','rlib/rharray.c','rlib/rmap.c','rlib/rlist.c','rlib/rcarray.c','rlib/rstring.c'],[('implementations','rlib/')],'Unit tests sample short sequences.')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    import re
    print(x['id'],len(re.split(r'\.\s',x['statement'])))
