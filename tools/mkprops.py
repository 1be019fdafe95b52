import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
C="pywasm/core.py"; A="pywasm/arith.py"; L="pywasm/leb128.py"; W="pywasm/wasi.py"; M="pywasm/__main__.py"
p("C01","Scalar integer instructions are exact modular arithmetic",
 "Every i32/i64 arithmetic, bitwise, shift, rotate, bit-count, comparison and sign-extension instruction returns, for every operand bit pattern, exactly the two's-complement result the WebAssembly specification defines. Division and remainder trap exactly when the divisor is zero or the signed quotient is unrepresentable, and never otherwise.",
 ["inputs"],"every operand pair in 2^32 x 2^32 and 2^64 x 2^64, for every scalar integer opcode",
 "the spec suite samples a few dozen hand-picked operand pairs per opcode; the quantifier is over all operands",
 [C,A],[("integer cases of the instruction interpreter",C+" Machine.evaluate (i32_*/i64_*)"),("integer helpers",A+" I, U")],observe=["results of invoking an exported function whose body is the instruction"])
p("C02","Scalar float instructions are bit-exact IEEE-754",
 "Every f32/f64 arithmetic, rounding, min/max, sign and comparison instruction returns the bit-exact IEEE-754 round-to-nearest-even result, including subnormals, overflow to infinity and the sign of zero. When the result is NaN it is one WebAssembly permits (quiet, canonical when all input NaNs are canonical), and abs, neg and copysign change only the sign bit, whatever the payload.",
 ["inputs"],"every operand bit pattern (NaN payloads, signed zeros, subnormals included) for every scalar float opcode",
 "the suite samples special values through assertions with NaN classes; results for arbitrary bit patterns, and combinations of payload and sign, are not enumerated",
 [C,A],[("float cases of the instruction interpreter",C+" Machine.evaluate (f32_*/f64_*)"),("float helpers",A+" F32, F64")])
p("C03","Numeric conversions round once and trap exactly when out of range",
 "Float-to-integer truncation returns the truncated value and traps exactly for NaN and out-of-range inputs; the saturating forms clamp instead and map NaN to zero. Integer-to-float, promote, demote, wrap, extend and reinterpret return the exact or correctly once-rounded result for every input bit pattern.",
 ["inputs"],"every 32/64-bit input pattern for every conversion opcode",
 "boundary rounding (double rounding, values one ulp around 2^31, 2^32, 2^63, 2^64) is sampled only at a few constants",
 [C,A],[("conversion cases",C+" Machine.evaluate (*_trunc_*, *_convert_*, *_extend*, *_reinterpret_*, *_promote, *_demote)")])
p("C04","Vector integer instructions act lane-wise and exactly",
 "Every v128 integer, bitwise, shuffle, swizzle, splat, extract/replace, narrow/widen, saturating, pairwise, dot-product, bitmask and any/all-true instruction computes each lane from exactly the specified input lanes with the specified width, signedness and saturation. No lane influences an unrelated lane.",
 ["inputs"],"every pair of 128-bit operands and every lane immediate, for every integer vector opcode",
 "the suite uses mostly uniform vectors, so lane mix-ups and per-lane edge combinations are not covered",
 [C,A],[("vector cases",C+" Machine.evaluate (v128_*, i8x16_*, i16x8_*, i32x4_*, i64x2_*)")])
p("C05","Vector float instructions equal the scalar operation on every lane",
 "Every f32x4/f64x2 arithmetic, rounding, min/max, pseudo-min/max, comparison and conversion instruction yields in each lane exactly what the corresponding IEEE-754 scalar operation yields for that lane's operands, including overflow, signed zeros and NaN rules. Pseudo-min/max, abs, neg, splat and lane moves preserve bit patterns exactly.",
 ["inputs"],"every pair of 128-bit operands for every float vector opcode",
 "vector float tests use a small list of constants, usually the same in all lanes",
 [C,A],[("vector float cases",C+" Machine.evaluate (f32x4_*, f64x2_*)")])
p("C06","Memory accesses are little-endian and bounds-checked without wrap-around",
 "A load or store of any width accesses exactly the bytes at base plus offset computed without 32-bit wrap-around, in little-endian order, with the specified extension, truncation or lane selection. It traps exactly when any accessed byte lies beyond the current size, in which case memory is unchanged.",
 ["inputs","histories"],"every load/store opcode (scalar and vector), base, offset, value and memory size, in any sequence of accesses and growths",
 "addresses near the bounds and offset overflow are sampled for a few widths only; a single wrong bound needs one specific address",
 [C],[("effective address and bounds",C+" Machine.evaluate_mem_load, Machine.evaluate_mem_save"),("load/store cases",C+" Machine.evaluate")],
 state=[("linear memory","byte contents and page count",C+" MemInst")])
p("C07","Memory growth is all-or-nothing, zero-filled and within limits",
 "Memory size is always a whole number of pages between the declared minimum and maximum; a successful grow returns the previous size, preserves every existing byte and appends zero pages, and a grow that would exceed the declared or implementation maximum returns -1 and changes nothing. The new size is seen immediately by every instance and host holder of that memory.",
 ["histories","configurations"],"every sequence of grow, size, load and store operations and every declared limit, including zero",
 "tests grow a handful of memories by fixed amounts",
 [C],[("growth",C+" MemInst.grow, Machine.evaluate memory_grow/memory_size")],state=[("size","current pages",C+" MemInst.size")])
p("C08","Bulk memory and data segments follow memmove and drop semantics",
 "Copy behaves as if the source were read in full before writing for every overlap, fill writes the low byte, and init copies from the segment as it is now; each traps, with no byte written, exactly when a source or destination range is out of bounds, including zero-length ranges beyond the end. A dropped segment, and an active segment after instantiation, behaves as empty.",
 ["inputs","histories"],"every (destination, source, length), overlap and drop history",
 "overlap directions and boundary lengths are sampled; histories mixing drops and inits of several segments are not explored",
 [C],[("bulk memory cases",C+" Machine.evaluate memory_copy/memory_fill/memory_init/data_drop")],state=[("data segments","remaining bytes per instance",C+" DataInst")])
p("C09","Tables and references behave as typed arrays of references",
 "Table get, set, size, grow, fill, copy, init and element drop act on exactly the addressed slots, copy is overlap-safe, and each traps with no slot changed exactly when a slot or range is out of bounds. References keep identity and nullness through locals, globals, tables and segments, and a grow beyond the limit returns -1 and changes nothing.",
 ["inputs","histories"],"every table operation sequence over several tables and both reference types",
 "tests exercise fixed tables with few slots and mostly one table",
 [C],[("table cases",C+" Machine.evaluate table_*/elem_drop/ref_*")],state=[("tables","slots holding references",C+" TableInst"),("element segments","remaining references",C+" ElemInst")])
p("C10","Structured control transfers to the right label with the right operands",
 "A branch of any kind continues at exactly the continuation of its target block, loop or function, carrying exactly the declared number of top operands in order and discarding everything the target block did not already have beneath it. Conditionals, switch tables with any index, multi-value block types and fallthrough yield the specified operand stack.",
 ["programs","inputs"],"every validly typed nesting of blocks, loops and conditionals, with branches from any depth and any operand height",
 "the suite has fixed small nests; surplus operands, deep targets and parameterised loops in combination are not enumerated",
 [C],[("branching",C+" Machine.evaluate_br, Machine.evaluate block/loop/if/br*")],state=[("operand, label and frame stacks","abstract machine stacks",C+" Stack, Label, Frame")])
p("C11","Calls isolate frames and pass arguments and results in order",
 "A direct or indirect call binds arguments in order to fresh locals (zeroed beyond the parameters), returns exactly the declared results, and leaves the caller's locals and remaining operands untouched, however the callee ends: falling off the end, returning, or branching to its outermost label. An indirect call runs exactly the function in the addressed slot and traps when the slot is out of bounds, null or of a different function type; unbounded recursion traps cleanly.",
 ["programs","histories"],"every call graph, recursion depth, signature and way of leaving a function",
 "tests check individual calls; leaked frames or stale locals only show under particular ways of leaving nested calls",
 [C],[("calls",C+" Machine.evaluate_call, Machine.evaluate call_indirect/return_call, Machine.invocate")],state=[("frames","locals and module of each active call",C+" Frame")])
p("C12","Globals hold the last value written and are initialised once",
 "Reading a global yields the value last written by any sharer (guest, other instance or host), or its initialiser evaluated once at instantiation, bit-exactly for every type. Writing one global never affects another variable.",
 ["histories","programs"],"every interleaving of reads and writes through guest code, importing instances and the host, for every value type",
 "tests use few globals and do not interleave sharers",
 [C],[("global cases",C+" Machine.evaluate global_get/global_set"),("initialisers",C+" Machine.instance")],state=[("globals","value and mutability",C+" GlobalInst")])
p("C13","Linking accepts exactly the matching imports",
 "Instantiation succeeds only if every import is supplied with an object of the same kind and a matching type: equal function signature, equal global type and mutability, equal element type, and size limits that satisfy the requested limits. Otherwise it is refused before any memory, table or global reachable by others changes and before any guest code runs.",
 ["configurations"],"every pair of (required import type, supplied object type and current size)",
 "only a few mismatches are tested; the matrix of kinds, types and limits is not",
 [C],[("import matching",C+" Machine.instance, MemInst.suit, TableInst.suit, Limits.suit"),("import lookup",C+" Runtime.instance")])
p("C14","Instantiation applies initialisers, segments and start in order",
 "Instantiation evaluates global initialisers, then copies active element and data segments in index order, then runs the start function, and the exports denote exactly the declared items. If a segment is out of bounds or start traps, instantiation fails, earlier segments' writes to shared memories and tables remain, and functions already placed in shared tables stay callable.",
 ["programs","configurations","fault_sequences"],"every combination of imports, segments (active, passive, declarative), offsets, start function and point of failure",
 "tests sample single failures; partial effects on shared state at each possible failing segment are not enumerated",
 [C],[("instantiation",C+" Machine.allocate, Machine.instance, Runtime.instance")])
p("C15","Instances are isolated except for what they explicitly share",
 "Instantiating any module any number of times, from one or several parses, yields instances with the same initial state; operations on one never change non-imported state of another. Imported or re-exported memories, tables, globals and functions are one shared object for all holders, and functions run against their defining instance's state.",
 ["histories","configurations"],"every history of instantiations, calls and segment drops over several instances",
 "every test instantiates a parsed module once",
 [C],[("allocation",C+" Machine.allocate, Store.allocate_*"),("instance state",C+" ModuleInst")],state=[("store","all memories, tables, globals, functions",C+" Store")])
p("C16","A trap aborts only the current invocation and leaves a usable runtime",
 "A trap stops the invocation at the trapping instruction and surfaces as an exception to the caller; all effects before it persist and none after it occur. The same runtime, and every instance in it, can then be invoked with exactly the results an undisturbed runtime in that state would give.",
 ["fault_sequences","histories"],"every kind of trap (guest, host exception, exhausted call depth, failed instantiation) at every call depth followed by any further invocations",
 "tests check that a trap is raised but hardly what follows it in the same runtime",
 [C],[("invocation entry",C+" Machine.invocate, Runtime.invocate, Machine.instance")],state=[("operand, label and frame stacks","must be restored after a trap",C+" Stack")])
p("C17","Host functions are called with exact arguments and may re-enter",
 "A host function is called exactly when the guest calls it, with the arguments in order as Python values, and its returned values become the call's results. It finds the calling instance and its memory through the machine, may read and write exported memory and globals and invoke guest functions of the same runtime (to any depth) without disturbing the suspended guest computation.",
 ["programs","histories"],"every signature, interleaving of host and guest calls, and depth of re-entry",
 "host functions in the tests are single print-like stubs that never re-enter",
 [C],[("host calls",C+" Machine.evaluate_call, FuncHost"),("invocation",C+" Runtime.invocate")])
p("C18","Values cross the embedding API unchanged",
 "An argument passed to, or result returned from, an invocation or host call keeps its value: integers in the signed range exactly, floats bit-exactly up to NaN payload, vectors byte for byte, references by identity with null as null. Wrong argument counts, names or export kinds are refused without running guest code, and argument lists are not modified.",
 ["inputs"],"every value of every value type, in every parameter and result position",
 "tests pass typical values of the numeric types only",
 [C],[("conversion",C+" ValInst.from_all, ValInst.into_all"),("entry point",C+" Runtime.invocate")])
p("C19","Decoding depends only on a module's abstract content",
 "Any two binary encodings of the same module, differing in integer padding, custom-section placement and count, local grouping or segment encoding form, decode to modules with the same behaviour, and every section, immediate and opcode of a well-formed binary is honoured. Decoding the same bytes twice gives the same module.",
 ["programs","inputs"],"every well-formed module and every permitted encoding variation of it",
 "test binaries all come from one encoder, which emits one canonical form",
 [C,L],[("decoder",C+" ModuleDesc.from_reader, Inst.from_reader, ElemDesc.from_reader, DataDesc.from_reader, FuncDesc")])
p("C20","LEB128 encoding and decoding are exact inverses",
 "For every integer, decoding its signed or unsigned encoding returns it and consumes exactly the encoding's bytes, the encoding is the shortest possible, and padded encodings decode to the same value from buffers and from streams alike. Bytes after the encoding are never consumed or interpreted.",
 ["inputs"],"every integer (negative ones for the signed form), every amount of padding and any trailing bytes",
 "tests only use the codec indirectly through canonical module binaries",
 [L],[("codec",L+" u, i")])
p("C21","Ill-formed binaries are refused",
 "Loading bytes with a wrong magic or version, an item cut short anywhere, an unknown opcode, section or type code, an immediate out of its range, sections out of order or repeated, counts that disagree, bytes left over in a section or body, or missing bytes at any truncation point inside a section raises an error. It never yields a module whose contents differ from what the bytes state.",
 ["inputs","fault_sequences"],"every truncation point and every corrupted structural byte of a well-formed module",
 "malformed binaries are outside the executed test set",
 [C,L],[("decoder",C+" ModuleDesc.from_reader, Inst.from_reader, ValType, Limits")])
p("C22","Diagnostics never change what decoding, linking and running do",
 "With the log level raised, every module is decoded or refused, instantiated and run exactly as without: the same results, traps, host calls and effects on memories, tables and globals. With the log level at zero, decoding and running print nothing.",
 ["programs","inputs","configurations"],"every module, well-formed or not, every embedder history and every log level",
 "only one example raises the log level, and nothing compares the outcome",
 [C,"pywasm/log.py"],[("diagnostics","pywasm/log.py debugln; "+C+" __repr__ methods, Machine.evaluate, ModuleDesc.from_reader, Machine.instance")])
p("C23","Runtimes in one process are independent",
 "Any number of runtimes, each with its own instances, host functions, imports and WASI environment, can be used in turns in one process - also one inside a host call of another, and with decoded modules shared between them - and each behaves exactly as if it were the only one: no memory, table, global, stack, import, descriptor or argument of one shows in another.",
 ["histories","schedules","configurations"],"every number of runtimes, every interleaving of their calls and every sharing of decoded modules",
 "every test makes one runtime, uses it and drops it",
 [C,W],[("separate state",C+" Runtime, Machine, Store, Stack, ModuleDesc, ModuleInst"),("separate environments",W+" Preview1.__init__, File")])
p("C24","A module description states exactly what the binary declares",
 "The description decoded from a well-formed binary, in whichever encoding, lists exactly and in order what the binary declares: every signature, every import with its module, name, kind and type, every function's signature, every table, memory and global type with its limits and mutability, every export with its name, kind and index, the start function, the type and length of every element segment and every data segment's bytes, all names character for character. Instantiating the description and running its instances does not change it.",
 ["inputs","histories"],"every module, name, limit and index, every integer padding and section layout, and every use of the description",
 "tests look at results of calls, never at a description",
 [C],[("descriptions",C+" ModuleDesc, FuncType, Import, ExportDesc, TableType, MemType, GlobalType, Limits, ElemDesc, DataDesc from_reader"),("instances made of a description",C+" Machine.instance, MemInst, TableInst, DataInst")])
p("C30","WASI path operations never leave the preopened directories",
 "Whatever path string, symbolic link, rename or sequence of calls a guest uses, every file it opens, reads, lists, creates, links, renames, stats or removes lies inside a directory the embedder preopened; a path that would leave it (or the directory of the descriptor it is relative to) fails with an error code and has no effect outside. Paths that stay inside keep working.",
 ["inputs","histories","configurations"],"every path (dots, absolute, sibling prefixes, links), preopen name and call history",
 "tests touch a few well-behaved paths under one preopen",
 [W],[("path check",W+" Preview1.help_escp"),("path calls",W+" Preview1.path_*")])
p("C31","WASI rights only shrink and are enforced",
 "A call on a descriptor succeeds only if the descriptor's rights permit it; opening yields at most the directory's inheriting rights; and changing rights can only remove them. A refused call has no effect on files, descriptors or guest memory outputs.",
 ["histories","inputs"],"every rights mask, and every history of opens, rights changes and calls",
 "rights are exercised by a couple of fixtures only",
 [W],[("rights checks",W+" Preview1.help_perm, fd_fdstat_set_rights, path_open")],state=[("descriptor rights","base and inheriting masks",W+" Preview1.File")])
p("C32","WASI descriptors are unique and dead after close",
 "Descriptors returned by opens and accepts are distinct from all open ones; closing or renumbering makes the old number fail with bad-descriptor until it is reused, renumbering atomically moves the source onto the target, and preopen queries succeed only for preopens. Operations on one descriptor never affect another's offset, flags or rights, and no host descriptor stays behind for one that is closed or replaced.",
 ["histories"],"every history of open, close, renumber, flag and seek calls",
 "tests open and close one or two descriptors",
 [W],[("descriptor table",W+" Preview1.fd, fd_close, fd_renumber, path_open, fd_prestat_get")],state=[("descriptor table","open files by number",W+" Preview1.fd")])
p("C33","WASI file I/O behaves as a byte array with an offset",
 "Reads, writes, positioned reads and writes, seek, tell, append mode, truncation, allocation and size queries act on the file as on a byte array with a per-descriptor offset: scatter/gather buffers are processed in order, the count reported equals the bytes moved, positioned calls leave the offset alone, and failed calls change neither offset nor contents.",
 ["histories","inputs"],"every sequence of I/O calls, buffer splits (including empty buffers), offsets and open flags",
 "tests perform one sequential write or read per file",
 [W],[("I/O calls",W+" Preview1.fd_read, fd_write, fd_pread, fd_pwrite, fd_seek, fd_tell, fd_filestat_set_size, fd_allocate")])
p("C34","WASI directory operations have tree semantics and report errors as codes",
 "Create, open, remove, rename, link, symlink, readlink, stat and time-setting calls transform the directory tree exactly as POSIX semantics prescribe and either succeed or return an error code with the tree unchanged. No guest-chosen path or state makes such a call abort the guest with an uncaught host exception.",
 ["histories","inputs"],"every sequence of tree operations over every combination of existing and missing, file, directory and link names",
 "tests cover the success path of a few operations",
 [W],[("path calls",W+" Preview1.path_create_directory, path_unlink_file, path_remove_directory, path_rename, path_link, path_symlink, path_readlink, path_filestat_get, path_filestat_set_times")])
p("C35","WASI directory listing enumerates every entry exactly once",
 "Reading a directory with successive cookies and any buffer size yields every entry that is there throughout exactly once, also while other entries are created, renamed or removed between the calls, with its correct name bytes, name length and file type; an entry that is gone is not listed, and a result shorter than the buffer signals the end. Nothing is written beyond the supplied buffer.",
 ["inputs","configurations"],"every directory content (links, dangling links, non-ASCII names), buffer size and cookie",
 "one fixture lists one directory with one buffer size",
 [W],[("listing",W+" Preview1.fd_readdir")])
p("C36","WASI arguments and environment are delivered byte-exactly",
 "The sizes reported for arguments and environment equal what the corresponding get call writes, every string is the NUL-terminated UTF-8 form of what the embedder supplied (bytes the system could not decode are delivered as they were), pointers point at the strings in order, and nothing else in memory changes.",
 ["configurations","inputs"],"every list of argument and environment strings, including empty and non-ASCII ones, and every buffer placement",
 "tests use short ASCII arguments",
 [W],[("marshalling",W+" Preview1.args_get, args_sizes_get, environ_get, environ_sizes_get")])
p("C37","WASI calls touch guest memory only where the guest asked",
 "A WASI call writes only to the output locations its arguments designate and never changes the size of guest memory; arguments that designate locations outside memory make it fail, by error code or trap, without changing memory beyond the in-range outputs. Invalid arguments (bad descriptor, clock, flag or whence) yield an error code instead of aborting.",
 ["inputs"],"every WASI function with every pointer, length, descriptor and enumeration argument",
 "tests pass only valid pointers and enumerators",
 [W,C],[("memory accessors",C+" MemInst.get*, MemInst.put*"),("calls",W+" Preview1.*")])
p("C38","WASI clocks and polling report exactly the due subscriptions",
 "Polling returns, for a non-empty subscription list, at least one event and only events of subscriptions that are ready or due, each carrying its own user data; relative and absolute timeouts are honoured and never negative. Clock queries accept exactly the defined clocks, and monotonic time never decreases.",
 ["inputs","histories"],"every list of clock and descriptor subscriptions, timeouts and flags",
 "tests poll a fixed pair of subscriptions",
 [W],[("poll",W+" Preview1.poll_oneoff"),("clocks",W+" Preview1.clock_time_get, clock_res_get")])
p("C39","Programs exit with their own status and standard streams",
 "A WASI program run by the library or the command line ends with the status it passes to exit (zero when it returns), everything after the exit call is not executed, and standard input, output and error are connected to the embedder's streams byte for byte, in order. Arguments, environment and directories given by the embedder are exactly those the guest sees; once the program has ended its descriptors are dead; and a program run while another waits for a host call leaves the other as it was.",
 ["programs","configurations"],"every exit code, exit depth, output sequence and command-line configuration",
 "tests run fixtures with status zero",
 [W,M],[("entry",W+" Preview1.main, proc_exit"),("CLI",M)])
p("C40","The command line runs the named export on exactly the given values",
 "Running the command line on a module without WASI instantiates it, calls the exported function named by --func (by default _start) with exactly the values written as text on the command line, and prints exactly the list of its results and nothing else. A trap, a missing function, a wrong number of arguments or an invalid module prints no result and ends with a non-zero status.",
 ["programs","inputs","configurations"],"every module, export name, argument text and result of every value type",
 "tests never start the command line without WASI",
 [M,C],[("CLI",M+" main_wasm"),("calls",C+" Runtime.invocate, Runtime.instance_from_file")])
p("C41","WASI sockets carry bytes and connections faithfully",
 "On a connected socket, receiving takes the bytes the other end sent (or one datagram) in order into the buffers in order, peeking leaves them, and waiting for all fills the buffers unless the stream ends; sending delivers exactly the given bytes once and reports their number. Shutting down and closing end the stream at the other side; accepting yields a fresh descriptor for the connection that waited longest, non-blocking exactly when asked. Errors are codes and transfer nothing.",
 ["histories","inputs"],"every history of receive, send, shutdown, accept and close calls on stream and datagram sockets, with every flag and buffer split",
 "no test touches a socket call",
 [W],[("socket calls",W+" Preview1.sock_recv, sock_send, sock_accept, sock_shutdown, poll_oneoff, fd_close")],state=[("sockets","descriptors over host sockets, with rights and flags",W+" Preview1.fd")])
json_lines="".join(json.dumps(x,ensure_ascii=True)+"\n" for x in P)
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w").write(json_lines)
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80
print(len(P))
