import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)
CORE='pywasm/core.py'; AR='pywasm/arith.py'; LEB='pywasm/leb128.py'; W='pywasm/wasi.py'; OPC='pywasm/opcode.py'
EV=('Machine.evaluate','pywasm/core.py')
p('C01','Scalar integer instructions compute the WebAssembly result',
 'Executing any i32/i64 constant, arithmetic, bitwise, shift, rotate, count, comparison, extension or wrap instruction on any operands replaces exactly its operands by the value the WebAssembly specification defines (two\'s complement, shift counts modulo width, division truncating toward zero). Division or remainder by zero and signed-division overflow trap, and nothing else does.',
 ['inputs'],'all 2^32 / 2^64 operand values (pairs), on top of an arbitrary stack','The example programs and the two main runs execute a few dozen operand pairs; corner cases (quotients >= 2^63, INT_MIN, counts >= width) are never sampled.',
 [CORE,AR,OPC],[EV,('I/U fixed-width arithmetic','pywasm/arith.py'),('ValInst from_/into_','pywasm/core.py')],['value stack after one instruction','trap raised'])
p('C02','SIMD integer instructions act lane-wise as specified',
 'Executing any v128 bitwise or i8x16/i16x8/i32x4/i64x2 instruction (lane arithmetic, saturation, comparison, shifts, widening, narrowing, extended multiply, dot product, shuffle/swizzle, splat, lane access, reductions) on any vectors yields, for every lane, the value the WebAssembly SIMD specification defines. No such instruction traps.',
 ['inputs'],'all 2^128 (pairs/triples of) vector operands and every legal lane immediate','Only blake2b_simd exercises a handful of the ~200 vector instructions; lane-specific or saturating corner cases are not sampled.',
 [CORE,AR,OPC],[EV,('ValInst lane views','pywasm/core.py'),('I/U sat/fit','pywasm/arith.py')],['value stack after one instruction'])
p('C03','Floating-point arithmetic follows IEEE-754 as WebAssembly requires',
 'Executing any f32/f64 (and f32x4/f64x2) arithmetic, min/max, rounding, square-root, sign or comparison instruction on any operands yields the correctly rounded IEEE-754 result WebAssembly defines, including signed zeros, infinities and the permitted NaN patterns; sign-bit operations change only the sign bit. None of these instructions traps.',
 ['inputs'],'all bit patterns of the operands, NaN payloads and signed zeros included','Examples use a few ordinary values (pi); the spec-suite comparator uses == and isclose, so it cannot see signed zeros, NaN bits or last-bit errors.',
 [CORE,AR],[EV,('F32/F64 helpers','pywasm/arith.py')],['value stack after one instruction'])
p('C04','Numeric conversions, truncations and reinterpretations are exact',
 'Every float-to-integer truncation returns the mathematically truncated value when representable and otherwise traps (or saturates, for the _sat forms); every integer-to-float, promote and demote conversion is correctly rounded once; every reinterpretation and float constant preserves all bits.',
 ['inputs'],'all bit patterns of the source operand','No stable test converts at the range limits or at double-rounding points.',
 [CORE,AR],[EV],['value stack after one instruction','trap raised'])
p('C05','Loads and stores are bounds-checked, little-endian and touch nothing else',
 'Every scalar, vector, lane, splat and extending load or store at effective address base+offset (unsigned, no wrap-around) transfers exactly its width of little-endian bytes, with the specified extension, when the range lies inside the memory; otherwise it traps with the memory unchanged. A store changes no byte outside its range.',
 ['inputs','histories'],'every memory size and content, base, offset and stored value','A test touches a few addresses; wrap-around, boundary and frame behaviour quantify over every address and every other byte.',
 [CORE],[('Machine.evaluate_mem_load/evaluate_mem_save','pywasm/core.py'),EV],['memory bytes','value stack','trap raised'])
p('C06','Bulk memory operations and memory.grow preserve the memory contract',
 'memory.copy/fill/init behave as one bounds-checked step (overlap-safe for copy; nothing written on a trap; a dropped data segment behaves as empty), memory.size reports the current size in pages, and memory.grow either returns the old size and appends zero pages with the old content intact, or returns -1 and changes nothing; it succeeds whenever the new size is within the declared maximum and the implementation\'s cap (1024 pages). The size never exceeds the declared maximum and always matches the number of bytes.',
 ['inputs','histories'],'every memory size/content, every operand triple, every reachable memory state','Quantifies over all lengths, overlaps and sizes; tests use none of the bulk operations at their limits.',
 [CORE],[('MemInst.grow','pywasm/core.py'),EV],['memory bytes and size','value stack','trap raised'],[('MemInst.size/data','pages and bytes, len(data)==size*65536')])
p('C07','Table and reference instructions respect bounds, types and segment state',
 'table.get/set/size/grow/fill/copy/init, elem.drop and the ref instructions read and write exactly the addressed elements, trap on any out-of-range access without changing a table, grow whenever the result is within the declared maximum and the implementation cap (1024 elements), else answer -1 with no change, and treat dropped element segments as empty; ref.is_null and ref.func report the reference actually held.',
 ['inputs','histories'],'every table size/content, every index, count and reference','Tests exercise at most one small table with in-range indices.',
 [CORE],[('TableInst.grow','pywasm/core.py'),EV],['table elements and size','value stack','trap raised'])
p('C08','Locals, globals and parametric instructions move values unchanged',
 'local.get/set/tee and global.get/set read or replace exactly the indexed variable with the value bit-for-bit, immutable globals are never changed, drop removes one value and select returns its first or second operand according to the condition; all other variables and stack entries stay as they were.',
 ['inputs','programs'],'every variable count, index, value and stack content','Frame conditions ("nothing else changes") quantify over all other variables and stack slots.',
 [CORE],[EV],['locals','globals','value stack'])
p('C09','Structured control flow transfers control and values as specified',
 'block, loop, if, br, br_if, br_table and falling off the end of a block continue execution at the instruction the specification designates, with exactly the label\'s arity of operands kept on top of the stack height recorded at block entry and everything above it discarded; a function-level branch behaves like return.',
 ['programs','inputs'],'every nesting of labels, arity, operand stack and branch depth/index','Tests run a few fixed programs; the rule must hold for every nesting, arity and stack height.',
 [CORE],[('Machine.evaluate_br','pywasm/core.py'),('Machine.evaluate_bype','pywasm/core.py'),EV],['next instruction executed','value stack'],[('Label','arity, stack height and continuation of each open block')])
p('C10','Calls and returns pass arguments and results and isolate frames',
 'call and call_indirect start the designated function with its arguments as first locals and zero-initialised declared locals, and on return (fall-through, return or branch) leave the caller\'s stack with exactly the results and the caller\'s frame intact; call_indirect traps on an out-of-range index, null element or signature mismatch; call depth is bounded by a trap. Host functions receive the converted arguments and their results are converted back.',
 ['programs','inputs','histories'],'every signature, stack content, table content and index','The examples call with one or two fixed signatures; mismatch and exhaustion paths are not run.',
 [CORE],[('Machine.evaluate_call','pywasm/core.py'),EV],['value stack','locals seen by the callee','trap raised'])
p('C11','LEB128 encode and decode are mutually inverse and exact',
 'Decoding the LEB128 encoding of any integer of WebAssembly width yields that integer and consumes exactly the encoding; decoding any well-formed (also padded) encoding yields the value its 7-bit groups denote, signed or unsigned, leaving the rest of the input unread.',
 ['inputs'],'all integers of up to 64 bits and all encodings of up to 10 bytes','Unit vectors sample a handful of encodings.',
 [LEB],[('u.encode/decode/decode_reader','pywasm/leb128.py'),('i.encode/decode/decode_reader','pywasm/leb128.py')],['returned value','bytes consumed'])
p('C12','Instruction decoding yields the opcode and immediates encoded in the bytes',
 'Parsing an instruction from the binary format consumes exactly that instruction\'s bytes and yields its opcode with every immediate in encoding order and value; nested bodies of block, loop and if are split at the matching end and else; unknown opcodes, misplaced reserved bytes and over-large alignment or lane immediates are rejected.',
 ['inputs','programs'],'every opcode of the instruction set and every immediate encoding','The example binaries contain a small subset of the opcodes and immediates.',
 [CORE,OPC,LEB],[('Inst.from_reader','pywasm/core.py'),('opcode numbering','pywasm/opcode.py')],['decoded instruction','bytes consumed'])
p('C13','Module decoding reproduces every section of a well-formed binary',
 'Decoding a well-formed module yields its types, imports, functions with their locals and bodies, tables, memories, globals, exports, start function, element and data segments exactly as encoded and in order, with custom sections ignored wherever they appear; a wrong magic, version or truncated section is rejected.',
 ['inputs','programs'],'every well-formed binary: any section mix, vector length and field value','Only about ten fixed binaries are ever decoded.',
 [CORE],[('ModuleDesc.from_reader','pywasm/core.py'),('*Desc/Type.from_reader','pywasm/core.py')],['decoded module description'])
p('C14','Imports are linked only when their types match',
 'Instantiation accepts a supplied import only if its kind and type match the declaration: equal function signature, equal table element type with limits at least as tight, memory limits at least as tight (current size and maximum), equal global type and mutability. Any mismatch makes instantiation fail before the new module can run.',
 ['inputs','configurations'],'every import description against every external value','Tests link only matching imports.',
 [CORE],[('Machine.instance','pywasm/core.py'),('Limits.suit','pywasm/core.py')],['instantiation succeeds or fails'])
p('C15','Instantiation builds the module instance the description prescribes',
 'A successful instantiation places imports before definitions in every index space, initialises globals, element and data segments from their constant expressions, copies active segments to their offsets with bounds checks and then drops them, drops declarative segments, resolves every export to the right entity, runs the start function last, and can be repeated from the same description with the same result.',
 ['programs','configurations','histories'],'every module description and import vector','Tests instantiate a few fixed modules once each.',
 [CORE],[('Machine.instance','pywasm/core.py'),('Machine.allocate','pywasm/core.py'),('Store.allocate_*','pywasm/core.py')],['store contents','module instance index spaces','exports'])
p('C16','Values cross the host boundary without loss',
 'For every value type, passing a host value into a call and reading results back preserves it exactly: i32/i64 as signed integers, floats bit-exactly for f64 and to nearest f32, v128 as its 16 bytes, and references by identity; values outside the type\'s range or calls with the wrong number of arguments are rejected rather than altered.',
 ['inputs'],'every value of every value type','Examples pass a few small integers.',
 [CORE],[('ValInst.from_all/into_all','pywasm/core.py'),('Runtime.invocate','pywasm/core.py')],['host arguments and results'])
p('C18','WASI calls touch guest memory only within bounds',
 'Whatever pointers and lengths a guest passes, a WASI call reads and writes only bytes inside the guest\'s memory, never changes the memory\'s size, and fails (error number or trap) when a buffer does not fit. A directory listing, link target, directory name or random bytes never spill beyond the buffer given for them.',
 ['inputs','histories'],'every pointer/length argument and memory size','Tests pass valid pointers only; out-of-range and negative-looking pointers are never tried.',
 [W,CORE],[('MemInst.get*/put*','pywasm/core.py'),('Preview1.*','pywasm/wasi.py')],['guest memory length and content','call outcome'])
p('C19','WASI calls act only on open descriptors holding the required right',
 'Every WASI file, path and socket call on a descriptor that is not open fails with BADF, and on an open descriptor without the call\'s required right fails with an error, in both cases before any host operation happens and without changing guest memory or the descriptor table.',
 ['inputs','histories'],'every descriptor number, table state and rights mask','Tests use open descriptors with full rights; the gate has to hold for every right of every call.',
 [W],[('help_badf/help_perm','pywasm/wasi.py'),('Preview1.fd_*/path_*/sock_*','pywasm/wasi.py')],['errno returned','host calls issued'])
p('C20','WASI path calls stay inside the granted directory',
 'A path argument that lexically leaves the directory its descriptor denotes (absolute, or climbing above it with ..) is refused before any host operation; an accepted path is handed to the host relative to that same directory descriptor, unmodified.',
 ['inputs','configurations'],'every path string and every preopen mapping','Tests try at most a couple of path strings under one preopen.',
 [W],[('help_escp','pywasm/wasi.py'),('Preview1.path_*','pywasm/wasi.py')],['host calls issued and their path/dir_fd arguments','errno'])
p('C21','WASI rights only ever shrink',
 'Setting a descriptor\'s rights can only remove rights, never add any; a descriptor opened through a directory never holds rights beyond that directory\'s inheriting rights; renumbering moves rights along with the file they belong to; other calls leave the rights of every descriptor unchanged.',
 ['inputs','histories'],'every rights mask and every sequence of calls','Quantifies over masks and call sequences; tests do one or two calls.',
 [W],[('fd_fdstat_set_rights','pywasm/wasi.py'),('path_open','pywasm/wasi.py')],['rights reported for each descriptor'])
p('C22','WASI argument and environment vectors are laid out consistently',
 'args_get and environ_get write, for any strings, NUL-terminated UTF-8 entries back to back with correct pointers, and the sizes reported by args_sizes_get and environ_sizes_get are exactly the number of entries and bytes written; nothing else in memory changes.',
 ['inputs','configurations'],'every list of argument/environment strings and every buffer address','Tests pass ASCII only and a fixed count.',
 [W],[('args_get/args_sizes_get/environ_get/environ_sizes_get','pywasm/wasi.py')],['guest memory after the call'])
p('C23','WASI vectored I/O moves exactly the reported bytes',
 'Vectored reads place the host\'s bytes into the guest buffers in order and report their number; vectored writes hand the host exactly the concatenation of the guest buffers and report what the host accepted; zero-length buffers do not end a transfer and no other guest byte changes.',
 ['inputs','fault_sequences'],'every iovec list, buffer content and short/empty host transfer','Tests use one or two non-empty buffers with complete transfers.',
 [W],[('fd_read/fd_pread/fd_write/fd_pwrite/sock_recv/sock_send','pywasm/wasi.py')],['guest memory','bytes passed to the host','size reported'])
p('C24','WASI descriptor lifecycle keeps the table consistent',
 'Closing a descriptor makes it unusable and closes its host descriptor at most once; renumbering moves the source onto the target and closes the source number; opening returns a fresh number that designates the newly opened file; no other descriptor is affected.',
 ['histories','inputs'],'every table state and every pair of descriptors (including equal ones)','Quantifies over descriptor tables and call histories.',
 [W],[('fd_close/fd_renumber/path_open','pywasm/wasi.py')],['descriptor usability','host closes issued'])
p('C25','WASI stat, seek, clock and time records have the documented layout and values',
 'fdstat, filestat, prestat, seek/tell, clock, random and poll results are written at their documented offsets with the host\'s values, time-setting flags select the given or current time as documented, invalid flag combinations are refused before any host operation, readlink and readdir report the number of bytes written, and every call is offered to the guest under its documented name and signature.',
 ['inputs'],'every host result value, flag combination and buffer address','Tests look at a few fields of one file.',
 [W],[('fd_fdstat_get/fd_filestat_get/path_filestat_get/fd_seek/clock_time_get/poll_oneoff','pywasm/wasi.py')],['guest memory after the call','host calls issued'])
p('C17','A trap or error leaves the runtime usable and consistent',
 'After an invocation or instantiation fails with a trap, the evaluation stacks are restored so a later invocation on the same runtime runs as on a fresh stack; a successful invocation leaves no residue and returns exactly the declared results.',
 ['histories','fault_sequences'],'every failing or succeeding call followed by any later call','Tests clear the stacks by hand after each trap, so recovery itself is never tested.',
 [CORE],[('Machine.invocate','pywasm/core.py'),('Runtime.invocate','pywasm/core.py')],['evaluation stacks after the call','result of the next call'])
P.sort(key=lambda d:d['id'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
